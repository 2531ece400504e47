package main

import (
	"fmt"
	"net/http"
	"net/url"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
)

func init() { register(&Scenario{ID: "P21", Body: p21}) }

var (
	prIDsMany    = probe("more than a thousand ids generated in one run")
	prIDsRestart = probe("ids of a process compared with those of an earlier one")
	prIDsConc    = probe("several goroutines generated ids at the same time")
)

// idBook records every id generated in a run and what it is for.
type idBook struct {
	ids  map[int64]string
	nGen int
}

func (b *idBook) add(id int64, what string) {
	if id < 0 {
		fail("negative-id", "the id %d of %s is negative", id, what)
	}
	if other, ok := b.ids[id]; ok {
		fail("duplicate-id", "%s and %s both have the id %d", other, what, id)
	}
	b.ids[id] = what
	b.nGen++
}

func p21() {
	// start-up: the package initialises with the randomness it is given
	switch plan(6) {
	case 1:
		simrt.Fault(FRandDegenerate)
		simrt.RandMode = simrt.RandZero
	case 2:
		simrt.Fault(FRandDegenerate)
		simrt.RandMode = simrt.RandMax
	case 3:
		simrt.Fault(FRandDegenerate)
		simrt.RandMode = simrt.RandAlt
	case 4:
		simrt.Fault(FRandFail)
		simrt.CryptoOK = false
	}
	if !simrt.CryptoOK || simrt.RandMode != simrt.RandNormal {
		resetPackages()
	}
	b := &idBook{ids: map[int64]string{}}
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	shared := sc.FuncNamed("shared")
	b.add(shared.Id(), "func shared")
	root := context.Background()
	rexit := shared.Task(&root)
	b.add(monkit.SpanFromCtx(root).Id(), "the root span")
	b.add(monkit.SpanFromCtx(root).Trace().Id(), "the root trace")
	handler := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		s := monkit.SpanFromCtx(req.Context())
		b.add(s.Id(), "a handler's span")
		b.add(s.Trace().Id(), "a handler's trace")
	}), sc)
	hf := map[int64]bool{}
	bulk := []int{0, 0, 300, 2000}[plan(4)]
	var g group
	nw := between(1, 5)
	if nw > 1 {
		hit(prIDsConc)
	}
	for w := 0; w < nw; w++ {
		w := w
		var ops []int
		for k := between(1, 8); k > 0; k-- {
			ops = append(ops, plan(7))
		}
		g.Go("ids", func() {
			for i, o := range ops {
				what := fmt.Sprintf("%d.%d", w, i)
				switch o {
				case 0:
					b.add(monkit.NewId(), "new id "+what)
				case 1:
					ctx := context.Background()
					exit := shared.Task(&ctx)
					s := monkit.SpanFromCtx(ctx)
					b.add(s.Id(), "root span "+what)
					b.add(s.Trace().Id(), "trace "+what)
					exit(nil)
				case 2:
					ctx := root
					exit := shared.Task(&ctx)
					b.add(monkit.SpanFromCtx(ctx).Id(), "child span "+what)
					exit(nil)
				case 3:
					ctx := root
					exit := shared.ResetTrace(&ctx)
					s := monkit.SpanFromCtx(ctx)
					b.add(s.Id(), "span of a reset trace "+what)
					b.add(s.Trace().Id(), "reset trace "+what)
					exit(nil)
				case 4:
					ctx := root
					t := monkit.NewTrace(monkit.NewId())
					b.add(t.Id(), "own trace "+what)
					exit := shared.RemoteTrace(&ctx, 5, t)
					b.add(monkit.SpanFromCtx(ctx).Id(), "span of own trace "+what)
					exit(nil)
				case 5:
					f := sc.FuncNamed("f" + what)
					b.add(f.Id(), "func "+what)
				case 6:
					handler.ServeHTTP(&response{header: http.Header{}}, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}})
				}
				for k := 0; k < bulk/len(ops)/nw; k++ {
					b.add(monkit.NewId(), fmt.Sprintf("new id %s.%d", what, k))
				}
			}
		})
	}
	g.Wait()
	rexit(nil)
	if simrt.RandMode == simrt.RandNormal && plan(3) > 0 {
		// the same program, started again some time later
		nap(int64(between(1, 1000)) * 1e9)
		resetPackages()
		hit(prIDsRestart)
		for k := between(1, 200); k > 0; k-- {
			id := monkit.NewId()
			if first, ok := b.ids[id]; ok {
				fail("duplicate-id", "%s of one process and an id of the next are both %d", first, id)
			}
		}
	}
	r.Funcs(func(f *monkit.Func) {
		if hf[f.Id()] {
			fail("duplicate-id", "two functions have the id %d", f.Id())
		}
		hf[f.Id()] = true
	})
	if b.nGen > 1000 {
		hit(prIDsMany)
	}
}
