package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"html"
	"io"
	"math"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func init() { register(&Scenario{ID: "P14", Body: p14}) }

var (
	prQueryMatched = probe("query answered with a matching span")
	prQueryFailed  = probe("query failed because of its client")
	prQueryPings   = probe("query waited through several keep-alives")
	prQueryRemote  = probe("remote query answered")
	prQueryRefused = probe("malformed or hopeless query refused")
	prQueryNested  = probe("sampling callback made a monitored call")
	prQueryLate    = probe("a function was registered after a query selected its functions")
	prQueryHTTP    = probe("query made through the HTTP handler")
)

const pingGap = int64(30*time.Second) + 1e6

// client is the destination of a trace query. What is written reaches the
// client at once, or when flushed if it is an HTTP response.
type client struct {
	http    bool
	buf     []byte // seen by the client
	pending []byte
	last    int64 // when the client last got something
	gap     int64 // longest time the client waited for something
	n       int
	mode    int // 0 healthy; 1 fails from write at on; 2 fails only at it; 3 panics with an error; 4 panics otherwise; 5 torn
	at      int
	failAt  int64
	closed  bool
	slow    int64
	header  http.Header
	status  int
}

func (c *client) deliver(p []byte) {
	if len(p) == 0 {
		return
	}
	if g := now() - c.last; g > c.gap {
		c.gap = g
	}
	c.last = now()
	c.buf = append(c.buf, p...)
}

func (c *client) Write(p []byte) (int, error) {
	simrt.Y()
	if c.closed {
		fail("write-after-return", "%q was written after the query had returned", p)
	}
	if c.slow > 0 && c.n < 8 {
		simrt.Fault(FSlowWriter)
		nap(c.slow)
	}
	n := c.n
	c.n++
	if c.mode != 0 && (n == c.at || n > c.at && c.mode != 2) {
		if c.failAt == 0 {
			c.failAt = now()
		}
		switch c.mode {
		case 2:
			simrt.Fault(FTransient)
			return 0, errSink
		case 3:
			simrt.Fault(FCallbackPanic)
			panic(errSink)
		case 4:
			simrt.Fault(FCallbackPanic)
			panic("sink failed")
		case 5:
			simrt.Fault(FTornWrite)
			return len(p) / 2, errSink
		}
		simrt.Fault(FWriteErr)
		return 0, errSink
	}
	if c.http {
		c.pending = append(c.pending, p...)
		if len(c.pending) > 2048 {
			c.Flush()
		}
	} else {
		c.deliver(p)
	}
	return len(p), nil
}

func (c *client) Flush() {
	c.deliver(c.pending)
	c.pending = nil
}

func (c *client) Header() http.Header { return c.header }
func (c *client) WriteHeader(s int)   { c.status = s }

// plainClient hides the methods of an HTTP response.
type plainClient struct{ c *client }

func (p plainClient) Write(b []byte) (int, error) { return p.c.Write(b) }

type query struct {
	kind    int // 0 svg, 1 json, 2 remote, 3 remote with redirect
	via     int // 0 function, 1 path, 2 HTTP handler
	re      string
	byTrace int
	traceID int64 // of byTrace
	viz     int
	late    *lateFunc
	sel     uint64 // when functions had been selected, if known
	ctype   string
	pre     int // preselect: 0 no, 1 by default, 2 yes
	bad     int // malformed in this way
	refused bool
	c       *client
	s0, s1  uint64
	t0, t1  int64
	err     error
	pv      interface{}
	panic   bool
	answer  int64
}

// lateFunc is a function that is registered while queries may be waiting.
type lateFunc struct {
	f  *monkit.Func
	s0 uint64 // when registering it began
}

func (q *query) matches(n *node) bool {
	if l := q.late; l.f != nil && n.span.Func() == l.f && q.pre > 0 && q.re != "" && q.sel != 0 && q.sel < l.s0 {
		// the functions were selected before
		hit(prQueryLate)
		return false
	}
	if q.byTrace >= 0 && n.trace.Id() != q.traceID {
		return false
	}
	return q.re == "" || regexp.MustCompile(q.re).MatchString(n.span.Func().FullName())
}

func p14() {
	strict := plan(2) == 1
	simrt.Prompt(strict)
	w := newWorld(worldOpts{budget: 10, roots: 4, depth: 3, kinds: []int{kTask, kTask, kFuncTask, kRemote}, sleepy: []int64{1000, 20e9, 90e9}, funcs: 3, outcomes: true})
	if plan(2) == 1 {
		// any id will do
		for i, t := range w.rtraces {
			id := int64(uint64(t.Id()) << uint(plan(54)))
			switch plan(6) {
			case 1:
				id = -int64(1 + i)
			case 2:
				id = math.MinInt64 + int64(i)
			case 3:
				id = math.MaxInt64 - int64(i)
			case 4:
				if i > 0 {
					// but for one bit the same
					id = w.rtraces[i-1].Id() ^ 1<<uint(plan(64))
				}
			}
			for _, u := range w.rtraces {
				if u != t && u.Id() == id {
					id = t.Id()
				}
			}
			w.rtraces[i] = monkit.NewTrace(id)
		}
	}
	cbs := map[*monkit.Trace]int{}
	nested := plan(3) // calls the sampling callbacks still make themselves
	for _, t := range w.rtraces {
		if plan(2) == 1 {
			cbs[t] = 0
			t.Set(present.SampledCBKey, func(t *monkit.Trace) {
				cbs[t]++
				if nested > 0 {
					nested--
					hit(prQueryNested)
					n := &node{w: w, id: len(w.nodes), kind: kRemote, fn: plan(len(w.funcs)), rt: plan(len(w.rtraces)), pid: 5}
					w.nodes = append(w.nodes, n)
					w.exec(n, context.Background(), nil)
				}
			})
		}
	}
	var qs []*query
	late := &lateFunc{}
	for k := between(1, 3); k > 0; k-- {
		q := &query{kind: plan(4), via: plan(3), byTrace: -1, c: &client{header: http.Header{}}}
		if q.kind >= 2 && q.via == 0 {
			q.via = 1
		}
		q.re = []string{".", "f0", "f[12]", "scope1", "nothing"}[plan(5)]
		if q.via > 0 && pchance(4) {
			q.byTrace = plan(len(w.rtraces))
			q.traceID = w.rtraces[q.byTrace].Id()
			if plan(2) == 1 {
				q.re = ""
			}
		}
		q.pre = plan(3)
		q.viz, q.late = plan(len(vizes)), late
		if q.via > 0 && pchance(12) {
			q.bad = 1 + plan(5)
		}
		if pchance(2) {
			q.c.mode = 1 + plan(5)
			q.c.at = plan(6)
			if q.kind == 3 && q.c.at == 0 && q.via != 0 {
				q.c.at = 1
			}
		}
		if !strict && pchance(4) {
			q.c.slow = int64(between(1, 50)) * 1e9
		}
		q.c.http = q.via == 2
		qs = append(qs, q)
	}
	var g group
	for _, q := range qs {
		q := q
		g.Go("query", func() { q.run(w) })
	}
	if plan(3) > 0 {
		simrt.Sleep(time.Duration(plan(200)) * time.Second)
	}
	for _, n := range w.roots {
		n := n
		late := time.Duration(plan(100)) * time.Second
		w.g.Go(fmt.Sprintf("root %d", n.id), func() {
			simrt.Sleep(late)
			w.exec(n, context.Background(), nil)
		})
	}
	if plan(2) == 1 {
		n := &node{w: w, kind: []int{kFuncTask, kRemote}[plan(2)], rt: plan(len(w.rtraces)), pid: 5}
		delay := time.Duration(plan(100)) * time.Second
		w.g.Go("late", func() {
			simrt.Sleep(delay)
			late.s0 = seq()
			f := w.scopes[0].FuncNamed("f0late")
			late.f, n.fn, n.id = f, len(w.funcs), len(w.nodes)
			w.funcs, w.nodes = append(w.funcs, f), append(w.nodes, n)
			w.exec(n, context.Background(), nil)
		})
	}
	w.g.Wait()
	// in the end something matches every query that can still succeed
	var final []*node
	for i := 0; i < 100; i++ {
		open := false
		for _, q := range qs {
			if q.s1 == 0 {
				open = true
				n := &node{w: w, id: len(w.nodes), kind: kRemote, fn: 0, rt: 0, pid: 5}
				for f, fn := range w.funcs {
					if fn == late.f {
						continue
					}
					if q.re == "" || regexp.MustCompile(q.re).MatchString(fn.FullName()) {
						n.fn = f
					}
				}
				if q.byTrace > 0 {
					n.rt = q.byTrace
				}
				w.nodes = append(w.nodes, n)
				final = append(final, n)
				w.exec(n, context.Background(), nil)
			}
		}
		if !open {
			break
		}
		if i == 99 {
			fail("query-stuck", "a query is still waiting after %v although matching spans finished or its client failed", time.Duration(now()))
		}
		// a query that can only end by its client's failure gets that soon
		for _, q := range qs {
			if q.s1 == 0 && q.hopeless(w) && q.c.mode == 0 {
				q.c.mode, q.c.at = 1, 0
			}
		}
		simrt.Sleep(31 * time.Second)
	}
	g.Wait()
	simrt.Sleep(time.Second)
	for _, q := range qs {
		q.check(w, strict)
	}
	sampled := map[*monkit.Trace]int{}
	for _, q := range qs {
		if q.kind >= 2 && !q.refused && q.err == nil && !q.panic && q.c.failAt == 0 {
			for _, t := range w.traces() {
				if q.answer == t.Id() {
					sampled[t]++
				}
			}
		}
	}
	anyRemoteFailed := false
	for _, q := range qs {
		anyRemoteFailed = anyRemoteFailed || (q.kind >= 2 && q.c.failAt != 0)
	}
	for _, t := range w.traces() {
		s, _ := t.Get(present.SampledKey).(bool)
		if s != (sampled[t] > 0) && !(anyRemoteFailed && s) {
			fail("sampled", "trace %d sampled: %v; it was the answer of %d remote queries", t.Id(), s, sampled[t])
		}
		if n, ok := cbs[t]; ok && n != sampled[t] && !(anyRemoteFailed && n > sampled[t]) {
			fail("sampled", "the sampling callback of trace %d ran %d times; it was the answer of %d remote queries", t.Id(), n, sampled[t])
		}
	}
	noLeaks()
	if n := simrt.PendingTimers(); n != 0 {
		fail("timer-leak", "%d timers are still pending after all queries returned", n)
	}
	checkDetached(w.r, w.traces())
	// nothing is written any more (the clients are closed)
	simrt.Sleep(2 * time.Minute)
}

// unknown: no function of the registry matches.
func (q *query) unknown(w *world) bool {
	re := regexp.MustCompile(q.re)
	n := 0
	w.r.Funcs(func(f *monkit.Func) {
		if re.MatchString(f.FullName()) {
			n++
		}
	})
	return n == 0
}

func (q *query) hopeless(w *world) bool {
	if q.re == "" || q.bad > 0 {
		return false
	}
	re := regexp.MustCompile(q.re)
	for _, f := range w.funcs {
		if f != q.late.f && re.MatchString(f.FullName()) {
			return false
		}
	}
	return true
}

func (q *query) run(w *world) {
	q.t0, q.s0 = now(), seq()
	q.c.last = q.t0
	q.pv, q.panic = guarded(func() {
		if q.via == 0 {
			re := regexp.MustCompile(q.re)
			m := func(s *monkit.Span) bool { return re.MatchString(s.Func().FullName()) }
			if q.kind == 0 {
				q.err = present.TraceQuerySVG(w.r, plainClient{q.c}, m)
			} else {
				q.err = present.TraceQueryJSON(w.r, plainClient{q.c}, m)
			}
			return
		}
		v := url.Values{}
		if q.pre != 1 {
			v.Set("preselect", []string{"false", "", "true"}[q.pre])
		}
		if q.re != "" {
			v.Set("regex", q.re)
		}
		if q.byTrace >= 0 {
			v.Set("trace_id", fmt.Sprintf("%x", uint64(q.traceID)))
		}
		q.refused = q.bad > 0 || q.pre > 0 && q.re != "" && q.unknown(w)
		switch q.bad {
		case 1:
			v.Set("regex", "(")
		case 2:
			v.Set("trace_id", "xyz")
		case 3:
			v.Set("trace_id", "-1")
		case 4:
			v.Set("preselect", "maybe")
			v.Set("regex", ".")
		case 5:
			v = url.Values{}
		}
		if q.kind == 3 {
			v.Set("viz", vizes[q.viz])
		}
		path := "/trace/" + []string{"svg", "json", "remote", "remote"}[q.kind]
		if q.via == 1 {
			f, ct, err := present.FromRequest(w.r, path, v)
			q.ctype, q.sel = ct, seq()
			if q.refused {
				hit(prQueryRefused)
				if err == nil {
					fail("not-refused", "%s %v was not refused", path, v)
				}
				return
			}
			if err != nil {
				fail("query-error", "%s %v: %v", path, v, err)
			}
			q.err = f(plainClient{q.c})
			return
		}
		hit(prQueryHTTP)
		defer func() { q.ctype = q.c.header.Get("Content-Type") }()
		present.HTTP(w.r).ServeHTTP(q.c, &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: v.Encode()}})
		if q.refused {
			hit(prQueryRefused)
			if q.c.failAt == 0 && (q.c.status < 400 || q.c.status >= 500) {
				fail("not-refused", "%s %v was answered with status %d", path, v, q.c.status)
			}
			return
		}
		if q.c.status != 0 {
			fail("query-error", "%s %v: status %d", path, v, q.c.status)
		}
	})
	q.c.Flush()
	q.t1, q.s1 = now(), seq()
	if g := q.t1 - q.c.last; g > q.c.gap && q.c.failAt == 0 {
		q.c.gap = g
	}
	q.c.closed = true
}

func (q *query) check(w *world, strict bool) {
	what := fmt.Sprintf("a query (kind %d, via %d, %q, trace %d, client mode %d at %d)", q.kind, q.via, q.re, q.byTrace, q.c.mode, q.c.at)
	waited := time.Duration(q.t1 - q.t0)
	if q.refused {
		if strict && q.t1-q.t0 > 1e6 {
			fail("late-refusal", "%s was refused after %v", what, waited)
		}
		return
	}
	if q.t1-q.t0 > 70e9 {
		hit(prQueryPings)
	}
	if strict && q.c.gap > pingGap {
		fail("no-keepalive", "%s that took %v sent its client nothing for %v", what, waited, time.Duration(q.c.gap))
	}
	if q.c.failAt != 0 {
		hit(prQueryFailed)
		if strict && q.t1-q.c.failAt > 1e6 {
			fail("late-failure", "%s returned %v after its client had failed", what, time.Duration(q.t1-q.c.failAt))
		}
		if q.panic && q.c.mode != 3 && q.c.mode != 4 {
			fail("query-panic", "%s panicked: %v", what, q.pv)
		}
		if q.via < 2 && !q.panic && (q.err == nil || q.c.mode != 4 && !errors.Is(q.err, errSink) || q.c.mode == 4 && !strings.Contains(q.err.Error(), "sink failed")) {
			fail("wrong-error", "%s whose client failed returned the error %v", what, q.err)
		}
		return
	}
	if q.panic {
		fail("query-panic", "%s panicked: %v", what, q.pv)
	}
	if q.err != nil {
		fail("wrong-error", "%s returned the error %v although its client did not fail", what, q.err)
	}
	if want := []string{"image/svg+xml", "application/json", "application/json", "text/html"}[q.kind]; q.via > 0 && strings.TrimSpace(strings.SplitN(q.ctype, ";", 2)[0]) != want {
		fail("content-type", "%s answered %s as %q", what, want, q.ctype)
	}
	out := bytes.TrimLeft(q.c.buf, "\n")
	hit(prQueryMatched)
	switch q.kind {
	case 0:
		ids := map[int64]int{}
		out = q.c.buf
		if bytes.Index(out, []byte("<?xml")) > 0 {
			fail("report-syntax", "%s answered a document whose XML declaration is not at its start\n%.200s", what, out)
		}
		d := xml.NewDecoder(bytes.NewReader(out))
		for {
			t, err := d.Token()
			if err == io.EOF {
				break
			}
			if err != nil {
				fail("report-syntax", "%s answered %v\n%.2000s", what, err, out)
			}
			if e, ok := t.(xml.StartElement); ok {
				for _, a := range e.Attr {
					var id int64
					if n, _ := fmt.Sscanf(a.Value, "id-%d", &id); a.Name.Local == "id" && n == 1 {
						ids[id]++
					}
				}
			}
		}
		q.checkTree(w, what, ids)
	case 1:
		var js []struct{ Id int64 }
		if err := json.Unmarshal(out, &js); err != nil {
			fail("report-syntax", "%s answered %v\n%.2000s", what, err, out)
		}
		ids := map[int64]int{}
		for _, x := range js {
			ids[x.Id]++
		}
		q.checkTree(w, what, ids)
	case 2:
		var js struct {
			TraceId *int64 `json:"trace_id"`
		}
		if err := json.Unmarshal(out, &js); err != nil || js.TraceId == nil {
			fail("report-syntax", "%s answered %v\n%.2000s", what, err, out)
		}
		q.checkRemote(w, what, *js.TraceId)
	case 3:
		i := bytes.LastIndex(out, []byte("argv="))
		var id int64
		if !bytes.HasPrefix(out, []byte("<!DOCTYPE html>")) || i < 0 {
			fail("report-syntax", "%s answered\n%.2000s", what, out)
		}
		fmt.Sscanf(string(out[i:]), "argv=%d", &id)
		// the page leads to the visualiser with everything in its address
		want := vizes[q.viz]
		if !strings.HasPrefix(want, "http") {
			want = "http://" + want
		}
		u, _ := url.Parse(want)
		args := u.Query()
		args.Add("argv", fmt.Sprint(id))
		m := refreshRe.FindSubmatch(out)
		if m == nil {
			fail("report-syntax", "%s answered\n%.2000s", what, out)
		}
		got, err := url.Parse(html.UnescapeString(string(m[1])))
		if err != nil || got.Scheme != u.Scheme || got.Host != u.Host || got.Path != u.Path || got.Query().Encode() != args.Encode() {
			fail("wrong-viz", "%s for the visualiser at %q leads to %q", what, want, m[1])
		}
		q.checkRemote(w, what, id)
	}
}

// vizes are addresses of visualisers.
var vizes = []string{"viz.example/x?y=z", "http://viz.example", "https://viz.example:8080/a/b?argv=main&q=%22%3C", "viz.example"}

var refreshRe = regexp.MustCompile(`<meta http-equiv="refresh" content="0;url=([^"]*)"`)

func (q *query) checkTree(w *world, what string, ids map[int64]int) {
	for _, n := range w.nodes {
		if n.span == nil || ids[n.span.Id()] == 0 || !q.matches(n) || n.s1 < q.s0 || n.s0 > q.s1 {
			continue
		}
		want := map[int64]int{}
		var add func(n *node)
		add = func(n *node) {
			want[n.span.Id()] = 1
			for _, k := range w.nodes {
				if k.span != nil && k.cur == n {
					add(k)
				}
			}
		}
		add(n)
		if len(want) != len(ids) {
			continue
		}
		same := true
		for id := range want {
			same = same && ids[id] == 1
		}
		if same {
			return
		}
	}
	fail("wrong-tree", "%s answered the spans %v, which are not the tree of a matching span", what, ids)
}

func (q *query) checkRemote(w *world, what string, id int64) {
	hit(prQueryRemote)
	q.answer = id
	for _, n := range w.nodes {
		if n.span != nil && n.trace.Id() == id && q.matches(n) && n.s1 > q.s0 && n.s0 < q.s1 {
			return
		}
	}
	fail("wrong-trace", "%s answered trace %d, on which no matching span started", what, id)
}
