From 36d9e826a98850d54aa50a044f236f72a830970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:26 +0000
Subject: [PATCH 01/25] fix: announce a new trace only after its root span is
 registered

ObserveAllTraces registers a trace watcher and then looks at RootSpans. A
trace that was announced before the registration, and whose root span was
added after the look, was never observed although its spans kept running.
---
 ctx.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ctx.go b/ctx.go
index d0fad0b..83852f1 100644
--- a/ctx.go
+++ b/ctx.go
@@ -59,6 +59,10 @@ func SpanFromCtx(ctx context.Context) *Span {
 func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 	parentId *int64) (sctx context.Context, exit func(*error)) {
 
+	// a trace that was handed in, or that is created below, is announced to
+	// the registry's trace watchers.
+	announce := trace != nil
+
 	var s, parent *Span
 	if s, ok := ctx.(*Span); ok && s != nil {
 		ctx = s.Context
@@ -73,7 +77,7 @@ func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 		}
 	} else if trace == nil {
 		trace = NewTrace(NewId())
-		f.scope.r.observeTrace(trace)
+		announce = true
 	}
 
 	// if we're passed in an explicit parent id, then it's a remote trace,
@@ -82,8 +86,6 @@ func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 		parent = nil
 	}
 
-	observer := trace.getObserver()
-
 	s = &Span{
 		id:       NewId(),
 		start:    monotime.Now(),
@@ -105,8 +107,15 @@ func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 		f.scope.r.rootSpanStart(s)
 	}
 
+	// the trace is announced only once its span can be found through
+	// RootSpans, so that someone who registers a trace watcher and then looks
+	// at the live spans can't miss it.
+	if announce {
+		f.scope.r.observeTrace(trace)
+	}
+
 	sctx = s
-	if observer != nil {
+	if observer := trace.getObserver(); observer != nil {
 		sctx = observer.Start(sctx, s)
 	}
 
@@ -254,9 +263,6 @@ func (f *Func) Task(ctx *context.Context, args ...interface{}) func(*error) {
 func (f *Func) RemoteTrace(ctx *context.Context, parentId int64, trace *Trace,
 	args ...interface{}) func(*error) {
 	ctx = cleanCtx(ctx)
-	if trace != nil {
-		f.scope.r.observeTrace(trace)
-	}
 	s, exit := newSpan(*ctx, f, args, trace, &parentId)
 	if ctx != &unparented {
 		*ctx = s
@@ -271,9 +277,7 @@ func (f *Func) ResetTrace(ctx *context.Context,
 	if ctx == &taskSecret && taskArgs(f, args) {
 		return nil
 	}
-	trace := NewTrace(NewId())
-	f.scope.r.observeTrace(trace)
-	s, exit := newSpan(*ctx, f, args, trace, nil)
+	s, exit := newSpan(*ctx, f, args, NewTrace(NewId()), nil)
 	if ctx != &unparented {
 		*ctx = s
 	}
-- 
2.43.0


From eca3caa976e4d44ae2a76913b3c06e558126b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:26 +0000
Subject: [PATCH 02/25] fix: CollectSpans leaves its observer attached to the
 trace

The collector stayed attached for the rest of the trace's life, so every
call of CollectSpans made all later spans of the trace slower.
---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From d59d7caa311dc83d55911917ce3743b1a0946ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:03 +0000
Subject: [PATCH 03/25] fix: a running span can be unreachable while its
 ancestors finish

A span marked itself done before it orphaned its children. If its own parent
finished in between, the parent skipped it, and the running children were
neither below a live root span nor among the orphans: RootSpans did not
report their trace, and ObserveAllTraces missed it.
---
 ctx.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ctx.go b/ctx.go
index 83852f1..7a70a99 100644
--- a/ctx.go
+++ b/ctx.go
@@ -131,17 +131,16 @@ func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 		}
 		s.f.end(err, panicked, finish.Sub(s.start))
 
-		var children []*Span
+		// the children are orphaned before anyone can see that this span is
+		// done. otherwise a parent that finishes at the same time skips this
+		// span, and the still running children can't be reached for a while.
 		s.mtx.Lock()
 		s.done = true
 		orphaned := s.orphaned
 		s.children.Iterate(func(child *Span) {
-			children = append(children, child)
+			child.orphan()
 		})
 		s.mtx.Unlock()
-		for _, child := range children {
-			child.orphan()
-		}
 
 		if s.parent != nil {
 			s.parent.removeChild(s)
-- 
2.43.0


From 4f182567a998aae6b190d02ce1b7026cdc3910f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:59 +0000
Subject: [PATCH 04/25] fix: metrics with different names or tags can be mixed
 up

The keys of a scope's table were joined without escaping, so the counter
"a,k=v" was the counter "a" with the tag k=v, and a counter named "func:f"
panicked if there was a function f.
---
 scope.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..8595772 100644
--- a/scope.go
+++ b/scope.go
@@ -67,6 +67,12 @@ func (s *Scope) newSource(name string, constructor func() StatSource) (
 	return ss
 }
 
+// funcNamespace keeps Funcs apart from all other sources: the part after the
+// unescaped comma has no unescaped equals sign, so it can't be a tag.
+const funcNamespace = "func,"
+
+// sourceName returns the key of a source in the scope's table. Distinct names
+// and tags have distinct keys, so separators in them are escaped.
 func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceNameSize int
 	sourceNameSize += len(namespace) + len(name) + len(tags)*2
@@ -76,16 +82,30 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceName strings.Builder
 	sourceName.Grow(sourceNameSize)
 	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	writeEscaped(&sourceName, name)
 	for _, tag := range tags {
 		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
+		writeEscaped(&sourceName, tag.Key)
 		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		writeEscaped(&sourceName, tag.Val)
 	}
 	return sourceName.String()
 }
 
+func writeEscaped(builder *strings.Builder, part string) {
+	if !strings.ContainsAny(part, `\,=`) {
+		builder.WriteString(part)
+		return
+	}
+	for i := 0; i < len(part); i++ {
+		switch part[i] {
+		case '\\', ',', '=':
+			builder.WriteByte('\\')
+		}
+		builder.WriteByte(part[i])
+	}
+}
+
 // FuncNamed retrieves or creates a Func named using the given name and
 // SeriesTags. See Func() for automatic name determination.
 //
@@ -93,7 +113,7 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 // unique Func. SeriesTags are not sorted, so keep the order consistent to avoid
 // unintentionally creating new unique Funcs.
 func (s *Scope) FuncNamed(name string, tags ...SeriesTag) *Func {
-	source := s.newSource(sourceName("func:", name, tags), func() StatSource {
+	source := s.newSource(sourceName(funcNamespace, name, tags), func() StatSource {
 		return newFunc(s, NewSeriesKey("function").WithTag("name", name).WithTags(tags...))
 	})
 	f, ok := source.(*Func)
@@ -264,18 +284,20 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 func (s *Scope) Gauge(name string, cb func() float64) {
 	type gauge struct{ StatSource }
 
+	sourceName := sourceName("", name, nil)
+
 	// gauges allow overwriting
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	if source, exists := s.sources[sourceName]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[sourceName] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
-- 
2.43.0


From edb5fb802c558f53208054ab5e099522fe0cbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 05/25] fix: a reset distribution still answers quantile
 queries with old values

Query on an empty distribution returns the first slot of the reservoir,
which Reset left filled.
---
 distgen.go.m4 | 2 +-
 durdist.go    | 2 +-
 floatdist.go  | 2 +-
 intdist.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..99e3535 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -163,7 +163,7 @@ func (d *_NAME_`Dist') Copy() *_NAME_`Dist' {
 
 func (d *_NAME_`Dist') Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir = [ReservoirSize]float32{}
 }
 
 func (d *_NAME_`Dist') Stats(cb func(key SeriesKey, field string, val float64)) {
diff --git a/durdist.go b/durdist.go
index 4d2a281..5757512 100644
--- a/durdist.go
+++ b/durdist.go
@@ -163,7 +163,7 @@ func (d *DurationDist) Copy() *DurationDist {
 
 func (d *DurationDist) Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir = [ReservoirSize]float32{}
 }
 
 func (d *DurationDist) Stats(cb func(key SeriesKey, field string, val float64)) {
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..46d3298 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -162,7 +162,7 @@ func (d *FloatDist) Copy() *FloatDist {
 
 func (d *FloatDist) Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir = [ReservoirSize]float32{}
 }
 
 func (d *FloatDist) Stats(cb func(key SeriesKey, field string, val float64)) {
diff --git a/intdist.go b/intdist.go
index 07817ac..0ba9625 100644
--- a/intdist.go
+++ b/intdist.go
@@ -162,7 +162,7 @@ func (d *IntDist) Copy() *IntDist {
 
 func (d *IntDist) Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir = [ReservoirSize]float32{}
 }
 
 func (d *IntDist) Stats(cb func(key SeriesKey, field string, val float64)) {
-- 
2.43.0


From fb951685a4238489042e3b491fc28a1a618f611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 06/25] fix: StatsJSON fails when a value is not a number

A counter that was never set reports NaN, which encoding/json refuses, so
one such value made the whole report fail. Report null instead.
---
 present/stats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..84784b0 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,12 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		var jsonVal interface{} = val
+		if math.IsNaN(val) || math.IsInf(val, 0) {
+			// JSON can't represent these
+			jsonVal = nil
+		}
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsonVal})
 	})
 	return lw.done()
 }
-- 
2.43.0


From 59af6c3402a52bc52b4cb405e09ee7053b5df249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:32 +0000
Subject: [PATCH 07/25] fix: SpansToSVG panics when all spans take no
 measurable time

With a coarse clock the earliest start and the latest finish can be the
same instant, and scaling to the graph's width then divides by zero.
---
 present/trace.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..18b770c 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -270,8 +270,11 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
 	timeToX := func(t time.Time) int {
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
-			(maxEnd.UnixNano() - minStart.UnixNano()))
+		total := maxEnd.UnixNano() - minStart.UnixNano()
+		if total <= 0 {
+			return 0
+		}
+		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From 59c1f097e168bdffc736223c665b74a93a9d4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:32 +0000
Subject: [PATCH 08/25] fix: FuncsText forgets that writing a function's
 parents failed

The error of a write inside the Parents callback was overwritten by the
next write.
---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From fc3c3ae20c12f110ac289d969646411d8cf1be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:10 +0000
Subject: [PATCH 09/25] fix: an SVG trace query that waited answers with
 malformed XML

Keep-alive newlines were written before the XML declaration, which may only
appear at the very start of a document. Write the declaration first.
---
 present/trace.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 18b770c..6d8b0dd 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -35,12 +35,16 @@ const (
 	fontOffset = int(barHeight * .2)
 )
 
-var (
-	svgHeader = template.Must(template.New("header").Parse(
-		`<?xml version="1.0" standalone="no"?>
+// svgProlog has to come first: nothing, not even whitespace, may precede an
+// XML declaration.
+const svgProlog = `<?xml version="1.0" standalone="no"?>
 <!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"
   "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">
-<svg version="1.1" xmlns="http://www.w3.org/2000/svg"
+`
+
+var (
+	svgHeader = template.Must(template.New("header").Parse(
+		`<svg version="1.1" xmlns="http://www.w3.org/2000/svg"
   xmlns:xlink="http://www.w3.org/1999/xlink"
   viewBox="0 0 {{.GraphWidth}} {{.GraphHeight}}"
   width="{{.GraphWidth}}" height="{{.GraphHeight}}">
@@ -245,6 +249,14 @@ func computeRow(spanTree map[int64]*spanInformation, si *spanInformation, starti
 // SpansToSVG takes a list of FinishedSpans and writes them to w in SVG format.
 // It draws a trace using the Spans where the Spans are ordered by start time.
 func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
+	_, err := io.WriteString(w, svgProlog)
+	if err != nil {
+		return err
+	}
+	return spansToSVGElement(w, spans)
+}
+
+func spansToSVGElement(w io.Writer, spans []*collect.FinishedSpan) error {
 	var minStart, maxEnd time.Time
 
 	byId := make(map[int64]*collect.FinishedSpan)
@@ -395,13 +407,18 @@ func unwrapError(err error) error {
 // 'matcher' to 'w' in SVG format.
 func TraceQuerySVG(reg *monkit.Registry, w io.Writer,
 	matcher func(*monkit.Span) bool) error {
+	// the keepalives would otherwise precede the XML declaration.
+	_, err := io.WriteString(w, svgProlog)
+	if err != nil {
+		return err
+	}
 	spans, err := watchForSpansWithKeepalive(context.TODO(),
 		reg, w, matcher, []byte("\n"))
 	if err != nil {
 		return err
 	}
 
-	return SpansToSVG(w, spans)
+	return spansToSVGElement(w, spans)
 
 }
 
-- 
2.43.0


From 3db29b225580b9252377b915b22a3ab381f440d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:13 +0000
Subject: [PATCH 10/25] fix: trace queries never notice a client that went away

The keep-alives of a query made through FromRequest only filled a buffer, so
they neither reached the client nor failed when the client was gone. Flush
them.
---
 present/path.go  |  5 ++---
 present/trace.go |  3 +--
 present/utils.go | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..6deb316 100644
--- a/present/path.go
+++ b/present/path.go
@@ -92,7 +92,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 		unbuffered := f
 		f = func(w io.Writer) (err error) {
 			buf := bufio.NewWriter(w)
-			err = unbuffered(buf)
+			err = unbuffered(flushThrough{Writer: buf, dest: w})
 			if err != nil {
 				return err
 			}
@@ -225,8 +225,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 				}
 
 				ctx, stop := keepAlive(context.TODO(), func(context.Context) error {
-					_, err := w.Write([]byte("\n"))
-					return err
+					return writeAndFlush(w, []byte("\n"))
 				})
 				defer stop()
 
diff --git a/present/trace.go b/present/trace.go
index 6d8b0dd..eb69785 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -450,8 +450,7 @@ func watchForSpansWithKeepalive(ctx context.Context, reg *monkit.Registry, w io.
 	spans []*collect.FinishedSpan, writeErr error) {
 
 	ctx, stop := keepAlive(ctx, func(context.Context) error {
-		_, err := w.Write(keepalive)
-		return err
+		return writeAndFlush(w, keepalive)
 	})
 	defer stop()
 
diff --git a/present/utils.go b/present/utils.go
index a2d3d7d..f475509 100644
--- a/present/utils.go
+++ b/present/utils.go
@@ -15,8 +15,10 @@
 package present
 
 import (
+	"bufio"
 	"context"
 	"fmt"
+	"io"
 	"sync"
 	"time"
 )
@@ -100,3 +102,36 @@ func catchPanics(cb func(context.Context) error) func(context.Context) error {
 		return cb(ctx)
 	}
 }
+
+// flushThrough is a bufio.Writer whose Flush also flushes the destination, if
+// that does some buffering of its own.
+type flushThrough struct {
+	*bufio.Writer
+	dest io.Writer
+}
+
+func (f flushThrough) Flush() error {
+	if err := f.Writer.Flush(); err != nil {
+		return err
+	}
+	return flush(f.dest)
+}
+
+// writeAndFlush writes p to w and makes sure that it doesn't linger in some
+// buffer, which is important for keepalives.
+func writeAndFlush(w io.Writer, p []byte) error {
+	if _, err := w.Write(p); err != nil {
+		return err
+	}
+	return flush(w)
+}
+
+func flush(w io.Writer) error {
+	switch f := w.(type) {
+	case interface{ Flush() error }:
+		return f.Flush()
+	case interface{ Flush() }:
+		f.Flush()
+	}
+	return nil
+}
-- 
2.43.0


From 45e158f7b56b08d79f40c6ac7a7f99bb15d7ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:08 +0000
Subject: [PATCH 11/25] fix: traced HTTP handlers do not get the context of
 span observers

TraceHandler passed the span itself on, without what context-aware observers
of the span added to its context.
---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 861304d..f257889 100644
--- a/http/server.go
+++ b/http/server.go
@@ -66,7 +66,7 @@ func (t traceHandler) ServeHTTP(writer http.ResponseWriter, request *http.Reques
 		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", s.Trace().Id()))
 		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", s.Id()))
 	}
-	t.handler.ServeHTTP(wrapped, request.WithContext(s))
+	t.handler.ServeHTTP(wrapped, request.WithContext(ctx))
 
 	s.Annotate("http.responsecode", fmt.Sprint(statusCode()))
 }
-- 
2.43.0


From caf3f1f400e422f53477732965ddc93b5383a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:27 +0000
Subject: [PATCH 12/25] fix: trace ids with the highest bit set do not survive
 an HTTP hop

They are accepted from incoming requests but were sent on with a minus sign,
which the next hop rejects.
---
 http/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
-- 
2.43.0


From 361a3c0a8725ba170545da4df8b654beab3c17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 13/25] fix: TraceRequest panics on a sampled request without
 headers

net/http accepts requests whose Header is nil.
---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index aa2db08..45d96d7 100644
--- a/http/client.go
+++ b/http/client.go
@@ -20,6 +20,9 @@ func TraceRequest(ctx context.Context, scope *monkit.Scope, cl Client, req *http
 
 	s := monkit.SpanFromCtx(ctx)
 	s.Annotate("http.uri", req.URL.String())
+	if req.Header == nil {
+		req.Header = make(http.Header)
+	}
 	TraceInfoFromSpan(s).SetHeader(req.Header)
 	resp, err = cl.Do(req)
 	if err != nil {
-- 
2.43.0


From 50114235b1c4fb843576a9ec38d887be41b8f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:15 +0000
Subject: [PATCH 14/25] fix: DeltaTransformer mixes up series whose names
 contain backslashes

---
 transform.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index bab08c4..54797b6 100644
--- a/transform.go
+++ b/transform.go
@@ -15,6 +15,7 @@
 package monkit
 
 import (
+	"fmt"
 	"sync"
 )
 
@@ -65,7 +66,9 @@ func (dt *DeltaTransformer) Transform(cb func(SeriesKey, string, float64)) func(
 			return
 		}
 
-		mapIndex := key.WithField(field)
+		// the string form of a key doesn't escape backslashes, so it could
+		// be the same for different series.
+		mapIndex := fmt.Sprintf("%q %q", key.Measurement, key.Tags.All())
 
 		dt.mtx.Lock()
 		lastTotal, found := dt.lastTotals[mapIndex]
-- 
2.43.0


From 243ee825a13ac401ed87644caa3f797d2fb62d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:16 +0000
Subject: [PATCH 15/25] fix: no process status if the executable's name
 contains a space

---
 environment/proc_linux.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/environment/proc_linux.go b/environment/proc_linux.go
index 25cdcaf..8ae1569 100644
--- a/environment/proc_linux.go
+++ b/environment/proc_linux.go
@@ -15,6 +15,7 @@
 package environment
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 
@@ -87,9 +88,20 @@ func readProcSelfStat(s *procSelfStat) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Sscanf(string(data), "%d %s %c %d %d %d %d %d %d %d %d "+
+	// the name of the executable is in parentheses and may contain anything,
+	// including spaces and parentheses.
+	begin, end := bytes.IndexByte(data, '('), bytes.LastIndexByte(data, ')')
+	if begin < 0 || end < begin {
+		return fmt.Errorf("malformed process status: %q", data)
+	}
+	_, err = fmt.Sscanf(string(data[:begin]), "%d", &s.Pid)
+	if err != nil {
+		return err
+	}
+	s.Comm = string(data[begin : end+1])
+	_, err = fmt.Sscanf(string(data[end+1:]), " %c %d %d %d %d %d %d %d %d "+
 		"%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d "+
-		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.Comm, &s.State, &s.Ppid,
+		"%d %d %d %d %d %d %d %d %d %d", &s.State, &s.Ppid,
 		&s.Pgrp, &s.Session, &s.TtyNr, &s.Tpgid, &s.Flags, &s.Minflt, &s.Cminflt,
 		&s.Majflt, &s.Cmajflt, &s.Utime, &s.Stime, &s.Cutime, &s.Cstime,
 		&s.Priority, &s.Nice, &s.NumThreads, &s.Itrealvalue, &s.Starttime,
-- 
2.43.0


From 86bc06109f3449c56d40bf1a2e4bac6b0ae3e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 16/25] fix: garbage collection pauses are counted again by
 every collection

Runtime never remembered how many collections it had seen, missed all but the
most recent pause and used its distribution without synchronisation.
---
 environment/runtime.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..224e2d3 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -31,6 +32,7 @@ import (
 func Runtime() monkit.StatSource {
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
+	var mtx sync.Mutex // protects durDist and lastNumGC
 
 	return monkit.StatSourceFunc(func(cb func(key monkit.SeriesKey, field string, val float64)) {
 		cb(monkit.NewSeriesKey("goroutines"), "count", float64(runtime.NumGoroutine()))
@@ -43,11 +45,18 @@ func Runtime() monkit.StatSource {
 
 		{
 			var stats debug.GCStats
+			mtx.Lock()
 			debug.ReadGCStats(&stats)
-			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
-				durDist.Insert(stats.Pause[0])
+			// the most recent pauses come first, and only so many are kept
+			for i := len(stats.Pause) - 1; i >= 0; i-- {
+				if int64(i) < stats.NumGC-lastNumGC {
+					durDist.Insert(stats.Pause[i])
+				}
 			}
-			durDist.Stats(cb)
+			lastNumGC = stats.NumGC
+			dist := durDist.Copy()
+			mtx.Unlock()
+			dist.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From 9e5ff5b47a703beeaddea629400353fd4722e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 17/25] fix: error names are determined with a mutex held

An error name handler that used the function's statistics, or monitored a call
of the same function, deadlocked, and one that panicked left them locked.
---
 funcstats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..c044e1f 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -87,6 +87,11 @@ func (f *FuncStats) start(parent *Func) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	var errorName string
+	if err != nil && !panicked {
+		// this calls user code, so it must not happen with the mutex held
+		errorName = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -100,7 +105,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errorName] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From e4851634d08481e35524d98b20d822016cfd3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:11 +0000
Subject: [PATCH 18/25] fix: TagSet.String races with itself

A tag set is shared by every metric and callback that uses the same tags,
but String filled its cache without synchronisation.
---
 tags.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..3ee0244 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -33,7 +34,7 @@ func NewSeriesTag(key, val string) SeriesTag {
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
 	all map[string]string
-	str string // cached string form
+	str atomic.Value // cached string form
 }
 
 // Get returns the value associated with the key.
@@ -99,12 +100,14 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
-		var builder strings.Builder
-		t.writeTags(&builder)
-		t.str = builder.String()
+	if str, ok := t.str.Load().(string); ok {
+		return str
 	}
-	return t.str
+	var builder strings.Builder
+	t.writeTags(&builder)
+	str := builder.String()
+	t.str.Store(str)
+	return str
 }
 
 // writeTags writes the tags in the tag set to the builder.
-- 
2.43.0


From d6e62fe31eaeb9fb135e1f504f2e6c3006c14841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:58 +0000
Subject: [PATCH 19/25] fix: quantiles of the largest integers don't turn
 negative

---
 dist.go       | 22 ++++++++++++++++++++++
 distgen.go.m4 | 10 +++++-----
 durdist.go    | 10 +++++-----
 floatdist.go  | 10 +++++-----
 intdist.go    | 10 +++++-----
 5 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/dist.go b/dist.go
index e3f24e4..6ade4ee 100644
--- a/dist.go
+++ b/dist.go
@@ -15,6 +15,7 @@
 package monkit
 
 import (
+	"math"
 	"time"
 )
 
@@ -52,10 +53,31 @@ func (d *DurationDist) toFloat64(v time.Duration) float64 {
 	return v.Seconds()
 }
 
+func (d *DurationDist) fromFloat64(v float64) time.Duration {
+	return time.Duration(floatToInt64(v))
+}
+
 func (d *IntDist) toFloat64(v int64) float64 {
 	return float64(v)
 }
 
+func (d *IntDist) fromFloat64(v float64) int64 {
+	return floatToInt64(v)
+}
+
 func (d *FloatDist) toFloat64(v float64) float64 {
 	return v
 }
+
+func (d *FloatDist) fromFloat64(v float64) float64 {
+	return v
+}
+
+// floatToInt64 converts a value from a reservoir. The largest integers are
+// rounded up to 2^63 there, which is not an int64 anymore.
+func floatToInt64(v float64) int64 {
+	if v >= 1<<63 {
+		return math.MaxInt64
+	}
+	return int64(v)
+}
diff --git a/distgen.go.m4 b/distgen.go.m4
index 99e3535..1b20aba 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -118,7 +118,7 @@ func (d *_NAME_`Dist') ReservoirAverage() _TYPE_ {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return _TYPE_`(sum / float32(amount))'
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -130,7 +130,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 	}
 
 	if rlen < 2 {
-		return _TYPE_`(d.reservoir[0])'
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -140,10 +140,10 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 	}
 
 	if quantile <= 0 {
-		return _TYPE_`(reservoir[0])'
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return _TYPE_`(reservoir[rlen-1])'
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -151,7 +151,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return _TYPE_`(prior + diff*(float64(reservoir[idx+1])-prior))'
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/durdist.go b/durdist.go
index 5757512..b50ba3d 100644
--- a/durdist.go
+++ b/durdist.go
@@ -118,7 +118,7 @@ func (d *DurationDist) ReservoirAverage() time.Duration {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return time.Duration(sum / float32(amount))
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -130,7 +130,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 	}
 
 	if rlen < 2 {
-		return time.Duration(d.reservoir[0])
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -140,10 +140,10 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 	}
 
 	if quantile <= 0 {
-		return time.Duration(reservoir[0])
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return time.Duration(reservoir[rlen-1])
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -151,7 +151,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return time.Duration(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/floatdist.go b/floatdist.go
index 46d3298..e312e9c 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -117,7 +117,7 @@ func (d *FloatDist) ReservoirAverage() float64 {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return float64(sum / float32(amount))
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -129,7 +129,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 	}
 
 	if rlen < 2 {
-		return float64(d.reservoir[0])
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -139,10 +139,10 @@ func (d *FloatDist) Query(quantile float64) float64 {
 	}
 
 	if quantile <= 0 {
-		return float64(reservoir[0])
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return float64(reservoir[rlen-1])
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -150,7 +150,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return float64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/intdist.go b/intdist.go
index 0ba9625..00d96c5 100644
--- a/intdist.go
+++ b/intdist.go
@@ -117,7 +117,7 @@ func (d *IntDist) ReservoirAverage() int64 {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return int64(sum / float32(amount))
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -129,7 +129,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 	}
 
 	if rlen < 2 {
-		return int64(d.reservoir[0])
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -139,10 +139,10 @@ func (d *IntDist) Query(quantile float64) int64 {
 	}
 
 	if quantile <= 0 {
-		return int64(reservoir[0])
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return int64(reservoir[rlen-1])
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -150,7 +150,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return int64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
 }
 
 // Copy returns a full copy of the entire distribution.
-- 
2.43.0


From 3177b62623c04f72c4f8088756a38b27684be7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:58 +0000
Subject: [PATCH 20/25] fix: run the sampling callback of a remote trace query
 without holding a lock

---
 present/path.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/present/path.go b/present/path.go
index 6deb316..96f7708 100644
--- a/present/path.go
+++ b/present/path.go
@@ -231,18 +231,30 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 
 				var traceMtx sync.Mutex
 				var trace *monkit.Trace
+				var sampled bool
 				collect.FindSpan(ctx, reg, func(s *monkit.Span) bool {
 					if !spanMatcher(s) {
 						return false
 					}
 					traceMtx.Lock()
-					defer traceMtx.Unlock()
-					if trace == nil {
-						trace = s.Trace()
-						trace.Set(SampledKey, true)
-						if cb, exists := trace.Get(SampledCBKey).(func(*monkit.Trace)); exists {
-							cb(trace)
-						}
+					if trace != nil {
+						defer traceMtx.Unlock()
+						return sampled
+					}
+					trace = s.Trace()
+					traceMtx.Unlock()
+
+					// the callback may start matching spans of its own, so it
+					// can't be called with the mutex held.
+					defer func() {
+						traceMtx.Lock()
+						sampled = true
+						traceMtx.Unlock()
+					}()
+					trace := s.Trace()
+					trace.Set(SampledKey, true)
+					if cb, exists := trace.Get(SampledCBKey).(func(*monkit.Trace)); exists {
+						cb(trace)
 					}
 					return true
 				})
-- 
2.43.0


From 9c74129d28bf1c2c79cde5dc29a0bc4d5c158a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:46 +0000
Subject: [PATCH 21/25] fix: a name clash races with the use of the existing
 stats source

---
 scope.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scope.go b/scope.go
index 8595772..1af4680 100644
--- a/scope.go
+++ b/scope.go
@@ -118,7 +118,7 @@ func (s *Scope) FuncNamed(name string, tags ...SeriesTag) *Func {
 	})
 	f, ok := source.(*Func)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return f
@@ -146,7 +146,7 @@ func (s *Scope) Meter(name string, tags ...SeriesTag) *Meter {
 	})
 	m, ok := source.(*Meter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -165,7 +165,7 @@ func (s *Scope) DiffMeter(name string, m1, m2 *Meter, tags ...SeriesTag) {
 		return NewDiffMeter(NewSeriesKey(name).WithTags(tags...), m1, m2)
 	})
 	if _, ok := source.(*DiffMeter); !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 }
@@ -177,7 +177,7 @@ func (s *Scope) IntVal(name string, tags ...SeriesTag) *IntVal {
 	})
 	m, ok := source.(*IntVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -196,7 +196,7 @@ func (s *Scope) FloatVal(name string, tags ...SeriesTag) *FloatVal {
 	})
 	m, ok := source.(*FloatVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -215,7 +215,7 @@ func (s *Scope) BoolVal(name string, tags ...SeriesTag) *BoolVal {
 	})
 	m, ok := source.(*BoolVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -234,7 +234,7 @@ func (s *Scope) StructVal(name string, tags ...SeriesTag) *StructVal {
 	})
 	m, ok := source.(*StructVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -247,7 +247,7 @@ func (s *Scope) DurationVal(name string, tags ...SeriesTag) *DurationVal {
 	})
 	m, ok := source.(*DurationVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -260,7 +260,7 @@ func (s *Scope) Timer(name string, tags ...SeriesTag) *Timer {
 	})
 	m, ok := source.(*Timer)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -273,7 +273,7 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 	})
 	m, ok := source.(*Counter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -292,7 +292,7 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 
 	if source, exists := s.sources[sourceName]; exists {
 		if _, ok := source.(gauge); !ok {
-			panic(fmt.Sprintf("%s already used for another stats source: %#v",
+			panic(fmt.Sprintf("%s already used for another stats source: %T",
 				name, source))
 		}
 	}
-- 
2.43.0


From df8f9ed393c576d17c524bc439b3b788fff43881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:34 +0000
Subject: [PATCH 22/25] fix: an informational status is not the status of a
 response with a body

---
 http/http.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/http.go b/http/http.go
index 9503f19..5f0354d 100644
--- a/http/http.go
+++ b/http/http.go
@@ -54,7 +54,9 @@ func (w *responseWriterObserver) WriteHeader(statusCode int) {
 }
 
 func (w *responseWriterObserver) Write(p []byte) (n int, err error) {
-	if w.sc == 0 {
+	// without an explicit status, or with only an informational one (other
+	// than switching protocols), the response has an implicit one.
+	if w.sc < 200 && w.sc != http.StatusSwitchingProtocols {
 		w.sc = 200
 	}
 	return w.w.Write(p)
-- 
2.43.0


From 5fc66b02acd76242f227710c377d92af67416b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 23/25] fix: reporting a struct with a nil pointer in it panics

---
 struct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 241b715..b1a10ed 100644
--- a/struct.go
+++ b/struct.go
@@ -33,10 +33,10 @@ func (emptyStatSource) Stats(cb func(key SeriesKey, field string, val float64))
 func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	val := deref(reflect.ValueOf(structData))
 
-	typ := val.Type()
-	if typ.Kind() != reflect.Struct {
+	if val.Kind() != reflect.Struct {
 		return emptyStatSource{}
 	}
+	typ := val.Type()
 
 	return StatSourceFunc(func(cb func(key SeriesKey, field string, val float64)) {
 	nextField:
@@ -70,9 +70,9 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	})
 }
 
-// if val is a pointer, deref until it isn't
+// if val is a pointer, deref until it isn't, or until it is nil
 func deref(val reflect.Value) reflect.Value {
-	for val.Type().Kind() == reflect.Ptr {
+	for val.Kind() == reflect.Ptr && !val.IsNil() {
 		val = val.Elem()
 	}
 	return val
-- 
2.43.0


From 24b53e5b89b9d1a0de2651a7bc7fa3ecd22f51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 24/25] fix: a quote in an argument breaks the tooltip script
 of the SVG report

---
 present/trace.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index eb69785..7ef45ac 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"context"
 	"encoding/xml"
+	"fmt"
 	"io"
 	"strings"
 	"text/template"
@@ -134,7 +135,7 @@ var (
 `))
 
 	svgFunc = template.Must(template.New("func").Parse(`
-  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncName}}({{.FuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
+  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.Tooltip}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
     <clipPath id="clip-{{.SpanId}}"><rect x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}"/></clipPath>
     <rect id="rect-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}" fill="{{.SpanColor}}"/>
     <text id="text-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.TextTop}}" fill="rgb(0,0,0)" font-size="{{.FontSize}}" clip-path="url(#clip-{{.SpanId}})">{{.FuncName}}({{.FuncArgs}}) ({{.FuncDuration}})</text>
@@ -330,6 +331,7 @@ func spansToSVGElement(w io.Writer, spans []*collect.FinishedSpan) error {
 			FuncArgs          string
 			FuncDuration      string
 			FuncStartDuration string
+			Tooltip           string
 			SpanMid           int
 
 			ParentId   int64
@@ -351,7 +353,20 @@ func spansToSVGElement(w io.Writer, spans []*collect.FinishedSpan) error {
 			SpanMid:           id*(barHeight+barSep) + barHeight/2,
 		}
 
+		// the tooltip is a string of the script in an attribute, so it has to be
+		// escaped for both.
+		tooltip := fmt.Sprintf("%s(%s) Duration:%s Started:%s",
+			templateVals.FuncName, templateVals.FuncArgs,
+			templateVals.FuncDuration, templateVals.FuncStartDuration)
+
 		var buf bytes.Buffer
+		err = xml.EscapeText(&buf, []byte(template.JSEscapeString(tooltip)))
+		if err != nil {
+			return err
+		}
+		templateVals.Tooltip = buf.String()
+
+		buf.Reset()
 		err = xml.EscapeText(&buf, []byte(templateVals.FuncName))
 		if err != nil {
 			return err
-- 
2.43.0


From b5664f38cbf50f074145154594ada93e3818bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 25/25] fix: Package called in an inlined function yields the
 scope "unknown"

---
 callers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/callers.go b/callers.go
index e9cec27..2d255e1 100644
--- a/callers.go
+++ b/callers.go
@@ -25,10 +25,11 @@ func callerPackage(frames int) string {
 		return "unknown"
 	}
 	frame, _ := runtime.CallersFrames(pc[:]).Next()
-	if frame.Func == nil {
+	// frame.Func is nil for inlined functions, frame.Function is not empty.
+	if frame.Function == "" {
 		return "unknown"
 	}
-	slash_pieces := strings.Split(frame.Func.Name(), "/")
+	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
 	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
 }
-- 
2.43.0

