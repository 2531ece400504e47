package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"simrt"
	"simrt/context"

	"github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func init() { register(&Scenario{ID: "P15", Body: p15}) }

var (
	prHopSampled  = probe("sampled request handled in its caller's trace")
	prHopFresh    = probe("unsampled or malformed request handled in a fresh trace")
	prHopForced   = probe("forced-sample request answered with its ids")
	prHopNeg      = probe("an id with its highest bit set crossed a hop")
	prHopDeep     = probe("trace crossed three hops")
	prHopDup      = probe("both copies of a duplicated request handled")
	prHopStale    = probe("request already carried a trace header of an earlier use")
	prHopSampleCB = probe("sampled request handled in a trace with a sampling callback")
)

var errNet = errors.New("connection lost")

type hopCtx struct{ n int }

const (
	hkCall = iota
	hkDelivery
	hkBase
	hkObs
)

// hop is one planned request.
type hop struct {
	n       *netw
	id      int
	depth   int
	raw     bool // made by a client that does no tracing
	forced  bool
	tp      string // traceparent of a raw request
	bag     []string
	fault   int
	method  string
	delay   int64
	status  int // 0: the handler only writes the body
	info    int // informational status first
	body    string
	flush   bool
	panic   bool
	spans   int
	async   bool
	next    []*hop
	corrupt int
	nilHdr  bool
	stale   string // a trace header of an earlier use of the request
	cut     int    // 1 + the bytes of the response that the connection still takes

	forcedHow int

	// history
	caller *monkit.Span
	resp   *http.Response
	err    error
	did    int
	begun  bool
}

// delivery is one request that reached a server.
type delivery struct {
	c        *hop
	header   http.Header
	handled  bool
	trace    *monkit.Trace
	span     *monkit.Span
	status   int
	rec      *response
	finishes int
}

type response struct {
	header http.Header
	status int
	sent   bool
	body   bytes.Buffer
	flush  int
	cut    int
}

func (r *response) Header() http.Header { return r.header }
func (r *response) WriteHeader(s int) {
	simrt.Y()
	if s >= 200 && !r.sent {
		r.status, r.sent = s, true
	}
}
func (r *response) Write(p []byte) (int, error) {
	simrt.Y()
	if !r.sent {
		r.status, r.sent = 200, true
	}
	if r.cut > 0 && r.body.Len()+len(p) > r.cut-1 {
		simrt.Fault(FTornWrite)
		n := r.cut - 1 - r.body.Len()
		r.body.Write(p[:n])
		return n, errNet
	}
	return r.body.Write(p)
}

type respBody struct {
	*bytes.Reader
	closed bool
}

func (b *respBody) Close() error { b.closed = true; return nil }

type flushResponse struct{ *response }

func (r flushResponse) Flush() {
	if !r.sent {
		r.status, r.sent = 200, true
	}
	r.response.flush++
}

// netw is the simulated network, its servers included.
type netw struct {
	r       *monkit.Registry
	cs, ss  *monkit.Scope
	handler http.Handler
	allowed map[string]bool
	calls   []*hop
	ids     map[int64]bool // trace ids that are not fresh
	fresh   map[int64]bool
	g       group
	ctxObs  bool
	plain   bool
	sampleC bool                  // traces carry a sampling callback
	sampled map[*monkit.Trace]int // its calls
}

// bagKeys are the keys of baggage; some are parts of others.
var bagKeys = []string{"k", "user", "z", "secret", "username", "kk", "use", "K", "zuser"}

func edgeID() int64 {
	switch plan(8) {
	case 1:
		return math.MaxInt64
	case 2:
		return -1
	case 3:
		return math.MinInt64
	case 4:
		return math.MinInt64 + int64(plan(1000))
	case 5:
		return 0
	case 6:
		return int64(uint64(1) << uint(plan(64)))
	}
	return int64(uint64(plan(1<<30))<<34 ^ uint64(plan(1<<30))<<4 ^ uint64(plan(16)))
}

func p15() {
	n := &netw{r: monkit.NewRegistry(), ids: map[int64]bool{}, fresh: map[int64]bool{}, allowed: map[string]bool{}}
	n.cs, n.ss = n.r.ScopeNamed("client"), n.r.ScopeNamed("server")
	var allowed []string
	for _, k := range []string{"k", "user", "z"} {
		if plan(2) == 1 {
			n.allowed[k] = true
			allowed = append(allowed, k)
		}
	}
	n.ctxObs = plan(2) == 1
	n.plain = plan(2) == 1
	n.sampleC, n.sampled = plan(2) == 1, map[*monkit.Trace]int{}
	n.handler = mhttp.TraceHandler(http.HandlerFunc(n.handle), n.ss, allowed...)
	n.r.ObserveTraces(func(t *monkit.Trace) {
		if n.sampleC {
			t.Set(present.SampledCBKey, func(u *monkit.Trace) {
				if u != t {
					fail("sampling-callback", "the sampling callback of a trace was given another trace")
				}
				n.sampled[t]++
			})
		}
		if n.ctxObs {
			t.ObserveSpansCtx(hopObsCtx{n})
		} else {
			t.ObserveSpans(hopObs{n})
		}
	})
	budget := 8
	var roots []*hop
	for k := between(1, 4); k > 0 && budget > 0; k-- {
		roots = append(roots, n.gen(1, &budget))
	}
	var g group
	for i, c := range roots {
		c := c
		sampled := plan(2) == 1
		id := edgeID()
		n.ids[id] = true
		noSpan := !sampled && plan(3) == 1
		t := monkit.NewTrace(id)
		if sampled {
			t.Set(present.SampledKey, true)
		}
		f := n.r.ScopeNamed("app").FuncNamed(fmt.Sprintf("f%d", i))
		pid := edgeID()
		g.Go(fmt.Sprintf("client %d", i), func() {
			ctx := context.Background()
			if !noSpan {
				defer f.RemoteTrace(&ctx, pid, t)(nil)
			}
			n.send(ctx, c)
		})
	}
	g.Wait()
	n.g.Wait()
	for _, c := range n.calls {
		if !c.raw && c.did != 0 && c.did != 2 {
			fail("client-span", "a traced request finished its span %d times", c.did-1)
		}
	}
	noLeaks()
}

func (n *netw) gen(depth int, budget *int) *hop {
	*budget--
	c := &hop{n: n, id: len(n.calls), depth: depth}
	n.calls = append(n.calls, c)
	c.method = []string{"GET", "POST", "PUT"}[plan(3)]
	if plan(4) == 1 {
		c.raw = true
		switch plan(4) {
		case 1:
			c.forced = true
		case 2, 3:
			t, p := edgeID(), edgeID()
			n.ids[t] = true
			c.tp = fmt.Sprintf("00-%016x-%016x-%s", uint64(t), uint64(p), []string{"01", "00", "1", "0", "03", "02", "ff", "fe"}[plan(8)])
		}
	}
	from := plan(len(bagKeys))
	for k := plan(4); k > 0; k-- {
		key := bagKeys[(from+k)%len(bagKeys)]
		c.bag = append(c.bag, key+"="+[]string{"v", "", "a=b", "x y"}[plan(4)])
	}
	c.fault = plan(8)
	c.delay = int64(plan(4)) * 1000
	if plan(3) > 0 {
		c.status = []int{200, 204, 301, 404, 500, 503, 599, 200 + plan(400)}[plan(8)]
	}
	if pchance(4) {
		c.info = []int{100, 102, 103}[plan(3)]
	}
	if c.forced && pchance(2) {
		c.forcedHow = 1 + plan(3)
	}
	c.body = strings.Repeat("b", plan(4))
	c.flush = plan(2) == 1
	c.panic = pchance(8)
	if pchance(6) && c.body != "" {
		c.cut = 1 + plan(len(c.body))
	}
	c.spans = plan(3)
	c.async = plan(2) == 1
	c.corrupt = plan(15)
	if pchance(5) {
		t := edgeID()
		n.ids[t] = true
		c.stale = fmt.Sprintf("00-%016x-%016x-0%d", uint64(t), uint64(edgeID()), plan(2))
	}
	c.nilHdr = pchance(6) && !c.raw && len(c.bag) == 0
	if depth < 4 {
		for k := plan(3); k > 0 && *budget > 0; k-- {
			c.next = append(c.next, n.gen(depth+1, budget))
		}
	}
	return c
}

// uri is the address of the request c.
func (c *hop) uri() string {
	return fmt.Sprintf("http://h/%d?q=1%s", c.id, []string{"", "&p=a%2Fb", "&e=a%20b+c", "&x=%25%3D"}[c.id%4])
}

// send makes the request c from ctx.
func (n *netw) send(ctx context.Context, c *hop) {
	u, _ := url.Parse(c.uri())
	req := &http.Request{Method: c.method, URL: u, Header: http.Header{}}
	if len(c.bag) > 0 {
		req.Header.Set("baggage", strings.Join(c.bag, ","))
	}
	if c.tp != "" {
		req.Header.Set("traceparent", c.tp)
	}
	if c.forced {
		req.Header.Set("tracestate", []string{"sampled=true", "vendor=1,sampled=true", "sampled=true,x=y", "a=b, sampled=true"}[c.forcedHow])
	}
	if c.nilHdr {
		req.Header = nil
	}
	ctx = context.WithValue(ctx, hopCtx{hkCall}, c)
	if c.raw {
		c.Do(req)
		return
	}
	c.caller = monkit.SpanFromCtx(ctx)
	if c.stale != "" && c.caller != nil && req.Header != nil {
		if sampled, _ := c.caller.Trace().Get(present.SampledKey).(bool); sampled {
			req.Header.Set("traceparent", c.stale)
			hit(prHopStale)
		}
	}
	resp, err := mhttp.TraceRequest(ctx, n.cs, c, req)
	if resp != c.resp || err != c.err {
		fail("response-changed", "the client returned response %p and error %v, the caller received %p and %v", c.resp, c.err, resp, err)
	}
	if err == nil {
		b := resp.Body.(*respBody)
		if got, _ := io.ReadAll(b); b.closed || string(got) != c.body {
			fail("response-changed", "the client returned the body %q, the caller received %q (closed: %v)", c.body, got, b.closed)
		}
	}
	if c.did == 0 {
		fail("request-lost", "a traced request was never given to the client")
	}
	if c.did != 2 {
		fail("client-span", "the span of a traced request had finished %d times when it returned", c.did-1)
	}
}

// Do is the client below the tracing: it brings requests to the server.
func (c *hop) Do(req *http.Request) (*http.Response, error) {
	n := c.n
	simrt.Y()
	c.did++
	if c.did > 1 && !c.raw {
		fail("request-repeated", "a traced request was given to the client twice")
	}
	if !c.raw {
		tp := req.Header.Get("traceparent")
		var sampled bool
		if c.caller != nil {
			sampled, _ = c.caller.Trace().Get(present.SampledKey).(bool)
		}
		if sampled {
			t, p, s, ok := parseTP(tp)
			if !ok || t != c.caller.Trace().Id() || p != c.caller.Id() || !s {
				fail("header", "a request from span %d of the sampled trace %d carries the trace header %q", c.caller.Id(), c.caller.Trace().Id(), tp)
			}
		} else if tp != "" || strings.Contains(req.Header.Get("tracestate"), "sampled") {
			fail("header", "a request from an unsampled trace carries the trace headers %v", req.Header)
		}
	}
	h := http.Header{}
	for k, v := range req.Header {
		h[k] = append([]string(nil), v...)
	}
	n.damage(c, h)
	wait := func() {
		if c.delay > 0 {
			simrt.Fault(FNetDelay)
			nap(c.delay)
		}
	}
	wait()
	switch c.fault {
	case 1:
		simrt.Fault(FNetLoss)
		c.err = errNet
		return nil, errNet
	case 2:
		simrt.Fault(FNetRespLoss)
		n.serve(c, req, h)
		wait()
		c.err = io.ErrUnexpectedEOF
		return nil, c.err
	case 3:
		simrt.Fault(FNetDup)
		h2 := http.Header{}
		for k, v := range h {
			h2[k] = append([]string(nil), v...)
		}
		n.g.Go(fmt.Sprintf("duplicate %d", c.id), func() {
			wait()
			n.serve(c, req, h2)
			hit(prHopDup)
		})
	case 4:
		// a client that returns both
		c.resp, c.err = &http.Response{StatusCode: 502, Header: http.Header{}}, errNet
		simrt.Fault(FNetLoss)
		return c.resp, c.err
	}
	d := n.serve(c, req, h)
	wait()
	if d == nil {
		c.err = errNet // the handler panicked: the connection is closed
		return nil, c.err
	}
	if c.cut > 0 {
		c.err = errNet
		return nil, c.err
	}
	c.resp = &http.Response{StatusCode: d.rec.status, Header: d.rec.header, Body: &respBody{Reader: bytes.NewReader(d.rec.body.Bytes())}}
	return c.resp, nil
}

// damage alters the headers on their way.
func (n *netw) damage(c *hop, h http.Header) {
	if c.fault != 5 {
		return
	}
	simrt.Fault(FNetCorrupt)
	tp := h.Get("traceparent")
	switch c.corrupt {
	case 0:
		h.Del("traceparent")
		return
	case 1:
		if len(tp) > 5 {
			tp = tp[:5]
		} else {
			tp = "00"
		}
	case 2:
		tp = strings.Replace(tp, "0", "z", 4)
	case 3:
		tp += "-00"
	case 4:
		tp = "----"
	case 5:
		tp = "00---"
	case 6:
		if len(tp) > 2 {
			tp = "01" + tp[2:]
		}
	case 7:
		tp = "00-+1-+2-01"
	case 8:
		tp = "\x00\xff garbage 00-1-2-01"
	default:
		// one part alone
		parts := strings.Split(tp, "-")
		if len(parts) != 4 {
			parts = []string{"00", "5eed0000000000a1", "00000000000000b2", "01"}
			n.ids[0x5eed0000000000a1] = true
		}
		switch c.corrupt {
		case 9:
			parts[0] = "zz"
		case 10:
			parts[1] = "z" + parts[1][1:]
		case 11:
			parts[2] = parts[2][:1] + " " + parts[2][1:]
		case 12:
			parts[3] = "0x"
		case 13:
			parts[2] = ""
		case 14:
			parts[3] = ""
		}
		tp = strings.Join(parts, "-")
	}
	if tp == "" {
		tp = "x"
	}
	h.Set("traceparent", tp)
}

var tpRe = regexp.MustCompile(`^00-([0-9a-f]{1,16})-([0-9a-f]{1,16})-([0-9a-f]{1,2})$`)

func parseTP(s string) (trace, parent int64, sampled, ok bool) {
	m := tpRe.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, false, false
	}
	t, _ := strconv.ParseUint(m[1], 16, 64)
	p, _ := strconv.ParseUint(m[2], 16, 64)
	f, _ := strconv.ParseUint(m[3], 16, 64)
	return int64(t), int64(p), f&1 == 1, true
}

// serve runs the traced handler; nil means that it panicked.
func (n *netw) serve(c *hop, req *http.Request, h http.Header) *delivery {
	d := &delivery{c: c, header: h, rec: &response{header: http.Header{}, cut: c.cut}}
	base := context.WithValue(context.Background(), hopCtx{hkDelivery}, d)
	base, cancel := context.WithTimeout(base, time.Hour)
	defer cancel()
	base = context.WithValue(base, hopCtx{hkBase}, base)
	r := (&http.Request{Method: req.Method, URL: req.URL, RequestURI: req.URL.RequestURI(), Header: h}).WithContext(base)
	var w http.ResponseWriter = d.rec
	if !n.plain {
		w = flushResponse{d.rec}
	}
	pv, panicked := guarded(func() { n.handler.ServeHTTP(w, r) })
	if panicked != c.panic || panicked && pv != errPlain {
		fail("panic-changed", "a handler ended with a panic: %v; its server saw a panic: %v (%v)", c.panic, panicked, pv)
	}
	if !d.handled {
		fail("request-lost", "a request that reached the server did not reach its handler")
	}
	if d.finishes != 1 {
		fail("server-span", "the span of a handled request had finished %d times when its handler returned", d.finishes)
	}
	if panicked {
		return nil
	}
	if c.cut > 0 {
		if d.rec.body.String() != c.body[:c.cut-1] {
			fail("response-changed", "a handler answered %q, of which %d bytes could be written; the response is %q", c.body, c.cut-1, d.rec.body.String())
		}
	} else if d.rec.body.String() != c.body {
		fail("response-changed", "a handler answered %q, the response is %q", c.body, d.rec.body.String())
	}
	if !d.rec.sent {
		d.rec.status, d.rec.sent = 200, true // by the server
	}
	if d.rec.status != d.status {
		fail("response-changed", "a handler answered status %d, the response is %d", d.status, d.rec.status)
	}
	return d
}

// handle is the traced handler.
func (n *netw) handle(w http.ResponseWriter, r *http.Request) {
	ctx := r.Context()
	d, _ := ctx.Value(hopCtx{hkDelivery}).(*delivery)
	if d == nil {
		fail("context-lost", "the handler's context does not carry the values of the request's")
	}
	c := d.c
	if d.handled {
		fail("request-repeated", "a request was handled twice")
	}
	d.handled = true
	base := ctx.Value(hopCtx{hkBase}).(context.Context)
	a, _ := ctx.Deadline()
	if b, ok := base.Deadline(); !ok || !a.Equal(b) {
		fail("context-lost", "the handler's context does not have the deadline of the request's")
	}
	s := monkit.SpanFromCtx(ctx)
	if s == nil {
		fail("no-span", "the handler's context carries no span")
	}
	d.span, d.trace = s, s.Trace()
	if n.ctxObs {
		if v, _ := ctx.Value(hopCtx{hkObs}).(int64); v != s.Id() {
			fail("observer-context", "the handler's context is not the one the span's observer returned")
		}
	}
	if r.Method != c.method || r.URL == nil || r.URL.Path != fmt.Sprintf("/%d", c.id) {
		fail("request-changed", "the handler received %s %v for request %d (%s)", r.Method, r.URL, c.id, c.method)
	}
	sampled, _ := s.Trace().Get(present.SampledKey).(bool)
	t, p, sam, ok := parseTP(d.header.Get("traceparent"))
	imported := false
	switch {
	case ok && sam:
		imported = true
		hit(prHopSampled)
		if c.depth >= 3 && !c.raw {
			hit(prHopDeep)
		}
		if t < 0 || p < 0 {
			hit(prHopNeg)
		}
		gp, has := s.ParentId()
		if s.Trace().Id() != t || !has || gp != p {
			fail("identity", "a request with the trace header %q (trace %d, parent %d) was handled in trace %d with parent %d (%v)", d.header.Get("traceparent"), t, p, s.Trace().Id(), gp, has)
		}
		if !sampled {
			fail("sampled", "a sampled request (%q) is handled unsampled", d.header.Get("traceparent"))
		}
	case ok:
		imported = true
		if sampled {
			fail("sampled", "an unsampled request (%q) is handled sampled", d.header.Get("traceparent"))
		}
	default:
		hit(prHopFresh)
		id := s.Trace().Id()
		if n.fresh[id] || n.ids[id] {
			fail("identity", "a request with the trace header %q was handled in trace %d, which is not new", d.header.Get("traceparent"), id)
		}
		n.fresh[id] = true
		if d.header.Get("traceparent") == "" {
			forced := strings.Contains(d.header.Get("tracestate"), "sampled=true")
			if sampled != forced {
				fail("sampled", "a request without trace parent, sampling forced: %v, is handled sampled: %v", forced, sampled)
			}
		} else if sampled && d.header.Get("tracestate") == "" {
			fail("sampled", "a request with the malformed trace header %q is handled sampled", d.header.Get("traceparent"))
		}
	}
	ti, ci := w.Header().Get("trace-id"), w.Header().Get("child-id")
	if d.header.Get("traceparent") == "" && strings.Contains(d.header.Get("tracestate"), "sampled=true") {
		hit(prHopForced)
		if ti != strconv.FormatUint(uint64(s.Trace().Id()), 16) || ci != strconv.FormatUint(uint64(s.Id()), 16) {
			fail("forced-ids", "a forced-sample request handled by span %x of trace %x gets the ids %q and %q", s.Id(), s.Trace().Id(), ci, ti)
		}
	}
	if n.sampleC && sampled {
		hit(prHopSampleCB)
		if k := n.sampled[s.Trace()]; k != 1 {
			fail("sampling-callback", "the sampling callback of a sampled request's trace had run %d times when its handler began", k)
		}
	}
	n.baggage(d, s, imported)
	f, isFlusher := w.(http.Flusher)
	if isFlusher == n.plain {
		fail("response-changed", "the handler's response can be flushed: %v, the server's: %v", isFlusher, !n.plain)
	}
	var g group
	for i := 0; i < c.spans; i++ {
		cc := ctx
		func() {
			defer n.r.ScopeNamed("app").FuncNamed("work").Task(&cc)(nil)
			if k := monkit.SpanFromCtx(cc); k.Trace() != s.Trace() {
				fail("identity", "work done by a handler is not in the handler's trace")
			}
		}()
	}
	for _, k := range c.next {
		k := k
		if c.async {
			g.Go(fmt.Sprintf("hop %d", k.id), func() { n.nextHop(ctx, k) })
		} else {
			n.nextHop(ctx, k)
		}
	}
	g.Wait()
	if c.panic {
		simrt.Fault(FHandlerPanic)
		panic(errPlain)
	}
	d.status = 200
	if c.info != 0 && (c.status != 0 || c.body != "") {
		w.WriteHeader(c.info)
	}
	if c.status != 0 {
		d.status = c.status
		w.WriteHeader(c.status)
	}
	if c.body != "" {
		if m, err := w.Write([]byte(c.body)); c.cut > 0 {
			if m != c.cut-1 || err != errNet {
				fail("response-changed", "the connection took %d bytes of the response and failed; the handler was told %d, %v", c.cut-1, m, err)
			}
		} else if m != len(c.body) || err != nil {
			fail("response-changed", "writing %d bytes of the response returned %d, %v", len(c.body), m, err)
		}
	}
	if isFlusher && c.flush {
		f.Flush()
		if d.rec.flush == 0 {
			fail("response-changed", "flushing the response did not reach the server")
		}
	}
}

// nextHop sends k unless a duplicate of the handled request already did.
func (n *netw) nextHop(ctx context.Context, k *hop) {
	if !k.begun {
		k.begun = true
		n.send(ctx, k)
	}
}

func (n *netw) baggage(d *delivery, s *monkit.Span, imported bool) {
	want := map[string]string{}
	if imported && d.header.Get("baggage") != "" {
		for _, kv := range d.c.bag {
			i := strings.Index(kv, "=")
			if n.allowed[kv[:i]] {
				want[kv[:i]] = kv[i+1:]
			}
		}
	}
	for _, a := range s.Annotations() {
		key := false
		for _, k := range bagKeys {
			key = key || a.Name == k
		}
		if key {
			v, ok := want[a.Name]
			if !ok && imported || ok && v != a.Value || !n.allowed[a.Name] {
				fail("baggage", "annotation %s=%s was imported; allowed are %v of the baggage %q", a.Name, a.Value, n.allowed, d.header.Get("baggage"))
			}
			delete(want, a.Name)
		}
	}
	if len(want) > 0 {
		fail("baggage", "allowed baggage %v was not imported", want)
	}
}

type hopObs struct{ n *netw }
type hopObsCtx struct{ n *netw }

func (o hopObs) Start(s *monkit.Span) {}
func (o hopObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.n.finished(s, err, panicked)
}

func (o hopObsCtx) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, hopCtx{hkObs}, s.Id())
}
func (o hopObsCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.n.finished(s, err, panicked)
}

func annotation(s *monkit.Span, name string) (v string, n int) {
	for _, a := range s.Annotations() {
		if a.Name == name {
			v = a.Value
			n++
		}
	}
	return v, n
}

func (n *netw) finished(s *monkit.Span, err error, panicked bool) {
	code, has := annotation(s, "http.responsecode")
	uri, uris := annotation(s, "http.uri")
	switch s.Func().Scope() {
	case n.cs:
		c := s.Value(hopCtx{hkCall}).(*hop)
		c.did++
		if want := c.uri(); uris != 1 || uri != want {
			fail("recorded", "a request of %s was recorded as one of %q (%d times)", want, uri, uris)
		}
		if err != c.err || panicked {
			fail("recorded", "a request whose client returned the error %v was recorded with %v (panic: %v)", c.err, err, panicked)
		}
		if c.err == nil && (has != 1 || code != strconv.Itoa(c.resp.StatusCode)) {
			fail("recorded", "a request answered with status %d was recorded with %q", c.resp.StatusCode, code)
		}
	case n.ss:
		d := s.Value(hopCtx{hkDelivery}).(*delivery)
		d.finishes++
		if want := strings.TrimPrefix(d.c.uri(), "http://h"); uris != 1 || uri != want {
			fail("recorded", "a handled request of %s was recorded as one of %q (%d times)", want, uri, uris)
		}
		if err != nil && !d.c.panic || panicked != d.c.panic {
			fail("recorded", "a handled request (panics: %v) was recorded with error %v, panic %v", d.c.panic, err, panicked)
		}
		if !panicked && (has != 1 || code != strconv.Itoa(d.status)) {
			fail("recorded", "a request answered with status %d was recorded with %q", d.status, code)
		}
	}
}
