package simrt

import (
	"runtime"
	"unsafe"
)

// Channels stay real Go channels. Buffered and closed ones are operated on
// with non-blocking real operations; a goroutine that cannot proceed is parked
// and polled. Rendezvous on unbuffered channels is arranged here.

type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func init() {
	c := make(chan int32, 3)
	c <- 1
	h := *(**hchan)(unsafe.Pointer(&c))
	ok := h.qcount == 1 && h.dataqsiz == 3 && h.elemsize == 4 && h.closed == 0
	close(c)
	if !ok || h.closed == 0 {
		panic("simrt: channel layout is not the expected one")
	}
}

type waiter struct {
	g     *G
	sel   *selState
	idx   int
	val   unsafe.Pointer // *T: value being sent, or where to receive
	ok    bool
	done  bool
	tok   int32
	next  *waiter
	queue *chanQ
}

type selState struct{ fired int }

type chanQ struct {
	ch         unsafe.Pointer
	send, recv []*waiter
	next       *chanQ
}

const chBuckets = 64

var chTab [chBuckets]*chanQ

func resetChans() {
	for i := range chTab {
		chTab[i] = nil
	}
}

func chq(ch unsafe.Pointer) *chanQ {
	i := (uintptr(ch) >> 5) % chBuckets
	for q := chTab[i]; q != nil; q = q.next {
		if q.ch == ch {
			return q
		}
	}
	q := &chanQ{ch: ch, next: chTab[i]}
	chTab[i] = q
	return q
}

func firstWaiting(ws *[]*waiter, not *selState) *waiter {
	for len(*ws) > 0 {
		w := (*ws)[0]
		if w.done || (w.sel != nil && w.sel.fired >= 0) {
			*ws = (*ws)[1:]
			continue
		}
		if w.sel != nil && w.sel == not {
			break
		}
		return w
	}
	for _, w := range *ws {
		if !w.done && (w.sel == nil || (w.sel.fired < 0 && w.sel != not)) {
			return w
		}
	}
	return nil
}

func (w *waiter) complete() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w.idx
	}
	unblock(w.g)
}

//go:norace
func ptrOfSend[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func ptrOfRecv[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func hc(p unsafe.Pointer) *hchan { return (*hchan)(p) }

// Send returns the send operation on ch.
//
//go:norace
//go:noinline
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		c := &SC[T]{ch: ch, v: v}
		Select(false, c)
	}
}

// Recv receives from ch.
//
//go:norace
//go:noinline
func Recv[T any](ch <-chan T) T {
	c := &RC[T]{ch: ch}
	Select(false, c)
	return c.V
}

// Recv2 receives from ch with the ok flag.
//
//go:norace
//go:noinline
func Recv2[T any](ch <-chan T) (T, bool) {
	c := &RC[T]{ch: ch}
	Select(false, c)
	return c.V, c.OK
}

// Close closes ch.
//
//go:norace
//go:noinline
func Close[T any](ch chan<- T) {
	YS()
	close(ch)
	recheck = true
}

// Case is one case of a select.
type Case interface {
	ptr() unsafe.Pointer
	isSend() bool
	elem() unsafe.Pointer
	try() bool // real non-blocking operation (buffered or closed channels)
	take(w *waiter)
	setOK(ok bool)
}

// SC is a send case, RC a receive case.
type SC[T any] struct {
	ch chan<- T
	v  T
}

type RC[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

//go:norace
//go:noinline
func SendCase[T any](ch chan<- T) func(v T) *SC[T] {
	return func(v T) *SC[T] { return &SC[T]{ch: ch, v: v} }
}

//go:norace
//go:noinline
func RecvCase[T any](ch <-chan T) *RC[T] { return &RC[T]{ch: ch} }

func (c *SC[T]) ptr() unsafe.Pointer  { return ptrOfSend(c.ch) }
func (c *SC[T]) isSend() bool         { return true }
func (c *SC[T]) elem() unsafe.Pointer { return unsafe.Pointer(&c.v) }
func (c *SC[T]) setOK(bool)           {}

//go:norace
func (c *SC[T]) try() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

//go:norace
func (c *SC[T]) take(w *waiter) { *(*T)(w.val) = c.v; w.ok = true }

func (c *RC[T]) ptr() unsafe.Pointer  { return ptrOfRecv(c.ch) }
func (c *RC[T]) isSend() bool         { return false }
func (c *RC[T]) elem() unsafe.Pointer { return unsafe.Pointer(&c.V) }
func (c *RC[T]) setOK(ok bool)        { c.OK = ok }

//go:norace
func (c *RC[T]) try() bool {
	select {
	case v, ok := <-c.ch:
		c.V, c.OK = v, ok
		return true
	default:
		return false
	}
}

//go:norace
func (c *RC[T]) take(w *waiter) { c.V = *(*T)(w.val); c.OK = true }

func caseReady(c Case, st *selState) bool {
	p := c.ptr()
	if p == nil {
		return false
	}
	h := hc(p)
	if h.closed != 0 {
		return true
	}
	if h.dataqsiz > 0 {
		if c.isSend() {
			return h.qcount < h.dataqsiz
		}
		return h.qcount > 0
	}
	q := chq(p)
	if c.isSend() {
		return firstWaiting(&q.recv, st) != nil
	}
	return firstWaiting(&q.send, st) != nil
}

// perform executes a ready case.
func perform(c Case, st *selState) bool {
	p := c.ptr()
	h := hc(p)
	if h.closed != 0 || h.dataqsiz > 0 {
		recheck = true
		return c.try() // panics for a send on a closed channel, as it should
	}
	q := chq(p)
	if c.isSend() {
		w := firstWaiting(&q.recv, st)
		if w == nil {
			return false
		}
		c.take(w)
		RaceReleaseMerge(unsafe.Pointer(&w.tok))
		w.complete()
		return true
	}
	w := firstWaiting(&q.send, st)
	if w == nil {
		return false
	}
	RaceAcquire(unsafe.Pointer(&w.tok))
	c.take(w)
	RaceReleaseMerge(unsafe.Pointer(&w.tok))
	w.complete()
	return true
}

// Select performs one ready case and returns its index, or -1 for default.
//
//go:noinline
func Select(hasDefault bool, cases ...Case) int {
	if !active {
		// outside a run: only simple uses (package initialisation)
		for i, c := range cases {
			if c.ptr() != nil && c.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("simrt: blocking channel operation outside a run")
	}
	YS()
	for {
		if killing || ending {
			runtime.Goexit()
		}
		var st *selState
		n := 0
		first := -1
		for i, c := range cases {
			if caseReady(c, nil) {
				n++
				if first < 0 {
					first = i
				}
			}
		}
		if n > 0 {
			k := 0
			if n > 1 {
				k = EnvS.N(n)
			}
			for i, c := range cases {
				if caseReady(c, nil) {
					if k == 0 {
						if perform(c, nil) {
							return i
						}
						break
					}
					k--
				}
			}
			continue
		}
		if hasDefault {
			return -1
		}
		// wait
		st = &selState{fired: -1}
		var ws []*waiter
		for i, c := range cases {
			p := c.ptr()
			if p == nil {
				continue
			}
			if h := hc(p); h.dataqsiz > 0 {
				continue
			}
			w := &waiter{g: cg, sel: st, idx: i, val: c.elem()}
			q := chq(p)
			if c.isSend() {
				RaceReleaseMerge(unsafe.Pointer(&w.tok))
				q.send = append(q.send, w)
			} else {
				RaceReleaseMerge(unsafe.Pointer(&w.tok))
				q.recv = append(q.recv, w)
			}
			ws = append(ws, w)
		}
		why := "channel"
		if len(cases) > 1 {
			why = "select"
		} else if len(cases) == 0 {
			why = "select{}"
		}
		block(why, func() bool {
			if st.fired >= 0 {
				return true
			}
			for _, c := range cases {
				if caseReady(c, st) {
					return true
				}
			}
			return false
		})
		if st.fired >= 0 {
			i := st.fired
			for _, w := range ws {
				if w.idx == i {
					RaceAcquire(unsafe.Pointer(&w.tok))
				}
			}
			cases[i].setOK(true)
			return i
		}
		st.fired = len(cases) // withdraw our offers, then look again
	}
}
