package simrt

import (
	"time"
	"unsafe"
)

// The clock: nowMono is simulated monotonic time in ns; the wall clock is
// wallBase + nowMono + wallSkew, and only the skew can be made to jump.
var (
	nowMono  int64
	wallSkew int64
	tick     int64 // how far each reading of the clock advances it
	timers   []*SimTimer
	timerSeq uint64
)

const (
	wallBaseSec = 1700000000
	monoBase    = int64(1) << 40
)

func resetClock() {
	nowMono, wallSkew, tick = 0, 0, 0
	prompt = false
	timers = nil
	timerSeq = 0
}

// SetTick sets how far each reading of the clock advances it.
func SetTick(ns int64) { tick = ns }

// JumpWall moves the wall clock without moving elapsed time.
func JumpWall(d time.Duration) { wallSkew += int64(d) }

// Mono is simulated elapsed time in ns.
func Mono() int64 { return nowMono }

// AddTime lets d of simulated time pass at once (a stall of the whole
// process); timers that become due fire in order.
func AddTime(d time.Duration) {
	target := nowMono + int64(d)
	for len(timers) > 0 && timers[0].at <= target {
		fireNext()
	}
	if nowMono < target {
		nowMono = target
	}
}

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const wallToInternal = int64((1884*365 + 1884/4 - 1884/100 + 1884/400)) * 86400 // 1885 based
const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400)) * 86400

// MakeTime builds a time with a wall-clock and a monotonic reading.
func MakeTime(mono, skew int64) time.Time {
	ns := mono + skew
	sec := wallBaseSec + ns/1e9
	nsec := ns % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	isec := sec + unixToInternal - wallToInternal // seconds since 1885
	var t time.Time
	if isec < 0 || isec >= 1<<33 {
		return time.Unix(sec, nsec)
	}
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(isec)<<30 | uint64(nsec)
	r.ext = monoBase + mono
	r.loc = time.Local
	return t
}

func init() {
	a, b := MakeTime(5, 0), MakeTime(1005, -int64(time.Hour))
	if b.Sub(a) != 1000 || a.Unix() != wallBaseSec || !b.Round(0).Before(a.Round(0)) || unsafe.Sizeof(rawTime{}) != unsafe.Sizeof(a) {
		panic("simrt: time.Time layout is not the expected one")
	}
}

// Now reads the simulated clock.
//
//go:noinline
func Now() time.Time {
	if !active {
		return time.Now()
	}
	Y()
	nowMono += tick
	return MakeTime(nowMono, wallSkew)
}

// Peek is the current simulated time without any effect.
func Peek() time.Time { return MakeTime(nowMono, wallSkew) }

// SimTimer is one pending event.
type SimTimer struct {
	at     int64
	seq    uint64
	period int64
	fire   func()
	on     bool
}

func timerLess(a, b *SimTimer) bool {
	return a.at < b.at || (a.at == b.at && a.seq < b.seq)
}

func addTimer(t *SimTimer) {
	timerSeq++
	t.seq = timerSeq
	t.on = true
	i := len(timers)
	timers = append(timers, t)
	for i > 0 && timerLess(timers[i], timers[i-1]) {
		timers[i], timers[i-1] = timers[i-1], timers[i]
		i--
	}
}

func delTimer(t *SimTimer) bool {
	if !t.on {
		return false
	}
	t.on = false
	for i, x := range timers {
		if x == t {
			timers = Without(timers, i)
			return true
		}
	}
	return false
}

func fireNext() {
	t := timers[0]
	timers = timers[1:]
	if t.at > nowMono {
		nowMono = t.at
	}
	t.on = false
	if t.period > 0 {
		t.at += t.period
		if t.at <= nowMono {
			t.at = nowMono + t.period
		}
		addTimer(t)
	}
	recheck = true
	raceDisable()
	t.fire()
	raceEnable()
}

// StartTimer arranges for fire to be called by the scheduler after d; fire
// must not block.
func StartTimer(d, period time.Duration, fire func()) *SimTimer {
	if d < 0 {
		d = 0
	}
	t := &SimTimer{at: nowMono + int64(d), period: int64(period), fire: fire}
	addTimer(t)
	return t
}

func (t *SimTimer) Stop() bool { return delTimer(t) }

// Reset re-arms t.
func (t *SimTimer) Reset(d time.Duration) bool {
	was := delTimer(t)
	if d < 0 {
		d = 0
	}
	t.at = nowMono + int64(d)
	addTimer(t)
	return was
}

func (t *SimTimer) SetPeriod(p time.Duration) { t.period = int64(p) }

// PendingTimers is the number of timers armed.
func PendingTimers() int { return len(timers) }

// Sleep blocks the calling goroutine for d of simulated time.
//
//go:noinline
func Sleep(d time.Duration) {
	if !active {
		time.Sleep(d)
		return
	}
	Y()
	if d <= 0 || killing || ending {
		if killing {
			killedYield()
		}
		return
	}
	g := cg
	StartTimer(d, 0, func() { unblock(g) })
	block("sleep", nil)
}

// AfterFunc arranges for f to run in a goroutine of its own after d.
func AfterFunc(d time.Duration, f func()) *SimTimer {
	t := &SimTimer{}
	RaceReleaseMerge(unsafe.Pointer(&t.seq))
	if d < 0 {
		d = 0
	}
	t.at = nowMono + int64(d)
	t.fire = func() {
		if killing || ending {
			return
		}
		g := newG("AfterFunc")
		startG(g, func() {
			RaceAcquire(unsafe.Pointer(&t.seq))
			f()
		})
	}
	addTimer(t)
	return t
}
