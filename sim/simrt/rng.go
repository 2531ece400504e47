package simrt

// Rng is a splitmix64 generator: the only source of randomness in a run.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Stream is a recorded sequence of choices. When generating, choices come from
// the generator and are recorded; when replaying, they come from the recorded
// list, and from 0 (the simplest choice) once that is exhausted.
type Stream struct {
	rng    *Rng
	replay []uint32
	live   bool
	pos    int
	Rec    []uint32
}

func newStream(seed uint64, replay []uint32, live bool) *Stream {
	return &Stream{rng: NewRng(seed), replay: replay, live: live}
}

func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	if int64(n) > 1<<31 {
		k := (n + 0xffff) >> 16
		return (s.N(1<<16)*k + s.N(k)) % n
	}
	var v uint32
	if s.live {
		v = uint32(s.rng.Uint64() % uint64(n))
	} else if s.pos < len(s.replay) {
		v = s.replay[s.pos] % uint32(n)
	}
	s.pos++
	if len(s.Rec) < 1<<20 {
		s.Rec = append(s.Rec, v)
	}
	return int(v)
}
