package model

// Src is the single source of choices of a run. In generating mode every draw
// comes from one seeded generator and is recorded; in replay mode the recorded
// numbers are used, and 0 (always the simplest choice) once they run out.
type Src struct {
	rng    uint64
	replay bool
	in     []uint64
	pos    int
	Rec    []uint64
}

// NewSrc returns a generating source.
func NewSrc(seed uint64) *Src {
	s := &Src{rng: seed}
	s.next()
	return s
}

// ReplaySrc returns a source that replays recorded choices.
func ReplaySrc(in []uint64) *Src { return &Src{replay: true, in: in} }

func (s *Src) next() uint64 {
	s.rng += 0x9E3779B97F4A7C15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix derives a run's seed.
func Mix(a, b uint64) uint64 {
	s := Src{rng: a*0x9E3779B97F4A7C15 ^ b*0xD1B54A32D192ED03 ^ 0x5851F42D4C957F2D}
	s.next()
	return s.next()
}

// N draws from 0..n-1; 0 is the simplest choice.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos] % uint64(n)
			s.pos++
		}
	} else {
		v = s.next() % uint64(n)
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// U64 draws 64 bits.
func (s *Src) U64() uint64 {
	var v uint64
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos]
			s.pos++
		}
	} else {
		v = s.next()
	}
	s.Rec = append(s.Rec, v)
	return v
}

// P is true once in n draws; false is the simple choice.
func (s *Src) P(n int) bool { return s.N(n) == n-1 }

// Bool is a fair coin.
func (s *Src) Bool() bool { return s.N(2) == 1 }

// W picks an index by weight; index 0 is the simplest.
func (s *Src) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	k := s.N(t)
	for i, w := range weights {
		if k < w {
			return i
		}
		k -= w
	}
	return len(weights) - 1
}

// Rng gives bulk filler from one recorded draw.
type Rng struct{ x uint64 }

func (s *Src) Bulk() *Rng { return &Rng{s.U64()} }

func (r *Rng) Next() uint64 {
	if r.x == 0 {
		return 0
	}
	r.x += 0x9E3779B97F4A7C15
	z := r.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int { return int(r.Next() % uint64(n)) }

// Fill writes filler bytes; a zero draw gives zeros.
func (r *Rng) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Next()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}
