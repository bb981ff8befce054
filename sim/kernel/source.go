// Package kernel is the deterministic simulator: one recorded source of
// choices, a discrete-event clock, nodes whose handlers run as tasks parked and
// released one at a time, a network and disks that misbehave on request.
package kernel

// Source hands out every choice of a run. In search mode choices come from a
// PRNG and are recorded; in replay mode they come from a recorded list. 0 is
// always the simplest choice (no fault, smallest size, no preemption), so
// lists get simpler when their numbers get smaller.
type Source struct {
	state  uint64
	replay []uint64
	isRep  bool
	Rec    []uint64
	Spans  [][2]int
	open   []int
	Sink   func(uint64) // sees every choice as it is drawn
}

// Dict are numbers and byte strings that occur in the code under test and did
// not occur in the tree the checks were written for.
type Dict struct {
	Nums  []uint64 `json:",omitempty"`
	Words [][]byte `json:",omitempty"`
	// the code waits on channels, which the simulator does not control: calls
	// are not interrupted
	Channels bool `json:",omitempty"`
}

// Novel biases the search: it draws these numbers, numbers next to them and
// bytes that hold these words more often. A replay file carries it along.
var Novel Dict

// novel returns a choice from Novel below n.
func (s *Source) novel(n uint64) (uint64, bool) {
	if len(Novel.Nums) == 0 {
		return 0, false
	}
	z := s.next()
	if z%24 != 0 {
		return 0, false
	}
	z /= 24
	v := Novel.Nums[z%uint64(len(Novel.Nums))]
	z /= uint64(len(Novel.Nums))
	switch z % 8 {
	case 0:
		v--
	case 1:
		v++
	case 2:
		v *= 2
	case 3:
		v += (z / 8) % 64
	}
	return v, v < n
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Hash derives a seed from numbers and text.
func Hash(text string, nums ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(text); i++ {
		h = (h ^ uint64(text[i])) * 0x100000001b3
	}
	for _, n := range nums {
		h = mix(h + 0x9e3779b97f4a7c15 + n)
	}
	return mix(h)
}

// NewSource starts a search run.
func NewSource(seed uint64) *Source { return &Source{state: seed} }

// NewReplay replays recorded choices.
func NewReplay(choices []uint64) *Source { return &Source{replay: choices, isRep: true} }

func (s *Source) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return mix(s.state)
}

// Choose returns a number in [0,n).
func (s *Source) Choose(n uint64) uint64 { return s.choose(n, s.novel) }

func (s *Source) choose(n uint64, novel func(uint64) (uint64, bool)) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.isRep {
		if i := len(s.Rec); i < len(s.replay) {
			v = s.replay[i] % n
		}
	} else {
		v = s.next() % n
		if n > 64 && len(Novel.Nums) > 0 {
			if x, ok := novel(n); ok {
				v = x
			}
		}
	}
	s.Rec = append(s.Rec, v)
	if s.Sink != nil {
		s.Sink(v)
	}
	return v
}

// Begin and End mark the choices of one step, which minimisation removes together.
func (s *Source) Begin() { s.open = append(s.open, len(s.Rec)) }
func (s *Source) End() {
	i := s.open[len(s.open)-1]
	s.open = s.open[:len(s.open)-1]
	if len(s.Rec) > i {
		s.Spans = append(s.Spans, [2]int{i, len(s.Rec)})
	}
}

// Intn returns a number in [0,n).
func (s *Source) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.Choose(uint64(n)))
}

// Range returns a number in [lo,hi].
func (s *Source) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Chance is true num times in den.
func (s *Source) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return s.Intn(den) >= den-num
}

// Weighted picks an index with the given weights; index 0 is the simplest.
func (s *Source) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.Intn(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Bytes returns n bytes derived from one choice.
func (s *Source) Bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	c := s.choose(1<<20, func(uint64) (uint64, bool) { // a novel byte value somewhere
		v, ok := s.novel(256)
		return 63<<14 | v<<3 | s.next()%8, ok
	})
	st := c*0x2545F4914F6CDD1D + 1
	for i := 0; i < n; i += 8 {
		st += 0x9e3779b97f4a7c15
		v := mix(st)
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	if c>>14 == 63 { // one value that stands out
		x := byte(c >> 3)
		switch c % 8 {
		case 0:
			for i := range b {
				b[i] = x
			}
		case 1:
			b[0] = x
		case 2:
			b[n-1] = x
		case 3:
			for i := range b[:(n+1)/2] {
				b[i] = x
			}
		case 4:
			for i := n / 2; i < n; i++ {
				b[i] = x
			}
		case 5:
			b[n/2] = x
		case 6:
			b[0], b[n-1] = x, x
		case 7:
			b[(int(c>>3)*7)%n] = x
		}
	}
	if len(Novel.Words) > 0 && s.Intn(12) == 11 {
		s.word(b)
	}
	return b
}

// word overwrites a part of b with a novel word.
func (s *Source) word(b []byte) {
	w := Novel.Words[s.Intn(len(Novel.Words))]
	i := 0
	if d := len(b) - len(w); d > 0 {
		i = []int{0, d, s.Intn(d + 1)}[s.Intn(3)]
	}
	copy(b[i:], w)
}

// Perm returns a permutation of 0..n-1; all choices 0 give the identity.
func (s *Source) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

var edges = []uint64{0, 1, 2, 0x4b, 0x4c, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff,
	0x10000, 0x10001, 0xffffff, 0x1000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000,
	0x100000001, 5000000000, 2099999997690000, 2100000000000000, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}

// U64 returns a 64-bit number with a bias to boundaries.
func (s *Source) U64() uint64 {
	switch s.Weighted(3, 3, 2, 1) {
	case 0:
		return s.Choose(1000)
	case 1:
		return edges[s.Intn(len(edges))]
	case 2:
		return s.Choose(1 << 62)
	}
	b := s.Bytes(8)
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

// U32 returns a 32-bit number with a bias to boundaries.
func (s *Source) U32() uint32 {
	switch s.Weighted(3, 4, 3) {
	case 0:
		return uint32(s.Choose(1000))
	case 1:
		return uint32(edges[s.Intn(26)])
	}
	return uint32(s.Choose(1 << 32))
}
