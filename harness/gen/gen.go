// Package gen is a small choice-sequence property-testing core: every random
// decision of a generator is drawn from a Src, a failing case is shrunk by
// editing the recorded sequence of choices and generating again.
package gen

import "sort"

// Src hands out choices, either fresh (seeded) or replayed from a recording.
type Src struct {
	state  uint64
	replay []uint32
	useRec bool
	Rec    []uint32
	Spans  []Span
	Labels map[string]int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Hash mixes strings and integers into a seed.
func Hash(parts ...interface{}) uint64 {
	h := uint64(1469598103934665603)
	add := func(b byte) { h ^= uint64(b); h *= 1099511628211 }
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			for i := 0; i < len(v); i++ {
				add(v[i])
			}
		case int:
			for i := 0; i < 8; i++ {
				add(byte(uint64(v) >> (8 * i)))
			}
		case uint64:
			for i := 0; i < 8; i++ {
				add(byte(v >> (8 * i)))
			}
		default:
			panic("gen.Hash: unsupported part")
		}
		add(0xff)
	}
	x := h
	return splitmix(&x)
}

func New(seed uint64) *Src { return &Src{state: seed, Labels: map[string]int{}} }

// Exhausted is the panic of a replay that draws far more than was recorded: a
// generator that draws until something differs never ends on zeros.
type Exhausted struct{}

func Replay(rec []uint32) *Src {
	return &Src{replay: rec, useRec: true, Labels: map[string]int{}}
}

func (s *Src) raw() uint32 {
	var v uint32
	if s.useRec {
		if len(s.Rec) < len(s.replay) {
			v = s.replay[len(s.Rec)]
		} else if len(s.Rec) > len(s.replay)+50000 {
			panic(Exhausted{})
		}
	} else {
		v = uint32(splitmix(&s.state))
	}
	s.Rec = append(s.Rec, v)
	return v
}

// N returns a number in [0,n); 0 is the simplest choice.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	v := s.raw()
	if s.useRec {
		// recorded values are already reduced
		r := int(v) % n
		s.Rec[len(s.Rec)-1] = uint32(r)
		return r
	}
	r := int(uint64(v) % uint64(n))
	s.Rec[len(s.Rec)-1] = uint32(r)
	return r
}

// Range returns a number in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// P is true with probability num/den; shrinks to false.
func (s *Src) P(num, den int) bool {
	// large values mean true so that the zero choice is false
	return s.N(den) >= den-num
}

func (s *Src) Bool() bool { return s.N(2) == 1 }

// U64 draws 64 bits.
func (s *Src) U64() uint64 {
	a := uint64(s.N(1 << 16))
	b := uint64(s.N(1 << 16))
	c := uint64(s.N(1 << 16))
	d := uint64(s.N(1 << 16))
	return a | b<<16 | c<<32 | d<<48
}

// W picks an index with the given weights.
func (s *Src) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	if t == 0 {
		return 0
	}
	k := s.N(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return len(ws) - 1
}

func (s *Src) Pick(xs ...string) string { return xs[s.N(len(xs))] }

// Perm returns a permutation of [0,n); shrinks to the identity.
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (s *Src) Label(l string) { s.Labels[l]++ }

func (s *Src) LabelN(l string, n int) { s.Labels[l] += n }

// Span is a range of choices that belong together.
type Span struct{ A, B int }

// Span groups the choices made by f.
func (s *Src) Span(f func()) {
	a := len(s.Rec)
	f()
	if len(s.Rec) > a {
		s.Spans = append(s.Spans, Span{a, len(s.Rec)})
	}
}

// Rep calls f between lo and hi times; every round is a span that can be
// deleted on its own.
func (s *Src) Rep(lo, hi int, f func(i int)) {
	for i := 0; i < hi; i++ {
		stop := false
		s.Span(func() {
			if i >= lo {
				// the number of rounds is uniform in [lo,hi]
				left := hi - i + 1
				if !s.P(left-1, left) {
					stop = true
					return
				}
			}
			f(i)
		})
		if stop {
			return
		}
	}
}

// Tried is the outcome of one shrinking attempt.
type Tried struct {
	Rec   []uint32
	Spans []Span
	Fails bool
}

// Shrink minimises rec while it keeps failing. try evaluates several
// candidates (possibly at once); at most budget evaluations are made.
func Shrink(rec []uint32, spans []Span, budget, width int, try func(cs [][]uint32) []Tried) []uint32 {
	best := append([]uint32(nil), rec...)
	bspans := spans
	var queue [][]uint32
	flush := func() bool {
		if len(queue) == 0 {
			return false
		}
		if budget <= 0 {
			queue = nil
			return false
		}
		budget -= len(queue)
		rs := try(queue)
		queue = nil
		hit := false
		for _, r := range rs {
			if r.Fails && simpler(r.Rec, best) {
				best = append([]uint32(nil), r.Rec...)
				bspans = r.Spans
				hit = true
			}
		}
		return hit
	}
	add := func(c []uint32) bool {
		queue = append(queue, c)
		if len(queue) >= width {
			return flush()
		}
		return false
	}
	cut := func(a, b int, mid ...uint32) []uint32 {
		c := append([]uint32(nil), best[:a]...)
		c = append(c, mid...)
		return append(c, best[b:]...)
	}
	for improved := true; improved && budget > 0; {
		improved = false
		// remove or simplify spans, large ones first
	again:
		sp := append([]Span(nil), bspans...)
		sort.Slice(sp, func(i, j int) bool { return sp[i].B-sp[i].A > sp[j].B-sp[j].A })
		for _, x := range sp {
			if budget <= 0 || x.B > len(best) {
				break
			}
			if x.B-x.A < 2 {
				continue
			}
			if add(cut(x.A, x.B)) || add(cut(x.A, x.B, 0)) {
				improved = true
				goto again
			}
		}
		if flush() {
			improved = true
			goto again
		}
		for size := len(best) / 2; size >= 1 && budget > 0; size /= 2 {
			for i := 0; i+size <= len(best) && budget > 0; i += size {
				if add(cut(i, i+size)) {
					improved = true
				}
			}
			if flush() {
				improved = true
			}
		}
		for size := 4; size >= 1 && budget > 0; size /= 2 {
			for i := 0; i+size <= len(best) && budget > 0; i += size {
				nz := false
				for j := i; j < i+size; j++ {
					nz = nz || best[j] != 0
				}
				if nz && add(cut(i, i+size, make([]uint32, size)...)) {
					improved = true
				}
			}
			if flush() {
				improved = true
			}
		}
		for i := 0; i < len(best) && budget > 0; i++ {
			if best[i] > 1 {
				if add(cut(i, i+1, best[i]/2)) {
					improved = true
				}
			}
			if i < len(best) && best[i] > 0 {
				if add(cut(i, i+1, best[i]-1)) {
					improved = true
				}
			}
		}
		if flush() {
			improved = true
		}
	}
	return best
}

func simpler(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// SortedLabels lists labels in a stable order.
func SortedLabels(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
