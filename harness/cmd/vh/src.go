package main

import "math/bits"

// Src is the source of choices a generator draws from. Every draw is
// recorded, so a failing case can be replayed and minimised by editing the
// recorded choices (smaller choices mean simpler cases).
type Src struct {
	rng    *rng
	replay []uint64
	use    bool
	pos    int
	rec    []uint64
	spans  []span
	open   []int
	over   bool // replay ran past its end
}

type span struct{ from, to int }

type rng struct{ s uint64 }

func (r *rng) next() uint64 { // splitmix64
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// below returns a uniform value in [0,n).
func (r *rng) below(n uint64) uint64 {
	hi, _ := bits.Mul64(r.next(), n)
	return hi
}

func newSrc(seed uint64) *Src { return &Src{rng: &rng{seed}} }

func replaySrc(choices []uint64) *Src { return &Src{replay: choices, use: true} }

func (s *Src) draw(n uint64) uint64 {
	if n == 0 {
		n = 1
	}
	var v uint64
	if s.use {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if v >= n {
				v = n - 1
			}
		} else {
			s.over = true
		}
		s.pos++
	} else {
		v = s.rng.below(n)
	}
	s.rec = append(s.rec, v)
	return v
}

// N draws a uniform int in [0,n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(uint64(n)))
}

// Range draws a uniform int in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// P is true with probability pct/100; false is the simpler outcome.
func (s *Src) P(pct int) bool {
	v := s.draw(100)
	return int(v) >= 100-pct
}

// U64 draws any 64-bit value; 0 is the simplest.
func (s *Src) U64() uint64 { return s.draw(1<<63 - 1) }

// Span marks the draws made by f as one unit for the minimiser.
func (s *Src) Span(f func()) {
	i := len(s.spans)
	s.spans = append(s.spans, span{from: len(s.rec)})
	f()
	s.spans[i].to = len(s.rec)
}

// Many calls f between lo and hi times, in removable spans.
func (s *Src) Many(lo, hi int, f func(i int)) {
	n := s.Range(lo, hi)
	for i := 0; i < n; i++ {
		s.Span(func() { f(i) })
	}
}

// List calls f up to hi times (at least lo); each element is one span that
// includes its own continuation draw, so that dropping a span drops the element.
func (s *Src) List(lo, hi, pctMore int, f func(i int)) {
	for i := 0; i < hi; i++ {
		stop := false
		s.Span(func() {
			if i >= lo && !s.P(pctMore) {
				stop = true
				return
			}
			f(i)
		})
		if stop {
			return
		}
	}
}

// Pick returns a uniform element.
func Pick[T any](s *Src, xs []T) T { return xs[s.N(len(xs))] }

// PickW picks an index by weight; index 0 is the simplest.
func (s *Src) PickW(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Perm returns a permutation of n elements; all-zero choices give identity.
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// minimise edits choices while fails stays true. budget bounds the number of
// executions; stop is polled between executions.
func minimise(choices []uint64, spans []span, fails func([]uint64) (bool, []uint64, []span), budget int, stop func() bool) []uint64 {
	cur := append([]uint64(nil), choices...)
	curSpans := spans
	tries := 0
	try := func(c []uint64) bool {
		if tries >= budget || stop() {
			return false
		}
		tries++
		bad, rec, sp := fails(c)
		if bad && less(rec, cur) {
			cur = append(cur[:0:0], rec...)
			curSpans = sp
			return true
		}
		return false
	}
	for {
		if tries >= budget || stop() {
			return cur
		}
		before := append([]uint64(nil), cur...)
		// drop spans, largest first
		for again := true; again; {
			again = false
			sp := append([]span(nil), curSpans...)
			sortSpans(sp)
			for _, x := range sp {
				if x.to > len(cur) || x.to <= x.from {
					continue
				}
				c := append(append([]uint64(nil), cur[:x.from]...), cur[x.to:]...)
				if try(c) {
					again = true
					break
				}
				// drop the span and lower the count drawn just before the first sibling
				if tries >= budget || stop() {
					break
				}
			}
			if tries >= budget || stop() {
				break
			}
		}
		// lower count draws together with span removal
		for _, x := range append([]span(nil), curSpans...) {
			if x.to > len(cur) || x.to <= x.from {
				continue
			}
			for back := x.from - 1; back >= 0 && back >= x.from-1; back-- {
				if cur[back] == 0 {
					continue
				}
				c := append([]uint64(nil), cur...)
				c[back]--
				c = append(append([]uint64(nil), c[:x.from]...), c[x.to:]...)
				if try(c) {
					break
				}
			}
		}
		// delete and zero chunks
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); {
				c := append(append([]uint64(nil), cur[:i]...), cur[i+size:]...)
				if try(c) {
					continue
				}
				zero := false
				c = append([]uint64(nil), cur...)
				for k := i; k < i+size; k++ {
					if c[k] != 0 {
						c[k] = 0
						zero = true
					}
				}
				if zero {
					try(c)
				}
				i += size
				if tries >= budget || stop() {
					return cur
				}
			}
		}
		// lower single values
		for i := 0; i < len(cur); i++ {
			lo, hi := uint64(0), cur[i]
			for lo < hi && i < len(cur) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), cur...)
				c[i] = mid
				if try(c) && i < len(cur) && cur[i] <= mid {
					hi = cur[i]
				} else {
					lo = mid + 1
				}
				if tries >= budget || stop() {
					return cur
				}
			}
		}
		if !less(cur, before) {
			return cur
		}
	}
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func sortSpans(sp []span) {
	for i := 1; i < len(sp); i++ {
		for j := i; j > 0 && sp[j].to-sp[j].from > sp[j-1].to-sp[j-1].from; j-- {
			sp[j], sp[j-1] = sp[j-1], sp[j]
		}
	}
}
