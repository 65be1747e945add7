package main

import (
	"math"

	"pgregory.net/rapid"
)

// Seg describes a piece of a sequence of 64 bit integers. Sequences of all
// other types are derived from them, see gen.go.
type Seg struct {
	K string  `json:"k"` // const, ramp, rand, outl, mono, lit
	N int     `json:"n,omitempty"`
	A int64   `json:"a,omitempty"`
	B int64   `json:"b,omitempty"`
	W int     `json:"w,omitempty"`
	S uint64  `json:"s,omitempty"`
	V []int64 `json:"v,omitempty"`
}

// rng is splitmix64, a pure function of the drawn seed
type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *rng) n(n int) int { return int(r.next() % uint64(n)) }

func (r *rng) bits(w int) uint64 {
	if w <= 0 {
		return 0
	}
	return r.next() >> uint(64-w)
}

// expand appends the values of the segment.
func (s Seg) expand(out []int64) []int64 {
	r := rng(s.S)
	switch s.K {
	case "const":
		for i := 0; i < s.N; i++ {
			out = append(out, s.A)
		}
	case "ramp":
		v := s.A
		for i := 0; i < s.N; i++ {
			out = append(out, v)
			v += s.B
		}
	case "rand":
		for i := 0; i < s.N; i++ {
			out = append(out, s.A+int64(r.bits(s.W)))
		}
	case "outl":
		// mostly W bits wide, with a few of B bits
		every := 3 + r.n(40)
		for i := 0; i < s.N; i++ {
			v := int64(r.bits(s.W))
			if r.n(every) == 0 {
				v = int64(r.bits(int(s.B)))
				if r.n(8) == 0 {
					v = -v
				}
			}
			out = append(out, s.A+v)
		}
	case "mono":
		v := s.A
		for i := 0; i < s.N; i++ {
			out = append(out, v)
			d := int64(r.bits(s.W))
			if r.n(6) == 0 {
				d = 0
			}
			if s.B < 0 {
				d = -d
			}
			v += d
		}
	case "few":
		// few different values
		k := 1 + int(s.B)
		for i := 0; i < s.N; i++ {
			out = append(out, s.A+int64(r.n(k)))
		}
	case "lit":
		out = append(out, s.V...)
	}
	return out
}

func expandSegs(ss []Seg) (out []int64) {
	for _, s := range ss {
		out = s.expand(out)
	}
	return
}

var edgeInts = []int64{0, 1, -1, 2, -2, 7, 8, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, 65536, 1 << 23, 1<<24 - 1,
	math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 48, 1<<55 - 1, 1 << 55, 1 << 56, 1<<61 + 1, 1 << 62, -(1 << 62),
	math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}

func drawInt(t *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 3).Draw(t, label+"K") {
	case 0:
		return rapid.Int64Range(-200, 200).Draw(t, label)
	case 1:
		return rapid.SampledFrom(edgeInts).Draw(t, label)
	case 2:
		w := rapid.IntRange(1, 64).Draw(t, label+"W")
		r := rng(rapid.Uint64().Draw(t, label))
		v := int64(r.bits(w))
		if w < 64 && r.n(2) == 0 {
			v = -v
		}
		return v
	default:
		return rapid.Int64().Draw(t, label)
	}
}

// lengths around the limits of runs
func drawLen(t *rapid.T, max int) int {
	var n int
	switch rapid.IntRange(0, 4).Draw(t, "lenK") {
	case 0, 1:
		n = rapid.IntRange(1, 24).Draw(t, "len")
	case 2:
		n = rapid.SampledFrom([]int{1, 2, 3, 4, 9, 10, 11, 12, 19, 20, 21, 127, 128, 129, 130, 131, 255, 256, 257, 258, 509, 510, 511, 512, 513, 514, 515, 520, 523, 1023, 1024, 1025}).Draw(t, "len")
	default:
		n = rapid.IntRange(1, 1200).Draw(t, "len")
	}
	if n > max {
		n = 1 + n%max
	}
	return n
}

func drawSeg(t *rapid.T, maxLen int) Seg {
	switch rapid.IntRange(0, 6).Draw(t, "seg") {
	case 0:
		n := rapid.IntRange(1, 12).Draw(t, "n")
		if n > maxLen {
			n = maxLen
		}
		v := make([]int64, n)
		for i := range v {
			v[i] = drawInt(t, "v")
		}
		return Seg{K: "lit", V: v}
	case 1:
		return Seg{K: "const", N: drawLen(t, maxLen), A: drawInt(t, "a")}
	case 2:
		return Seg{K: "ramp", N: drawLen(t, maxLen), A: drawInt(t, "a"), B: drawInt(t, "b")}
	case 3:
		return Seg{K: "rand", N: drawLen(t, maxLen), A: drawBase(t), W: rapid.IntRange(1, 64).Draw(t, "w"), S: drawSeed(t)}
	case 4:
		w := rapid.IntRange(0, 40).Draw(t, "w")
		b := rapid.IntRange(w+1, 64).Draw(t, "ow")
		return Seg{K: "outl", N: drawLen(t, maxLen), A: drawBase(t), W: w, B: int64(b), S: drawSeed(t)}
	case 5:
		return Seg{K: "mono", N: drawLen(t, maxLen), A: drawInt(t, "a"), B: int64(rapid.IntRange(-1, 0).Draw(t, "sign")), W: rapid.IntRange(0, 62).Draw(t, "w"), S: drawSeed(t)}
	default:
		return Seg{K: "few", N: drawLen(t, maxLen), A: drawBase(t), B: int64(rapid.IntRange(0, 9).Draw(t, "few")), S: drawSeed(t)}
	}
}

func drawSeed(t *rapid.T) uint64 { return rapid.Uint64Range(0, 1<<32).Draw(t, "s") }

func drawBase(t *rapid.T) int64 {
	switch rapid.IntRange(0, 2).Draw(t, "baseK") {
	case 0:
		return 0
	case 1:
		return rapid.Int64Range(-5000, 5000).Draw(t, "base")
	default:
		return drawInt(t, "base")
	}
}

func drawSegs(t *rapid.T, maxSegs, maxLen int) []Seg {
	n := rapid.IntRange(1, maxSegs).Draw(t, "segs")
	out := make([]Seg, n)
	for i := range out {
		out[i] = drawSeg(t, maxLen)
	}
	return out
}

// fillTo gives exactly n values, repeating the segments.
func fillTo(ss []Seg, n int) []int64 {
	out := make([]int64, 0, n)
	for len(out) < n {
		l := len(out)
		for _, s := range ss {
			out = s.expand(out)
			if len(out) >= n {
				break
			}
		}
		if len(out) == l {
			out = append(out, 0)
		}
	}
	return out[:n]
}
