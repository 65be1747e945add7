package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/bits"

	"github.com/patrickhuang888/goorc/orc/encoding"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C01, C02: integer run length encoder

type intCase struct {
	Signed  bool
	Segs    []Seg
	Flushes []int // encoder is flushed after so many values
	Pos     bool  // encoder with positions
}

func genIntCase(t *rapid.T) intCase {
	c := intCase{Signed: rapid.Bool().Draw(t, "signed"), Segs: drawSegs(t, 5, 1200), Pos: rapid.Bool().Draw(t, "pos")}
	n := 0
	for _, s := range c.Segs {
		n += s.N + len(s.V)
	}
	k := rapid.IntRange(0, 4).Draw(t, "flushes")
	if n > 0 && k > 0 && rapid.Bool().Draw(t, "flush") {
		for i := 0; i < k; i++ {
			c.Flushes = append(c.Flushes, rapid.IntRange(0, n).Draw(t, "at"))
		}
	}
	return c
}

func encodeInts(c intCase, vals []int64) ([]byte, error) {
	enc := encoding.NewIntRLV2(c.Signed, c.Pos)
	out := &bytes.Buffer{}
	flush := map[int]bool{}
	for _, f := range c.Flushes {
		flush[f] = true
	}
	for i, v := range vals {
		if flush[i] {
			if err := enc.Flush(out); err != nil {
				return nil, violf("flush failed: %v", err)
			}
		}
		var x interface{} = v
		if !c.Signed {
			x = uint64(v)
		}
		if err := enc.Encode(x, out); err != nil {
			return nil, violf("encoding value %d (index %d) failed: %v", v, i, err)
		}
	}
	if err := enc.Flush(out); err != nil {
		return nil, violf("last flush failed: %v", err)
	}
	return out.Bytes(), nil
}

// decodeInts decodes everything with the decoder of the project.
func decodeInts(b []byte, signed bool) (vals []int64, err error) {
	// two ways to read: a buffer, and a reader which is short of data
	in := bufio.NewReaderSize(&slowReader{b: b}, 16)
	dec := encoding.NewIntDecoder(signed)
	for {
		if _, err := in.Peek(1); err == io.EOF {
			return vals, nil
		}
		if signed {
			vs, err := dec.DecodeInt(in)
			if err != nil {
				return vals, err
			}
			vals = append(vals, vs...)
		} else {
			vs, err := dec.DecodeUInt(in)
			if err != nil {
				return vals, err
			}
			for _, v := range vs {
				vals = append(vals, int64(v))
			}
		}
	}
}

type slowReader struct{ b []byte }

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func diffInts(want, got []int64) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("value %d of %d is %d, should be %d", i, len(want), got[i], want[i])
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d values, should be %d", len(got), len(want))
	}
	return ""
}

func classifyInts(ctx *Ctx, vals []int64, enc []byte, signed bool) {
	_, runs, err := ref.DecodeRLE2(enc, signed)
	if err != nil {
		return
	}
	kinds := [4]string{"short repeat", "direct", "patched base", "delta"}
	seen := map[int]bool{}
	for _, r := range runs {
		ctx.Class(kinds[r.Kind])
		seen[r.Kind] = true
		ctx.ClassIf(r.Kind == ref.Delta && r.Width == 0, "fixed delta")
		ctx.ClassIf(r.Len == 512, "full run")
	}
	ctx.ClassIf(len(runs) > 1, "several runs")
	if len(runs) > 1 || seen[ref.Patched] || (seen[ref.Delta] && len(vals) > 10) || len(vals) > 3 && seen[ref.Direct] {
		ctx.Nontrivial()
	}
}

func runIntLossless(ctx *Ctx, c intCase) error {
	vals := expandSegs(c.Segs)
	b, err := encodeInts(c, vals)
	if err != nil {
		return err
	}
	classifyInts(ctx, vals, b, c.Signed)
	got, err := decodeInts(b, c.Signed)
	if err != nil {
		return violf("decoding failed after %d of %d values: %v", len(got), len(vals), err)
	}
	if d := diffInts(vals, got); d != "" {
		return violf("decoded %s (signed %t)", d, c.Signed)
	}
	return nil
}

func runIntSpec(ctx *Ctx, c intCase) error {
	vals := expandSegs(c.Segs)
	b, err := encodeInts(c, vals)
	if err != nil {
		return err
	}
	classifyInts(ctx, vals, b, c.Signed)
	got, _, err := ref.DecodeRLE2(b, c.Signed)
	if err != nil {
		return violf("not legal: %v (signed %t)", err, c.Signed)
	}
	if d := diffInts(vals, got); d != "" {
		return violf("independent decoder reads %s (signed %t)", d, c.Signed)
	}
	// each flush ends a run, so what follows can be decoded on its own
	return nil
}

func fixedInts() (out []intCase) {
	// all lengths around the limits for some shapes
	for _, signed := range []bool{true, false} {
		for _, n := range []int{0, 1, 2, 3, 9, 10, 11, 511, 512, 513, 514, 515, 1023, 1024, 1025, 1537, 5000} {
			for w := 1; w <= 64; w += 7 {
				out = append(out, intCase{Signed: signed, Segs: []Seg{{K: "rand", N: n, W: w, S: uint64(n)}}})
				out = append(out, intCase{Signed: signed, Segs: []Seg{{K: "outl", N: n, W: w / 3, B: int64(w), S: uint64(n)}}})
			}
			out = append(out, intCase{Signed: signed, Segs: []Seg{{K: "const", N: n, A: 5}}}, intCase{Signed: signed, Segs: []Seg{{K: "ramp", N: n, A: 5, B: 3}}})
			out = append(out, intCase{Signed: signed, Segs: []Seg{{K: "mono", N: n, A: 5, W: 9, S: 1}}})
		}
	}
	return
}

// C03: runs made by the independent encoder

type runSpec struct {
	K      string // rep, dir, patch, fdelta, delta
	N      int
	A      int64 // value or base
	D      int64 // (first) delta
	W      int   // width code, 0..31
	PW     int   // patch width code
	PGW    int   // patch gap width
	BW     int   // base bytes
	MinB   int
	NP     int // patches
	S      uint64
	Sparse bool
}

type runCase struct {
	Signed bool
	Runs   []runSpec
	Ops    int
}

func genRunCase(t *rapid.T) runCase {
	c := runCase{Signed: rapid.Bool().Draw(t, "signed")}
	n := rapid.IntRange(1, 6).Draw(t, "runs")
	for i := 0; i < n; i++ {
		s := runSpec{S: drawSeed(t)}
		s.K = rapid.SampledFrom([]string{"rep", "dir", "patch", "fdelta", "delta"}).Draw(t, "kind")
		switch s.K {
		case "rep":
			s.N = rapid.IntRange(3, 10).Draw(t, "n")
			s.A = drawInt(t, "a")
			s.MinB = rapid.IntRange(1, 8).Draw(t, "minb")
		case "dir":
			s.N = drawRunLen(t, 1)
			s.W = rapid.IntRange(0, 31).Draw(t, "w")
		case "patch":
			s.N = drawRunLen(t, 1)
			s.W = rapid.IntRange(0, 31).Draw(t, "w")
			s.PW = rapid.IntRange(0, 31).Draw(t, "pw")
			s.PGW = rapid.IntRange(1, 8).Draw(t, "pgw")
			s.BW = rapid.IntRange(1, 8).Draw(t, "bw")
			s.A = drawInt(t, "a")
			s.NP = rapid.IntRange(1, 31).Draw(t, "np")
			s.Sparse = rapid.Bool().Draw(t, "sparse")
		case "fdelta":
			s.N = drawRunLen(t, 1)
			s.A = drawInt(t, "a")
			s.D = drawInt(t, "d")
		case "delta":
			s.N = drawRunLen(t, 2)
			s.A = drawInt(t, "a")
			s.D = drawInt(t, "d")
			s.W = rapid.IntRange(1, 31).Draw(t, "w")
		}
		c.Runs = append(c.Runs, s)
	}
	return c
}

func drawRunLen(t *rapid.T, min int) int {
	if rapid.Bool().Draw(t, "edge") {
		n := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 8, 9, 255, 256, 257, 511, 512}).Draw(t, "n")
		if n < min {
			n = min
		}
		return n
	}
	return rapid.IntRange(min, 512).Draw(t, "n")
}

// buildRun makes a legal run out of a description, adjusting what would
// overflow.
func buildRun(s runSpec, signed bool) []byte {
	r := rng(s.S)
	switch s.K {
	case "rep":
		return ref.EncShortRepeat(s.A, s.N, signed, s.MinB)
	case "dir":
		w := ref.DecWidths[s.W]
		vals := make([]int64, s.N)
		for i := range vals {
			u := r.bits(w)
			if signed {
				vals[i] = ref.UnZig(u)
			} else {
				vals[i] = int64(u)
			}
		}
		return ref.EncDirect(vals, signed, w)
	case "fdelta":
		a, d := boundRamp(s.A, s.D, s.N, signed)
		return ref.EncFixedDelta(a, d, s.N, signed)
	case "delta":
		w := ref.DecWidths[s.W]
		if w > 52 {
			w = 48
		}
		// all deltas fit: 511 * 2^53 < 2^62
		first := s.D % (1 << 52)
		a := s.A >> 2
		if !signed {
			a &= 1<<62 - 1
			if first < 0 {
				a += 1 << 62
			}
		}
		ds := make([]uint64, s.N-2)
		for i := range ds {
			ds[i] = r.bits(w)
		}
		return ref.EncDelta(a, first, ds, w, signed)
	case "patch":
		w := ref.DecWidths[s.W]
		pw := ref.DecWidths[s.PW]
		pgw := s.PGW
		if w > 56 {
			w = 56
		}
		for w+pw > 62 {
			pw-- // closest legal width below
			for ref.ClosestWidth(pw) != pw {
				pw--
			}
			if pw <= 1 {
				pw = 1
				break
			}
		}
		if w+pw > 62 {
			w = 48
		}
		for pgw+pw > 64 {
			pgw--
		}
		base := s.A
		if s.BW < 8 {
			base %= 1 << uint(8*s.BW-1)
		}
		base >>= 1
		if !signed && base < 0 {
			base = -base
		}
		adj := make([]uint64, s.N)
		for i := range adj {
			adj[i] = r.bits(w)
		}
		var patches []ref.Patch
		at := 0
		for i := 0; i < s.NP; i++ {
			gap := r.n(1 << uint(pgw))
			if s.Sparse {
				gap = r.n(s.N)
				if gap >= 1<<uint(pgw) && pgw < 8 {
					gap = 1<<uint(pgw) - 1
				}
			}
			if i > 0 && gap == 0 {
				gap = 1
			}
			if at+gap >= s.N {
				break
			}
			at += gap
			v := r.bits(pw)
			if v == 0 {
				v = 1
			}
			patches = append(patches, ref.Patch{At: at, Val: v})
		}
		if len(patches) == 0 {
			patches = []ref.Patch{{At: 0, Val: 1}}
		}
		for len(patches) > 0 {
			if b, ok := ref.EncPatched(base, s.BW, adj, w, pw, pgw, patches); ok {
				return b
			}
			patches = patches[:len(patches)-1]
		}
		return ref.EncShortRepeat(1, 3, signed, 1)
	}
	return nil
}

// boundRamp keeps a ramp inside of 64 bits
func boundRamp(a, d int64, n int, signed bool) (int64, int64) {
	if bits.Len64(absU(d)) > 52 {
		d >>= 12
	}
	a >>= 2
	if !signed {
		a &= 1<<62 - 1
		if d < 0 {
			a += 1 << 62
		}
	}
	return a, d
}

func absU(v int64) uint64 {
	if v < 0 {
		return uint64(-v)
	}
	return uint64(v)
}

func runRuns(ctx *Ctx, c runCase) error {
	var b []byte
	for _, s := range c.Runs {
		b = append(b, buildRun(s, c.Signed)...)
	}
	want, runs, err := ref.DecodeRLE2(b, c.Signed)
	if err != nil {
		return fmt.Errorf("harness: built an illegal run: %v", err)
	}
	kinds := [4]string{"short repeat", "direct", "patched base", "delta"}
	for _, r := range runs {
		ctx.Class(kinds[r.Kind])
		if r.Kind != ref.ShortRepeat {
			ctx.Nontrivial()
		}
		ctx.ClassIf(r.Patches > 1, "several patches")
	}
	got, err := decodeInts(b, c.Signed)
	if err != nil {
		return violf("legal runs %v refused after %d of %d values: %v (signed %t)", runs, len(got), len(want), err, c.Signed)
	}
	if d := diffInts(want, got); d != "" {
		return violf("legal runs decoded to %s (signed %t)", d, c.Signed)
	}
	return nil
}

func fixedRuns() (out []runCase) {
	for _, signed := range []bool{true, false} {
		for w := 0; w < 32; w++ {
			for _, n := range []int{1, 2, 3, 7, 8, 9, 100, 512} {
				out = append(out, runCase{Signed: signed, Runs: []runSpec{{K: "dir", W: w, N: n, S: uint64(w)}, {K: "rep", N: 3, A: 1}}})
				for pgw := 1; pgw <= 8; pgw++ {
					out = append(out, runCase{Signed: signed, Runs: []runSpec{{K: "patch", W: w, PW: (w*7 + pgw) % 32, PGW: pgw, BW: 1 + w%8, A: int64(w) * 12345678901, N: n, NP: 1 + n%31, S: uint64(w)}, {K: "rep", N: 3, A: 1}}})
				}
				if w > 0 && n > 1 {
					out = append(out, runCase{Signed: signed, Runs: []runSpec{{K: "delta", W: w, N: n, A: 7, D: int64(1 - 2*(n%2)), S: uint64(w)}, {K: "rep", N: 3, A: 1}}})
				}
			}
		}
	}
	return
}

func init() {
	rule := "1-5 segments (constants, ramps, random widths, outliers, monotone, few values, edge literals) of up to 1200 values, signed or unsigned, flushes anywhere; non-trivial: several runs, a patched or longer delta run, or a direct run of more than 3 values"
	register("C01", "lossless", rule, 1800000, 15000000, genIntCase, runIntLossless, fixed(fixedInts))
	register("C02", "spec", rule, 1400000, 12000000, genIntCase, runIntSpec, fixed(fixedInts))
	register("C03", "legal-runs", "1-6 legal runs of any kind from the reference encoder: all 32 width codes, lengths 1..512, patch and gap widths, base bytes, first deltas; non-trivial: a run other than short repeat", 1800000, 15000000, genRunCase, runRuns, fixed(fixedRuns))
}
