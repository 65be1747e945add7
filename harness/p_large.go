package main

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Tables beyond the sizes of the other checks: many rows, columns, stripes or
// long values, with options like the defaults.

// uniform is not drawn near a, as integers of rapid are
func uniform(t *rapid.T, a, b int) int {
	r := rng(drawSeed(t))
	return a + r.n(b-a+1)
}

func wideSeg(t *rapid.T) Seg {
	switch uniform(t, 0, 5) {
	case 0:
		return Seg{K: "ramp", N: uniform(t, 1, 200000), A: int64(rapid.IntRange(-1000, 1000).Draw(t, "a")), B: int64(rapid.IntRange(-3, 3).Draw(t, "b"))}
	case 1:
		return Seg{K: "const", N: uniform(t, 1, 200000), A: int64(rapid.IntRange(-1000, 1000).Draw(t, "a"))}
	default:
		return Seg{K: "rand", N: 200000, W: uniform(t, 1, 64), S: drawSeed(t)}
	}
}

// manyKeys is a dictionary column of more keys than 16 bits count.
func manyKeys(t *rapid.T) ColSpec {
	return ColSpec{N: "k", K: ref.String, E: 1, X: []int{0, 3}[uniform(t, 0, 1)],
		D: []Seg{{K: "rand", N: 200000, W: uniform(t, 18, 63), S: drawSeed(t)}}, L: []Seg{{K: "const", N: 1, A: int64(uniform(t, 0, 3))}}}
}

// longLists is a list or map column with up to 100000 entries in a row
func longLists(t *rapid.T) ColSpec {
	o := colOpts{maxDepth: 0, maxSegs: 2, maxLen: 60}
	k := ColSpec{N: "l", X: longList, K: []int{ref.ListK, ref.MapK}[uniform(t, 0, 1)], L: []Seg{{K: "rand", N: 30, W: uniform(t, 14, 17), S: drawSeed(t)}}}
	for len(k.C) < 1 || k.K == ref.MapK && len(k.C) < 2 {
		x := drawCol(t, o, 0)
		x.E = 0
		k.C = append(k.C, x)
	}
	return k
}

// drawPresent is a column, or a struct, whose nulls take more space than its values.
func drawPresent(t *rapid.T) FileCase {
	c := FileCase{Root: ColSpec{K: ref.StructK}, Rows: uniform(t, 3000, 15000)}
	c.O = FileOpts{Comp: uniform(t, 0, 1), Chunk: []int{100, 1000, 10000}[uniform(t, 0, 2)], Stripe: uniform(t, 180, 700),
		Splits: [][]int{nil, {100}, {1}}[uniform(t, 0, 2)]}
	if c.O.Index = uniform(t, 0, 2) == 0; c.O.Index {
		c.O.Stride = uniform(t, 100, 5000)
	}
	kind := leafKinds[uniform(t, 0, len(leafKinds)-1)]
	k := drawCol(t, colOpts{maxDepth: 0, maxSegs: 1, maxLen: 60, kinds: []int{kind}}, 0)
	k.N = "c"
	k.D = []Seg{{K: "const", N: 1, A: int64(uniform(t, 0, 1000))}}
	k.H, k.Nu = true, NullSpec{K: "rand", P: []int{30, 50, 50, 70, 90}[uniform(t, 0, 4)], S: drawSeed(t)}
	if uniform(t, 0, 9) == 0 {
		k = ColSpec{N: "s", K: ref.StructK, C: []ColSpec{k}, H: true, Nu: k.Nu}
		k.C[0].H, k.C[0].Nu = false, NullSpec{}
	}
	c.Root.C = []ColSpec{k}
	return c
}

// deep puts a column into structs of structs, with others beside it
func deep(t *rapid.T, k ColSpec) ColSpec {
	o := colOpts{maxDepth: 0, maxSegs: 2, maxLen: 60}
	for d := uniform(t, 3, 40); d > 0; d-- {
		s := ColSpec{N: fmt.Sprintf("d%d", d), K: ref.StructK, C: []ColSpec{k}}
		if uniform(t, 0, 4) == 0 {
			s.H, s.Nu = true, drawNulls(t)
		}
		if uniform(t, 0, 9) == 0 {
			x := drawCol(t, o, 0)
			x.N = "x"
			if uniform(t, 0, 1) == 0 {
				s.C = append(s.C, x)
			} else {
				s.C = append([]ColSpec{x}, s.C...)
			}
		}
		k = s
	}
	return k
}

func drawLarge(t *rapid.T) FileCase {
	if uniform(t, 0, 11) == 0 {
		return FileCase{Root: ColSpec{K: ref.StructK, C: []ColSpec{manyKeys(t)}}, Rows: uniform(t, 66000, 140000),
			O: FileOpts{Comp: uniform(t, 0, 1), Chunk: 262144, Stripe: 1 << 26, Splits: []int{10000}}}
	}
	c := FileCase{Root: ColSpec{K: ref.StructK}}
	o := colOpts{maxDepth: 1, maxSegs: 2, maxLen: 600}
	cols := rapid.IntRange(1, 2).Draw(t, "cols")
	c.O = FileOpts{Comp: rapid.IntRange(0, 1).Draw(t, "comp"), Chunk: []int{262144, 65536, 10000, 1 << 20}[uniform(t, 0, 3)],
		Stripe: []int{1 << 26, 1 << 20, 1 << 18, 100000}[uniform(t, 0, 3)], Index: rapid.IntRange(0, 3).Draw(t, "index") > 0}
	if c.O.Index {
		c.O.Stride = []int{10000, 10000, 1000, 3000, 8192, 65536, 70000}[uniform(t, 0, 6)]
	}
	c.O.Splits = [][]int{nil, {1024}, {10000}, {65536}, {3000, 1}}[uniform(t, 0, 4)]
	shape := []string{"rows", "rows", "rows", "columns", "stripes", "values", "chunks", "deep", "nulls", "positions"}[uniform(t, 0, 9)]
	switch shape {
	case "rows":
		c.Rows = uniform(t, 10000, 140000)
		if uniform(t, 0, 3) == 0 { // large groups in one stripe
			c.O.Index, c.O.Stride, c.O.Stripe = true, []int{65536, 100000, 1 << 20}[uniform(t, 0, 2)], 1<<28
		}
	case "columns":
		cols = uniform(t, 60, 300)
		c.Rows = uniform(t, 1, 60)
		if c.O.Chunk > 65536 { // every stream has buffers of that size
			c.O.Chunk = 65536
		}
		c.O.Stride = c.O.Stride/1000 + 1
		o = colOpts{maxDepth: 0, maxSegs: 1, maxLen: 60}
	case "stripes":
		c.Rows = uniform(t, 3000, 8000)
		c.O.Stripe = rapid.SampledFrom([]int{50, 100, 200, 500}).Draw(t, "stripe")
		c.O.Chunk = rapid.SampledFrom([]int{100, 1000, 10000}).Draw(t, "chunk")
		c.O.Stride = c.O.Stride/100 + 1
		o.maxDepth = 0
	case "values":
		c.Rows = uniform(t, 3, 60)
		c.O.Stride = c.O.Stride/1000 + 1
		o = colOpts{maxDepth: 0, maxSegs: 1, maxLen: 60, kinds: []int{ref.String, ref.Binary, ref.Varchar}}
	case "chunks": // of several MB
		cols = 1
		c.Rows = uniform(t, 8, 30)
		c.O.Comp = 1
		c.O.Chunk = []int{1<<21 + 5, 1 << 22, 1<<22 + 100000, 1<<23 - 1}[uniform(t, 0, 3)]
		c.O.Stride = c.O.Stride/1000 + 1
		o = colOpts{maxDepth: 0, maxSegs: 1, maxLen: 60, kinds: []int{ref.String, ref.Binary, ref.Varchar}}
	case "positions": // of rows, MBs away from the start of the stripe
		cols = 1
		c.Rows = uniform(t, 30, 200)
		c.O.Stripe = 1 << 28
		c.O.Index, c.O.Stride = true, uniform(t, 1, 20)
		o = colOpts{maxDepth: 0, maxSegs: 1, maxLen: 60, kinds: []int{ref.String, ref.Binary, ref.Varchar}}
	case "nulls": // which take more space than values
		c.Rows = uniform(t, 3000, 20000)
		c.O.Stripe = []int{200, 500, 1000, 3000}[uniform(t, 0, 3)]
		c.O.Chunk = []int{100, 1000, 10000}[uniform(t, 0, 2)]
		c.O.Stride = c.O.Stride/100 + 1
		o = colOpts{maxDepth: 1, maxSegs: 1, maxLen: 60}
	case "deep":
		c.Rows = uniform(t, 10, 2000)
		c.O.Chunk = []int{1000, 65536}[uniform(t, 0, 1)]
		c.O.Stride = c.O.Stride/100 + 1
		o.maxDepth = 0
	}
	for i := 0; i < cols; i++ {
		k := drawCol(t, o, 0)
		k.N = fmt.Sprintf("c%d", i)
		k.walk(func(x *ColSpec) {
			switch {
			case shape == "rows" && len(x.D) > 0 && rapid.IntRange(0, 3).Draw(t, "wide") > 0:
				x.D = []Seg{wideSeg(t)}
				if x.X == 2 || x.X == 4 { // texts of any length
					x.X = rapid.SampledFrom([]int{0, 3, 0}).Draw(t, "style")
				}
				if len(x.L) > 0 && x.K != ref.TimestampK && x.K != ref.Decimal {
					x.L = []Seg{{K: "rand", N: 64, W: uniform(t, 0, 5), S: drawSeed(t)}}
				}
			case shape == "values":
				x.X = bigText
				x.L = []Seg{{K: "rand", N: 40, W: uniform(t, 10, 19), S: drawSeed(t)}}
			case shape == "nulls":
				x.H, x.Nu = true, NullSpec{K: "rand", P: []int{30, 50, 90, 99}[uniform(t, 0, 3)], S: drawSeed(t)}
				if len(x.D) > 0 && uniform(t, 0, 1) == 0 {
					x.D = []Seg{{K: "const", N: 1, A: int64(uniform(t, 0, 1000))}}
				}
			case shape == "positions":
				x.X = bigNoise
				x.L = []Seg{{K: "rand", N: 300, W: uniform(t, 15, 17), S: drawSeed(t)}}
				x.D = []Seg{{K: "rand", N: 300, W: 63, S: drawSeed(t)}}
			case shape == "chunks":
				x.X = bigNoise
				x.L = []Seg{{K: "rand", N: 40, W: uniform(t, 17, 20), S: drawSeed(t)}}
				x.D = []Seg{{K: "rand", N: 60, W: 63, S: drawSeed(t)}}
			}
		})
		if shape == "deep" {
			k = deep(t, k)
		}
		c.Root.C = append(c.Root.C, k)
	}
	c.Root.countable()
	if shape == "stripes" && len(c.Root.C) > 1 {
		c.O.Stripe *= 4
	}
	if c.O.Index && c.O.Stride == 0 {
		c.O.Stride = 1
	}
	if !c.O.Index {
		c.O.Stride = 0
	}
	return c
}

func drawLargeForeign(t *rapid.T) ForeignCase {
	c := drawForeign(t)
	if uniform(t, 0, 11) == 0 {
		c.Root = ColSpec{K: ref.StructK, C: []ColSpec{manyKeys(t)}}
		c.Rows, c.Block, c.Dict = uniform(t, 66000, 140000), 262144, 100
		c.Strid, c.Cuts = 0, nil
		return c
	}
	if uniform(t, 0, 11) == 0 {
		c.Root = ColSpec{K: ref.StructK, C: []ColSpec{longLists(t)}}
		c.Rows, c.Strid = uniform(t, 3, 60), uniform(t, 0, 5)
		c.Cuts, c.Block = [][]int{nil, nil, nil, {5}}[uniform(t, 0, 3)], 262144
		return c
	}
	c.Root = ColSpec{K: ref.StructK}
	o := colOpts{maxDepth: 1, lists: true, maxSegs: 2, maxLen: 600}
	values := uniform(t, 0, 4) == 0
	if values {
		o = colOpts{maxDepth: 0, maxSegs: 1, maxLen: 60, kinds: []int{ref.String, ref.Binary, ref.Varchar}}
		c.Rows = uniform(t, 3, 60)
		c.Strid = uniform(t, 0, 10)
	} else {
		c.Rows = uniform(t, 5001, 70000)
		c.Strid = []int{0, 1000, 3000, 10000, 10000}[uniform(t, 0, 4)]
	}
	c.Cuts = [][]int{nil, {20000}, {5000, 10000}, {30000, 1}, {1000}}[uniform(t, 0, 4)]
	c.Block = []int{262144, 65536, 10000, 1 << 20}[uniform(t, 0, 3)]
	for i, n := 0, uniform(t, 1, 2); i < n; i++ {
		k := drawCol(t, o, 0)
		k.N = fmt.Sprintf("c%d", i)
		k.walk(func(x *ColSpec) {
			x.E = 0
			switch {
			case values:
				x.X = bigText
				x.L = []Seg{{K: "rand", N: 40, W: uniform(t, 10, 19), S: drawSeed(t)}}
			case len(x.C) > 0:
				x.L = []Seg{{K: "rand", N: 64, W: uniform(t, 0, 4), S: drawSeed(t)}}
			case len(x.D) > 0 && uniform(t, 0, 3) > 0:
				x.D = []Seg{wideSeg(t)}
				if x.X == 2 || x.X == 4 {
					x.X = 0
				}
			}
		})
		c.Root.C = append(c.Root.C, k)
	}
	c.Root.countable()
	return c
}

var largeBatches = []int{1024, 10000, 3000, 65536, 200000}

// drawLargeBatch leaves vectors of many columns small.
func drawLargeBatch(t *rapid.T, columns int) int {
	n := rapid.SampledFrom(largeBatches).Draw(t, "batch")
	if columns > 20 && n > 1024 {
		n = 1024
	}
	return n
}

func (f AnyFile) columns() int {
	if f.P != nil {
		return f.P.Root.count()
	}
	return f.F.Root.count()
}

func init() {
	rule := "10000-140000 rows, 60-300 columns, hundreds of stripes, values up to 400 KB, chunks of several MB or structs 40 levels deep, options near the defaults; non-trivial: several stripes or chunks, more than 512 rows, nulls or nested structs"
	any := func(t *rapid.T) AnyFile {
		if uniform(t, 0, 2) == 0 {
			c := drawLargeForeign(t)
			return AnyFile{F: &c}
		}
		c := drawLarge(t)
		return AnyFile{P: &c}
	}
	register("C14", "large", "5001-70000 rows or values up to 400 KB, lists of up to 10 elements a row; non-trivial: more than 20 rows, a dictionary or several stripes", 300, 5000, func(t *rapid.T) foreignCase {
		c := foreignCase{F: drawLargeForeign(t)}
		c.Batch = drawLargeBatch(t, c.F.Root.count())
		return c
	}, runForeignFile)
	register("C09", "large", rule, 200, 4000, func(t *rapid.T) roundCase {
		c := roundCase{F: drawLarge(t)}
		c.Batch = drawLargeBatch(t, c.F.Root.count())
		return c
	}, runRound)
	register("C12", "large", rule, 300, 4000, drawLarge, runValid)
	register("C13", "nulls", "3000-15000 rows of one column with nulls and equal values, stripes of 180-700 bytes; non-trivial: several stripes, nulls", 250, 4000, drawPresent, runAccount)
	register("C13", "large", rule, 300, 3000, drawLarge, runAccount)
	register("C17", "large", rule, 300, 3000, drawLarge, runStats)
	register("C18", "large", rule, 300, 3000, func(t *rapid.T) FileCase {
		c := drawLarge(t)
		if !c.O.Index {
			c.O.Index, c.O.Stride = true, rapid.SampledFrom([]int{10, 100, 1000, 10000}).Draw(t, "stride")
			if c.O.Stride < 100 && c.Rows > 10000 {
				c.O.Stride = 100
			}
		}
		return c
	}, runIndex)
	register("C11", "large", rule, 120, 1500, func(t *rapid.T) splitCase {
		c := splitCase{F: drawLarge(t)}
		c.F.O.Splits = nil
		for k := rapid.IntRange(1, 2).Draw(t, "ways"); k > 0; k-- {
			c.Splits = append(c.Splits, []int{rapid.SampledFrom([]int{1024, 1000, 3000, 5000, 10000, 65536}).Draw(t, "rows")})
			c.Reuse = append(c.Reuse, rapid.IntRange(0, 2).Draw(t, "reuse"))
		}
		return c
	}, runSplit)
	register("C10", "large", rule, 240, 2500, func(t *rapid.T) batchCase {
		c := batchCase{F: any(t)}
		for p := rapid.IntRange(1, 2).Draw(t, "passes"); p > 0; p-- {
			c.Sizes = append(c.Sizes, []int{drawLargeBatch(t, c.F.columns()), rapid.SampledFrom([]int{1, 1000, 0, -1, -2, -3}).Draw(t, "size")})
		}
		return c
	}, runBatch)
	register("C15", "large", rule, 240, 2500, func(t *rapid.T) projCase {
		c := projCase{F: any(t), Sets: []uint64{drawSeed(t)}, Seek: rapid.Bool().Draw(t, "seek")}
		c.Batch = drawLargeBatch(t, c.F.columns())
		return c
	}, runProj)
	register("C16", "large", rule, 300, 3000, func(t *rapid.T) seekCase {
		c := seekCase{F: any(t), Pre: rapid.IntRange(0, 2).Draw(t, "pre")}
		for k := rapid.IntRange(2, 8).Draw(t, "ops"); k > 0; k-- {
			c.Ops = append(c.Ops, seekOp{K: rapid.SampledFrom([]int{0, 1, 2, 2, 3}).Draw(t, "seek"), A: uniform(t, 0, 200000), D: rapid.IntRange(-2, 2).Draw(t, "d"),
				Reads: rapid.IntRange(0, 2).Draw(t, "reads"), Size: rapid.SampledFrom([]int{10, 500, 1000, 10000}).Draw(t, "size")})
		}
		return c
	}, runSeek)
}
