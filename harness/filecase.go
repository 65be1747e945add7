package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// NullSpec places nulls.
type NullSpec struct {
	K string `json:"k,omitempty"` // "" none, all, every, rand, runs, head, tail
	P int    `json:"p,omitempty"`
	S uint64 `json:"s,omitempty"`
}

func (n NullSpec) expand(count int) []bool {
	out := make([]bool, count)
	r := rng(n.S)
	switch n.K {
	case "all":
		for i := range out {
			out[i] = true
		}
	case "every":
		for i := range out {
			out[i] = (i+int(n.S))%(n.P+1) == 0
		}
	case "rand":
		for i := range out {
			out[i] = r.n(100) < n.P
		}
	case "runs":
		v := false
		for i := 0; i < count; {
			for k := 1 + r.n(n.P+1); k > 0 && i < count; k-- {
				out[i] = v
				i++
			}
			v = !v
		}
	case "head":
		for i := 0; i < count && i < n.P; i++ {
			out[i] = true
		}
	case "tail":
		for i := n.P; i < count; i++ {
			out[i] = true
		}
	}
	return out
}

// ColSpec describes a column: its type, and its values as functions of the
// number of them.
type ColSpec struct {
	K  int       `json:"k"`
	N  string    `json:"name,omitempty"`
	E  int       `json:"e,omitempty"` // 1: dictionary
	H  bool      `json:"h,omitempty"` // column may have nulls
	Nu NullSpec  `json:"nu"`
	D  []Seg     `json:"d,omitempty"` // values
	L  []Seg     `json:"l,omitempty"` // lengths
	X  int       `json:"x,omitempty"` // style of values
	C  []ColSpec `json:"c,omitempty"`
}

func (c *ColSpec) node() *ref.Node {
	n := &ref.Node{Kind: c.K}
	for i := range c.C {
		n.Kids = append(n.Kids, c.C[i].node())
		if c.K == ref.StructK {
			n.Names = append(n.Names, c.C[i].N)
		}
	}
	return n
}

var leafKinds = []int{ref.Boolean, ref.Byte, ref.Short, ref.Int, ref.Long, ref.Float, ref.Double, ref.String, ref.Binary,
	ref.TimestampK, ref.Decimal, ref.DateK, ref.Varchar, ref.Char}

// schema of the project
func (c *ColSpec) schema() *api.TypeDescription {
	td := &api.TypeDescription{Kind: pb.Type_Kind(c.K), HasNulls: c.H, Encoding: pb.ColumnEncoding_DIRECT_V2}
	switch c.K {
	case ref.Boolean, ref.Byte, ref.Float, ref.Double, ref.StructK:
		td.Encoding = pb.ColumnEncoding_DIRECT
	case ref.String, ref.Varchar, ref.Char:
		if c.E == 1 {
			td.Encoding = pb.ColumnEncoding_DICTIONARY_V2
		}
	}
	for i := range c.C {
		td.AddChild(c.C[i].N, c.C[i].schema())
	}
	return td
}

func (c *ColSpec) walk(f func(c *ColSpec)) {
	f(c)
	for i := range c.C {
		c.C[i].walk(f)
	}
}

func (c *ColSpec) has(kinds ...int) bool {
	found := false
	c.walk(func(x *ColSpec) {
		for _, k := range kinds {
			found = found || x.K == k
		}
	})
	return found
}

func (c *ColSpec) count() (n int) {
	c.walk(func(*ColSpec) { n++ })
	return
}

// slots makes n values of the column, nil is null.
func (c *ColSpec) slots(n int) []any {
	nulls := make([]bool, n)
	if c.H {
		nulls = c.Nu.expand(n)
	}
	k := 0
	for _, x := range nulls {
		if !x {
			k++
		}
	}
	vals := make([]any, k)
	switch c.K {
	case ref.StructK:
		for i := range vals {
			vals[i] = make(ref.Struct, len(c.C))
		}
		for j := range c.C {
			for i, v := range c.C[j].slots(k) {
				vals[i].(ref.Struct)[j] = v
			}
		}
	case ref.ListK, ref.MapK:
		lens := fillTo(c.L, k)
		total, max, longest := 0, 6000, int64(40)
		if n > 5000 { // of large files
			max = 10 * n
		}
		if c.X == longList {
			max, longest = 1400000, 1<<17
		}
		for i := range lens {
			lens[i] = clampLen(lens[i], longest)
			total += int(lens[i])
			if total > max {
				total -= int(lens[i])
				lens[i] = 0
			}
		}
		a := c.C[0].slots(total)
		var b []any
		if c.K == ref.MapK {
			b = c.C[1].slots(total)
		}
		at := 0
		for i, l := range lens {
			if c.K == ref.ListK {
				x := ref.List{}
				for j := 0; j < int(l); j++ {
					x = append(x, a[at])
					at++
				}
				vals[i] = x
			} else {
				x := ref.Map{}
				for j := 0; j < int(l); j++ {
					x = append(x, [2]any{a[at], b[at]})
					at++
				}
				vals[i] = x
			}
		}
	default:
		d := fillTo(c.D, k)
		var l []int64
		if len(c.L) > 0 {
			l = fillTo(c.L, k)
		}
		for i := range vals {
			x := int64(0)
			if l != nil {
				x = l[i]
			}
			vals[i] = leafValue(c.K, c.X, d[i], x)
		}
	}
	out := make([]any, n)
	j := 0
	for i := range out {
		if !nulls[i] {
			out[i] = vals[j]
			j++
		}
	}
	return out
}

func clampLen(v int64, max int64) int64 {
	if v < 0 {
		v = -(v + 1)
	}
	if v > max {
		v %= max + 1
	}
	return v
}

var words = []string{"", "a", "b", "zz", "Alpha", "beta", "gamma delta", "\x00", "\xc3\xa9t\xc3\xa9", "\xf0\x9f\x98\x80", "~", "0", "a\x00", "aa", "\xe4\xbd\xa0\xe5\xa5\xbd", "Z"}

func text(v, l int64, style int) string {
	switch style {
	case 0:
		return fmt.Sprint(v)
	case 1:
		return words[uint64(v)%uint64(len(words))]
	case 2: // of any length
		n := int(clampLen(l, 2500))
		return strings.Repeat(words[1+uint64(v)%7], n)[:n]
	case 3: // common prefix
		return strings.Repeat("p", int(clampLen(l, 1100))) + fmt.Sprintf("%016x", uint64(v))
	case 4: // incompressible
		n := int(clampLen(l, 300))
		r := rng(v)
		b := make([]byte, n)
		first, kinds := 32, 95
		if r.n(2) == 0 { // any bytes, not only of UTF-8
			first, kinds = 0, 256
		}
		for i := range b {
			b[i] = byte(first + r.n(kinds))
		}
		return string(b)
	case bigText:
		n := int(clampLen(l, 400000))
		return strings.Repeat(words[1+uint64(v)%7]+fmt.Sprint(v), n/2+1)[:n]
	case bigNoise:
		b := make([]byte, clampLen(l, 600000))
		r := rng(v)
		kinds := []uint64{256, 256, 128, 90}[uint64(v)%4]
		for i := range b {
			b[i] = byte(r.next() % kinds)
		}
		return string(b)
	default:
		return fmt.Sprintf("k%d", uint64(v)%5)
	}
}

const bigText, bigNoise, longList = 6, 7, 8 // only of large files

// limits of timestamps, so that milliseconds fit an int64 with margin
const maxSec = 1 << 45

func leafValue(kind, style int, v, l int64) any {
	switch kind {
	case ref.Boolean:
		return v&1 == 1
	case ref.Byte:
		return int64(byte(v))
	case ref.Short:
		return int64(int16(v))
	case ref.Int:
		return int64(int32(v))
	case ref.Long:
		return v
	case ref.Float:
		switch style {
		case 0:
			return ref.F32(math.Float32bits(float32(v)))
		case 1:
			return ref.F32(uint32(v))
		default:
			return ref.F32(math.Float32bits(float32(v%100000) / 8))
		}
	case ref.Double:
		switch style {
		case 0:
			return ref.F64(math.Float64bits(float64(v)))
		case 1:
			return ref.F64(uint64(v))
		default:
			return ref.F64(math.Float64bits(float64(v%100000) / 8))
		}
	case ref.String, ref.Varchar, ref.Char:
		return text(v, l, style)
	case ref.Binary:
		s := text(v, l, style)
		if style == 1 {
			s += string([]byte{0xff, 0, 0xfe})
		}
		return ref.Bin(s)
	case ref.TimestampK:
		ns := int64(0)
		switch style {
		case 0:
			ns = clampLen(l, 999999999)
		case 1:
			ns = clampLen(l, 999) * 1000000
		case 2:
			ns = clampLen(l, 9999) * 100000 % 1000000000
		}
		if style == 3 { // any seconds, milliseconds may not fit
			return ref.TS{Sec: v, Nano: ns}
		}
		return ref.TS{Sec: v % maxSec, Nano: ns}
	case ref.Decimal:
		sc := int64(style)
		if len(fmt.Sprint(l)) > 0 && style > 30 {
			sc = l % 40
		}
		return ref.MakeDec(v, sc)
	case ref.DateK:
		return ref.Date(int32(v))
	}
	panic("kind")
}

// generators

type colOpts struct {
	maxDepth int
	lists    bool // lists and maps too
	maxSegs  int
	maxLen   int
	kinds    []int
	noNulls  bool
}

func drawNulls(t *rapid.T) NullSpec {
	k := rapid.SampledFrom([]string{"", "rand", "every", "runs", "head", "tail", "all", "rand", "rand"}).Draw(t, "nulls")
	n := NullSpec{K: k}
	switch k {
	case "rand":
		n.P, n.S = rapid.SampledFrom([]int{1, 10, 50, 90, 99}).Draw(t, "p"), drawSeed(t)
	case "every":
		n.P, n.S = rapid.IntRange(1, 20).Draw(t, "p"), uint64(rapid.IntRange(0, 3).Draw(t, "phase"))
	case "runs":
		n.P, n.S = rapid.SampledFrom([]int{1, 5, 30, 300, 1500}).Draw(t, "p"), drawSeed(t)
	case "head", "tail":
		n.P = rapid.SampledFrom([]int{1, 2, 8, 9, 100, 511, 512, 513, 1024}).Draw(t, "p")
	}
	return n
}

func drawCol(t *rapid.T, o colOpts, depth int) ColSpec {
	c := ColSpec{}
	nested := 0
	if depth < o.maxDepth {
		nested = rapid.IntRange(0, 5).Draw(t, "nested")
	}
	switch {
	case nested == 5 || nested == 4 && !o.lists:
		c.K = ref.StructK
		n := rapid.IntRange(1, 3).Draw(t, "fields")
		if uniform(t, 0, 11) == 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			k := drawCol(t, o, depth+1)
			k.N = fmt.Sprintf("f%d", i)
			c.C = append(c.C, k)
		}
	case nested == 4 && o.lists:
		c.K = ref.ListK
		k := drawCol(t, o, depth+1)
		k.N = "elem"
		k.countable()
		c.C = []ColSpec{k}
		c.L = drawLens(t, o)
	case nested == 3 && o.lists:
		c.K = ref.MapK
		k, v := drawCol(t, o, o.maxDepth), drawCol(t, o, depth+1)
		k.N, v.N = "key", "value"
		v.countable()
		c.C = []ColSpec{k, v}
		c.L = drawLens(t, o)
	default:
		kinds := o.kinds
		if kinds == nil {
			kinds = leafKinds
		}
		c.K = rapid.SampledFrom(kinds).Draw(t, "kind")
		c.D = drawSegs(t, o.maxSegs, o.maxLen)
		switch c.K {
		case ref.String, ref.Varchar, ref.Char:
			c.E = rapid.IntRange(0, 1).Draw(t, "dict")
			c.X = rapid.IntRange(0, 5).Draw(t, "style")
			c.L = drawLens(t, o)
		case ref.Binary:
			c.X = rapid.IntRange(0, 5).Draw(t, "style")
			c.L = drawLens(t, o)
		case ref.Float, ref.Double:
			c.X = rapid.IntRange(0, 2).Draw(t, "style")
		case ref.TimestampK:
			c.X = rapid.IntRange(0, 3).Draw(t, "style")
			c.L = drawSegs(t, 2, o.maxLen)
		case ref.Decimal:
			c.X = rapid.SampledFrom([]int{0, 2, 3, 6, 18, 31}).Draw(t, "scale")
			if c.X > 30 {
				c.L = drawSegs(t, 2, o.maxLen)
			}
		}
	}
	if !o.noNulls {
		c.H = rapid.IntRange(0, 2).Draw(t, "hasnulls") > 0
		if c.H {
			c.Nu = drawNulls(t)
		}
	}
	return c
}

func drawLens(t *rapid.T, o colOpts) []Seg {
	if rapid.IntRange(0, 2).Draw(t, "lens") > 0 {
		return []Seg{{K: "rand", N: 64, W: rapid.IntRange(0, 5).Draw(t, "w"), S: drawSeed(t)}}
	}
	return drawSegs(t, 2, o.maxLen)
}

// FileOpts are options of a file which the project writes.
type FileOpts struct {
	Comp   int   `json:"comp"`
	Chunk  int   `json:"chunk"`
	Stripe int   `json:"stripe"`
	Index  bool  `json:"index,omitempty"`
	Stride int   `json:"stride,omitempty"`
	Buf    int   `json:"buf,omitempty"`
	Splits []int `json:"splits,omitempty"` // rows of the writes, repeated
	Garb   bool  `json:"garb,omitempty"`   // garbage where there is null
}

func (o FileOpts) config() config.WriterOptions {
	c := config.DefaultWriterOptions()
	c.CompressionKind = pb.CompressionKind(o.Comp)
	c.ChunkSize, c.StripeSize = o.Chunk, o.Stripe
	c.WriteIndex, c.IndexStride = o.Index, o.Stride
	return c
}

func drawOpts(t *rapid.T) FileOpts {
	o := FileOpts{Comp: rapid.IntRange(0, 1).Draw(t, "comp")}
	o.Chunk = rapid.SampledFrom([]int{1, 3, 16, 50, 64, 100, 256, 1000, 4096, 65536, 262144}).Draw(t, "chunk")
	if o.Comp == 1 && o.Chunk < 16 && rapid.IntRange(0, 3).Draw(t, "tiny") > 0 {
		o.Chunk *= 30
	}
	o.Stripe = rapid.SampledFrom([]int{1, 100, 500, 1000, 3000, 10000, 100000, 1 << 28}).Draw(t, "stripe")
	o.Index = rapid.Bool().Draw(t, "index")
	if o.Index {
		o.Stride = drawStride(t)
	}
	k := rapid.IntRange(0, 3).Draw(t, "nsplits")
	for i := 0; i < k; i++ {
		o.Splits = append(o.Splits, rapid.SampledFrom([]int{1, 2, 7, 10, 100, 511, 512, 513, 1000, 1024}).Draw(t, "split"))
	}
	o.Garb = rapid.IntRange(0, 3).Draw(t, "garb") == 0
	return o
}

func drawStride(t *rapid.T) int {
	if rapid.Bool().Draw(t, "strideK") {
		return rapid.SampledFrom([]int{1, 2, 7, 8, 10, 64, 100, 128, 130, 500, 511, 512, 513, 1000, 1024}).Draw(t, "stride")
	}
	return rapid.IntRange(1, 1500).Draw(t, "stride")
}

func drawRows(t *rapid.T) int {
	if rapid.IntRange(0, 49).Draw(t, "norows") == 49 {
		return 0
	}
	switch rapid.IntRange(0, 4).Draw(t, "rowsK") {
	case 0:
		return rapid.IntRange(1, 20).Draw(t, "rows")
	case 1:
		return rapid.SampledFrom([]int{1, 2, 8, 9, 127, 128, 129, 130, 131, 255, 256, 500, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1100, 1536, 2049}).Draw(t, "rows")
	case 2:
		return rapid.IntRange(1, 300).Draw(t, "rows")
	default:
		return rapid.IntRange(1, 2500).Draw(t, "rows")
	}
}

// FileCase is a table and the options of the file.
type FileCase struct {
	Root ColSpec  `json:"root"`
	Rows int      `json:"rows"`
	O    FileOpts `json:"o"`
	Zone string   `json:"zone,omitempty"`
}

var zones = []string{"UTC", "America/New_York", "Asia/Shanghai", "Asia/Kolkata", "Pacific/Chatham", "Europe/London"}

func drawRoot(t *rapid.T, o colOpts) ColSpec {
	if rapid.IntRange(0, 9).Draw(t, "root") == 0 {
		o.maxDepth = 0
		return drawCol(t, o, 0)
	}
	root := ColSpec{K: ref.StructK}
	n := rapid.IntRange(1, 4).Draw(t, "cols")
	for i := 0; i < n; i++ {
		c := drawCol(t, o, 0)
		c.N = fmt.Sprintf("c%d", i)
		root.C = append(root.C, c)
	}
	if !o.noNulls && rapid.IntRange(0, 9).Draw(t, "rootnulls") == 0 {
		root.H = true
		root.Nu = drawNulls(t)
	}
	root.countable()
	return root
}

// countable makes sure that there is a column which tells the number of values.
func (c *ColSpec) countable() {
	var is func(x *ColSpec) bool
	is = func(x *ColSpec) bool {
		if x.K != ref.StructK {
			return true
		}
		for i := range x.C {
			if is(&x.C[i]) {
				return true
			}
		}
		return false
	}
	if !is(c) {
		c.C = append(c.C, ColSpec{K: ref.Long, N: fmt.Sprint("n", len(c.C)), D: []Seg{{K: "ramp", A: 7, B: 3, N: 100}}})
	}
}

var defaultCols = colOpts{maxDepth: 2, maxSegs: 3, maxLen: 600}

func drawFile(t *rapid.T) FileCase {
	c := FileCase{Root: drawRoot(t, defaultCols), Rows: drawRows(t), O: drawOpts(t)}
	if c.Root.has(ref.TimestampK) {
		c.Zone = rapid.SampledFrom(zones).Draw(t, "zone")
	}
	limitStripes(&c)
	return c
}

// limitStripes keeps the number of stripes (and the cost of a case) down, a
// cut is made at most once a row.
func limitStripes(c *FileCase) {
	cols := c.Root.count()
	if c.O.Stripe < 100 && c.Rows > 40 {
		c.O.Stripe = 100 + c.Rows
	}
	if cols > 6 && c.O.Stripe < 500*cols {
		c.O.Stripe = 500 * cols
	}
	if least := c.Rows * cols / 2; c.O.Stripe < least && c.Rows > 200 {
		// each stripe costs a compressor per stream
		c.O.Stripe = least
	}
}

func (c FileCase) loc() *time.Location {
	if c.Zone == "" {
		return time.UTC
	}
	l, err := time.LoadLocation(c.Zone)
	if err != nil {
		panic(err)
	}
	return l
}

func (c FileCase) rows() []any { return c.Root.slots(c.Rows) }

// vectors of the project

// toVec makes the batch of slots.
func toVec(td *api.TypeDescription, slots []any, loc *time.Location, garbage bool) *api.ColumnVector {
	v := &api.ColumnVector{Id: td.Id, Kind: td.Kind}
	if td.Kind == pb.Type_STRUCT {
		if td.HasNulls {
			v.Vector = make([]api.Value, len(slots))
			for i, s := range slots {
				v.Vector[i].Null = s == nil
			}
		}
		for j, k := range td.Children {
			kid := make([]any, len(slots))
			for i, s := range slots {
				if s != nil {
					kid[i] = s.(ref.Struct)[j]
				}
			}
			v.Children = append(v.Children, toVec(k, kid, loc, garbage))
		}
		return v
	}
	v.Vector = make([]api.Value, len(slots))
	for i, s := range slots {
		if s == nil {
			v.Vector[i].Null = true
			if garbage {
				v.Vector[i].V = toValue(int(td.Kind), leafValue(int(td.Kind), 0, int64(i)*77+3, 5), loc)
			}
			continue
		}
		v.Vector[i].V = toValue(int(td.Kind), s, loc)
	}
	return v
}

func toValue(kind int, s any, loc *time.Location) any {
	switch kind {
	case ref.Boolean:
		return s.(bool)
	case ref.Byte:
		return byte(s.(int64))
	case ref.Short:
		return int16(s.(int64))
	case ref.Int:
		return int32(s.(int64))
	case ref.Long:
		return s.(int64)
	case ref.Float:
		return math.Float32frombits(uint32(s.(ref.F32)))
	case ref.Double:
		return math.Float64frombits(uint64(s.(ref.F64)))
	case ref.String, ref.Varchar, ref.Char:
		return s.(string)
	case ref.Binary:
		return []byte(s.(ref.Bin))
	case ref.TimestampK:
		t := s.(ref.TS)
		return api.Timestamp{Loc: loc, Seconds: t.Sec, Nanos: uint64(t.Nano)}
	case ref.Decimal:
		d := s.(ref.Dec)
		var u int64
		fmt.Sscan(d.U, &u)
		return api.Decimal64{Precision: u, Scale: int(d.Scale)}
	case ref.DateK:
		return dateOf(int64(s.(ref.Date)))
	}
	panic("kind")
}

// dateOf is a date of day, every other one with a time of day (UTC), which is not part of a date
func dateOf(day int64) api.Date {
	x := uint64(day) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	if x&1 == 0 {
		return api.FromDays(int32(day))
	}
	return api.Date(time.Unix(day*86400+int64((x>>8)%86400), int64((x>>3)%1000000000)).UTC())
}

// fromVec gives n slots of a vector which was read.
func fromVec(td *api.TypeDescription, v *api.ColumnVector, n int) ([]any, error) {
	if v == nil {
		return nil, fmt.Errorf("no vector of column %d", td.Id)
	}
	if v.Id != td.Id || v.Kind != td.Kind {
		return nil, fmt.Errorf("vector of column %d has id %d kind %s", td.Id, v.Id, v.Kind)
	}
	out := make([]any, n)
	if td.Kind == pb.Type_STRUCT && len(v.Vector) == 0 {
		// all present
	} else if len(v.Vector) != n {
		return nil, fmt.Errorf("vector of column %d has %d values, should have %d", td.Id, len(v.Vector), n)
	}
	null := func(i int) bool { return len(v.Vector) > 0 && v.Vector[i].Null }
	switch td.Kind {
	case pb.Type_STRUCT:
		if len(v.Children) != len(td.Children) {
			return nil, fmt.Errorf("vector of column %d has %d children, should have %d", td.Id, len(v.Children), len(td.Children))
		}
		for i := range out {
			if !null(i) {
				out[i] = make(ref.Struct, len(td.Children))
			}
		}
		for j, k := range td.Children {
			vals, err := fromVec(k, v.Children[j], n)
			if err != nil {
				return nil, err
			}
			for i := range out {
				if out[i] != nil {
					out[i].(ref.Struct)[j] = vals[i]
				}
			}
		}
	case pb.Type_LIST, pb.Type_MAP:
		total := 0
		lens := make([]int, n)
		for i := range out {
			if null(i) {
				continue
			}
			switch l := v.Vector[i].V.(type) {
			case uint64:
				lens[i] = int(l)
			case int:
				lens[i] = l
			default:
				return nil, fmt.Errorf("length of column %d is %T", td.Id, v.Vector[i].V)
			}
			if lens[i] < 0 || lens[i] > 1<<24 {
				return nil, fmt.Errorf("length of column %d is %d", td.Id, lens[i])
			}
			total += lens[i]
		}
		if len(v.Children) != len(td.Children) {
			return nil, fmt.Errorf("vector of column %d has %d children, should have %d", td.Id, len(v.Children), len(td.Children))
		}
		var kids [][]any
		for j, k := range td.Children {
			vals, err := fromVec(k, v.Children[j], total)
			if err != nil {
				return nil, err
			}
			kids = append(kids, vals)
		}
		at := 0
		for i := range out {
			if null(i) {
				continue
			}
			if td.Kind == pb.Type_LIST {
				out[i] = append(ref.List{}, kids[0][at:at+lens[i]]...)
			} else {
				m := ref.Map{}
				for j := at; j < at+lens[i]; j++ {
					m = append(m, [2]any{kids[0][j], kids[1][j]})
				}
				out[i] = m
			}
			at += lens[i]
		}
	default:
		for i := range out {
			if null(i) {
				continue
			}
			x, err := fromValue(int(td.Kind), v.Vector[i].V)
			if err != nil {
				return nil, fmt.Errorf("column %d value %d: %w", td.Id, i, err)
			}
			out[i] = x
		}
	}
	return out, nil
}

func fromValue(kind int, x any) (any, error) {
	switch kind {
	case ref.Boolean:
		if b, ok := x.(bool); ok {
			return b, nil
		}
	case ref.Byte:
		if b, ok := x.(byte); ok {
			return int64(b), nil
		}
	case ref.Short:
		if b, ok := x.(int16); ok {
			return int64(b), nil
		}
	case ref.Int:
		if b, ok := x.(int32); ok {
			return int64(b), nil
		}
	case ref.Long:
		if b, ok := x.(int64); ok {
			return b, nil
		}
	case ref.Float:
		if b, ok := x.(float32); ok {
			return ref.F32(math.Float32bits(b)), nil
		}
	case ref.Double:
		if b, ok := x.(float64); ok {
			return ref.F64(math.Float64bits(b)), nil
		}
	case ref.String, ref.Varchar, ref.Char:
		if b, ok := x.(string); ok {
			return b, nil
		}
	case ref.Binary:
		if b, ok := x.([]byte); ok {
			return ref.Bin(b), nil
		}
	case ref.TimestampK:
		if b, ok := x.(api.Timestamp); ok {
			return ref.TS{Sec: b.Seconds, Nano: int64(b.Nanos)}, nil
		}
	case ref.Decimal:
		if b, ok := x.(api.Decimal64); ok {
			return ref.MakeDec(b.Precision, int64(b.Scale)), nil
		}
	case ref.DateK:
		if b, ok := x.(api.Date); ok {
			day := int64(api.ToDays(b))
			y, m, d := time.Time(b).Date()
			if cy, cm, cd := civil(day); int64(y) != cy || int(m) != cm || d != cd {
				return nil, fmt.Errorf("date of day %d says it is %d-%d-%d", day, y, m, d)
			}
			return ref.Date(day), nil
		}
	}
	return nil, fmt.Errorf("value %v has type %T", x, x)
}

// writing and reading

// oldFiles are complete files, which new ones replace.
var oldFiles = sync.OnceValue(func() (out [][]byte) {
	dir, err := os.MkdirTemp("", "verif-old-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i, n := range []int{3000, 50000} {
		c := FileCase{Root: ColSpec{K: ref.StructK, C: []ColSpec{{N: "old", K: ref.Long, D: []Seg{{K: "rand", N: n, W: 62, S: 77}}}}}, Rows: n,
			O: FileOpts{Chunk: 10000, Stripe: 1 << 28}}
		p := filepath.Join(dir, fmt.Sprint(i))
		if err := writeNew(p, c, c.rows()); err != nil {
			return nil
		}
		out = append(out, readBytes(p))
	}
	return out
})

// leaveOld puts another file, which is mostly longer, at path every fourth time.
func leaveOld(path string, seed uint64) {
	if seed%4 != 0 || len(oldFiles()) == 0 {
		return
	}
	k := 0
	if seed>>2%8 == 0 {
		k = 1
	}
	if f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o644); err == nil {
		f.Write(oldFiles()[k])
		f.Close()
	}
}

// writeFile writes rows to path, in the batches of the options, sometimes in the place of another file.
func writeFile(path string, c FileCase, rows []any) error {
	leaveOld(path, mix(c.O, len(rows)))
	return writeNew(path, c, rows)
}

func writeNew(path string, c FileCase, rows []any) error {
	schema := c.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return violf("schema refused: %v", err)
	}
	w, err := orc.NewOSFileWriter(path, schema, c.O.config())
	if err != nil {
		return violf("writer refused: %v", err)
	}
	k := 0
	for at := 0; at < len(rows); {
		n := len(rows) - at
		if len(c.O.Splits) > 0 {
			if s := c.O.Splits[k%len(c.O.Splits)]; s < n {
				n = s
			}
			k++
		}
		if err := w.Write(toVec(schema, rows[at:at+n], c.loc(), c.O.Garb)); err != nil {
			w.Close()
			return violf("writing rows %d to %d failed: %v", at, at+n, err)
		}
		at += n
	}
	if err := w.Close(); err != nil {
		return violf("closing the writer failed: %v", err)
	}
	return nil
}

type readOpts struct {
	batches  []int // sizes, repeated
	includes []uint32
	loc      *time.Location
	rowSize  int // of the batch reader
}

// readBatches reads everything from a batch reader on.
func readRest(br orc.BatchReader, schema *api.TypeDescription, o readOpts, max int) (rows []any, err error) {
	k := 0
	vecs := map[int]*api.ColumnVector{}
	for {
		size := 1000
		if len(o.batches) > 0 {
			size = o.batches[k%len(o.batches)]
			k++
		}
		vec := vecs[size]
		if vec == nil {
			if vec, err = schema.CreateVector(&api.BatchOption{RowSize: size, Includes: o.includes, Loc: o.loc}); err != nil {
				return rows, fmt.Errorf("vector: %w", err)
			}
			vecs[size] = vec
		}
		end, err := br.Next(vec)
		if err != nil {
			return rows, err
		}
		n := vec.Len()
		if n > size {
			return rows, violf("batch of %d rows, %d were asked for", n, size)
		}
		vals, err := fromVec(prune(schema, o.includes), vec, n)
		if err != nil {
			return rows, violf("batch after row %d: %v", len(rows), err)
		}
		rows = append(rows, vals...)
		if end {
			return rows, nil
		}
		if n == 0 {
			return rows, violf("empty batch after %d rows, which is not the end", len(rows))
		}
		if len(rows) > max {
			return rows, violf("more than %d rows", max)
		}
	}
}

// prune restricts the schema to included columns.
func prune(td *api.TypeDescription, includes []uint32) *api.TypeDescription {
	if len(includes) == 0 {
		return td
	}
	in := map[uint32]bool{}
	for _, i := range includes {
		in[i] = true
	}
	var walk func(x *api.TypeDescription) *api.TypeDescription
	walk = func(x *api.TypeDescription) *api.TypeDescription {
		c := &api.TypeDescription{Id: x.Id, Kind: x.Kind}
		for i, k := range x.Children {
			if in[k.Id] {
				name := ""
				if i < len(x.ChildrenNames) {
					name = x.ChildrenNames[i]
				}
				c.AddChild(name, walk(k))
			}
		}
		return c
	}
	return walk(td)
}

// readFile opens a file and reads all rows.
func readFile(path string, o readOpts, max int) (rows []any, err error) {
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		return nil, fmt.Errorf("opening: %w", err)
	}
	defer r.Close()
	size := 1000
	if len(o.batches) > 0 {
		size = o.batches[0]
	}
	br, err := r.CreateBatchReader(&api.BatchOption{RowSize: size, Includes: o.includes, Loc: o.loc})
	if err != nil {
		return nil, fmt.Errorf("batch reader: %w", err)
	}
	defer br.Close()
	return readRest(br, r.GetSchema(), o, max)
}

// classifyFile counts what a file has in it.
func classifyFile(ctx *Ctx, c FileCase, f *ref.File) {
	if f != nil {
		ctx.ClassIf(len(f.Stripes) > 1, "several stripes")
		multi := false
		for _, s := range f.Stripes {
			for _, st := range s.Streams {
				multi = multi || len(st.Chunks) > 1
			}
		}
		ctx.ClassIf(multi, "several chunks")
		if len(f.Stripes) > 1 || multi || c.Rows > 512 {
			ctx.Nontrivial()
		}
	}
	ctx.ClassIf(c.Rows > 10000, "over 10000 rows")
	ctx.ClassIf(c.Rows > 65536, "over 65536 rows")
	ctx.ClassIf(len(c.Root.C) > 127, "over 127 columns")
	ctx.ClassIf(f != nil && len(f.Stripes) > 127, "over 127 stripes")
	ctx.ClassIf(c.O.Comp == 0, "uncompressed")
	ctx.ClassIf(c.O.Index, "row index")
	hasNull, nested := false, false
	for i := range c.Root.C {
		nested = nested || c.Root.C[i].K == ref.StructK
	}
	c.Root.walk(func(x *ColSpec) { hasNull = hasNull || x.H && x.Nu.K != "" })
	ctx.ClassIf(hasNull, "nulls")
	ctx.ClassIf(nested, "nested struct")
	if hasNull || nested {
		ctx.Nontrivial()
	}
	ctx.ClassIf(c.Root.K != ref.StructK, "root not a struct")
	ctx.ClassIf(c.Root.H, "nullable root")
	c.Root.walk(func(x *ColSpec) {
		if x.E == 1 {
			ctx.Class("dictionary")
		}
	})
}

func readBytes(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return b
}
