package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C11: splits of the rows into writes

type splitCase struct {
	F      FileCase
	Splits [][]int
	Reuse  []int // of every way to write: 0 new batches, 1 overwritten after the write, 2 the same batch for all writes
}

func genSplit(t *rapid.T) splitCase {
	c := splitCase{F: drawFile(t)}
	c.F.O.Splits = nil
	for k := rapid.IntRange(1, 3).Draw(t, "ways"); k > 0; k-- {
		var s []int
		for j := rapid.IntRange(1, 4).Draw(t, "writes"); j > 0; j-- {
			s = append(s, rapid.SampledFrom([]int{1, 1, 2, 3, 7, 8, 10, 64, 100, 127, 128, 129, 130, 511, 512, 513, 1000, 1024}).Draw(t, "rows"))
		}
		c.Splits = append(c.Splits, s)
		c.Reuse = append(c.Reuse, rapid.IntRange(0, 2).Draw(t, "reuse"))
	}
	return c
}

// copyVec is a copy which shares nothing but the values.
func copyVec(v *api.ColumnVector) *api.ColumnVector {
	c := &api.ColumnVector{Id: v.Id, Kind: v.Kind}
	if v.Vector != nil {
		c.Vector = make([]api.Value, len(v.Vector))
	}
	for i, x := range v.Vector {
		c.Vector[i] = x
		if b, ok := x.V.([]byte); ok {
			c.Vector[i].V = append([]byte{}, b...)
		}
	}
	for _, k := range v.Children {
		c.Children = append(c.Children, copyVec(k))
	}
	return c
}

// sameVec compares, bit by bit.
func sameVec(a, b *api.ColumnVector) string {
	if a.Id != b.Id || a.Kind != b.Kind || len(a.Vector) != len(b.Vector) || len(a.Children) != len(b.Children) {
		return fmt.Sprintf("column %d has another shape", a.Id)
	}
	for i := range a.Vector {
		x, y := a.Vector[i], b.Vector[i]
		same := x.Null == y.Null
		switch v := x.V.(type) {
		case []byte:
			w, ok := y.V.([]byte)
			same = same && ok && bytes.Equal(v, w)
		case float32:
			w, ok := y.V.(float32)
			same = same && ok && math.Float32bits(v) == math.Float32bits(w)
		case float64:
			w, ok := y.V.(float64)
			same = same && ok && math.Float64bits(v) == math.Float64bits(w)
		default:
			same = same && x.V == y.V
		}
		if !same {
			return fmt.Sprintf("value %d of column %d was %v, is %v", i, a.Id, x, y)
		}
	}
	for i := range a.Children {
		if d := sameVec(a.Children[i], b.Children[i]); d != "" {
			return d
		}
	}
	return ""
}

// scribble overwrites the slots of a batch.
func scribble(v *api.ColumnVector) {
	for i := range v.Vector {
		v.Vector[i] = api.Value{Null: !v.Vector[i].Null, V: "overwritten"}
	}
	for _, k := range v.Children {
		scribble(k)
	}
}

// fill makes dst have the values of src in the slots it has already.
func fill(dst, src *api.ColumnVector) {
	dst.Vector = append(dst.Vector[:0], src.Vector...)
	for i := range src.Children {
		fill(dst.Children[i], src.Children[i])
	}
}

// writeSplit writes rows in parts.
func writeSplit(path string, c FileCase, rows []any, splits []int, reuse int) error {
	schema := c.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return violf("schema refused: %v", err)
	}
	w, err := orc.NewOSFileWriter(path, schema, c.O.config())
	if err != nil {
		return violf("writer refused: %v", err)
	}
	var same *api.ColumnVector
	for k, at := 0, 0; at < len(rows); k++ {
		n := len(rows) - at
		if len(splits) > 0 && splits[k%len(splits)] < n {
			n = splits[k%len(splits)]
		}
		vec := toVec(schema, rows[at:at+n], c.loc(), c.O.Garb)
		if reuse == 2 {
			if same != nil {
				fill(same, vec)
				vec = same
			}
			same = vec
		}
		before := copyVec(vec)
		if err := w.Write(vec); err != nil {
			w.Close()
			return violf("writing rows %d to %d failed: %v", at, at+n, err)
		}
		if d := sameVec(before, vec); d != "" {
			w.Close()
			return violf("writing rows %d to %d has changed the batch: %s", at, at+n, d)
		}
		if reuse == 1 {
			scribble(vec)
		}
		at += n
	}
	if err := w.Close(); err != nil {
		return violf("closing the writer failed: %v", err)
	}
	return nil
}

func runSplit(ctx *Ctx, c splitCase) error {
	rows := c.F.rows()
	path := ctx.Path()
	if err := writeSplit(path, c.F, rows, nil, 0); err != nil {
		return err
	}
	want := readBytes(path)
	f, _ := ref.Parse(want)
	classifyFile(ctx, c.F, f)
	for i, s := range c.Splits {
		p := ctx.Path()
		if err := writeSplit(p, c.F, rows, s, c.Reuse[i]); err != nil {
			return err
		}
		got := readBytes(p)
		os.Remove(p)
		if !bytes.Equal(want, got) {
			return violf("in writes of %v rows (batches: %s) the file is another one: %s", s, []string{"new ones", "overwritten after the write", "one for all writes"}[c.Reuse[i]], firstDiff(want, got))
		}
		ctx.Class([]string{"new batches", "batches overwritten", "batch used again"}[c.Reuse[i]])
		ctx.Eval(1)
	}
	return nil
}

func firstDiff(a, b []byte) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("byte %d of %d and %d", i, len(a), len(b))
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(a), len(b))
}

// C13: accounting

func runAccount(ctx *Ctx, c FileCase) error {
	rows := c.rows()
	path := ctx.Path()
	if err := writeFile(path, c, rows); err != nil {
		return err
	}
	f, err := ref.Parse(readBytes(path))
	if err != nil {
		return violf("not a valid file: %v", err)
	}
	classifyFile(ctx, c, f)
	if f.Header != 3 {
		return violf("header length is %d", f.Header)
	}
	if f.Comp != c.O.Comp || f.Comp != ref.None && f.Block != c.O.Chunk {
		return violf("compression %d of chunks of %d was asked for, file has %d and %d", c.O.Comp, c.O.Chunk, f.Comp, f.Block)
	}
	stride := 0
	if c.O.Index {
		stride = c.O.Stride
	}
	if int(f.Stride) != stride {
		return violf("row index stride is %d, should be %d", f.Stride, stride)
	}
	at, total, body := uint64(3), uint64(0), uint64(0)
	for i, s := range f.Stripes {
		if s.Offset != at {
			return violf("stripe %d starts at %d, the one before ends at %d", i, s.Offset, at)
		}
		if s.Rows == 0 {
			return violf("stripe %d has no rows", i)
		}
		n := s.IndexLen + s.DataLen + s.FooterLen
		at, body, total = at+n, body+n, total+s.Rows
		// Parse has compared the lengths of streams with those of the stripe
	}
	if at != uint64(f.MetaStart) {
		return violf("stripes end at %d, file tail starts at %d", at, f.MetaStart)
	}
	if f.MetaStart != f.FooterStart {
		return violf("metadata of %d bytes, there is none", f.FooterStart-f.MetaStart)
	}
	if f.Content != body && f.Content != body+3 {
		return violf("content length is %d, stripes have %d", f.Content, body)
	}
	if total != f.Rows || f.Rows != uint64(len(rows)) {
		return violf("%d rows in stripes, %d in the footer, should be %d", total, f.Rows, len(rows))
	}
	if len(rows) == 0 {
		return nil
	}
	_, stripes, err := f.ReadAll()
	if err != nil {
		return violf("not valid: %v", err)
	}
	for i, s := range f.Stripes {
		most, least := bufferedSize(s, stripes[i])
		if i < len(f.Stripes)-1 && most < c.O.Stripe {
			return violf("stripe %d of %d was cut with at most %d bytes, stripe size is %d", i, len(f.Stripes), most, c.O.Stripe)
		}
		if least >= c.O.Stripe {
			return violf("stripe %d had at least %d bytes before its last row, stripe size is %d", i, least, c.O.Stripe)
		}
		ctx.ClassIf(i < len(f.Stripes)-1 && s.Rows > 1, "stripes of several rows")
	}
	return nil
}

// bufferedSize gives bounds of what was buffered for a stripe: with its last
// row at most, and without it at least.
func bufferedSize(s *ref.Stripe, cols []*ref.Column) (most, least int) {
	for _, st := range s.Streams {
		if st.Kind >= ref.SRowIndex {
			continue
		}
		c := cols[st.Col]
		dict := c.Enc.Kind == ref.EDictV2 && st.Kind != ref.SPresent
		if !dict {
			most += len(st.Data) + 3*len(st.Chunks)
		}
		// what the encoders hold back: a run
		held := 0
		switch {
		case st.Kind == ref.SPresent || c.Node.Kind == ref.Boolean || c.Node.Kind == ref.Byte:
			held = 160
		case st.Kind == ref.SLength || st.Kind == ref.SSecondary:
			held = 4200
		case c.Node.Kind == ref.Short || c.Node.Kind == ref.Int || c.Node.Kind == ref.Long || c.Node.Kind == ref.DateK || c.Node.Kind == ref.TimestampK:
			held = 4200
		}
		if !dict {
			if n := st.Len - held - 3*len(st.Chunks); n > 0 {
				least += n
			}
		}
	}
	last := 0
	for _, c := range cols {
		// a dictionary is made of the values when the stripe ends
		if c.Enc.Kind == ref.EDictV2 {
			seen := map[string]bool{}
			for _, v := range c.Slots {
				if x, ok := v.(string); ok {
					most += 24
					if !seen[x] {
						seen[x] = true
						most += len(x) + 16
						least += len(x)
					}
				}
			}
		}
		for i := c.Starts[s.Rows-1]; i < c.Starts[s.Rows]; i++ {
			last += 20
			switch v := c.Slots[i].(type) {
			case string:
				last += len(v)
			case ref.Bin:
				last += len(v)
			}
		}
	}
	return most, least - last
}

// C17: statistics

type statValues struct {
	kind  int
	vals  []any // not null
	nulls bool
	loc   *time.Location
}

// columnValues are the values of all columns, by number.
func columnValues(root *ColSpec, rows []any, loc *time.Location) []statValues {
	var out []statValues
	var walk func(c *ColSpec, slots []any)
	walk = func(c *ColSpec, slots []any) {
		x := statValues{kind: c.K, loc: loc}
		for _, s := range slots {
			if s == nil {
				x.nulls = true
			} else {
				x.vals = append(x.vals, s)
			}
		}
		out = append(out, x)
		for j := range c.C { // structs
			kid := make([]any, len(x.vals))
			for i, v := range x.vals {
				kid[i] = v.(ref.Struct)[j]
			}
			walk(&c.C[j], kid)
		}
	}
	walk(root, rows)
	return out
}

// millis of a timestamp: of its instant, and of its wall clock taken for UTC
func millis(t ref.TS, loc *time.Location) (int64, int64) {
	at := time.Unix(time.Date(2015, 1, 1, 0, 0, 0, 0, loc).Unix()+t.Sec, t.Nano)
	_, off := at.In(loc).Zone()
	return at.UnixMilli(), at.UnixMilli() + int64(off)*1000
}

// checkStats makes sure that statistics are true.
func (x statValues) checkStats(m ref.Msg) error {
	n := len(x.vals)
	if !m.Has(1) || m.U(1) != uint64(n) {
		return violf("%d values, there are %d", m.U(1), n)
	}
	if x.nulls && m.U(10) != 1 {
		return violf("no has-null, but there are nulls")
	}
	if n == 0 {
		return nil
	}
	sub := func(num int) (ref.Msg, error) {
		if !m.Has(num) {
			return nil, violf("no statistics of its kind")
		}
		s, err := ref.ParseMsg(m.Bytes(num))
		if err != nil {
			return nil, violf("statistics: %v", err)
		}
		return s, nil
	}
	ints := func(s ref.Msg, what string, num int, want int64) error {
		if !s.Has(num) || s.S(num) != want {
			return violf("%s is %d (there: %v), should be %d", what, s.S(num), s.Has(num), want)
		}
		return nil
	}
	switch x.kind {
	case ref.Byte, ref.Short, ref.Int, ref.Long:
		s, err := sub(2)
		if err != nil {
			return err
		}
		min, max := int64(math.MaxInt64), int64(math.MinInt64)
		sum, over := new(big.Int), false
		for _, v := range x.vals {
			i := v.(int64)
			if x.kind == ref.Byte {
				i = int64(int8(i))
			}
			if i < min {
				min = i
			}
			if i > max {
				max = i
			}
			sum.Add(sum, big.NewInt(i))
			over = over || !sum.IsInt64()
		}
		if err := ints(s, "minimum", 1, min); err != nil {
			return err
		}
		if err := ints(s, "maximum", 2, max); err != nil {
			return err
		}
		if s.Has(3) {
			if big.NewInt(s.S(3)).Cmp(sum) != 0 {
				return violf("sum is %d, should be %s", s.S(3), sum)
			}
		} else if !over {
			return violf("no sum, should be %s", sum)
		}
	case ref.Float, ref.Double:
		s, err := sub(3)
		if err != nil {
			return err
		}
		min, max, sum, abs := math.Inf(1), math.Inf(-1), 0.0, 0.0
		k, special := 0, false
		for _, v := range x.vals {
			var d float64
			if f, ok := v.(ref.F32); ok {
				d = float64(math.Float32frombits(uint32(f)))
			} else {
				d = math.Float64frombits(uint64(v.(ref.F64)))
			}
			sum += d
			abs += math.Abs(d)
			special = special || math.IsNaN(sum) || math.IsInf(sum, 0)
			if math.IsNaN(d) {
				continue
			}
			k++
			if d < min {
				min = d
			}
			if d > max {
				max = d
			}
		}
		if k > 0 && (!s.Has(1) || !s.Has(2) || s.D(1) != min || s.D(2) != max) {
			return violf("minimum and maximum are %v and %v, should be %v and %v", s.D(1), s.D(2), min, max)
		}
		if !special && !math.IsInf(abs, 0) {
			if !s.Has(3) || math.Abs(s.D(3)-sum) > 1e-9*abs {
				return violf("sum is %v, should be %v", s.D(3), sum)
			}
		}
	case ref.String, ref.Varchar, ref.Char:
		s, err := sub(4)
		if err != nil {
			return err
		}
		min, max, sum := x.vals[0].(string), x.vals[0].(string), int64(0)
		for _, v := range x.vals {
			t := v.(string)
			if t < min {
				min = t
			}
			if t > max {
				max = t
			}
			sum += int64(len(t))
		}
		if err := ints(s, "sum of lengths", 3, sum); err != nil {
			return err
		}
		switch {
		case s.Has(1):
			if string(s.Bytes(1)) != min {
				return violf("minimum is %s, should be %s", ref.Show(string(s.Bytes(1))), ref.Show(min))
			}
		case s.Has(4):
			if string(s.Bytes(4)) > min {
				return violf("lower bound %s is above %s", ref.Show(string(s.Bytes(4))), ref.Show(min))
			}
		default:
			return violf("no minimum, should be %s", ref.Show(min))
		}
		switch {
		case s.Has(2):
			if string(s.Bytes(2)) != max {
				return violf("maximum is %s, should be %s", ref.Show(string(s.Bytes(2))), ref.Show(max))
			}
		case s.Has(5):
			if string(s.Bytes(5)) < max {
				return violf("upper bound %s is below %s", ref.Show(string(s.Bytes(5))), ref.Show(max))
			}
		default:
			return violf("no maximum, should be %s", ref.Show(max))
		}
		if len(min) < 1024 && !s.Has(1) || len(max) < 1024 && !s.Has(2) {
			return violf("bounds only, minimum %s and maximum %s are short", ref.Show(min), ref.Show(max))
		}
	case ref.Boolean:
		s, err := sub(5)
		if err != nil {
			return err
		}
		k := uint64(0)
		for _, v := range x.vals {
			if v.(bool) {
				k++
			}
		}
		c, err := s.Us(1)
		if err != nil || len(c) != 1 || c[0] != k {
			return violf("counts are %v, should be %d", c, k)
		}
	case ref.Decimal:
		s, err := sub(6)
		if err != nil {
			return err
		}
		sum := new(big.Rat)
		var min, max *big.Rat
		for _, v := range x.vals {
			d := v.(ref.Dec)
			if d.Scale > 128 || d.Scale < -128 {
				return nil
			}
			r := d.Rat()
			sum.Add(sum, r)
			if min == nil || r.Cmp(min) < 0 {
				min = r
			}
			if max == nil || r.Cmp(max) > 0 {
				max = r
			}
		}
		for i, want := range []*big.Rat{min, max, sum} {
			what := []string{"minimum", "maximum", "sum"}[i]
			got, ok := new(big.Rat).SetString(string(s.Bytes(i + 1)))
			if !s.Has(i+1) || !ok || got.Cmp(want) != 0 {
				return violf("%s is %q, should be %s", what, s.Bytes(i+1), want.RatString())
			}
		}
	case ref.DateK:
		s, err := sub(7)
		if err != nil {
			return err
		}
		min, max := int64(math.MaxInt64), int64(math.MinInt64)
		for _, v := range x.vals {
			d := int64(v.(ref.Date))
			if d < min {
				min = d
			}
			if d > max {
				max = d
			}
		}
		if err := ints(s, "minimum", 1, min); err != nil {
			return err
		}
		return ints(s, "maximum", 2, max)
	case ref.Binary:
		s, err := sub(8)
		if err != nil {
			return err
		}
		sum := int64(0)
		for _, v := range x.vals {
			sum += int64(len(v.(ref.Bin)))
		}
		return ints(s, "sum of lengths", 1, sum)
	case ref.TimestampK:
		s, err := sub(9)
		if err != nil {
			return err
		}
		w := [4]int64{math.MaxInt64, math.MinInt64, math.MaxInt64, math.MinInt64}
		for _, v := range x.vals {
			if sec := v.(ref.TS).Sec; sec > 1<<53 || sec < -1<<53 {
				// no milliseconds; nothing is said rather than something wrong
				for i := 1; i <= 4; i++ {
					if s.Has(i) {
						return violf("timestamps have a minimum or a maximum, but %d seconds are too large for milliseconds", sec)
					}
				}
				return nil
			}
		}
		for _, v := range x.vals {
			a, b := millis(v.(ref.TS), x.loc)
			if a < w[0] {
				w[0] = a
			}
			if a > w[1] {
				w[1] = a
			}
			if b < w[2] {
				w[2] = b
			}
			if b > w[3] {
				w[3] = b
			}
		}
		for i, what := range []string{"minimum", "maximum", "minimum UTC", "maximum UTC"} {
			if err := ints(s, what, i+1, w[i]); err != nil {
				return err
			}
		}
	}
	return nil
}

func runStats(ctx *Ctx, c FileCase) error {
	rows := c.rows()
	path := ctx.Path()
	if err := writeFile(path, c, rows); err != nil {
		return err
	}
	f, err := ref.Parse(readBytes(path))
	if err != nil {
		return violf("not a valid file: %v", err)
	}
	classifyFile(ctx, c, f)
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	want := columnValues(&c.Root, rows, c.loc())
	stats := r.GetStatistics()
	if len(stats) != len(want) || len(f.Stats) != len(want) {
		return violf("statistics of %d columns, footer has %d, should be %d", len(stats), len(f.Stats), len(want))
	}
	for i, w := range want {
		b, err := proto.Marshal(stats[i])
		if err != nil {
			return violf("statistics of column %d: %v", i, err)
		}
		m, err := ref.ParseMsg(b)
		if err != nil {
			return violf("statistics of column %d: %v", i, err)
		}
		for k, x := range []ref.Msg{f.Stats[i], m} {
			if err := w.checkStats(x); err != nil {
				return violf("column %d (%s)%s: %v", i, pb.Type_Kind(w.kind), []string{"", ", from the reader"}[k], err)
			}
		}
		disk := 0
		for _, s := range f.Stripes {
			for _, st := range s.Streams {
				if st.Col == i && st.Kind < ref.SRowIndex {
					disk += st.Len
				}
			}
		}
		if m := f.Stats[i]; m.Has(11) && m.U(11) != uint64(disk) {
			return violf("column %d (%s): %d bytes on disk, there are %d", i, pb.Type_Kind(w.kind), m.U(11), disk)
		}
		ctx.ClassIf(w.nulls, "column with nulls")
		ctx.ClassIf(len(w.vals) == 0, "column without values")
		ctx.Class(pb.Type_Kind(w.kind).String())
		ctx.Eval(1)
	}
	return nil
}

// C18: row indexes

func runIndex(ctx *Ctx, c FileCase) error {
	rows := c.rows()
	path := ctx.Path()
	if err := writeFile(path, c, rows); err != nil {
		return err
	}
	f, err := ref.Parse(readBytes(path))
	if err != nil {
		return violf("not a valid file: %v", err)
	}
	_, stripes, err := f.ReadAll()
	if err != nil {
		return violf("not valid: %v", err)
	}
	if !c.O.Index {
		for i, s := range f.Stripes {
			if s.IndexLen != 0 {
				return violf("stripe %d has an index of %d bytes, none was asked for", i, s.IndexLen)
			}
		}
		if f.Stride != 0 {
			return violf("index stride is %d, no index was asked for", f.Stride)
		}
		return nil
	}
	if f.Stride != uint64(c.O.Stride) {
		return violf("index stride is %d, should be %d", f.Stride, c.O.Stride)
	}
	for i, s := range f.Stripes {
		groups := (int(s.Rows) + c.O.Stride - 1) / c.O.Stride
		ctx.ClassIf(groups > 1, "several row groups")
		ctx.ClassIf(groups > 1 && i > 0, "several row groups in a later stripe")
		if groups > 1 {
			ctx.Nontrivial()
		}
		for col, x := range stripes[i] {
			entries, err := s.Index(col)
			if err != nil {
				return violf("stripe %d: %v", i, err)
			}
			if len(entries) != groups {
				return violf("stripe %d column %d: %d entries for %d rows, should be %d", i, col, len(entries), s.Rows, groups)
			}
			for k, e := range entries {
				from, to := k*c.O.Stride, (k+1)*c.O.Stride
				if to > int(s.Rows) {
					to = int(s.Rows)
				}
				// positions of all groups, or some if there are many
				if groups < 40 || k < 12 || k > groups-6 || k%(groups/20) == 3 {
					if err := s.CheckPositions(x, e, from, to); err != nil {
						return violf("stripe %d of %d rows, column %d (%s), rows %d to %d: %v", i, s.Rows, col, pb.Type_Kind(x.Node.Kind), from, to, err)
					}
					ctx.Eval(1)
				}
				if !e.Has {
					return violf("stripe %d column %d entry %d has no statistics", i, col, k)
				}
				w := statValues{kind: x.Node.Kind, loc: c.loc()}
				for j := x.Starts[from]; j < x.Starts[to]; j++ {
					if x.Slots[j] == nil {
						w.nulls = true
					} else {
						w.vals = append(w.vals, x.Slots[j])
					}
				}
				if err := w.checkStats(e.Stats); err != nil {
					return violf("stripe %d of %d rows, column %d (%s), rows %d to %d: %v", i, s.Rows, col, pb.Type_Kind(x.Node.Kind), from, to, err)
				}
			}
		}
	}
	classifyFile(ctx, c, f)
	return nil
}

func init() {
	register("C11", "splits", fileRule+"; the same rows in 1-3 other splits, with batches new, overwritten after the write or used again", 2000, 50000, genSplit, runSplit)
	register("C13", "accounting", fileRule, 8500, 120000, func(t *rapid.T) FileCase {
		c := drawFile(t)
		if rapid.Bool().Draw(t, "smallStripes") {
			c.O.Stripe = rapid.SampledFrom([]int{500, 2000, 5000, 10000, 20000, 40000}).Draw(t, "stripe")
			limitStripes(&c)
		}
		return c
	}, runAccount)
	register("C17", "statistics", fileRule, 10000, 120000, drawFile, runStats)
	register("C18", "row-index", fileRule+", always with a row index but in one of ten; non-trivial also: several row groups", 8000, 100000, func(t *rapid.T) FileCase {
		c := drawFile(t)
		if !c.O.Index && rapid.IntRange(0, 4).Draw(t, "noindex") > 0 {
			c.O.Index, c.O.Stride = true, drawStride(t)
		}
		return c
	}, runIndex)
}
