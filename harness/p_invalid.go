package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C26: calls which cannot be served are refused, and change nothing

type badBatch struct {
	What  string // type, null, short, long, less, more, nil, swap, id, range
	Node  int
	Row   int
	Alien int // value of another type
	At    int // write before which it comes
	N     int // rows of the batch
}

type invalidWrites struct {
	F    FileCase
	Bad  []badBatch
	Same bool // one batch for all writes
}

var badKinds = []string{"type", "null", "short", "long", "less", "more", "nil", "swap", "id", "range"}

func genInvalidWrites(t *rapid.T) invalidWrites {
	c := invalidWrites{F: drawFile(t), Same: rapid.Bool().Draw(t, "same")}
	if c.F.Rows > 1200 {
		c.F.Rows %= 1200
	}
	for k := rapid.IntRange(1, 8).Draw(t, "bad"); k > 0; k-- {
		c.Bad = append(c.Bad, badBatch{What: rapid.SampledFrom(badKinds).Draw(t, "what"), Node: rapid.IntRange(0, 20).Draw(t, "node"), Row: rapid.IntRange(0, 2000).Draw(t, "row"),
			Alien: rapid.IntRange(0, len(aliens)-1).Draw(t, "alien"), At: rapid.IntRange(0, 8).Draw(t, "at"), N: rapid.SampledFrom([]int{1, 2, 3, 10, 100, 600}).Draw(t, "n")})
	}
	return c
}

type myString string

var anInt64 = int64(5)

var aliens = []any{nil, true, byte(1), int8(1), int16(2), uint16(2), int32(3), uint32(3), int64(4), uint64(4), int(5), uint(5), float32(6), 7.0, "x", []byte("y"), []rune("z"),
	api.NewDate(2001, 2, 3), api.Timestamp{Seconds: 1, Loc: time.UTC}, api.Decimal64{Precision: 1, Scale: 1}, time.Unix(5, 5), time.Duration(3), myString("s"), &anInt64, []int64{1},
	[]any{"x"}, struct{}{}, &api.Decimal64{Precision: 1}, math.NaN(), [2]byte{1, 2}, api.Value{V: int64(1)}}

// what columns of dates and timestamps have no room for
var farOff = []any{api.Date(time.Unix(1<<31*86400, 0)), api.Date(time.Unix(-1<<31*86400-1, 0)), api.NewDate(5881581, 1, 1), api.NewDate(-6000000, 1, 1),
	api.NewDate(10000000, 6, 5), api.Date(time.Unix(1<<55, 0)), api.Date(time.Unix(1<<32*86400+5, 0))}

var manyNanos = []uint64{1000000000, 1000000001, 1 << 32, 1 << 61, 1<<61 + 5, math.MaxUint64, 9999999999}

// isOf says if a value is of the type which a column takes.
func isOf(kind int, v any) bool {
	switch v.(type) {
	case bool:
		return kind == ref.Boolean
	case byte:
		return kind == ref.Byte
	case int16:
		return kind == ref.Short
	case int32:
		return kind == ref.Int
	case int64:
		return kind == ref.Long
	case float32:
		return kind == ref.Float
	case float64:
		return kind == ref.Double
	case string:
		return kind == ref.String || kind == ref.Varchar || kind == ref.Char
	case []byte:
		return kind == ref.Binary
	case api.Timestamp:
		return kind == ref.TimestampK
	case api.Decimal64:
		return kind == ref.Decimal
	case api.Date:
		return kind == ref.DateK
	}
	return false
}

type vecNode struct {
	td    *api.TypeDescription
	vec   *api.ColumnVector
	above []*api.ColumnVector // with values
}

// there are nulls above a row
func (n vecNode) hidden(row int) bool {
	for _, a := range n.above {
		if a.Vector[row].Null {
			return true
		}
	}
	return false
}

func vecNodes(td *api.TypeDescription, vec *api.ColumnVector, above []*api.ColumnVector) []vecNode {
	out := []vecNode{{td, vec, above}}
	if len(vec.Vector) > 0 {
		above = append(above[:len(above):len(above)], vec)
	}
	for i, k := range vec.Children {
		out = append(out, vecNodes(td.Children[i], k, above)...)
	}
	return out
}

// spoil makes a batch of n rows one which cannot be written, false if it does not apply.
func (b badBatch) spoil(td *api.TypeDescription, vec *api.ColumnVector, n int) (string, bool) {
	nodes := vecNodes(td, vec, nil)
	with := 0
	for _, x := range nodes {
		if len(x.vec.Vector) > 0 {
			with++
		}
	}
	var fit []vecNode
	for _, x := range nodes {
		isStruct := x.td.Kind == pb.Type_STRUCT
		ok := true
		switch b.What {
		case "type":
			ok = !isStruct && !isOf(int(x.td.Kind), aliens[b.Alien])
		case "null":
			ok = !x.td.HasNulls
		case "range":
			ok = x.td.Kind == pb.Type_DATE || x.td.Kind == pb.Type_TIMESTAMP
		case "short", "long":
			ok = len(x.vec.Vector) > 0 && with > 1 && !(isStruct && b.What == "short" && n < 2)
		case "less", "nil":
			ok = len(x.vec.Children) > 0
		case "swap":
			ok = len(x.vec.Children) > 1
		}
		if ok {
			fit = append(fit, x)
		}
	}
	if len(fit) == 0 {
		return "", false
	}
	x := fit[b.Node%len(fit)]
	row := b.Row % n
	for k := 0; k < n && x.hidden(row); k++ {
		row = (row + 1) % n
	}
	v := x.vec
	what := fmt.Sprintf("column %d, %s", x.td.Id, b.What)
	switch b.What {
	case "type":
		if x.hidden(row) {
			return "", false
		}
		v.Vector[row] = api.Value{V: aliens[b.Alien]}
		return fmt.Sprintf("%s %T for %s in row %d of %d", what, aliens[b.Alien], x.td.Kind, row, n), true
	case "null":
		if x.hidden(row) {
			return "", false
		}
		if v.Vector == nil { // a struct
			v.Vector = make([]api.Value, n)
		}
		v.Vector[row].Null = true
		return fmt.Sprintf("%s in row %d of %d", what, row, n), true
	case "range":
		if x.hidden(row) {
			return "", false
		}
		out := farOff[b.Alien%len(farOff)]
		if x.td.Kind == pb.Type_TIMESTAMP {
			out = api.Timestamp{Loc: time.UTC, Seconds: int64(b.Alien), Nanos: manyNanos[b.Alien%len(manyNanos)]}
		}
		v.Vector[row] = api.Value{V: out}
		return fmt.Sprintf("%s %v in row %d of %d", what, out, row, n), true
	case "short":
		keep := b.Alien % n
		if keep == 0 && x.td.Kind == pb.Type_STRUCT { // no values are allowed
			keep = 1
		}
		v.Vector = v.Vector[:keep]
	case "long":
		for k := b.Alien%3 + 1; k > 0; k-- {
			v.Vector = append(v.Vector, v.Vector[row])
		}
	case "less":
		k := b.Row % len(v.Children)
		v.Children = append(append([]*api.ColumnVector{}, v.Children[:k]...), v.Children[k+1:]...)
	case "more":
		v.Children = append(v.Children[:len(v.Children):len(v.Children)], &api.ColumnVector{Id: x.td.Id + 1, Vector: make([]api.Value, n)})
	case "nil":
		v.Children[b.Row%len(v.Children)] = nil
	case "swap":
		k := b.Row%(len(v.Children)-1) + 1
		v.Children[k], v.Children[k-1] = v.Children[k-1], v.Children[k]
	case "id":
		v.Id += uint32(b.Alien) + 1
	}
	return what, true
}

func runInvalidWrites(ctx *Ctx, c invalidWrites) error {
	rows := c.F.rows()
	good := ctx.Path()
	if err := writeFile(good, c.F, rows); err != nil {
		return err
	}
	want := readBytes(good)
	f, _ := ref.Parse(want)
	classifyFile(ctx, c.F, f)

	schema := c.F.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return violf("schema refused: %v", err)
	}
	path := ctx.Path()
	w, err := orc.NewOSFileWriter(path, schema, c.F.O.config())
	if err != nil {
		return violf("writer refused: %v", err)
	}
	defer w.Close()
	shared := &api.ColumnVector{}
	write := func(vec *api.ColumnVector) error {
		if c.Same {
			*shared, vec = *vec, shared
		}
		return w.Write(vec)
	}
	bad := func(at int, last bool, from int) error {
		for _, b := range c.Bad {
			if b.At != at && !(last && b.At > at) || len(rows) == 0 {
				continue
			}
			if from >= len(rows) {
				from = 0
			}
			n := min(b.N, len(rows)-from)
			vec := toVec(schema, rows[from:from+n], c.F.loc(), c.F.O.Garb)
			what, ok := b.spoil(schema, vec, n)
			if !ok {
				continue
			}
			ctx.Class("refused: " + b.What)
			ctx.Nontrivial()
			if err := write(vec); err == nil {
				return violf("batch is accepted: %s", what)
			}
		}
		return nil
	}
	k := 0
	for at := 0; at < len(rows); k++ {
		if err := bad(k, false, at); err != nil {
			return err
		}
		n := len(rows) - at
		if s := c.F.O.Splits; len(s) > 0 && s[k%len(s)] < n {
			n = s[k%len(s)]
		}
		if err := write(toVec(schema, rows[at:at+n], c.F.loc(), c.F.O.Garb)); err != nil {
			return violf("rows %d to %d are refused, after a batch was refused: %v", at, at+n, err)
		}
		at += n
	}
	if err := bad(k, true, 0); err != nil {
		return err
	}
	if err := w.Close(); err != nil {
		return violf("closing the writer failed: %v", err)
	}
	if got := readBytes(path); !bytes.Equal(want, got) {
		return violf("with batches which were refused the file is another one: %s", firstDiff(want, got))
	}
	os.Remove(path)
	return nil
}

// reading

type badRead struct {
	What string // seek, less, more, nil, empty, flat
	Node int
	N    int
	Read int // rows of the batch which is read afterwards
	Seek int // or a row to go to
}

type invalidReads struct {
	F     AnyFile
	Bad   []badRead
	Batch int
}

func genInvalidReads(t *rapid.T) invalidReads {
	c := invalidReads{Batch: rapid.SampledFrom([]int{100, 1, 3, 512, 1000}).Draw(t, "batch")}
	if rapid.IntRange(0, 2).Draw(t, "writer") == 0 {
		f := drawForeign(t)
		f.Rows %= 1000
		c.F.F = &f
	} else {
		f := drawFile(t)
		f.Rows %= 1500
		c.F.P = &f
	}
	for k := rapid.IntRange(1, 12).Draw(t, "bad"); k > 0; k-- {
		c.Bad = append(c.Bad, badRead{What: rapid.SampledFrom([]string{"seek", "less", "more", "nil", "empty"}).Draw(t, "what"), Node: rapid.IntRange(0, 20).Draw(t, "node"),
			N: rapid.IntRange(0, 20).Draw(t, "n"), Read: rapid.SampledFrom([]int{0, 1, 10, 100, 400}).Draw(t, "read"), Seek: rapid.IntRange(-3000, 1500).Draw(t, "to")})
	}
	return c
}

func runInvalidReads(ctx *Ctx, c invalidReads) error {
	path := ctx.Path()
	rows, _, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		return violf("reader refused: %v", err)
	}
	defer r.Close()
	td := r.GetSchema()
	n := 0
	var ids []uint32
	for t := []*api.TypeDescription{td}; len(t) > 0; t = t[1:] {
		t = append(t, t[0].Children...)
		ids = append(ids, t[0].Id)
		n++
	}
	for _, in := range [][]uint32{{0, uint32(n)}, {0, math.MaxUint32}, append(append([]uint32{}, ids...), uint32(n)+5)} {
		if br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 10, Includes: in}); err == nil {
			br.Close()
			return violf("columns %v are accepted, there are %d", in, n)
		}
	}
	for _, size := range []int{0, -1, -100} {
		if _, err := td.CreateVector(&api.BatchOption{RowSize: size}); err == nil {
			return violf("batch of %d rows was made", size)
		}
	}
	s, err := newSession(r, rows, readOpts{})
	if err != nil {
		return err
	}
	defer s.br.Close()
	done := len(rows) == 0
	for _, b := range c.Bad {
		s.log = "after a refused call: " + b.What
		switch b.What {
		case "seek":
			for _, to := range []uint64{uint64(len(rows)), uint64(len(rows) + b.N), uint64(len(rows)) + 1<<32, 1 << 63, math.MaxUint64} {
				if err := s.br.Seek(to); err == nil {
					return violf("seek to row %d of %d is accepted", to, len(rows))
				}
			}
			ctx.Nontrivial()
		default:
			if done { // there is nothing to read into a batch
				continue
			}
			vec, err := td.CreateVector(&api.BatchOption{RowSize: b.N + 1})
			if err != nil {
				return violf("vector refused: %v", err)
			}
			if !spoilRead(b, vec) {
				continue
			}
			if _, err := s.br.Next(vec); err == nil {
				return violf("batch of another shape is read into: %s", b.What)
			}
			ctx.Nontrivial()
		}
		ctx.Class("refused: " + b.What)
		if b.Seek >= 0 && len(rows) > 0 {
			if err := s.seek(b.Seek % len(rows)); err != nil {
				return err
			}
			done = false
		}
		if b.Read > 0 && !done {
			if done, err = s.read(b.Read, false); err != nil {
				return err
			}
		}
	}
	if done {
		return nil
	}
	return s.rest(c.Batch)
}

// spoilRead makes a batch which does not have the columns of the file.
func spoilRead(b badRead, vec *api.ColumnVector) bool {
	var all, parents []*api.ColumnVector
	for t := []*api.ColumnVector{vec}; len(t) > 0; t = t[1:] {
		t = append(t, t[0].Children...)
		all = append(all, t[0])
		if len(t[0].Children) > 0 {
			parents = append(parents, t[0])
		}
	}
	switch b.What {
	case "less", "nil":
		if len(parents) == 0 {
			return false
		}
		v := parents[b.Node%len(parents)]
		k := b.N % len(v.Children)
		if b.What == "nil" {
			v.Children[k] = nil
		} else {
			v.Children = append(append([]*api.ColumnVector{}, v.Children[:k]...), v.Children[k+1:]...)
		}
	case "more":
		v := all[b.Node%len(all)]
		v.Children = append(v.Children[:len(v.Children):len(v.Children)], &api.ColumnVector{Id: v.Id + 1, Vector: make([]api.Value, b.N+1)})
	case "empty":
		for _, v := range all {
			v.Vector = nil
		}
	}
	return true
}

// creation

type invalidOpts struct {
	F    FileCase
	What string
	N    int
}

var badOpts = []string{"compression", "chunk", "chunk-large", "stride", "encoding", "kind", "ids", "names"}

func genInvalidOpts(t *rapid.T) invalidOpts {
	return invalidOpts{F: drawFile(t), What: rapid.SampledFrom(badOpts).Draw(t, "what"), N: rapid.IntRange(0, 1000).Draw(t, "n")}
}

func runInvalidOpts(ctx *Ctx, c invalidOpts) error {
	schema := c.F.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return violf("schema refused: %v", err)
	}
	var nodes []*api.TypeDescription
	for t := []*api.TypeDescription{schema}; len(t) > 0; t = t[1:] {
		t = append(t, t[0].Children...)
		nodes = append(nodes, t[0])
	}
	x := nodes[c.N%len(nodes)]
	o := c.F.O.config()
	what := ""
	switch c.What {
	case "compression":
		o.CompressionKind = []pb.CompressionKind{pb.CompressionKind_SNAPPY, pb.CompressionKind_LZO, pb.CompressionKind_LZ4, pb.CompressionKind_ZSTD, 77}[c.N%5]
		what = fmt.Sprint("compression ", o.CompressionKind)
	case "chunk":
		o.CompressionKind, o.ChunkSize = pb.CompressionKind_ZLIB, -(c.N % 3)
		what = fmt.Sprint("chunk size ", o.ChunkSize)
	case "chunk-large":
		o.CompressionKind, o.ChunkSize = pb.CompressionKind_ZLIB, 1<<23+c.N%2*(c.N<<20)
		o.StripeSize = 1 << 40
		what = fmt.Sprint("chunk size ", o.ChunkSize)
	case "stride":
		o.WriteIndex, o.IndexStride = true, -(c.N % 5)
		what = fmt.Sprint("index stride ", o.IndexStride)
	case "encoding":
		var other []pb.ColumnEncoding_Kind
		for _, e := range []pb.ColumnEncoding_Kind{pb.ColumnEncoding_DIRECT, pb.ColumnEncoding_DICTIONARY, pb.ColumnEncoding_DIRECT_V2, pb.ColumnEncoding_DICTIONARY_V2} {
			isText := x.Kind == pb.Type_STRING || x.Kind == pb.Type_VARCHAR || x.Kind == pb.Type_CHAR
			if e != x.Encoding && !(isText && (e == pb.ColumnEncoding_DIRECT_V2 || e == pb.ColumnEncoding_DICTIONARY_V2)) {
				other = append(other, e)
			}
		}
		x.Encoding = other[c.N%len(other)]
		what = fmt.Sprintf("encoding %s of %s", x.Encoding, x.Kind)
	case "kind":
		if len(x.Children) > 0 {
			return nil
		}
		x.Kind = []pb.Type_Kind{pb.Type_LIST, pb.Type_MAP, pb.Type_UNION, 99}[c.N%4]
		x.Encoding = []pb.ColumnEncoding_Kind{pb.ColumnEncoding_DIRECT, pb.ColumnEncoding_DIRECT_V2}[c.N/4%2]
		for k := 0; k < c.N/8%3; k++ { // the right number of children, or not
			x.AddChild(fmt.Sprint("k", k), &api.TypeDescription{Kind: pb.Type_LONG, Encoding: pb.ColumnEncoding_DIRECT_V2})
		}
		if err := api.NormalizeSchema(schema); err != nil {
			ctx.Class("refused: " + c.What)
			return nil
		}
		what = fmt.Sprintf("column of kind %s with %d children", x.Kind, len(x.Children))
	case "ids":
		x.Id += uint32(c.N) + 1
		what = fmt.Sprintf("column %d of number %d", x.Id-uint32(c.N)-1, x.Id)
	case "names":
		if x.Kind != pb.Type_STRUCT || len(x.ChildrenNames) == 0 {
			return nil
		}
		x.ChildrenNames = x.ChildrenNames[1:]
		what = fmt.Sprintf("struct of %d children and %d names", len(x.Children), len(x.ChildrenNames))
	default:
		return nil
	}
	path := ctx.Path()
	ctx.Class("refused: " + c.What)
	ctx.Nontrivial()
	w, err := orc.NewOSFileWriter(path, schema, o)
	if err == nil {
		w.Close()
		return violf("writer accepts %s", what)
	}
	if b := readBytesIf(path); len(b) > 0 {
		if f, err := ref.Parse(b); err == nil && f != nil && len(b) > 3 {
			return violf("writer of %s was refused, but made a file", what)
		}
	}
	return nil
}

func readBytesIf(path string) []byte {
	b, _ := os.ReadFile(path)
	return b
}

func init() {
	register("C26", "invalid-batches", "tables of this writer; 1-8 batches which the schema cannot hold (values of 31 other types, nulls where there are none, columns too short or too long, children missing, added, nil or swapped, wrong numbers) between the writes; each is refused and the file is the same, byte by byte; non-trivial: a batch was refused", 3000, 60000, genInvalidWrites, runInvalidWrites)
	register("C26", "invalid-reads", "files of both writers; seeks past the end and batches of another shape, at any position; each is refused and reading goes on where it was; non-trivial: a call was refused", 2500, 40000, genInvalidReads, runInvalidReads)
	register("C26", "invalid-options", "schemas and options which cannot be written; non-trivial: the writer was refused", 6000, 100000, genInvalidOpts, runInvalidOpts)
}
