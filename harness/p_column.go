package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C27: columns over any file

type colPart struct {
	Rows  int      `json:"rows"`
	Skip  NullSpec `json:"skip"` // rows of which the parent is null
	After int      `json:"after"`
	Ops   []colOp  `json:"ops"`
}

type colOp struct {
	R int // reader
	K int // 0 read, 1 seek
	A int
	N int
}

type colCase struct {
	C     ColSpec
	O     FileOpts
	Parts []colPart
	Lead  int
	Buf   int // reads give up to so many bytes, 0: whatever is asked for
	EOF   bool
	Fault int // the operation of the file which fails, counted from 1
	Kind  int // of operation: 0 reads, 1 seeks, 2 clones
	Sink  int // a writer which takes so many percent of the bytes
	Short bool
}

var errFault = errors.New("injected fault")

// anyFile is a file in memory, with the liberties a reader has.
type anyFile struct {
	s      *anyState
	pos    int
	closed int
	err    error
}

type anyState struct {
	b      []byte
	buf    int
	eof    bool
	r      rng
	fault  int
	kind   int
	count  int
	fired  bool
	cur    int // reader at work
	by     int // reader at work when it failed
	clones []*anyFile
}

func (s *anyState) fail(kind int) bool {
	if s.fault == 0 || s.kind != kind || s.fired {
		return false
	}
	s.count++
	if s.count == s.fault {
		s.fired, s.by = true, s.cur
	}
	return s.fired
}

func (m *anyFile) Read(p []byte) (int, error) {
	if m.closed > 0 {
		return 0, errors.New("read of a closed file")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if m.pos >= len(m.s.b) {
		return 0, io.EOF
	}
	if m.s.buf > 0 {
		if n := 1 + m.s.r.n(m.s.buf); n < len(p) {
			p = p[:n]
		}
	}
	if m.s.fail(0) {
		n := 0
		if m.s.r.n(2) == 0 && len(p) > 1 { // some bytes have come
			n = copy(p[:len(p)/2], m.s.b[m.pos:])
			m.pos += n
		}
		return n, errFault
	}
	n := copy(p, m.s.b[m.pos:])
	m.pos += n
	if m.s.eof && m.pos == len(m.s.b) {
		return n, io.EOF
	}
	return n, nil
}

func (m *anyFile) Seek(off int64, whence int) (int64, error) {
	if m.closed > 0 {
		return 0, errors.New("seek of a closed file")
	}
	if m.s.fail(1) {
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(m.pos)
	case io.SeekEnd:
		off += int64(len(m.s.b))
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	m.pos = int(off)
	return off, nil
}

func (m *anyFile) Close() error { m.closed++; return nil }
func (m *anyFile) Write(p []byte) (int, error) {
	m.s.b = append(m.s.b, p...)
	return len(p), nil
}
func (m *anyFile) Size() (int64, error) { return int64(len(m.s.b)), nil }
func (m *anyFile) Clone() (orcio.File, error) {
	if m.s.fail(2) {
		return nil, errFault
	}
	c := &anyFile{s: m.s, pos: m.s.r.n(len(m.s.b) + 1)} // anywhere
	m.s.clones = append(m.s.clones, c)
	return c, nil
}

// sink takes some bytes, and no more.
type sink struct {
	left  int
	short bool
	fired bool
}

func (s *sink) Write(p []byte) (int, error) {
	if len(p) <= s.left {
		s.left -= len(p)
		return len(p), nil
	}
	n := s.left
	s.left, s.fired = 0, true
	if s.short {
		return n, nil
	}
	return n, errFault
}

func genColumn(t *rapid.T) colCase {
	c := colCase{C: drawCol(t, colOpts{maxDepth: 0, maxSegs: 4, maxLen: 600}, 0), O: drawOpts(t)}
	c.O.Splits, c.O.Stripe = nil, 1<<28
	c.Lead = rapid.IntRange(0, 20).Draw(t, "lead")
	c.Buf = rapid.SampledFrom([]int{0, 1, 2, 3, 7, 100, 1000}).Draw(t, "buf")
	c.EOF = rapid.Bool().Draw(t, "eof")
	for k := rapid.IntRange(1, 3).Draw(t, "parts"); k > 0; k-- {
		p := colPart{Rows: max(1, drawRows(t)), After: rapid.IntRange(0, 3).Draw(t, "after")}
		if rapid.IntRange(0, 2).Draw(t, "skips") == 0 {
			p.Skip = drawNulls(t)
		}
		for j := rapid.IntRange(1, 12).Draw(t, "ops"); j > 0; j-- {
			p.Ops = append(p.Ops, colOp{R: rapid.IntRange(0, 1).Draw(t, "r"), K: rapid.IntRange(0, 1).Draw(t, "k"),
				A: rapid.IntRange(0, 5000).Draw(t, "a"), N: rapid.SampledFrom([]int{1, 2, 10, 100, 511, 512, 1000, 3000}).Draw(t, "n")})
		}
		c.Parts = append(c.Parts, p)
	}
	switch uniform(t, 0, 3) {
	case 0:
		c.Fault, c.Kind = 1+rapid.SampledFrom([]int{uniform(t, 0, 20), uniform(t, 0, 300)}).Draw(t, "fault"), uniform(t, 0, 2)
		if c.Kind == 2 {
			c.Fault = 1 + c.Fault%8
		}
	case 1:
		c.Sink, c.Short = 1+uniform(t, 0, 100), rapid.Bool().Draw(t, "short")
	}
	return c
}

// neededStreams are those a reader cannot be without, even if they are empty.
func neededStreams(kind int, dict bool) []pb.Stream_Kind {
	switch kind {
	case ref.StructK:
		return nil
	case ref.ListK, ref.MapK:
		return []pb.Stream_Kind{pb.Stream_LENGTH}
	case ref.String, ref.Varchar, ref.Char:
		if dict {
			return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH, pb.Stream_DICTIONARY_DATA}
		}
		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
	case ref.Binary:
		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
	case ref.TimestampK, ref.Decimal:
		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_SECONDARY}
	}
	return []pb.Stream_Kind{pb.Stream_DATA}
}

func runColumn(ctx *Ctx, c colCase) error {
	schema := c.C.schema()
	schema.Id = 3
	opts := c.O.config()
	ropts := config.DefaultReaderOptions()
	ropts.CompressionKind, ropts.IndexStride = opts.CompressionKind, 0
	if ropts.ChunkSize = uint64(opts.ChunkSize); c.O.Index {
		ropts.IndexStride = c.O.Stride
	}
	w, err := column.NewWriter(schema, &opts)
	if err != nil {
		return violf("writer of %s refused: %v", schema.Kind, err)
	}
	st := &anyState{b: bytes.Repeat([]byte{0xcd}, c.Lead), buf: c.Buf, eof: c.EOF, r: rng(uint64(c.Lead)*7 + uint64(c.Buf))}
	out := &anyFile{s: st}

	type part struct {
		rows   []any
		skip   []bool
		start  int
		infos  []*pb.Stream
		index  [2]int // offset and length
		values []int  // rows, not skipped, before each
	}
	total := 0
	for _, p := range c.Parts {
		total += p.Rows
	}
	all := c.C.slots(total)
	var parts []part
	at := 0
	for i, ps := range c.Parts {
		p := part{rows: append([]any{}, all[at:at+ps.Rows]...), skip: ps.Skip.expand(ps.Rows)}
		at += ps.Rows
		n := 0
		for j, s := range p.rows {
			p.values = append(p.values, n)
			if p.skip[j] {
				p.rows[j] = nil
				w.SkipRow()
				continue
			}
			n++
			v := api.Value{Null: s == nil}
			if s != nil {
				v.V = toValue(c.C.K, s, nil)
			}
			if err := w.Write(v); err != nil {
				return violf("part %d: row %d refused: %v", i, j, err)
			}
		}
		p.values = append(p.values, n)
		if err := w.Flush(); err != nil {
			return violf("part %d: flush failed: %v", i, err)
		}
		if c.O.Index {
			idx := w.GetIndex()
			if want := (ps.Rows + c.O.Stride - 1) / c.O.Stride; len(idx.GetEntry()) != want {
				return violf("part %d: index has %d entries, should have %d (%d rows, stride %d)", i, len(idx.GetEntry()), want, ps.Rows, c.O.Stride)
			}
			data, err := proto.Marshal(idx)
			if err != nil {
				return violf("part %d: index: %v", i, err)
			}
			buf := &bytes.Buffer{}
			if err := common.CompressingAllInChunks(opts.CompressionKind, opts.ChunkSize, buf, bytes.NewBuffer(data)); err != nil {
				return violf("part %d: index: %v", i, err)
			}
			p.index = [2]int{len(st.b), buf.Len()}
			st.b = append(st.b, buf.Bytes()...)
		}
		declared := uint64(0)
		for _, s := range w.GetStreamInfos() {
			s = proto.Clone(s).(*pb.Stream)
			if s.GetColumn() != 3 {
				return violf("part %d: stream of column %d", i, s.GetColumn())
			}
			declared += s.GetLength()
			p.infos = append(p.infos, s)
		}
		if c.Sink > 0 && i == len(c.Parts)-1 && declared > 0 {
			// the bytes do not go out, or not all of them
			s := &sink{left: int(declared) * (c.Sink - 1) / 100, short: c.Short}
			if c.Sink == 101 {
				s.left = int(declared) - 1
			}
			n, err := w.WriteOut(s)
			if s.fired && err == nil {
				return violf("part %d: %d bytes were written of %d, which is not reported (%d)", i, int(declared)*(c.Sink-1)/100, declared, n)
			}
			if !s.fired {
				return violf("part %d: streams of %d bytes were not written out", i, declared)
			}
			ctx.Class("sink failed")
			break
		}
		p.start = len(st.b)
		k, err := w.WriteOut(out)
		if err != nil {
			return violf("part %d: writing out failed: %v", i, err)
		}
		if grown := uint64(len(st.b) - p.start); grown != declared || uint64(k) != declared {
			return violf("part %d: streams have %d bytes, %d declared, %d returned", i, grown, declared, k)
		}
		st.b = append(st.b, bytes.Repeat([]byte{0xcd}, ps.After)...)
		parts = append(parts, p)
		w.Reset()
	}
	ctx.ClassIf(len(parts) > 1, "writer was reset")
	ctx.ClassIf(c.Buf > 0, "short reads")
	ctx.ClassIf(c.EOF, "end of file with data")
	if (c.Buf > 0 || c.Fault > 0) && total > 20 {
		ctx.Nontrivial()
	}

	st.fault, st.kind = c.Fault, c.Kind
	for i, p := range parts {
		if st.fired {
			st.fired, st.fault = false, 0
		}
		where := func(j int) string { return fmt.Sprintf("part %d of %s, reader %d", i, schema.Kind, j) }
		var rs [2]column.Reader
		var pos [2]int
		// ok is false if there is no more to do, a fault is in the way. Errors
		// may come late, or not at all if what has failed was not needed.
		check := func(j int, what string, err error) (ok bool, v error) {
			if err != nil && (!st.fired || st.by != j) {
				return false, violf("%s: %s: %v", where(j), what, err)
			}
			ctx.ClassIf(err != nil, "faults reported")
			return err == nil, nil
		}
		done := func() error {
			for _, r := range rs {
				if r != nil {
					r.Close()
				}
			}
			if out.closed > 0 {
				return violf("%s: the file given was closed", where(0))
			}
			for k, f := range st.clones {
				if f.closed == 0 {
					return violf("%s: file %d of %d is still open after close", where(0), k, len(st.clones))
				}
			}
			return nil
		}
		var stop [2]bool
		open := func(j int) error {
			s := &api.TypeDescription{}
			*s = *schema
			r, err := column.NewReader(s, &ropts, out)
			if err != nil {
				return violf("%s refused: %v", where(j), err)
			}
			if c.O.Index {
				err := r.InitIndex(uint64(p.index[0]), uint64(p.index[1]))
				if ok, v := check(j, "index", err); !ok {
					stop[j] = true
					return v
				}
			}
			have := map[pb.Stream_Kind]bool{}
			off := uint64(p.start)
			infos := p.infos
			for _, s := range infos {
				have[s.GetKind()] = true
			}
			for _, k := range neededStreams(c.C.K, c.C.E == 1) {
				if !have[k] {
					k, id := k, uint32(3)
					infos = append(infos[:len(infos):len(infos)], &pb.Stream{Kind: &k, Column: &id, Length: new(uint64)})
				}
			}
			rs[j] = r
			for _, s := range infos {
				err := r.InitStream(s, off)
				if ok, v := check(j, "stream "+s.GetKind().String(), err); !ok {
					stop[j] = true
					return v
				}
				off += s.GetLength()
			}
			return nil
		}
		read := func(j, n int) error {
			n = min(n, len(p.rows)-pos[j])
			if n <= 0 {
				return nil
			}
			vec, err := schema.CreateVector(&api.BatchOption{RowSize: n})
			if err != nil {
				return violf("vector refused: %v", err)
			}
			for k := range vec.Vector {
				vec.Vector[k].Null = p.skip[pos[j]+k]
			}
			err = rs[j].NextBatch(vec)
			if ok, v := check(j, fmt.Sprintf("rows %d to %d of %d", pos[j], pos[j]+n, len(p.rows)), err); !ok {
				stop[j] = true
				return v
			}
			got, err := fromVec(schema, vec, n)
			if err != nil {
				return violf("%s: %v", where(j), err)
			}
			if d := ref.DiffRows(p.rows[pos[j]:pos[j]+n], got); d != "" {
				return violf("%s: rows from %d of %d: %s", where(j), pos[j], len(p.rows), d)
			}
			pos[j] += n
			ctx.Eval(n)
			return nil
		}
		seek := func(j, to int) error {
			stride := 0
			if c.O.Index {
				stride = to / c.O.Stride
			}
			err := rs[j].SeekStride(stride)
			if ok, v := check(j, fmt.Sprintf("seek to stride %d", stride), err); !ok {
				stop[j] = true
				return v
			}
			rows := p.values[to] - p.values[stride*max(1, c.O.Stride)]
			err = rs[j].Skip(uint64(rows))
			if ok, v := check(j, fmt.Sprintf("skip of %d rows in stride %d", rows, stride), err); !ok {
				stop[j] = true
				return v
			}
			pos[j] = to
			ctx.ClassIf(stride > 0, "seeks")
			return nil
		}
		var v error
		for j := range rs {
			if st.cur = j; v == nil {
				v = open(j)
			}
		}
		for _, o := range c.Parts[i].Ops {
			if v != nil {
				break
			}
			if st.cur = o.R; stop[o.R] {
				continue
			}
			if o.K == 1 {
				v = seek(o.R, o.A%len(p.rows))
			} else {
				v = read(o.R, o.N)
			}
		}
		for j := range rs {
			if st.cur = j; v == nil && !stop[j] {
				v = read(j, math.MaxInt32)
			}
		}
		if v != nil {
			return v
		}
		if v = done(); v != nil {
			return v
		}
	}
	return nil
}

type colTreeCase struct {
	F     AnyFile
	Ops   []colOp
	Buf   int
	EOF   bool
	Fault int
	Kind  int
	At    int // operation from which on the fault is counted, 0 is from the beginning
}

func genColTree(t *rapid.T) colTreeCase {
	c := colTreeCase{EOF: rapid.Bool().Draw(t, "eof")}
	if uniform(t, 0, 1) == 0 {
		c.F = drawAny(t)
	} else { // lists and maps
		f := drawForeign(t)
		o := colOpts{maxDepth: 2, lists: true, maxSegs: 3, maxLen: 300}
		x := ColSpec{K: ref.ListK, N: "x", L: drawLens(t, o)}
		if uniform(t, 0, 1) == 0 {
			x.K = ref.MapK
			k := drawCol(t, o, o.maxDepth)
			k.N = "key"
			x.C = append(x.C, k)
		}
		v := drawCol(t, o, 1)
		v.N = "value"
		v.countable()
		x.C = append(x.C, v)
		if uniform(t, 0, 1) == 0 {
			x.H, x.Nu = true, drawNulls(t)
		}
		f.Root = ColSpec{K: ref.StructK, C: []ColSpec{x}}
		f.Root.walk(func(x *ColSpec) { x.E = 0 })
		f.Rows = min(f.Rows, 700)
		c.F = AnyFile{F: &f}
	}
	c.Buf = rapid.SampledFrom([]int{0, 1, 2, 3, 7, 100, 1000}).Draw(t, "buf")
	for j := rapid.IntRange(1, 12).Draw(t, "ops"); j > 0; j-- {
		c.Ops = append(c.Ops, colOp{R: rapid.IntRange(0, 1).Draw(t, "r"), K: rapid.IntRange(0, 1).Draw(t, "k"),
			A: rapid.IntRange(0, 5000).Draw(t, "a"), N: rapid.SampledFrom([]int{1, 2, 10, 100, 511, 512, 1000, 3000}).Draw(t, "n")})
	}
	if uniform(t, 0, 1) == 0 {
		c.Kind = uniform(t, 0, 2)
		c.Fault = 1 + uniform(t, 0, []int{20, 200, 2000}[uniform(t, 0, 2)])
		if c.Kind == 2 {
			c.Fault = 1 + c.Fault%30
		}
		if uniform(t, 0, 2) > 0 { // when rows are read
			c.At = 1 + uniform(t, 0, len(c.Ops)-1)
			c.Fault = 1 + uniform(t, 0, []int{4, 30}[uniform(t, 0, 1)])
		}
	}
	return c
}

// runColTree reads the stripes of a file by column readers put together to a tree.
func runColTree(ctx *Ctx, c colTreeCase) error {
	path := ctx.Path()
	rows, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	ropts := config.DefaultReaderOptions()
	ropts.CompressionKind, ropts.ChunkSize, ropts.IndexStride = pb.CompressionKind(f.Comp), uint64(f.Block), int(f.Stride)
	if f.Comp == 0 {
		ropts.ChunkSize = 262144
	}
	st := &anyState{b: readBytes(path), buf: c.Buf, eof: c.EOF, r: rng(uint64(len(c.Ops))*7 + uint64(c.Buf)), kind: c.Kind}
	if c.At == 0 {
		st.fault = c.Fault
	}
	out := &anyFile{s: st}
	if c.F.P != nil || c.F.F != nil {
		nested := c.F.root().has(ref.ListK, ref.MapK)
		ctx.ClassIf(nested, "lists or maps")
	}
	if (c.Buf > 0 || c.Fault > 0) && len(rows) > 20 {
		ctx.Nontrivial()
	}
	first := 0
	for i, s := range f.Stripes {
		if i > 4 {
			break
		}
		if st.fired {
			st.fired, st.fault = false, 0
		}
		want := rows[first : first+int(s.Rows)]
		first += int(s.Rows)
		streams := map[[2]int]*ref.Stream{}
		for _, x := range s.Streams {
			streams[[2]int{x.Col, x.Kind}] = x
		}
		// the tree of types of this stripe
		id := 0
		indexed := f.Stride > 0
		var types []*api.TypeDescription
		var build func(n *ref.Node) *api.TypeDescription
		build = func(n *ref.Node) *api.TypeDescription {
			td := &api.TypeDescription{Id: uint32(id), Kind: pb.Type_Kind(n.Kind), Encoding: pb.ColumnEncoding_Kind(s.Encs[id].Kind)}
			td.HasNulls = streams[[2]int{id, int(pb.Stream_PRESENT)}] != nil
			if (td.HasNulls || n.Kind != ref.StructK) && streams[[2]int{id, int(pb.Stream_ROW_INDEX)}] == nil {
				indexed = false
			}
			types = append(types, td)
			id++
			for j, k := range n.Kids {
				name := ""
				if n.Kind == ref.StructK {
					name = n.Names[j]
				}
				kid := build(k)
				td.Children = append(td.Children, kid)
				td.ChildrenNames = append(td.ChildrenNames, name)
			}
			return td
		}
		root := build(f.Root)
		if root.Kind == pb.Type_STRUCT && !root.HasNulls && !counts(root) {
			continue
		}
		where := func(j int) string { return fmt.Sprintf("stripe %d, reader %d", i, j) }
		var rs [2]column.Reader
		var pos [2]int
		var stop [2]bool
		check := func(j int, what string, err error) (ok bool, v error) {
			if err != nil && (!st.fired || st.by != j) {
				return false, violf("%s: %s: %v", where(j), what, err)
			}
			ctx.ClassIf(err != nil, "faults reported")
			if err != nil {
				stop[j] = true
			}
			return err == nil, nil
		}
		open := func(j int) error {
			readers := make([]column.Reader, len(types))
			for k, td := range types {
				x := &api.TypeDescription{}
				*x = *td
				r, err := column.NewReader(x, &ropts, out)
				if err != nil {
					return violf("%s: column %d refused: %v", where(j), k, err)
				}
				readers[k] = r
			}
			for k, td := range types {
				for m, kid := range td.Children {
					switch r := readers[k].(type) {
					case *column.StructReader:
						r.AddChild(readers[kid.Id])
					case *column.ListV2Reader:
						r.SetChild(readers[kid.Id])
					case *column.MapV2Reader:
						if m == 0 {
							r.SetKey(readers[kid.Id])
						} else {
							r.SetValue(readers[kid.Id])
						}
					}
				}
			}
			rs[j] = readers[0]
			for k, td := range types {
				if x := streams[[2]int{k, int(pb.Stream_ROW_INDEX)}]; x != nil {
					if ok, v := check(j, "index", readers[k].InitIndex(uint64(x.Off), uint64(x.Len))); !ok {
						return v
					}
				}
				kinds := append([]pb.Stream_Kind{pb.Stream_PRESENT}, neededStreams(int(td.Kind), td.Encoding == pb.ColumnEncoding_DICTIONARY_V2)...)
				for _, kind := range kinds {
					x := streams[[2]int{k, int(kind)}]
					if x == nil {
						if kind == pb.Stream_PRESENT {
							continue
						}
						x = &ref.Stream{Off: int(s.Offset)}
					}
					kind, col, length := kind, uint32(k), uint64(x.Len)
					err := readers[k].InitStream(&pb.Stream{Kind: &kind, Column: &col, Length: &length}, uint64(x.Off))
					if ok, v := check(j, fmt.Sprintf("stream %s of column %d", kind, k), err); !ok {
						return v
					}
				}
			}
			return nil
		}
		read := func(j, n int) error {
			n = min(n, len(want)-pos[j])
			if n <= 0 {
				return nil
			}
			vec, err := root.CreateVector(&api.BatchOption{RowSize: n})
			if err != nil {
				return violf("vector refused: %v", err)
			}
			if ok, v := check(j, fmt.Sprintf("rows %d to %d of %d", pos[j], pos[j]+n, len(want)), rs[j].NextBatch(vec)); !ok {
				return v
			}
			got, err := fromVec(root, vec, n)
			if err != nil {
				return violf("%s: %v", where(j), err)
			}
			if d := ref.DiffRows(want[pos[j]:pos[j]+n], got); d != "" {
				return violf("%s: rows from %d of %d: %s", where(j), pos[j], len(want), d)
			}
			pos[j] += n
			ctx.Eval(n)
			return nil
		}
		seek := func(j, to int) error {
			stride, skip := 0, to
			if indexed {
				stride, skip = to/int(f.Stride), to%int(f.Stride)
			}
			if ok, v := check(j, fmt.Sprintf("seek to stride %d", stride), rs[j].SeekStride(stride)); !ok {
				return v
			}
			if ok, v := check(j, fmt.Sprintf("skip of %d rows in stride %d", skip, stride), rs[j].Skip(uint64(skip))); !ok {
				return v
			}
			pos[j] = to
			ctx.ClassIf(stride > 0, "seeks")
			return nil
		}
		var v error
		for j := range rs {
			if st.cur = j; v == nil {
				v = open(j)
			}
		}
		for k, o := range c.Ops {
			if v != nil {
				break
			}
			if k+1 == c.At && i == 0 {
				st.fault = c.Fault
			}
			if st.cur = o.R; stop[o.R] {
				continue
			}
			if o.K == 1 {
				v = seek(o.R, o.A%len(want))
			} else {
				v = read(o.R, o.N)
			}
		}
		for j := range rs {
			if st.cur = j; v == nil && !stop[j] {
				v = read(j, math.MaxInt32)
			}
		}
		if v != nil {
			return v
		}
		for _, r := range rs {
			if r != nil {
				r.Close()
			}
		}
		if out.closed > 0 {
			return violf("%s: the file given was closed", where(0))
		}
		for k, f := range st.clones {
			if f.closed == 0 {
				return violf("%s: file %d of %d is still open after close", where(0), k, len(st.clones))
			}
		}
	}
	return nil
}

func init() {
	register("C27", "columns", "a column of any kind, 1-3 stripes of up to 2500 rows by one writer, rows of null parents; two readers in turns, seeks by index; files which give as few bytes as they like, fail an operation, or take only some; non-trivial: short reads or faults, more than 20 rows",
		30000, 300000, genColumn, runColumn)
	register("C27", "trees", "stripes of any file (structs, lists, maps, row indexes, or none), read by column readers put together over such files; two readers in turns, seeks; non-trivial: short reads or faults, more than 20 rows",
		12000, 150000, genColTree, runColTree)
}
