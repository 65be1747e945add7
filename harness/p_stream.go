package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C07: chunks

// blob is data of some compressibility.
type blob struct {
	N int
	K int // 0 random bytes, 1 zeros, 2 text, 3 random bytes of 4 kinds, 4 a mixture
	S uint64
}

func (b blob) expand(out []byte) []byte {
	r := rng(b.S)
	k := b.K
	for i := 0; i < b.N; i++ {
		if b.K == 4 && i%97 == 0 {
			k = r.n(4)
		}
		switch k {
		case 0:
			out = append(out, byte(r.next()))
		case 1:
			out = append(out, 0)
		case 2:
			out = append(out, "the quick brown fox "[i%20])
		default:
			out = append(out, byte(r.n(4)))
		}
	}
	return out
}

func expandBlobs(bs []blob) []byte {
	out := []byte{}
	for _, b := range bs {
		out = b.expand(out)
	}
	return out
}

type chunkCase struct {
	B    []blob
	Size int
	Comp int
	Step int // 0: all at once, otherwise bytes between compressions
	Pre  int // bytes which are there already
}

func genChunk(t *rapid.T) chunkCase {
	c := chunkCase{Comp: rapid.SampledFrom([]int{1, 1, 1, 1, 0}).Draw(t, "comp")}
	switch rapid.IntRange(0, 3).Draw(t, "sizeK") {
	case 0:
		c.Size = rapid.IntRange(1, 40).Draw(t, "size")
	case 1:
		c.Size = rapid.SampledFrom([]int{1, 2, 16, 64, 127, 128, 129, 256, 1000, 4096, 16383, 16384, 32767, 32768, 65535, 65536}).Draw(t, "size")
	default:
		c.Size = rapid.IntRange(1, 5000).Draw(t, "size")
	}
	for k := rapid.IntRange(0, 4).Draw(t, "blobs"); k > 0; k-- {
		b := blob{K: rapid.IntRange(0, 4).Draw(t, "kind"), S: drawSeed(t)}
		switch rapid.IntRange(0, 3).Draw(t, "nK") {
		case 0:
			b.N = c.Size*rapid.IntRange(0, 3).Draw(t, "chunks") + rapid.IntRange(-1, 1).Draw(t, "off")
		case 1:
			b.N = rapid.IntRange(0, 20).Draw(t, "n")
		default:
			b.N = rapid.IntRange(0, 8*c.Size).Draw(t, "n")
		}
		if b.N < 0 {
			b.N = 0
		}
		if b.N > 100000 {
			b.N = 100000
		}
		if c.Size < 20 && b.N > 60 {
			b.N = 60
		}
		c.B = append(c.B, b)
	}
	if rapid.Bool().Draw(t, "steps") {
		c.Step = rapid.IntRange(1, 3*c.Size+10).Draw(t, "step")
	}
	c.Pre = rapid.SampledFrom([]int{0, 0, 5}).Draw(t, "pre")
	return c
}

func runChunk(ctx *Ctx, c chunkCase) error {
	data := expandBlobs(c.B)
	kind := pb.CompressionKind(c.Comp)
	dst, src := &bytes.Buffer{}, &bytes.Buffer{}
	pre := bytes.Repeat([]byte{0xab}, c.Pre)
	dst.Write(pre)
	if c.Step == 0 {
		src.Write(data)
		if err := common.CompressingAllInChunks(kind, c.Size, dst, src); err != nil {
			return violf("compressing failed: %v", err)
		}
	} else {
		for at, k := 0, 0; at < len(data) && k < 2000; k++ {
			n := c.Step
			if n > len(data)-at || k == 1999 {
				n = len(data) - at
			}
			src.Write(data[at : at+n])
			at += n
			if err := common.CompressingChunks(kind, c.Size, dst, src); err != nil {
				return violf("compressing failed: %v", err)
			}
			if kind == pb.CompressionKind_ZLIB && src.Len() > c.Size {
				return violf("%d bytes are left by CompressingChunks, more than the chunk size %d", src.Len(), c.Size)
			}
		}
		if err := common.CompressingLeft(kind, c.Size, dst, src); err != nil {
			return violf("compressing the rest failed: %v", err)
		}
	}
	if src.Len() != 0 {
		return violf("%d of %d bytes are left", src.Len(), len(data))
	}
	out := dst.Bytes()
	if !bytes.HasPrefix(out, pre) {
		return violf("what was in the destination before has changed")
	}
	out = out[len(pre):]
	if c.Comp == 0 {
		ctx.Class("no compression")
		if !bytes.Equal(out, data) {
			return violf("uncompressed data has changed")
		}
		return nil
	}
	chunks, err := ref.ParseChunks(out, c.Size)
	if err != nil {
		return violf("%d bytes in chunks of %d: %v", len(data), c.Size, err)
	}
	var all []byte
	orig, comp := false, false
	for i, k := range chunks {
		all = append(all, k.Data...)
		if k.Len > len(k.Data) {
			return violf("chunk %d of %d bytes of data takes %d bytes", i, len(k.Data), k.Len)
		}
		orig, comp = orig || k.Original, comp || !k.Original
	}
	if !bytes.Equal(all, data) {
		return violf("%d bytes in chunks of %d come back as %d bytes: %s", len(data), c.Size, len(all), diffBytes(data, all))
	}
	ctx.ClassIf(orig, "original chunks")
	ctx.ClassIf(comp, "compressed chunks")
	ctx.ClassIf(len(chunks) > 1, "several chunks")
	if len(chunks) > 1 {
		ctx.Nontrivial()
	}
	back := &bytes.Buffer{}
	if err := common.DecompressChunks(kind, back, bytes.NewBuffer(append([]byte{}, out...))); err != nil {
		return violf("decompressing failed: %v", err)
	}
	if !bytes.Equal(back.Bytes(), data) {
		return violf("%d bytes in chunks of %d are decompressed to %d bytes: %s", len(data), c.Size, back.Len(), diffBytes(data, back.Bytes()))
	}
	return nil
}

// bigChunks have headers which need all three bytes.
func bigChunks() (out []chunkCase) {
	for _, n := range []int{1 << 15, 1<<16 - 1, 1 << 16, 1 << 17, 262144, 262145, 1 << 20, 1<<22 + 1, 1<<23 - 1} {
		for _, k := range []int{0, 2} {
			for _, d := range []int{n - 1, n, n + 1} {
				out = append(out, chunkCase{B: []blob{{N: d, K: k, S: 3}}, Size: n, Comp: 1})
			}
		}
	}
	return
}

type foreignChunks struct {
	B    []blob
	Plan ref.ChunkPlan
}

func genForeign(t *rapid.T) foreignChunks {
	c := genChunk(t)
	return foreignChunks{c.B, ref.ChunkPlan{Kind: ref.Zlib, Size: c.Size, Split: rapid.Bool().Draw(t, "split"),
		Originals: rapid.SampledFrom([]int{0, 30, 50, 100}).Draw(t, "originals"), Empty: rapid.IntRange(0, 3).Draw(t, "empty") == 0, Seed: drawSeed(t)}}
}

func runForeign(ctx *Ctx, c foreignChunks) error {
	data := expandBlobs(c.B)
	packed, _ := c.Plan.Pack(data)
	chunks, err := ref.ParseChunks(packed, c.Plan.Size)
	if err != nil {
		panic(err)
	}
	orig, comp := 0, 0
	for _, k := range chunks {
		if k.Original {
			orig++
		} else {
			comp++
		}
	}
	ctx.ClassIf(orig > 0 && comp > 0, "mixed chunks")
	if len(chunks) > 1 {
		ctx.Nontrivial()
	}
	back := bytes.NewBufferString("x")
	if err := common.DecompressChunks(pb.CompressionKind_ZLIB, back, bytes.NewBuffer(packed)); err != nil {
		return violf("legal chunks are refused: %v", err)
	}
	if got := back.Bytes()[1:]; !bytes.Equal(got, data) {
		return violf("%d chunks of %d bytes are decompressed to %d bytes: %s", len(chunks), len(data), len(got), diffBytes(data, got))
	}
	return nil
}

type headerCase struct{ Block int }

func runHeader(ctx *Ctx, c headerCase) error {
	ctx.Nontrivial()
	ctx.Eval(1 << 16)
	for i := c.Block << 16; i < (c.Block+1)<<16; i++ {
		n, orig := common.DecChunkHeader([]byte{byte(i), byte(i >> 8), byte(i >> 16)})
		if n != i>>1 || orig != (i&1 == 1) {
			return violf("chunk header %06x is length %d original %t", i, n, orig)
		}
	}
	return nil
}

// C08: streams

// memFile is a file in memory.
type memFile struct {
	b   []byte
	pos int
}

func (m *memFile) Read(p []byte) (int, error) {
	if m.pos >= len(m.b) {
		return 0, io.EOF
	}
	n := copy(p, m.b[m.pos:])
	m.pos += n
	return n, nil
}

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(m.pos)
	case io.SeekEnd:
		off += int64(len(m.b))
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	m.pos = int(off)
	return off, nil
}

func (m *memFile) Close() error                { return nil }
func (m *memFile) Write(p []byte) (int, error) { m.b = append(m.b, p...); return len(p), nil }
func (m *memFile) Size() (int64, error)        { return int64(len(m.b)), nil }
func (m *memFile) Clone() (orcio.File, error)  { return &memFile{b: m.b}, nil }

const (
	sBytes = iota
	sBools
	sInts
	sUints
	sFloats
	sDoubles
	sStrings
	sDates
	sVarints
	sKinds
)

var streamNames = []string{"bytes", "booleans", "ints", "unsigned ints", "floats", "doubles", "strings", "dates", "varints"}

type stripeSpec struct {
	V     []Seg
	P     []piece `json:",omitempty"`
	L     []Seg   `json:",omitempty"`
	X     int     `json:",omitempty"`
	Marks []int   // positions are taken before these values
	Order []int   // seeks: indexes of marks
	Empty bool    `json:",omitempty"`
}

type streamCase struct {
	Kind    int
	Comp    int
	Chunk   int
	RChunk  int `json:",omitempty"` // chunk size of the reader, only if not compressed
	Index   bool
	Lead    int // bytes before the stream
	Stripes []stripeSpec
}

func genStream(t *rapid.T) streamCase {
	c := streamCase{Kind: rapid.IntRange(0, sKinds-1).Draw(t, "kind"), Comp: rapid.IntRange(0, 1).Draw(t, "comp")}
	c.Chunk = rapid.SampledFrom([]int{1, 2, 7, 8, 16, 20, 50, 100, 128, 256, 1000, 4096, 65536}).Draw(t, "chunk")
	if c.Comp == 1 && c.Chunk < 16 && rapid.IntRange(0, 2).Draw(t, "tiny") > 0 {
		c.Chunk *= 20
	}
	if c.Comp == 0 && rapid.Bool().Draw(t, "rchunkK") {
		c.RChunk = rapid.SampledFrom([]int{1, 5, 64, 1000, 262144}).Draw(t, "rchunk")
	}
	c.Index = rapid.IntRange(0, 3).Draw(t, "index") > 0
	c.Lead = rapid.SampledFrom([]int{0, 3, 1000}).Draw(t, "lead")
	maxLen := 600
	if c.Comp == 1 && c.Chunk < 16 {
		maxLen = 30
	}
	for k := rapid.IntRange(1, 3).Draw(t, "stripes"); k > 0; k-- {
		s := stripeSpec{V: drawSegs(t, 3, maxLen)}
		if c.Kind == sBytes || c.Kind == sBools {
			s.P = drawPieces(t)
		}
		if c.Kind == sStrings {
			s.L = drawSegs(t, 2, maxLen)
			s.X = rapid.IntRange(0, 5).Draw(t, "style")
		}
		s.Empty = rapid.IntRange(0, 20).Draw(t, "empty") == 0
		if c.Index {
			for m := rapid.IntRange(0, 6).Draw(t, "marks"); m > 0; m-- {
				s.Marks = append(s.Marks, rapid.IntRange(0, 2000).Draw(t, "mark"))
				s.Order = append(s.Order, rapid.IntRange(0, 5).Draw(t, "seek"))
			}
		}
		c.Stripes = append(c.Stripes, s)
	}
	return c
}

// values of a stripe, as the stream takes and gives them
func (s stripeSpec) values(kind int) (out []interface{}) {
	if s.Empty {
		return nil
	}
	switch kind {
	case sBytes:
		for _, b := range expandPieces(s.P) {
			out = append(out, b)
		}
		return
	case sBools:
		bs := ref.BytesToBools(expandPieces(s.P))
		for _, b := range bs[:len(bs)-len(s.P)%8] {
			out = append(out, b)
		}
		if len(out) > 4000 {
			out = out[:4000]
		}
		return
	}
	v := expandSegs(s.V)
	l := fillTo(s.L, len(v))
	for i, x := range v {
		switch kind {
		case sInts, sVarints:
			out = append(out, x)
		case sUints:
			out = append(out, uint64(x))
		case sFloats:
			out = append(out, math.Float32frombits(uint32(x)))
		case sDoubles:
			out = append(out, math.Float64frombits(uint64(x)))
		case sDates:
			out = append(out, int64(int32(x)))
		case sStrings:
			out = append(out, []byte(text(x, l[i], s.X)))
		}
	}
	return
}

func newStreamWriter(kind int, opts *config.WriterOptions) stream.Writer {
	switch kind {
	case sBytes:
		return stream.NewByteWriter(3, pb.Stream_DATA, opts)
	case sBools:
		return stream.NewBoolWriter(3, pb.Stream_PRESENT, opts)
	case sInts, sDates:
		return stream.NewIntRLV2Writer(3, pb.Stream_DATA, opts, true)
	case sUints:
		return stream.NewIntRLV2Writer(3, pb.Stream_LENGTH, opts, false)
	case sFloats:
		return stream.NewFloatWriter(3, pb.Stream_DATA, opts, false)
	case sDoubles:
		return stream.NewFloatWriter(3, pb.Stream_DATA, opts, true)
	case sStrings:
		return stream.NewStringContentsWriter(3, pb.Stream_DATA, opts)
	default:
		return stream.NewVarint64V2Writer(3, pb.Stream_DATA, opts)
	}
}

// sreader reads values one by one.
type sreader struct {
	next     func(want interface{}) (interface{}, error)
	seek     func(chunk, off uint64, rest []uint64) error
	finished func() bool
}

func newStreamReader(kind int, opts *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) sreader {
	at := func(r []uint64, i int) uint64 {
		if i < len(r) {
			return r[i]
		}
		return 0
	}
	switch kind {
	case sBytes:
		r := stream.NewByteReader(opts, info, start, f)
		return sreader{func(interface{}) (interface{}, error) { return r.Next() },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o, at(x, 0)) }, r.Finished}
	case sBools:
		r := stream.NewBoolReader(opts, info, start, f)
		return sreader{func(interface{}) (interface{}, error) { return r.Next() },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o, at(x, 0), at(x, 1)) }, r.Finished}
	case sInts:
		r := stream.NewIntRLV2Reader(opts, info, start, true, f)
		return sreader{func(interface{}) (interface{}, error) { return r.NextInt64() },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o, at(x, 0)) }, r.Finished}
	case sUints:
		r := stream.NewIntRLV2Reader(opts, info, start, false, f)
		return sreader{func(interface{}) (interface{}, error) { return r.NextUInt64() },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o, at(x, 0)) }, r.Finished}
	case sFloats:
		r := stream.NewFloatReader(opts, info, start, f, false)
		return sreader{func(interface{}) (interface{}, error) { return r.NextFloat() },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o) }, r.Finished}
	case sDoubles:
		r := stream.NewFloatReader(opts, info, start, f, true)
		return sreader{func(interface{}) (interface{}, error) { return r.NextDouble() },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o) }, r.Finished}
	case sStrings:
		r := stream.NewStringContentsReader(opts, info, start, f)
		return sreader{func(w interface{}) (interface{}, error) { return r.NextBytes(uint64(len(w.([]byte)))) },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o) }, r.Finished}
	case sDates:
		r := stream.NewDateV2Reader(opts, info, start, f)
		return sreader{func(interface{}) (interface{}, error) {
			d, err := r.Next()
			return int64(api.ToDays(d)), err
		}, func(c, o uint64, x []uint64) error { return r.Seek(c, o, at(x, 0)) }, r.Finished}
	default:
		r := stream.NewVarIntReader(opts, info, start, f)
		return sreader{func(interface{}) (interface{}, error) { return r.NextInt64() },
			func(c, o uint64, x []uint64) error { return r.Seek(c, o, at(x, 0)) }, r.Finished}
	}
}

func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return a == b
}

// independentStream decodes a stream by the specification.
func independentStream(kind int, data []byte, vals []interface{}) (out []interface{}, err error) {
	switch kind {
	case sBytes, sBools:
		b, _, err := ref.DecodeByteRLE(data)
		if err != nil {
			return nil, err
		}
		if kind == sBytes {
			for _, x := range b {
				out = append(out, x)
			}
			return out, nil
		}
		bits := ref.BytesToBools(b)
		if len(bits)-len(vals) > 7 || len(bits) < len(vals) {
			return nil, fmt.Errorf("%d bits for %d values", len(bits), len(vals))
		}
		for _, x := range bits[:len(vals)] {
			out = append(out, x)
		}
		return out, nil
	case sInts, sDates, sUints:
		vs, _, err := ref.DecodeRLE2(data, kind != sUints)
		if err != nil {
			return nil, err
		}
		for _, x := range vs {
			if kind == sUints {
				out = append(out, uint64(x))
			} else {
				out = append(out, x)
			}
		}
		return out, nil
	case sStrings:
		for _, v := range vals {
			n := len(v.([]byte))
			if n > len(data) {
				return nil, errors.New("too few bytes")
			}
			out = append(out, data[:n])
			data = data[n:]
		}
	case sFloats:
		for ; len(data) >= 4; data = data[4:] {
			out = append(out, math.Float32frombits(uint32(data[0])|uint32(data[1])<<8|uint32(data[2])<<16|uint32(data[3])<<24))
		}
	case sDoubles:
		for ; len(data) >= 8; data = data[8:] {
			var x uint64
			for i := 7; i >= 0; i-- {
				x = x<<8 | uint64(data[i])
			}
			out = append(out, math.Float64frombits(x))
		}
	case sVarints:
		for len(data) > 0 {
			var u uint64
			i := 0
			for ; i < len(data); i++ {
				u |= uint64(data[i]&0x7f) << uint(7*i)
				if data[i] < 0x80 {
					break
				}
			}
			if i == len(data) {
				return nil, errors.New("varint ends early")
			}
			data = data[i+1:]
			v := int64(u >> 1)
			if u&1 == 1 {
				v = -v - 1
			}
			out = append(out, v)
		}
	}
	if len(data) != 0 {
		return nil, fmt.Errorf("%d bytes too many", len(data))
	}
	return out, nil
}

func runStream(ctx *Ctx, c streamCase) error {
	opts := config.DefaultWriterOptions()
	opts.ChunkSize, opts.CompressionKind, opts.WriteIndex = c.Chunk, pb.CompressionKind(c.Comp), c.Index
	ropts := config.DefaultReaderOptions()
	ropts.ChunkSize, ropts.CompressionKind = uint64(c.Chunk), pb.CompressionKind(c.Comp)
	if c.RChunk > 0 {
		ropts.ChunkSize = uint64(c.RChunk)
	}
	name := streamNames[c.Kind]
	ctx.Class(name)
	w := newStreamWriter(c.Kind, &opts)
	f := &memFile{b: bytes.Repeat([]byte{0xcd}, c.Lead)}
	type part struct {
		vals  []interface{}
		start int
		info  *pb.Stream
		marks []int
		pos   [][]uint64
		s     stripeSpec
	}
	var parts []part
	for k, s := range c.Stripes {
		p := part{vals: s.values(c.Kind), start: len(f.b), s: s}
		mark := map[int]bool{}
		for _, m := range s.Marks {
			mark[m%(len(p.vals)+1)] = true
		}
		take := func(i int) {
			if mark[i] {
				p.marks = append(p.marks, i)
				p.pos = append(p.pos, append([]uint64{}, w.GetPosition()...))
			}
		}
		for i, v := range p.vals {
			take(i)
			if err := w.Write(v); err != nil {
				return violf("%s: stripe %d value %d refused: %v", name, k, i, err)
			}
		}
		take(len(p.vals))
		if err := w.Flush(); err != nil {
			return violf("%s: flush of stripe %d failed: %v", name, k, err)
		}
		declared := w.Info().GetLength()
		n, err := w.WriteOut(f)
		if err != nil {
			return violf("%s: writing stripe %d failed: %v", name, k, err)
		}
		if grown := len(f.b) - p.start; int64(grown) != n || uint64(grown) != declared {
			return violf("%s: stripe %d has %d bytes, %d declared, %d returned", name, k, grown, declared, n)
		}
		if info := w.Info(); info.GetColumn() != 3 {
			return violf("%s: column is %d", name, info.GetColumn())
		}
		kind, col, length := w.Info().GetKind(), w.Info().GetColumn(), declared
		p.info = &pb.Stream{Kind: &kind, Column: &col, Length: &length}
		parts = append(parts, p)
		w.Reset()
	}
	f.b = append(f.b, 0xcd, 0xcd, 0xcd, 0xcd, 0xcd, 0xcd)
	ctx.ClassIf(len(parts) > 1, "writer was reset")

	for k, p := range parts {
		raw := f.b[p.start : p.start+int(p.info.GetLength())]
		data, chunks, err := ref.Inflate(c.Comp, raw, c.Chunk)
		if err != nil {
			return violf("%s: stripe %d: %v", name, k, err)
		}
		ctx.ClassIf(len(chunks) > 1, "several chunks")
		if len(chunks) > 1 || len(p.marks) > 0 && len(p.vals) > 10 || len(parts) > 1 {
			ctx.Nontrivial()
		}
		got, err := independentStream(c.Kind, data, p.vals)
		if err != nil {
			return violf("%s: stripe %d for the independent decoder: %v", name, k, err)
		}
		if len(got) != len(p.vals) {
			return violf("%s: stripe %d has %d values for the independent decoder, should have %d", name, k, len(got), len(p.vals))
		}
		for i := range got {
			if !sameValue(p.vals[i], got[i]) {
				return violf("%s: stripe %d value %d is %v for the independent decoder, should be %v", name, k, i, got[i], p.vals[i])
			}
		}

		f.pos = p.start
		r := newStreamReader(c.Kind, &ropts, p.info, uint64(p.start), f)
		readFrom := func(i, n int, how string) error {
			for ; i < len(p.vals) && n > 0; i, n = i+1, n-1 {
				v, err := r.next(p.vals[i])
				if err != nil {
					if b, ok := p.vals[i].([]byte); ok && len(b) == 0 && bytesAfter(p.vals, i) == 0 {
						continue // nothing is read for empty strings at the end
					}
					return violf("%s: stripe %d %s: value %d of %d: %v", name, k, how, i, len(p.vals), err)
				}
				if !sameValue(p.vals[i], v) {
					return violf("%s: stripe %d %s: value %d of %d is %v, should be %v", name, k, how, i, len(p.vals), v, p.vals[i])
				}
				if i+1 < len(p.vals) && r.finished() && bytesAfter(p.vals, i+1) != 0 {
					return violf("%s: stripe %d %s: finished after value %d of %d", name, k, how, i, len(p.vals))
				}
			}
			if i < len(p.vals) {
				return nil
			}
			if c.Kind == sBools {
				for pad := 0; pad < 7 && !r.finished(); pad++ {
					if b, err := r.next(nil); err != nil || b.(bool) {
						return violf("%s: stripe %d %s: padding is %v, %v", name, k, how, b, err)
					}
				}
			}
			if !r.finished() {
				return violf("%s: stripe %d %s: not finished after the last value", name, k, how)
			}
			return nil
		}
		if err := readFrom(0, len(p.vals)+1, "read"); err != nil {
			return err
		}
		// seeks, over the same reader
		for j, o := range p.s.Order {
			if len(p.marks) == 0 {
				break
			}
			m := o % len(p.marks)
			pos := p.pos[m]
			var chunk uint64
			if c.Comp != 0 {
				if len(pos) == 0 {
					return violf("%s: position %v is too short", name, pos)
				}
				chunk, pos = pos[0], pos[1:]
			}
			if len(pos) == 0 {
				return violf("%s: position %v is too short", name, p.pos[m])
			}
			if err := r.seek(chunk, pos[0], pos[1:]); err != nil {
				return violf("%s: stripe %d: seek to value %d of %d at %v failed: %v", name, k, p.marks[m], len(p.vals), p.pos[m], err)
			}
			n := len(p.vals) + 1
			if j%2 == 0 {
				n = 30
			}
			if err := readFrom(p.marks[m], n, fmt.Sprintf("after seek to value %d at %v", p.marks[m], p.pos[m])); err != nil {
				return err
			}
			ctx.Class("seeks")
			ctx.Eval(1)
		}
	}
	return nil
}

// bytesAfter is not 0 if there are bytes to read for values i and on.
func bytesAfter(vals []interface{}, i int) int {
	for ; i < len(vals); i++ {
		if b, ok := vals[i].([]byte); !ok || len(b) > 0 {
			return 1
		}
	}
	return 0
}

func init() {
	register("C07", "compress", "data of several compressibilities, 0-8 chunks, chunk sizes 1-65536 (large ones as fixed cases), at once or in steps; non-trivial: several chunks",
		24000, 200000, genChunk, runChunk, fixed(bigChunks))
	register("C07", "decompress", "chunks of an independent writer: any sizes, original and compressed mixed, empty ones; non-trivial: several chunks", 24000, 200000, genForeign, runForeign)
	register("C07", "headers", "all chunk headers of a block of 65536", 400, 1000, func(t *rapid.T) headerCase { return headerCase{rapid.IntRange(0, 255).Draw(t, "block")} }, runHeader,
		fixed(func() (out []headerCase) {
			for i := 0; i < 256; i++ {
				out = append(out, headerCase{i})
			}
			return
		}))
	register("C08", "streams", "nine kinds of streams, 1-3 stripes through one writer, chunk sizes 1-65536, both compressions, positions taken anywhere and sought in any order; non-trivial: several chunks or stripes, or positions",
		48000, 300000, genStream, runStream)
}
