package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"runtime/metrics"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/orc/encoding"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C19: malformed input

type mutCase struct {
	F AnyFile
	M []mutant
}

type mutant struct {
	K []string // what is done to the file, in order
	S uint64
}

var mutations = []string{"damage", "damage", "raw", "postscript", "footer", "footer", "types", "stripe footer", "stripe footer", "stream", "stream", "stream", "stream", "index", "noise"}

// extreme gives values which lengths, counts and numbers should not have.
func extreme(r *rng, v uint64) uint64 {
	switch r.n(16) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 1<<31 - 1
	case 3:
		return 1 << 31
	case 4:
		return 1<<32 - 1
	case 5:
		return 1 << 62
	case 6:
		return 1<<63 - 1
	case 7:
		return 1 << 63
	case 8:
		return 1<<64 - 1
	case 9:
		return -v
	case 10, 11:
		return v + 1
	case 12, 13:
		return v - 1
	case 14:
		return v + uint64(r.n(1000))
	}
	return r.bits(1 + r.n(64))
}

func lengthen(r *rng, b []byte) []byte {
	out := append([]byte{}, b...)
	for k := 1 + r.n(20); k > 0; k-- {
		out = append(out, byte(r.next()))
	}
	return out
}

// mutateMsg changes a field, or one of a message inside.
func mutateMsg(r *rng, m ref.Msg) ref.Msg {
	out := append(ref.Msg{}, m...)
	if len(out) == 0 {
		return append(out, ref.Field{Num: 1 + r.n(6), U: extreme(r, 0)})
	}
	i := r.n(len(out))
	f := &out[i]
	switch r.n(10) {
	case 0:
		return append(out[:i], out[i+1:]...)
	case 1:
		return append(out, *f)
	case 2:
		j := r.n(len(out))
		out[i], out[j] = out[j], out[i]
	case 3:
		f.Num = 1 + r.n(9)
	case 4:
		out = append(out, ref.Field{Num: 1 + r.n(9), U: extreme(r, 0)})
	default:
		if f.Wire != 2 {
			f.U = extreme(r, f.U)
			break
		}
		if sub, err := ref.ParseMsg(f.B); err == nil && len(sub) > 0 && r.n(8) != 0 {
			f.B = mutateMsg(r, sub).Encode()
			break
		}
		switch r.n(4) {
		case 0:
			f.B = nil
		case 1:
			f.B = lengthen(r, f.B)
		case 2: // a packed list of numbers
			var p []byte
			for k := 1 + r.n(6); k > 0; k-- {
				p = ref.PutUvarint(p, extreme(r, uint64(r.n(10))))
			}
			f.B = p
		default:
			f.B = mutateBytes(r, f.B)
		}
	}
	return out
}

// mutateTypes changes kinds and children of columns.
func mutateTypes(r *rng, footer ref.Msg) ref.Msg {
	out := append(ref.Msg{}, footer...)
	var at []int
	for i, f := range out {
		if f.Num == 4 && f.Wire == 2 {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return mutateMsg(r, out)
	}
	f := &out[at[r.n(len(at))]]
	m, err := ref.ParseMsg(f.B)
	if err != nil {
		return out
	}
	switch r.n(6) {
	case 0, 1: // another kind
		k := uint64(r.n(20))
		found := false
		for i := range m {
			if m[i].Num == 1 {
				m[i].U, found = k, true
			}
		}
		if !found {
			m = append(m, ref.Field{Num: 1, U: k})
		}
	case 2, 3: // other children
		var keep ref.Msg
		for _, x := range m {
			if x.Num != 2 {
				keep = append(keep, x)
			}
		}
		var p []byte
		for k := r.n(4); k > 0; k-- {
			v := uint64(r.n(len(at) + 2))
			if r.n(5) == 0 {
				v = extreme(r, v)
			}
			p = ref.PutUvarint(p, v)
		}
		m = append(keep, ref.Field{Num: 2, Wire: 2, B: p})
	case 4:
		j := at[r.n(len(at))]
		f.B, out[j].B = out[j].B, f.B
		return out
	default:
		m = mutateMsg(r, m)
	}
	f.B = m.Encode()
	return out
}

func mutateBytes(r *rng, b []byte) []byte {
	out := append([]byte{}, b...)
	if len(out) == 0 {
		return lengthen(r, out)
	}
	for k := 1 + r.n(4); k > 0 && len(out) > 0; k-- {
		at := r.n(len(out))
		n := 1 + r.n(16)
		if r.n(4) == 0 {
			n = 1 + r.n(len(out))
		}
		if n > len(out)-at {
			n = len(out) - at
		}
		switch r.n(10) {
		case 0, 1, 2:
			out[at] ^= 1 << r.n(8)
		case 3, 4:
			out[at] = byte(r.next())
		case 5:
			out[at] = []byte{0, 1, 0x7f, 0x80, 0xff, 0x40, 0xc0, 0x3f}[r.n(8)]
		case 6:
			for i := at; i < at+n; i++ {
				out[i] = byte(r.n(2)) * 0xff
			}
		case 7:
			out = append(out[:at], out[at+n:]...)
		case 8:
			out = append(out[:at], append(lengthen(r, nil), out[at:]...)...)
		default: // a piece from elsewhere
			from := r.n(len(out) - n + 1)
			copy(out[at:at+n], append([]byte{}, out[from:from+n]...))
		}
	}
	return out
}

// rebuild makes a file like f with changed messages or streams.
func rebuild(f *ref.File, r *rng, what string) []byte {
	pack := func(b []byte) []byte {
		out, _ := ref.ChunkPlan{Kind: f.Comp, Size: f.Block, Originals: 30, Seed: r.next()}.Pack(b)
		return out
	}
	footer := append(ref.Msg{}, f.Footer...)
	var stripeAt []int
	for i, x := range footer {
		if x.Num == 3 && x.Wire == 2 {
			stripeAt = append(stripeAt, i)
		}
	}
	target := -1
	if len(f.Stripes) > 0 {
		target = r.n(len(f.Stripes))
	}
	first := uint64(3)
	if len(f.Stripes) > 0 {
		first = f.Stripes[0].Offset
	}
	out := append([]byte{}, f.Data[:first]...)
	for i, s := range f.Stripes {
		if i > 0 { // padding
			p := f.Stripes[i-1]
			if end := p.Offset + p.IndexLen + p.DataLen + p.FooterLen; end < s.Offset {
				out = append(out, f.Data[end:s.Offset]...)
			}
		}
		off := uint64(len(out))
		start := s.Offset + s.IndexLen + s.DataLen
		raw := f.Data[start : start+s.FooterLen]
		if i != target || (what != "stripe footer" && what != "stream" && what != "index") {
			out = append(out, f.Data[s.Offset:start+s.FooterLen]...)
			setStripe(&footer[stripeAt[i]], off, s.IndexLen, s.DataLen, s.FooterLen)
			continue
		}
		fb, _, err := ref.Inflate(f.Comp, raw, f.Block)
		if err != nil {
			panic(err)
		}
		m, err := ref.ParseMsg(fb)
		if err != nil {
			panic(err)
		}
		m = append(ref.Msg{}, m...)
		var streamAt, data, index []int
		for j, x := range m {
			if x.Num == 1 && x.Wire == 2 {
				streamAt = append(streamAt, j)
			}
		}
		for j, st := range s.Streams {
			if st.Kind >= ref.SRowIndex && st.Kind <= ref.SBloomUTF8 {
				index = append(index, j)
			} else {
				data = append(data, j)
			}
		}
		pick := -1
		if what == "index" && len(index) > 0 {
			pick = index[r.n(len(index))]
		} else if what != "stripe footer" && len(data) > 0 {
			pick = data[r.n(len(data))]
		}
		var indexLen, dataLen uint64
		for j, st := range s.Streams {
			b := f.Data[st.Off : st.Off+st.Len]
			if j == pick {
				nb := st.Data
				switch {
				case what == "index" && r.n(4) != 0:
					if im, err := ref.ParseMsg(nb); err == nil {
						nb = mutateMsg(r, im).Encode()
					}
				case r.n(12) == 0:
					nb = nil
				case r.n(12) == 0: // streams of other columns
					nb = s.Streams[r.n(len(s.Streams))].Data
				default:
					nb = mutateBytes(r, nb)
				}
				b = pack(nb)
				if f.Comp != ref.None && r.n(6) == 0 {
					b = mutateBytes(r, b)
				}
			}
			out = append(out, b...)
			if st.Kind >= ref.SRowIndex && st.Kind <= ref.SBloomUTF8 {
				indexLen += uint64(len(b))
			} else {
				dataLen += uint64(len(b))
			}
			if sm, err := ref.ParseMsg(m[streamAt[j]].B); err == nil {
				sm = append(ref.Msg{}, sm...)
				for k := range sm {
					if sm[k].Num == 3 {
						sm[k].U = uint64(len(b))
					}
				}
				m[streamAt[j]].B = sm.Encode()
			}
		}
		if what == "stripe footer" {
			for k := 1 + r.n(2); k > 0; k-- {
				m = mutateMsg(r, m)
			}
		}
		nf := pack(m.Encode())
		out = append(out, nf...)
		setStripe(&footer[stripeAt[i]], off, indexLen, dataLen, uint64(len(nf)))
	}
	meta := f.Data[f.MetaStart:f.FooterStart]
	out = append(out, meta...)
	switch what {
	case "footer":
		for k := 1 + r.n(2); k > 0; k-- {
			footer = mutateMsg(r, footer)
		}
	case "types":
		for k := 1 + r.n(3); k > 0; k-- {
			footer = mutateTypes(r, footer)
		}
	}
	nf := pack(footer.Encode())
	out = append(out, nf...)
	ps := append(ref.Msg{}, f.PS...)
	for i := range ps {
		if ps[i].Num == 1 {
			ps[i].U = uint64(len(nf))
		}
	}
	if what == "postscript" {
		for k := 1 + r.n(2); k > 0; k-- {
			ps = mutateMsg(r, ps)
		}
	}
	p := ps.Encode()
	if len(p) > 255 {
		p = p[len(p)-255:]
	}
	out = append(out, p...)
	return append(out, byte(len(p)))
}

func setStripe(f *ref.Field, vals ...uint64) {
	m, err := ref.ParseMsg(f.B)
	if err != nil {
		panic(err)
	}
	m = append(ref.Msg{}, m...)
	for i := range m {
		if n := m[i].Num; n >= 1 && n <= 4 {
			m[i].U = vals[n-1]
		}
	}
	f.B = m.Encode()
}

func (m mutant) apply(b []byte, f *ref.File) []byte {
	r := rng(m.S)
	for _, k := range m.K {
		switch k {
		case "damage":
			b = damage(b, f, r.next())
		case "raw":
			b = mutateBytes(&r, b)
		case "noise":
			n := r.n(300)
			nb := make([]byte, n)
			for i := range nb {
				nb[i] = byte(r.next())
			}
			switch r.n(3) {
			case 0:
				b = append([]byte("ORC"), nb...)
			case 1: // a postscript is found
				var p ref.PB
				p.U(1, uint64(r.n(n+2))).U(2, uint64(r.n(4))).U(3, extreme(&r, 1000)).U(5, 0)
				p.B(8000, []byte("ORC"))
				b = append(append(nb, p.Out()...), byte(len(p.Out())))
			default:
				b = nb
			}
			f = nil
		default:
			if f == nil || len(f.Data) == 0 {
				b = mutateBytes(&r, b)
				break
			}
			b = rebuild(f, &r, k)
		}
		if len(b) == 0 {
			b = []byte{0}
		}
		// what follows works on what is left
		f = parseQuietly(b)
	}
	return b
}

func parseQuietly(b []byte) (f *ref.File) {
	defer func() {
		if recover() != nil {
			f = nil
		}
	}()
	f, err := ref.Parse(b)
	if err != nil {
		return nil
	}
	return f
}

// abuse uses a file in all ways, and goes on after errors. No operation may
// allocate more than most.
func abuse(path string, r *rng, most uint64) (rows int, failed error) {
	last := allocated()
	meter := func(what string) error {
		now := allocated()
		used := now - last
		last = now
		if used > most {
			return violf("%s allocates %d MB", what, used>>20)
		}
		return nil
	}
	rd, err := orc.NewOSFileReader(path)
	if err := meter("opening"); err != nil {
		return 0, err
	}
	if err != nil {
		return 0, err
	}
	defer rd.Close()
	rd.GetReaderOptions()
	rd.NumberOfRows()
	_ = rd.GetSchema().String()
	for k := 1 + r.n(2); k > 0; k-- {
		var inc []uint32
		switch r.n(6) {
		case 0, 1:
			inc, _ = includeSet(rd.GetSchema(), r.next())
		case 2:
			inc = []uint32{0, uint32(r.n(5)), uint32(extreme(r, 3))}
		}
		size := []int{1, 7, 100, 1000}[r.n(4)]
		o := &api.BatchOption{RowSize: size, Includes: inc}
		vec, err := rd.GetSchema().CreateVector(o)
		if err != nil {
			failed = err
			continue
		}
		br, err := rd.CreateBatchReader(o)
		if err := meter("creating a batch reader"); err != nil {
			return rows, err
		}
		if err != nil {
			failed = err
			continue
		}
		err = func() error {
			defer br.Close()
			if vec == nil {
				return violf("no vector and no error, columns %v", inc)
			}
			after := 0
			for i, total := 0, 0; total < 3000 && i < 200; i++ {
				if r.n(8) == 0 {
					row := r.next() % (rd.NumberOfRows() + 2)
					if r.n(4) == 0 {
						row = extreme(r, row)
					}
					if err := br.Seek(row); err != nil {
						failed = err
						if after++; after > 3 {
							return nil
						}
					}
				}
				if err := meter("seeking"); err != nil {
					return err
				}
				end, err := br.Next(vec)
				if err := meter("reading"); err != nil {
					return err
				}
				n := vec.Len()
				total, rows = total+n, rows+n
				if err != nil {
					failed = err
					if after++; after > 3 {
						return nil
					}
					continue
				}
				if n > size {
					return violf("%d rows read, batch has room for %d", n, size)
				}
				if end {
					return nil
				}
				if n == 0 {
					return violf("no rows, no error and no end after %d rows", total)
				}
			}
			return nil
		}()
		if err != nil {
			return rows, err
		}
	}
	return rows, failed
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func hasLists(c *ColSpec) bool { return c.has(ref.ListK, ref.MapK) }

func runMut(ctx *Ctx, c mutCase) error {
	path := ctx.Path()
	_, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	b := readBytes(path)
	if f == nil {
		ctx.Class("file is not parsed")
	}
	lists := hasLists(c.F.root())
	p := ctx.Path()
	for i, m := range c.M {
		mb := m.apply(b, f)
		if bytes.Equal(mb, b) {
			continue
		}
		if err := os.WriteFile(p, mb, 0o644); err != nil {
			panic(err)
		}
		r := rng(m.S ^ 0x5bd1e995)
		// a chunk of deflate expands no more than thousandfold
		most := uint64(128<<20) + 4000*uint64(len(mb))
		if lists {
			most = 1 << 40
		}
		rows, err := func() (n int, err error) {
			defer func() {
				if x := recover(); x != nil {
					err = violf("panic: %v%s", x, panicSite())
				}
			}()
			return abuse(p, &r, most)
		}()
		ctx.Eval(1)
		var v *Violation
		switch {
		case errors.As(err, &v):
			return violf("mutant %d (%v) of %d bytes: %v", i, m.K, len(mb), err)
		case err != nil && rows > 0:
			ctx.Class("refused after rows")
			ctx.Nontrivial()
		case err != nil:
			ctx.Class("refused")
		default:
			ctx.Class("read without error")
		}
		if parseQuietly(mb) != nil {
			ctx.Class("structure is still legal")
			ctx.Nontrivial()
		}
		os.Remove(p)
	}
	return nil
}

func genMut(lists bool) func(t *rapid.T) mutCase {
	return func(t *rapid.T) mutCase {
		var c mutCase
		if !lists && rapid.IntRange(0, 19).Draw(t, "javaFile") == 19 {
			c.F.J = rapid.SampledFrom([]string{"testStructs.0.12.orc", "basicLongNoCompression.orc", "patchBaseNegativeMin.orc",
				"testStringAndBinaryStatistics.0.12.orc", "testTimestamp.0.12.orc"}).Draw(t, "java")
		} else if lists {
			f := drawForeign(t)
			f.Root = drawRoot(t, colOpts{maxDepth: 2, lists: true, maxSegs: 2, maxLen: 100})
			f.Root.walk(func(x *ColSpec) { x.E = 0 })
			if f.Rows > 300 {
				f.Rows = f.Rows%300 + 1
			}
			c.F.F = &f
		} else if rapid.IntRange(0, 3).Draw(t, "writer") == 0 {
			f := drawForeign(t)
			f.Root = drawRoot(t, colOpts{maxDepth: 2, maxSegs: 2, maxLen: 200})
			f.Root.walk(func(x *ColSpec) { x.E = 0 })
			c.F.F = &f
		} else {
			f := drawSmallFile(t)
			c.F.P = &f
		}
		for k := rapid.IntRange(1, 8).Draw(t, "mutants"); k > 0; k-- {
			m := mutant{S: drawSeed(t)}
			for j := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3}).Draw(t, "mutations"); j > 0; j-- {
				m.K = append(m.K, rapid.SampledFrom(mutations).Draw(t, "mutation"))
			}
			c.M = append(c.M, m)
		}
		return c
	}
}

// tail makes a file without stripes out of a footer.
func tailFile(footer []byte, comp, block int) []byte {
	out := []byte("ORC")
	packed, _ := ref.ChunkPlan{Kind: comp, Size: block}.Pack(footer)
	out = append(out, packed...)
	var p ref.PB
	p.U(1, uint64(len(packed))).U(2, uint64(comp)).U(3, uint64(block)).Packed(4, []uint64{0, 12}).U(5, 0).U(6, 1).B(8000, []byte("ORC"))
	out = append(out, p.Out()...)
	return append(out, byte(len(p.Out())))
}

// treeCase is a footer with generated types: chains, cycles, wide and shared
// children.
type treeCase struct {
	Shape string
	N     int
	Comp  int
	Rows  uint64
	S     uint64
}

func (c treeCase) footer() []byte {
	r := rng(c.S)
	var p ref.PB
	p.U(1, 3).U(2, 3)
	typ := func(kind uint64, names int, subs ...uint64) {
		var t ref.PB
		t.U(1, kind).Packed(2, subs)
		for i := 0; i < names; i++ {
			t.B(3, []byte(fmt.Sprint("c", i)))
		}
		p.B(4, t.Out())
	}
	switch c.Shape {
	case "structs": // a chain
		for i := 0; i < c.N-1; i++ {
			typ(12, 1, uint64(i+1))
		}
		typ(uint64(r.n(9)), 0)
	case "lists":
		for i := 0; i < c.N-1; i++ {
			typ(10, 0, uint64(i+1))
		}
		typ(uint64(r.n(9)), 0)
	case "cycle":
		for i := 0; i < c.N-1; i++ {
			typ(12, 1, uint64(i+1))
		}
		typ(12, 1, uint64(r.n(c.N)))
	case "shared": // exponentially many paths
		for i := 0; i < c.N-1; i++ {
			typ(12, 2, uint64(i+1), uint64(i+1))
		}
		typ(4, 0)
	case "maps":
		for i := 0; i < c.N-1; i++ {
			typ(11, 0, uint64(i+1), uint64(c.N-1))
		}
		typ(4, 0)
	case "wide":
		var subs []uint64
		for i := 1; i < c.N; i++ {
			subs = append(subs, uint64(i))
		}
		typ(12, c.N-1, subs...)
		for i := 1; i < c.N; i++ {
			typ(uint64(r.n(16)), 0)
		}
	case "unions":
		typ(13, 0, 1)
		typ(13, 0)
	case "empty struct":
		typ(12, 0)
	default:
		for i := 0; i < c.N; i++ {
			var subs []uint64
			for k := r.n(3); k > 0; k-- {
				subs = append(subs, uint64(i+1+r.n(3)))
			}
			typ([]uint64{12, 12, 10, 11, uint64(r.n(20))}[r.n(5)], len(subs), subs...)
		}
	}
	p.U(6, c.Rows)
	if c.Rows > 0 { // a stripe which has nothing
		for k := 1 + r.n(2); k > 0; k-- {
			var s ref.PB
			s.U(1, uint64(r.n(4))).U(2, 0).U(3, 0).U(4, uint64(r.n(3))).U(5, c.Rows)
			p.B(3, s.Out())
		}
	}
	p.U(8, extreme(&r, 10))
	return p.Out()
}

func runTree(ctx *Ctx, c treeCase) error {
	p := ctx.Path()
	if err := os.WriteFile(p, tailFile(c.footer(), c.Comp, 65536), 0o644); err != nil {
		panic(err)
	}
	ctx.Class(c.Shape)
	if c.N > 3 {
		ctx.Nontrivial()
	}
	r := rng(c.S)
	_, err := abuse(p, &r, 512<<20)
	ctx.ClassIf(err != nil, "refused")
	var v *Violation
	if errors.As(err, &v) {
		return err
	}
	return nil
}

// decoders

type decodeCase struct {
	D  int
	B  []Seg   `json:",omitempty"` // values which are encoded, and then damaged
	L  []blob  `json:",omitempty"`
	S  uint64  // of the damage
	N  int     // damage is repeated
	Ch int     // chunk size
	Ln []int64 `json:",omitempty"`
}

const decoderKinds = 7

var decoderNames = []string{"integers", "bytes", "booleans", "fixed width and varints", "chunks", "streams", "noise"}

func genDecode(t *rapid.T) decodeCase {
	c := decodeCase{D: rapid.IntRange(0, decoderKinds-1).Draw(t, "decoder"), B: drawSegs(t, 3, 300), S: drawSeed(t), N: rapid.IntRange(0, 3).Draw(t, "damage"),
		Ch: rapid.SampledFrom([]int{16, 100, 1000, 65536}).Draw(t, "chunk")}
	for k := rapid.IntRange(0, 2).Draw(t, "blobs"); k > 0; k-- {
		c.L = append(c.L, blob{K: rapid.IntRange(0, 4).Draw(t, "blob"), N: rapid.IntRange(0, 500).Draw(t, "n"), S: drawSeed(t)})
	}
	return c
}

// ends runs a decoder until it gives an error. It has to consume something
// for what it gives.
func ends(what string, b []byte, step func(in *bytes.Buffer) (int, error)) error {
	in := bytes.NewBuffer(append([]byte{}, b...))
	for i := 0; ; i++ {
		left := in.Len()
		n, err := step(in)
		if err != nil {
			return nil
		}
		if left == 0 {
			return violf("%s: %d values and no error at the end of %d bytes", what, n, len(b))
		}
		if in.Len() >= left {
			return violf("%s: nothing is consumed after %d of %d bytes", what, len(b)-left, len(b))
		}
		if n > 1040*(left-in.Len())+1040 {
			return violf("%s: %d values of %d bytes", what, n, left-in.Len())
		}
	}
}

func runDecode(ctx *Ctx, c decodeCase) error {
	r := rng(c.S)
	vals := expandSegs(c.B)
	signed := r.n(2) == 0
	rr := ref.Rand(r.next())
	var b []byte
	switch c.D {
	case 0:
		b, _ = ref.IntsAtRandom(vals, signed, true, &rr)
	case 1, 2:
		raw := expandBlobs(c.L)
		b, _ = ref.BytesAtRandom(raw, true, &rr)
	case 3:
		for _, v := range vals {
			b = ref.PutUvarint(b, uint64(v))
		}
	case 4, 5:
		raw := expandBlobs(c.L)
		b, _ = ref.IntsAtRandom(vals, signed, true, &rr)
		if r.n(2) == 0 {
			b = append(b, raw...)
		}
		b, _ = ref.ChunkPlan{Kind: ref.Zlib, Size: c.Ch, Split: true, Originals: 40, Empty: true, Seed: r.next()}.Pack(b)
	default:
		for k := r.n(200); k > 0; k-- {
			b = append(b, byte(r.next())&byte(r.next()|r.next()))
		}
	}
	for k := 0; k < c.N; k++ {
		b = mutateBytes(&r, b)
	}
	ctx.Class(decoderNames[c.D])
	if c.N > 0 || c.D == decoderKinds-1 {
		ctx.Nontrivial()
	}
	before := allocated()
	all := c.D == decoderKinds-1
	if c.D == 0 || all {
		for _, signed := range []bool{true, false} {
			d := encoding.NewIntDecoder(signed)
			if err := ends(fmt.Sprintf("integers, signed %v", signed), b, func(in *bytes.Buffer) (int, error) {
				if signed {
					v, err := d.DecodeInt(in)
					return len(v), err
				}
				v, err := d.DecodeUInt(in)
				return len(v), err
			}); err != nil {
				return err
			}
		}
		d := encoding.NewDateV2DeCoder()
		if err := ends("dates", b, func(in *bytes.Buffer) (int, error) {
			v, err := d.Decode(in)
			return len(v), err
		}); err != nil {
			return err
		}
	}
	if c.D == 1 || all {
		var vs []byte
		if err := ends("bytes", b, func(in *bytes.Buffer) (int, error) {
			v, err := encoding.DecodeByteRL(in, vs[:0])
			return len(v), err
		}); err != nil {
			return err
		}
	}
	if c.D == 2 || all {
		var vs []bool
		if err := ends("booleans", b, func(in *bytes.Buffer) (int, error) {
			v, err := encoding.DecodeBools(in, vs[:0])
			return len(v), err
		}); err != nil {
			return err
		}
	}
	if c.D == 3 || all {
		for what, step := range map[string]func(in *bytes.Buffer) (int, error){
			"floats":  func(in *bytes.Buffer) (int, error) { _, err := encoding.DecodeFloat(in); return 1, err },
			"doubles": func(in *bytes.Buffer) (int, error) { _, err := encoding.DecodeDouble(in); return 1, err },
			"varints": func(in *bytes.Buffer) (int, error) { _, err := encoding.DecodeVarInt64(in); return 1, err },
			"vuints":  func(in *bytes.Buffer) (int, error) { _, err := encoding.ReadVUint(in); return 1, err },
			"strings": func(in *bytes.Buffer) (int, error) {
				n := 1 + r.n(20)
				if r.n(20) == 0 {
					n = int(extreme(&r, 5))
				}
				if n == 0 {
					n = 1
				}
				v, err := encoding.DecodeBytes(in, n)
				return len(v), err
			},
		} {
			if err := ends(what, b, step); err != nil {
				return err
			}
		}
		for _, v := range vals {
			encoding.DecodingNano(uint64(v))
			api.DecodingTimestampNanos(uint64(v))
		}
	}
	if c.D == 4 || all {
		var out bytes.Buffer
		err1 := common.DecompressChunks(pb.CompressionKind_ZLIB, &out, bytes.NewBuffer(append([]byte{}, b...)))
		got, err2 := orc.ReadChunks(append([]byte{}, b...), pb.CompressionKind_ZLIB, c.Ch)
		if err1 == nil && err2 == nil && !bytes.Equal(out.Bytes(), got) {
			return violf("chunks of %d bytes are decompressed to %d and %d bytes", len(b), out.Len(), len(got))
		}
		ctx.ClassIf(err1 != nil || err2 != nil, "chunks refused")
		out.Reset()
		common.Decompress(pb.CompressionKind_ZLIB, &out, bytes.NewBuffer(append([]byte{}, b...)))
		for k := pb.CompressionKind(0); k < 8; k++ {
			if k != pb.CompressionKind_ZLIB {
				common.DecompressChunks(k, &out, bytes.NewBuffer(b))
				common.Decompress(k, &out, bytes.NewBuffer(b))
			}
		}
	}
	if c.D == 5 || all {
		if err := abuseStreams(&r, b, c.Ch); err != nil {
			return err
		}
	}
	if used := allocated() - before; used > 64<<20+4000*uint64(len(b)) {
		return violf("%s: %d MB are allocated for %d bytes", decoderNames[c.D], used>>20, len(b))
	}
	return nil
}

// abuseStreams reads bytes as streams of all kinds.
func abuseStreams(r *rng, b []byte, chunk int) error {
	for kind := 0; kind < sKinds; kind++ {
		opts := &config.ReaderOptions{CompressionKind: pb.CompressionKind(r.n(2)), ChunkSize: uint64(chunk), IndexStride: 10}
		if r.n(10) == 0 {
			opts.CompressionKind = pb.CompressionKind(r.n(7))
		}
		lead := r.n(len(b) + 1)
		length := uint64(len(b) - lead)
		if r.n(4) == 0 {
			length = extreme(r, length)
			if length > 1<<40 {
				length = 1 << 40
			}
		}
		k, col := pb.Stream_DATA, uint32(3)
		info := &pb.Stream{Kind: &k, Column: &col, Length: &length}
		f := &memFile{b: b}
		f.Seek(int64(lead), 0)
		sr := newStreamReader(kind, opts, info, uint64(lead), f)
		failed := 0
		for i := 0; i < 3000 && failed < 4; i++ {
			if r.n(200) == 0 || failed > 0 {
				if err := sr.seek(extreme(r, uint64(r.n(len(b)+1))), extreme(r, uint64(r.n(chunk))), []uint64{extreme(r, uint64(r.n(600))), extreme(r, uint64(r.n(9)))}); err != nil {
					failed++
				}
			}
			n := 1 + r.n(30)
			if _, err := sr.next(make([]byte, n)); err != nil {
				failed++
			}
			sr.finished()
		}
	}
	return nil
}

func init() {
	rule := "a mutant was refused after rows were read, or still parses"
	register("C19", "damaged-files", "files of both writers with 1-8 mutants: bytes, postscript, footer, types, stripe footers, decompressed streams, row indexes, noise; read, seeked, projected, used after errors; non-trivial: "+rule, 15000, 150000, genMut(false), runMut, cpu(30e9), heap(2<<30))
	register("C19", "damaged-lists", "the same with lists and maps; non-trivial: "+rule, 4500, 50000, genMut(true), runMut, cpu(40e9))
	register("C19", "types", "footers with chains, cycles, shared and missing children, up to 200000 types; non-trivial: more than 3 types", 1500, 10000, func(t *rapid.T) treeCase {
		c := treeCase{Shape: rapid.SampledFrom([]string{"structs", "lists", "cycle", "shared", "maps", "wide", "unions", "empty struct", "any"}).Draw(t, "shape"),
			N: rapid.SampledFrom([]int{1, 2, 3, 5, 10, 40, 200, 900, 3000}).Draw(t, "n"), Comp: rapid.IntRange(0, 1).Draw(t, "comp"), S: drawSeed(t)}
		if rapid.IntRange(0, 2).Draw(t, "rows") == 0 {
			c.Rows = rapid.SampledFrom([]uint64{1, 100, 1 << 40, 1<<64 - 1}).Draw(t, "rowN")
		}
		return c
	}, runTree, cpu(30e9), fixed(func() (out []treeCase) {
		for _, s := range []string{"structs", "lists", "cycle", "shared", "maps", "wide", "any"} {
			out = append(out, treeCase{Shape: s, N: 200000, Comp: 1}, treeCase{Shape: s, N: 990, Comp: 1, Rows: 1 << 50})
		}
		return
	}))
	register("C19", "decoders", "legal runs, chunks and streams which are damaged, and noise, for every decoder; non-trivial: damaged", 60000, 800000, genDecode, runDecode, cpu(30e9))
}
