package ref

import (
	"encoding/binary"
	"math/bits"
)

// Spec describes a file for Write. Everything which the format leaves open is
// chosen by the flags and the seed.
type Spec struct {
	Root      *Node
	Rows      []any // Struct
	Stripes   []int // rows of the stripes
	Comp      int
	Block     int
	Split     bool // chunks smaller than the block size
	Originals int  // percentage of uncompressed chunks
	Empty     bool // empty chunks
	Stride    int  // rows of a group, 0 for no index
	Suppress  bool // no present stream in stripes without nulls
	DictPct   int  // percentage of string columns with a dictionary
	Bloom     bool
	Stats     int  // 0 none, 1 without has-null, 2 all
	Metadata  bool // metadata section and user metadata
	Zero      bool // streams without data are listed
	Shuffle   bool // data streams in any order
	Loose     bool // positions may name an earlier run
	NoIndex   bool // columns and stripes may have no row index
	Pad       int  // bytes between stripes
	Seed      uint64
}

// place of a value in a stream: byte offset, then values to skip
type place struct {
	off  int
	skip []uint64
}

type outStream struct {
	col, kind int
	data      []byte
	packed    []byte
	at        func(off int) (int, int)
	place     func(i int) place // of value i
}

// IntsAtRandom encodes values as a random sequence of legal runs. place gives
// where value i can be found.
func IntsAtRandom(vals []int64, signed, loose bool, r *Rand) (out []byte, where func(i int) place) {
	type mark struct{ val, off int }
	var marks []mark
	style := r.N(4) // 0: like other writers, runs as long as possible
	for i := 0; i < len(vals); {
		marks = append(marks, mark{i, len(out)})
		max := len(vals) - i
		if max > 512 {
			max = 512
		}
		pick := func(n int) int { // length of a run
			if style == 0 || r.N(3) == 0 {
				return n
			}
			return 1 + r.N(n)
		}
		rest := vals[i:]
		eq := 1
		for eq < max && rest[eq] == rest[0] {
			eq++
		}
		ramp := 1
		var d int64
		if max > 1 {
			d = rest[1] - rest[0]
			if deltaOK(rest[0], rest[1], signed) {
				for ramp < max && rest[ramp]-rest[ramp-1] == d && deltaOK(rest[ramp-1], rest[ramp], signed) {
					ramp++
				}
			}
		}
		mono := monotone(rest[:max], signed)
		switch {
		case eq >= 3 && r.N(4) != 0:
			n := eq
			if n > 10 && (style == 0 || r.N(2) == 0) {
				// a delta run with delta 0
				out = append(out, EncFixedDelta(rest[0], 0, n, signed)...)
				i += n
				continue
			}
			if n > 10 {
				n = 10
			}
			if style != 0 {
				n = 3 + r.N(n-2)
			}
			out = append(out, EncShortRepeat(rest[0], n, signed, 1+r.N(2)*r.N(8))...)
			i += n
		case ramp >= 2 && r.N(4) != 0:
			n := pick(ramp)
			if n < 2 {
				n = 2
			}
			out = append(out, EncFixedDelta(rest[0], d, n, signed)...)
			i += n
		case mono >= 3 && r.N(4) != 0:
			n := pick(mono)
			if n < 3 {
				n = 3
			}
			ds := make([]uint64, n-2)
			w := 2
			for j := range ds {
				ds[j] = absDiff(rest[j+2], rest[j+1])
				if l := bits.Len64(ds[j]); l > w {
					w = l
				}
			}
			w = ClosestWidth(w)
			if r.N(4) == 0 {
				w = wider(w, r)
			}
			out = append(out, EncDelta(rest[0], rest[1]-rest[0], ds, w, signed)...)
			i += n
		default:
			n := pick(max)
			if r.N(2) == 0 {
				if b, ok := patchedAtRandom(rest[:n], signed, r); ok {
					out = append(out, b...)
					i += n
					continue
				}
			}
			w := DirectWidth(rest[:n], signed)
			if r.N(4) == 0 {
				w = wider(w, r)
			}
			out = append(out, EncDirect(rest[:n], signed, w)...)
			i += n
		}
	}
	end := len(out)
	pr := *r
	return out, func(i int) place {
		k := -1
		for j, m := range marks {
			if m.val <= i {
				k = j
			}
		}
		if k < 0 || i == len(vals) {
			if len(marks) == 0 || !loose {
				return place{end, []uint64{0}}
			}
		}
		if loose && k > 0 && i-marks[k-1].val < 512 && pr.N(2) == 0 {
			k--
		}
		return place{marks[k].off, []uint64{uint64(i - marks[k].val)}}
	}
}

func wider(w int, r *Rand) int {
	for k := r.N(4); k > 0 && w < 64; k-- {
		w = ClosestWidth(w + 1)
	}
	return w
}

func absDiff(a, b int64) uint64 {
	if a >= b {
		return uint64(a) - uint64(b)
	}
	return uint64(b) - uint64(a)
}

// deltaOK tells whether the difference fits 64 bits, some readers have no more
func deltaOK(a, b int64, signed bool) bool {
	if !signed {
		// unsigned numbers are compared as such
		d := uint64(b) - uint64(a)
		if uint64(b) < uint64(a) {
			d = uint64(a) - uint64(b)
		}
		return d < 1<<62
	}
	return absDiff(a, b) < 1<<62
}

func monotone(v []int64, signed bool) int {
	if len(v) < 2 || !deltaOK(v[0], v[1], signed) {
		return 1
	}
	less := func(a, b int64) bool {
		if signed {
			return a < b
		}
		return uint64(a) < uint64(b)
	}
	down := less(v[1], v[0])
	n := 2
	for n < len(v) && deltaOK(v[n-1], v[n], signed) {
		if down && less(v[n-1], v[n]) || !down && less(v[n], v[n-1]) {
			break
		}
		n++
	}
	return n
}

func patchedAtRandom(v []int64, signed bool, r *Rand) ([]byte, bool) {
	base := v[0]
	for _, x := range v {
		if x < base {
			base = x
		}
	}
	if !signed {
		for _, x := range v {
			if x < 0 {
				return nil, false
			}
		}
	}
	if base < -(1<<56) || base > 1<<56 {
		return nil, false
	}
	adj := make([]uint64, len(v))
	maxW := 0
	for i, x := range v {
		adj[i] = uint64(x) - uint64(base)
		if l := bits.Len64(adj[i]); l > maxW {
			maxW = l
		}
	}
	if maxW > 56 || maxW < 2 {
		return nil, false
	}
	// the width leaves at most 31 values to be patched
	w := 1 + r.N(maxW-1)
	w = ClosestWidth(w)
	if w >= maxW {
		return nil, false
	}
	pw := ClosestWidth(maxW - w)
	var patches []Patch
	last, gaps := 0, 0
	for i, a := range adj {
		if a>>uint(w) != 0 {
			patches = append(patches, Patch{At: i, Val: a >> uint(w)})
			if g := i - last; g > gaps {
				gaps = g
			}
			last = i
			adj[i] = a & (1<<uint(w) - 1)
		}
	}
	if len(patches) == 0 {
		return nil, false
	}
	pgw := bits.Len(uint(gaps))
	if pgw == 0 {
		pgw = 1
	}
	if pgw > 8 {
		pgw = 8
	}
	if pgw+pw > 64 {
		return nil, false
	}
	bw := 1
	ab := base
	if ab < 0 {
		ab = -ab
	}
	for bits.Len64(uint64(ab)) > 8*bw-1 {
		bw++
	}
	bw += r.N(2) * r.N(9-bw)
	return EncPatched(base, bw, adj, w, pw, pgw, patches)
}

// BytesAtRandom encodes bytes as a random sequence of legal runs.
func BytesAtRandom(vs []byte, loose bool, r *Rand) (out []byte, where func(i int) place) {
	type mark struct{ val, off int }
	var marks []mark
	for i := 0; i < len(vs); {
		marks = append(marks, mark{i, len(out)})
		eq := 1
		for i+eq < len(vs) && vs[i+eq] == vs[i] && eq < 130 {
			eq++
		}
		if eq >= 3 && r.N(5) != 0 {
			if r.N(3) == 0 {
				eq = 3 + r.N(eq-2)
			}
			out = append(out, EncByteRun(vs[i], eq)...)
			i += eq
			continue
		}
		n := len(vs) - i
		if n > 128 {
			n = 128
		}
		if r.N(2) == 0 {
			n = 1 + r.N(n)
		}
		out = append(out, EncByteLiterals(vs[i:i+n])...)
		i += n
	}
	end := len(out)
	pr := *r
	return out, func(i int) place {
		k := -1
		for j, m := range marks {
			if m.val <= i {
				k = j
			}
		}
		if k < 0 || i == len(vs) {
			if len(marks) == 0 || !loose {
				return place{end, []uint64{0}}
			}
		}
		if loose && k > 0 && pr.N(2) == 0 {
			k--
		}
		return place{marks[k].off, []uint64{uint64(i - marks[k].val)}}
	}
}

func boolsAtRandom(vs []bool, loose bool, r *Rand) (out []byte, where func(i int) place) {
	out, w := BytesAtRandom(BoolsToBytes(vs), loose, r)
	return out, func(i int) place {
		if i == len(vs) && i%8 != 0 {
			// no value follows: either place will do
			p := w(i / 8)
			return place{p.off, append(p.skip, uint64(i%8))}
		}
		p := w(i / 8)
		return place{p.off, append(p.skip, uint64(i%8))}
	}
}

type colOut struct {
	streams []*outStream // in order of positions
	extra   []*outStream // without positions
	enc     int
	dict    int
	starts  []int // slots of rows
	nn      []int
	slots   []any
	nulls   bool
}

type wstate struct {
	s     *Spec
	r     *Rand
	cols  []*colOut
	nodes []*Node
}

func (w *wstate) column(n *Node, slots []any, starts []int) {
	c := &colOut{slots: slots, starts: starts}
	w.cols[n.ID] = c
	present := make([]bool, len(slots))
	var vals []any
	c.nn = make([]int, len(slots)+1)
	for i, v := range slots {
		present[i] = v != nil
		c.nn[i+1] = c.nn[i]
		if v != nil {
			vals = append(vals, v)
			c.nn[i+1]++
		} else {
			c.nulls = true
		}
	}
	stream := func(kind int, data []byte, where func(i int) place) {
		st := &outStream{col: n.ID, kind: kind, data: data, place: where}
		if where == nil {
			c.extra = append(c.extra, st)
		} else {
			c.streams = append(c.streams, st)
		}
	}
	loose := w.s.Loose
	if c.nulls || !w.s.Suppress && n.ID != 0 && w.r.N(2) == 0 {
		b, p := boolsAtRandom(present, loose, w.r)
		stream(SPresent, b, p)
	}
	ints := func(kind int, vs []int64, signed bool) {
		b, p := IntsAtRandom(vs, signed, loose, w.r)
		stream(kind, b, p)
	}
	raw := func(kind int, parts [][]byte) {
		off := make([]int, len(parts)+1)
		var b []byte
		for i, x := range parts {
			b = append(b, x...)
			off[i+1] = len(b)
		}
		stream(kind, b, func(i int) place { return place{off[i], nil} })
	}
	switch n.Kind {
	case StructK:
		c.enc = EDirect
		ks := make([]int, len(starts))
		for i, x := range starts {
			ks[i] = c.nn[x]
		}
		for j, k := range n.Kids {
			kid := make([]any, len(vals))
			for i, v := range vals {
				kid[i] = v.(Struct)[j]
			}
			w.column(k, kid, ks)
		}
	case ListK, MapK:
		c.enc = EDirectV2
		sum := make([]int, len(vals)+1)
		lens := make([]int64, len(vals))
		var a, b []any
		for i, v := range vals {
			if l, ok := v.(List); ok {
				lens[i] = int64(len(l))
				a = append(a, l...)
			} else {
				m := v.(Map)
				lens[i] = int64(len(m))
				for _, e := range m {
					a, b = append(a, e[0]), append(b, e[1])
				}
			}
			sum[i+1] = len(a)
		}
		ints(SLength, lens, false)
		ks := make([]int, len(starts))
		for i, x := range starts {
			ks[i] = sum[c.nn[x]]
		}
		w.column(n.Kids[0], a, ks)
		if n.Kind == MapK {
			w.column(n.Kids[1], b, ks)
		}
	case Boolean:
		vs := make([]bool, len(vals))
		for i, v := range vals {
			vs[i] = v.(bool)
		}
		b, p := boolsAtRandom(vs, loose, w.r)
		stream(SData, b, p)
	case Byte:
		vs := make([]byte, len(vals))
		for i, v := range vals {
			vs[i] = byte(v.(int64))
		}
		b, p := BytesAtRandom(vs, loose, w.r)
		stream(SData, b, p)
	case Short, Int, Long, DateK:
		c.enc = EDirectV2
		vs := make([]int64, len(vals))
		for i, v := range vals {
			if d, ok := v.(Date); ok {
				vs[i] = int64(d)
			} else {
				vs[i] = v.(int64)
			}
		}
		ints(SData, vs, true)
	case Float, Double:
		parts := make([][]byte, len(vals))
		for i, v := range vals {
			if x, ok := v.(F32); ok {
				parts[i] = binary.LittleEndian.AppendUint32(nil, uint32(x))
			} else {
				parts[i] = binary.LittleEndian.AppendUint64(nil, uint64(v.(F64)))
			}
		}
		raw(SData, parts)
	case String, Varchar, Char, Binary:
		c.enc = EDirectV2
		parts := make([][]byte, len(vals))
		lens := make([]int64, len(vals))
		for i, v := range vals {
			if x, ok := v.(string); ok {
				parts[i] = []byte(x)
			} else {
				parts[i] = []byte(v.(Bin))
			}
			lens[i] = int64(len(parts[i]))
		}
		if n.Kind != Binary && w.r.N(100) < w.s.DictPct {
			c.enc = EDictV2
			at := map[string]int64{}
			var words []string
			for _, p := range parts {
				if _, ok := at[string(p)]; !ok {
					at[string(p)] = 0
					words = append(words, string(p))
				}
			}
			if w.r.N(3) == 0 { // words which are not used
				words = append(words, "unused", "")
			}
			for i := len(words) - 1; i > 0; i-- {
				j := w.r.N(i + 1)
				words[i], words[j] = words[j], words[i]
			}
			var blob []byte
			var wl []int64
			for i, x := range words {
				at[x] = int64(i)
				blob = append(blob, x...)
				wl = append(wl, int64(len(x)))
			}
			c.dict = len(words)
			idx := make([]int64, len(parts))
			for i, p := range parts {
				idx[i] = at[string(p)]
			}
			ints(SData, idx, false)
			lb, _ := IntsAtRandom(wl, false, false, w.r)
			stream(SDictData, blob, nil)
			stream(SLength, lb, nil)
			break
		}
		raw(SData, parts)
		ints(SLength, lens, false)
	case TimestampK:
		c.enc = EDirectV2
		a, b := make([]int64, len(vals)), make([]int64, len(vals))
		for i, v := range vals {
			t := v.(TS)
			a[i], b[i] = t.Sec, int64(EncodeNanos(uint64(t.Nano)))
			if w.s.Seed&2 != 0 && w.r.N(3) == 0 { // zeros need not be taken away
				b[i] = t.Nano << 3
			}
		}
		ints(SData, a, true)
		ints(SSecondary, b, false)
	case Decimal:
		c.enc = EDirectV2
		parts := make([][]byte, len(vals))
		sc := make([]int64, len(vals))
		for i, v := range vals {
			d := v.(Dec)
			parts[i], sc[i] = bigVarint(d.U), d.Scale
		}
		raw(SData, parts)
		ints(SSecondary, sc, true)
	}
}

// Write makes a file.
func Write(s *Spec) []byte {
	nodes := s.Root.Number()
	r := Rand(s.Seed)
	pack := func(data []byte) ([]byte, func(int) (int, int)) {
		return ChunkPlan{Kind: s.Comp, Size: s.Block, Split: s.Split, Originals: s.Originals, Empty: s.Empty, Seed: r.Next()}.Pack(data)
	}
	out := []byte("ORC")
	footer, meta := &PB{}, &PB{}
	nulls := make([]bool, len(nodes))
	counts := make([]int, len(nodes))
	row := 0
	var infos [][]byte
	for _, n := range s.Stripes {
		for i := 0; i < s.Pad; i++ {
			out = append(out, 0xab)
		}
		w := &wstate{s: s, r: &r, cols: make([]*colOut, len(nodes)), nodes: nodes}
		starts := make([]int, n+1)
		for i := range starts {
			starts[i] = i
		}
		w.column(s.Root, s.Rows[row:row+n], starts)
		row += n

		var data []*outStream
		for i, c := range w.cols {
			nulls[i] = nulls[i] || c.nulls
			counts[i] += c.nn[len(c.slots)]
			for _, st := range append(append([]*outStream{}, c.streams...), c.extra...) {
				st.packed, st.at = pack(st.data)
				if len(st.packed) > 0 || s.Zero {
					data = append(data, st)
				}
			}
		}
		if s.Shuffle {
			for i := len(data) - 1; i > 0; i-- {
				j := r.N(i + 1)
				data[i], data[j] = data[j], data[i]
			}
		}
		sf := &PB{}
		offset := len(out)
		list := func(kind, col, n int) {
			sf.B(1, (&PB{}).U(1, uint64(kind)).U(2, uint64(col)).U(3, uint64(n)).Out())
		}
		bare := s.NoIndex && r.N(3) == 0
		if s.Stride > 0 && !bare {
			for i, c := range w.cols {
				if s.NoIndex && r.N(3) == 0 {
					continue
				}
				idx := &PB{}
				for g := 0; g < n; g += s.Stride {
					s0 := c.starts[g]
					end := g + s.Stride
					if end > n {
						end = n
					}
					s1 := c.starts[end]
					var pos []uint64
					for _, st := range c.streams {
						at := c.nn[s0]
						if st.kind == SPresent {
							at = s0
						}
						p := st.place(at)
						a, b := st.at(p.off)
						if s.Comp != None {
							pos = append(pos, uint64(a))
						}
						pos = append(pos, uint64(b))
						pos = append(pos, p.skip...)
					}
					st := &PB{}
					k := c.nn[s1] - c.nn[s0]
					st.U(1, uint64(k))
					hn := uint64(0)
					if k != s1-s0 {
						hn = 1
					}
					st.U(10, hn)
					idx.B(1, (&PB{}).Packed(1, pos).B(2, st.Out()).Out())
				}
				b, _ := pack(idx.Out())
				out = append(out, b...)
				list(SRowIndex, i, len(b))
				if s.Bloom && i != 0 && r.N(2) == 0 {
					b, _ := pack((&PB{}).B(1, (&PB{}).U(1, 3).Out()).Out())
					out = append(out, b...)
					list(SBloom+r.N(2), i, len(b))
				}
			}
		}
		indexLen := len(out) - offset
		for _, st := range data {
			out = append(out, st.packed...)
			list(st.kind, st.col, len(st.packed))
		}
		dataLen := len(out) - offset - indexLen
		for _, c := range w.cols {
			e := &PB{}
			e.U(1, uint64(c.enc))
			if c.enc == EDictV2 {
				e.U(2, uint64(c.dict))
			}
			sf.B(2, e.Out())
		}
		if s.Metadata {
			sf.B(3, []byte("UTC"))
		}
		fb, _ := pack(sf.Out())
		out = append(out, fb...)
		infos = append(infos, (&PB{}).U(1, uint64(offset)).U(2, uint64(indexLen)).U(3, uint64(dataLen)).U(4, uint64(len(fb))).U(5, uint64(n)).Out())
	}
	content := len(out) - 3

	metaLen := 0
	if s.Metadata {
		for range s.Stripes {
			ss := &PB{}
			for i := range nodes {
				ss.B(1, (&PB{}).U(1, uint64(counts[i])).U(10, 1).Out())
			}
			meta.B(1, ss.Out())
		}
		b, _ := pack(meta.Out())
		out = append(out, b...)
		metaLen = len(b)
	}
	footer.U(1, 3).U(2, uint64(content))
	for _, b := range infos {
		footer.B(3, b)
	}
	for _, n := range nodes {
		t := (&PB{}).U(1, uint64(n.Kind))
		var subs []uint64
		for _, k := range n.Kids {
			subs = append(subs, uint64(k.ID))
		}
		if s.Seed&4 != 0 {
			for _, x := range subs {
				t.U(2, x)
			}
		} else {
			t.Packed(2, subs)
		}
		for _, name := range n.Names {
			t.B(3, []byte(name))
		}
		switch n.Kind {
		case Varchar, Char:
			t.U(4, 100000)
		case Decimal:
			t.U(5, 18).U(6, 6)
		}
		footer.B(4, t.Out())
	}
	if s.Metadata {
		footer.B(5, (&PB{}).B(1, []byte("key")).B(2, []byte("value")).Out())
	}
	footer.U(6, uint64(len(s.Rows)))
	if s.Stats > 0 {
		for i := range nodes {
			st := (&PB{}).U(1, uint64(counts[i]))
			if s.Stats > 1 {
				h := uint64(0)
				if nulls[i] {
					h = 1
				}
				st.U(10, h)
			}
			footer.B(7, st.Out())
		}
	}
	footer.U(8, uint64(s.Stride))
	fb, _ := pack(footer.Out())
	out = append(out, fb...)
	ps := (&PB{}).U(1, uint64(len(fb))).U(2, uint64(s.Comp))
	if s.Comp != None || s.Seed&8 != 0 {
		ps.U(3, uint64(s.Block))
	}
	if s.Seed&16 != 0 {
		ps.U(4, 0).U(4, 12)
	} else {
		ps.Packed(4, []uint64{0, 12})
	}
	if s.Metadata || s.Seed&32 != 0 {
		ps.U(5, uint64(metaLen))
	}
	if s.Seed&64 != 0 {
		ps.U(6, 6)
	}
	ps.B(8000, []byte("ORC"))
	out = append(out, ps.Out()...)
	return append(out, byte(len(ps.Out())))
}
