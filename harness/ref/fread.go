package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
)

// Stream kinds.
const (
	SPresent = iota
	SData
	SLength
	SDictData
	SDictCount
	SSecondary
	SRowIndex
	SBloom
	SBloomUTF8
)

// Column encodings.
const (
	EDirect = iota
	EDict
	EDirectV2
	EDictV2
)

// File is a parsed file.
type File struct {
	Data        []byte
	Comp        int
	Block       int // chunk size
	HasBlock    bool
	PS, Footer  Msg
	FooterBytes []byte // decompressed
	FooterStart int
	MetaStart   int
	PSStart     int
	Rows        uint64
	Content     uint64
	Header      uint64
	Stride      uint64
	Root        *Node
	Nodes       []*Node
	Stripes     []*Stripe
	Stats       []Msg
}

type Stripe struct {
	Offset, IndexLen, DataLen, FooterLen, Rows uint64
	Streams                                    []*Stream
	Encs                                       []Enc
	f                                          *File
}

type Enc struct {
	Kind     int
	DictSize uint64
}

type Stream struct {
	Kind, Col int
	Off, Len  int // within the file
	Data      []byte
	Chunks    []Chunk
}

// Parse parses everything but the contents of streams.
func Parse(b []byte) (*File, error) {
	f := &File{Data: b}
	if len(b) < 3 || string(b[:3]) != "ORC" {
		return nil, errors.New("no magic at the start")
	}
	psLen := int(b[len(b)-1])
	f.PSStart = len(b) - 1 - psLen
	if psLen == 0 || f.PSStart < 3 {
		return nil, fmt.Errorf("postscript length %d", psLen)
	}
	var err error
	if f.PS, err = ParseMsg(b[f.PSStart : len(b)-1]); err != nil {
		return nil, fmt.Errorf("postscript: %w", err)
	}
	if string(f.PS.Bytes(8000)) != "ORC" {
		return nil, errors.New("no magic in the postscript")
	}
	ver, err := f.PS.Us(4)
	if err != nil {
		return nil, err
	}
	if len(ver) != 2 || ver[0] != 0 || (ver[1] != 11 && ver[1] != 12) {
		return nil, fmt.Errorf("version %v", ver)
	}
	f.Comp = int(f.PS.U(2))
	f.HasBlock = f.PS.Has(3)
	f.Block = int(f.PS.U(3))
	if f.Comp != None && f.Block <= 0 {
		return nil, errors.New("no compression block size")
	}
	fl, ml := f.PS.U(1), f.PS.U(5)
	if fl > uint64(f.PSStart-3) || ml > uint64(f.PSStart-3)-fl {
		return nil, errors.New("footer is longer than the file")
	}
	f.FooterStart = f.PSStart - int(fl)
	f.MetaStart = f.FooterStart - int(ml)
	if f.FooterBytes, _, err = Inflate(f.Comp, b[f.FooterStart:f.PSStart], f.Block); err != nil {
		return nil, fmt.Errorf("footer: %w", err)
	}
	if f.Footer, err = ParseMsg(f.FooterBytes); err != nil {
		return nil, fmt.Errorf("footer: %w", err)
	}
	f.Header, f.Content, f.Rows, f.Stride = f.Footer.U(1), f.Footer.U(2), f.Footer.U(6), f.Footer.U(8)
	if err := f.types(); err != nil {
		return nil, err
	}
	for _, sb := range f.Footer.All(7) {
		m, err := ParseMsg(sb)
		if err != nil {
			return nil, fmt.Errorf("statistics: %w", err)
		}
		f.Stats = append(f.Stats, m)
	}
	for i, sb := range f.Footer.All(3) {
		m, err := ParseMsg(sb)
		if err != nil {
			return nil, fmt.Errorf("stripe %d: %w", i, err)
		}
		s := &Stripe{f: f, Offset: m.U(1), IndexLen: m.U(2), DataLen: m.U(3), FooterLen: m.U(4), Rows: m.U(5)}
		if err := s.parse(); err != nil {
			return nil, fmt.Errorf("stripe %d: %w", i, err)
		}
		f.Stripes = append(f.Stripes, s)
	}
	return f, nil
}

func (f *File) types() error {
	tb := f.Footer.All(4)
	if len(tb) == 0 {
		return errors.New("no types")
	}
	nodes := make([]*Node, len(tb))
	subs := make([][]uint64, len(tb))
	for i, b := range tb {
		m, err := ParseMsg(b)
		if err != nil {
			return fmt.Errorf("type %d: %w", i, err)
		}
		if subs[i], err = m.Us(2); err != nil {
			return err
		}
		n := &Node{ID: i, Kind: int(m.U(1))}
		for _, name := range m.All(3) {
			n.Names = append(n.Names, string(name))
		}
		if n.Kind == StructK && len(n.Names) != len(subs[i]) {
			return fmt.Errorf("struct type %d has %d names and %d fields", i, len(n.Names), len(subs[i]))
		}
		want := map[int]int{ListK: 1, MapK: 2, StructK: len(subs[i]), Union: len(subs[i])}[n.Kind]
		if len(subs[i]) != want {
			return fmt.Errorf("type %d of kind %d has %d subtypes", i, n.Kind, len(subs[i]))
		}
		nodes[i] = n
	}
	// ids are in pre-order
	next := 0
	var walk func(i, depth int) error
	walk = func(i, depth int) error {
		if i != next || depth > 10000 {
			return fmt.Errorf("type %d is not in pre-order", i)
		}
		next++
		for _, s := range subs[i] {
			if s >= uint64(len(nodes)) {
				return fmt.Errorf("type %d does not exist", s)
			}
			if err := walk(int(s), depth+1); err != nil {
				return err
			}
			nodes[i].Kids = append(nodes[i].Kids, nodes[s])
		}
		return nil
	}
	if err := walk(0, 0); err != nil {
		return err
	}
	if next != len(nodes) {
		return errors.New("types which are not used")
	}
	f.Root, f.Nodes = nodes[0], nodes
	return nil
}

func (s *Stripe) parse() error {
	f := s.f
	end := uint64(len(f.Data))
	for _, l := range []uint64{s.Offset, s.IndexLen, s.DataLen, s.FooterLen} {
		if l > end {
			return errors.New("is outside of the file")
		}
		end -= l
	}
	start := s.Offset + s.IndexLen + s.DataLen
	fb, _, err := Inflate(f.Comp, f.Data[start:start+s.FooterLen], f.Block)
	if err != nil {
		return fmt.Errorf("footer: %w", err)
	}
	m, err := ParseMsg(fb)
	if err != nil {
		return fmt.Errorf("footer: %w", err)
	}
	for _, b := range m.All(2) {
		e, err := ParseMsg(b)
		if err != nil {
			return err
		}
		s.Encs = append(s.Encs, Enc{int(e.U(1)), e.U(2)})
	}
	if len(s.Encs) != len(f.Nodes) {
		return fmt.Errorf("%d encodings of %d columns", len(s.Encs), len(f.Nodes))
	}
	off := int(s.Offset)
	seen := map[[2]int]bool{}
	dataStarted := false
	for _, b := range m.All(1) {
		e, err := ParseMsg(b)
		if err != nil {
			return err
		}
		st := &Stream{Kind: int(e.U(1)), Col: int(e.U(2)), Off: off, Len: int(e.U(3))}
		if st.Col >= len(f.Nodes) {
			return fmt.Errorf("stream of column %d", st.Col)
		}
		isIndex := st.Kind >= SRowIndex && st.Kind <= SBloomUTF8
		if isIndex && dataStarted {
			return errors.New("index stream after data streams")
		}
		if !isIndex && !dataStarted {
			dataStarted = true
			if off != int(s.Offset+s.IndexLen) {
				return fmt.Errorf("index streams have %d bytes, index length is %d", off-int(s.Offset), s.IndexLen)
			}
		}
		if st.Len < 0 || off+st.Len > int(start) {
			return fmt.Errorf("stream of column %d kind %d is outside of the stripe", st.Col, st.Kind)
		}
		k := [2]int{st.Col, st.Kind}
		if seen[k] {
			return fmt.Errorf("two streams of column %d kind %d", st.Col, st.Kind)
		}
		seen[k] = true
		if st.Data, st.Chunks, err = Inflate(f.Comp, f.Data[off:off+st.Len], f.Block); err != nil {
			return fmt.Errorf("stream of column %d kind %d: %w", st.Col, st.Kind, err)
		}
		off += st.Len
		s.Streams = append(s.Streams, st)
	}
	if !dataStarted && off != int(s.Offset+s.IndexLen) {
		return fmt.Errorf("index streams have %d bytes, index length is %d", off-int(s.Offset), s.IndexLen)
	}
	if off != int(start) {
		return fmt.Errorf("streams end at %d, data ends at %d", off, start)
	}
	return nil
}

// Stream finds a stream, nil if there is none.
func (s *Stripe) Stream(col, kind int) *Stream {
	for _, st := range s.Streams {
		if st.Col == col && st.Kind == kind {
			return st
		}
	}
	return nil
}

// Column is a decoded column of a stripe. A slot is a place where there may be
// a value, that is, a row the parent of which is not null, or an element.
type Column struct {
	Node    *Node
	Enc     Enc
	Slots   []any
	Starts  []int // of every row of the stripe, slot where its values start; one more for the end
	Present []bool
	nn      []int // non-null values before each slot
}

// NonNull is the number of values in slots before slot i.
func (c *Column) NonNull(i int) int { return c.nn[i] }

// Decode decodes all columns of a stripe.
func (s *Stripe) Decode() (cols []*Column, err error) {
	cols = make([]*Column, len(s.f.Nodes))
	starts := make([]int, s.Rows+1)
	for i := range starts {
		starts[i] = i
	}
	if s.Rows > 1<<26 {
		return nil, errors.New("too many rows")
	}
	used := map[*Stream]bool{}
	if err := s.decode(s.f.Root, int(s.Rows), starts, cols, used); err != nil {
		return nil, err
	}
	for _, st := range s.Streams {
		if !used[st] && st.Kind < SRowIndex && len(st.Data) != 0 {
			return nil, fmt.Errorf("stream of column %d kind %d is not needed", st.Col, st.Kind)
		}
	}
	return cols, nil
}

func (s *Stripe) decode(n *Node, slots int, starts []int, cols []*Column, used map[*Stream]bool) error {
	c := &Column{Node: n, Enc: s.Encs[n.ID], Starts: starts}
	cols[n.ID] = c
	fail := func(format string, a ...any) error {
		return fmt.Errorf("column %d (kind %d): %w", n.ID, n.Kind, fmt.Errorf(format, a...))
	}
	get := func(kind int) []byte {
		st := s.Stream(n.ID, kind)
		if st == nil {
			return nil
		}
		used[st] = true
		return st.Data
	}
	count := slots
	if p := s.Stream(n.ID, SPresent); p != nil {
		used[p] = true
		b, _, err := DecodeByteRLE(p.Data)
		if err != nil {
			return fail("present: %w", err)
		}
		if len(b) != (slots+7)/8 {
			return fail("present stream has %d bytes for %d rows", len(b), slots)
		}
		c.Present = append([]bool{}, BytesToBools(b)[:slots]...)
		count = 0
		for _, x := range c.Present {
			if x {
				count++
			}
		}
	}
	c.nn = make([]int, slots+1)
	for i := 0; i < slots; i++ {
		c.nn[i+1] = c.nn[i]
		if c.Present == nil || c.Present[i] {
			c.nn[i+1]++
		}
	}
	ints := func(kind int, signed bool, want int) ([]int64, error) {
		vs, _, err := DecodeRLE2(get(kind), signed)
		if err != nil {
			return nil, fail("stream %d: %w", kind, err)
		}
		if len(vs) != want {
			return nil, fail("stream %d has %d values, should have %d", kind, len(vs), want)
		}
		return vs, nil
	}
	enc := func(ok ...int) error {
		for _, k := range ok {
			if c.Enc.Kind == k {
				return nil
			}
		}
		return fail("encoding %d", c.Enc.Kind)
	}

	vals := make([]any, 0, count)
	var err error
	switch n.Kind {
	case StructK:
		if err = enc(EDirect); err != nil {
			return err
		}
		kidStarts := make([]int, len(starts))
		for i, x := range starts {
			kidStarts[i] = c.nn[x]
		}
		for _, k := range n.Kids {
			if err := s.decode(k, count, kidStarts, cols, used); err != nil {
				return err
			}
		}
		for i := 0; i < count; i++ {
			row := make(Struct, len(n.Kids))
			for j, k := range n.Kids {
				row[j] = cols[k.ID].Slots[i]
			}
			vals = append(vals, row)
		}
	case ListK, MapK:
		if err = enc(EDirectV2); err != nil {
			return err
		}
		lens, err := ints(SLength, false, count)
		if err != nil {
			return err
		}
		sum := make([]int, count+1)
		for i, l := range lens {
			if l < 0 || l > 1<<26 || sum[i] > 1<<26 {
				return fail("length %d", uint64(l))
			}
			sum[i+1] = sum[i] + int(l)
		}
		kidStarts := make([]int, len(starts))
		for i, x := range starts {
			kidStarts[i] = sum[c.nn[x]]
		}
		for _, k := range n.Kids {
			if err := s.decode(k, sum[count], kidStarts, cols, used); err != nil {
				return err
			}
		}
		for i := 0; i < count; i++ {
			if n.Kind == ListK {
				l := List{}
				l = append(l, cols[n.Kids[0].ID].Slots[sum[i]:sum[i+1]]...)
				vals = append(vals, l)
			} else {
				m := Map{}
				for j := sum[i]; j < sum[i+1]; j++ {
					m = append(m, [2]any{cols[n.Kids[0].ID].Slots[j], cols[n.Kids[1].ID].Slots[j]})
				}
				vals = append(vals, m)
			}
		}
	case Boolean:
		if err = enc(EDirect); err != nil {
			return err
		}
		b, _, err := DecodeByteRLE(get(SData))
		if err != nil {
			return fail("data: %w", err)
		}
		if len(b) != (count+7)/8 {
			return fail("data has %d bytes for %d booleans", len(b), count)
		}
		for _, x := range BytesToBools(b)[:count] {
			vals = append(vals, x)
		}
	case Byte:
		if err = enc(EDirect); err != nil {
			return err
		}
		b, _, err := DecodeByteRLE(get(SData))
		if err != nil {
			return fail("data: %w", err)
		}
		if len(b) != count {
			return fail("data has %d bytes, should have %d", len(b), count)
		}
		for _, x := range b {
			vals = append(vals, int64(x))
		}
	case Short, Int, Long, DateK:
		if err = enc(EDirectV2); err != nil {
			return err
		}
		vs, err := ints(SData, true, count)
		if err != nil {
			return err
		}
		for _, v := range vs {
			if (n.Kind == Short && int64(int16(v)) != v) || ((n.Kind == Int || n.Kind == DateK) && int64(int32(v)) != v) {
				return fail("value %d out of range", v)
			}
			if n.Kind == DateK {
				vals = append(vals, Date(v))
			} else {
				vals = append(vals, v)
			}
		}
	case Float, Double:
		if err = enc(EDirect); err != nil {
			return err
		}
		w := 4
		if n.Kind == Double {
			w = 8
		}
		b := get(SData)
		if len(b) != w*count {
			return fail("data has %d bytes, should have %d", len(b), w*count)
		}
		for i := 0; i < count; i++ {
			if w == 4 {
				vals = append(vals, F32(binary.LittleEndian.Uint32(b[4*i:])))
			} else {
				vals = append(vals, F64(binary.LittleEndian.Uint64(b[8*i:])))
			}
		}
	case String, Varchar, Char, Binary:
		ok := []int{EDirectV2, EDictV2}
		if n.Kind == Binary {
			ok = ok[:1]
		}
		if err = enc(ok...); err != nil {
			return err
		}
		if c.Enc.Kind == EDictV2 {
			lens, err := ints(SLength, false, int(c.Enc.DictSize))
			if err != nil {
				return err
			}
			dict, rest, err := cut(get(SDictData), lens)
			if err != nil {
				return fail("dictionary: %w", err)
			}
			if rest != 0 {
				return fail("dictionary has %d bytes which are not used", rest)
			}
			idx, err := ints(SData, false, count)
			if err != nil {
				return err
			}
			for _, i := range idx {
				if uint64(i) >= uint64(len(dict)) {
					return fail("dictionary index %d of %d", uint64(i), len(dict))
				}
				vals = append(vals, dict[i])
			}
			break
		}
		lens, err := ints(SLength, false, count)
		if err != nil {
			return err
		}
		ss, rest, err := cut(get(SData), lens)
		if err != nil {
			return fail("data: %w", err)
		}
		if rest != 0 {
			return fail("data has %d bytes which are not used", rest)
		}
		for _, x := range ss {
			if n.Kind == Binary {
				vals = append(vals, Bin(x))
			} else {
				vals = append(vals, x)
			}
		}
	case TimestampK:
		if err = enc(EDirectV2); err != nil {
			return err
		}
		sec, err := ints(SData, true, count)
		if err != nil {
			return err
		}
		nano, err := ints(SSecondary, false, count)
		if err != nil {
			return err
		}
		for i := range sec {
			ns := DecodeNanos(uint64(nano[i]))
			if ns > 999999999 {
				return fail("%d nanoseconds", ns)
			}
			vals = append(vals, TS{sec[i], int64(ns)})
		}
	case Decimal:
		if err = enc(EDirectV2, EDirect); err != nil {
			return err
		}
		us, err := bigVarints(get(SData))
		if err != nil {
			return fail("data: %w", err)
		}
		if len(us) != count {
			return fail("data has %d values, should have %d", len(us), count)
		}
		sc, err := ints(SSecondary, true, count)
		if err != nil {
			return err
		}
		for i := range us {
			vals = append(vals, Dec{us[i].String(), sc[i]})
		}
	default:
		return fail("kind not known")
	}

	c.Slots = make([]any, slots)
	k := 0
	for i := range c.Slots {
		if c.Present == nil || c.Present[i] {
			c.Slots[i] = vals[k]
			k++
		}
	}
	return nil
}

func cut(b []byte, lens []int64) (out []string, rest int, err error) {
	for _, l := range lens {
		if l < 0 || l > int64(len(b)) {
			return nil, 0, fmt.Errorf("length %d, %d bytes left", uint64(l), len(b))
		}
		out = append(out, string(b[:l]))
		b = b[l:]
	}
	return out, len(b), nil
}

func bigVarints(b []byte) (out []*big.Int, err error) {
	for len(b) > 0 {
		v, sh, i := new(big.Int), uint(0), 0
		for {
			if i >= len(b) {
				return nil, errors.New("varint ends early")
			}
			v.Or(v, new(big.Int).Lsh(big.NewInt(int64(b[i]&0x7f)), sh))
			sh += 7
			i++
			if b[i-1] < 0x80 {
				break
			}
		}
		b = b[i:]
		neg := v.Bit(0) == 1
		v.Rsh(v, 1)
		if neg {
			v.Not(v)
		}
		out = append(out, v)
	}
	return
}

// DecodeNanos decodes the nanoseconds of a timestamp.
func DecodeNanos(v uint64) uint64 {
	n := v >> 3
	if z := v & 7; z != 0 {
		for i := uint64(0); i <= z; i++ {
			n *= 10
		}
	}
	return n
}

// EncodeNanos encodes them, with the most zeros taken away.
func EncodeNanos(n uint64) uint64 {
	if n == 0 || n%100 != 0 {
		return n << 3
	}
	n /= 100
	z := uint64(1)
	for n%10 == 0 && z < 7 {
		n /= 10
		z++
	}
	return n<<3 | z
}

// ReadAll decodes all rows of the file.
func (f *File) ReadAll() (rows []any, stripes [][]*Column, err error) {
	for i, s := range f.Stripes {
		cols, err := s.Decode()
		if err != nil {
			return nil, nil, fmt.Errorf("stripe %d: %w", i, err)
		}
		rows = append(rows, cols[0].Slots...)
		stripes = append(stripes, cols)
	}
	if uint64(len(rows)) != f.Rows {
		return nil, nil, fmt.Errorf("stripes have %d rows, footer says %d", len(rows), f.Rows)
	}
	return
}

// Entry is an entry of a row index.
type Entry struct {
	Pos   []uint64
	Stats Msg
	Has   bool // has statistics
}

// Index parses the row index of a column.
func (s *Stripe) Index(col int) ([]Entry, error) {
	st := s.Stream(col, SRowIndex)
	if st == nil {
		return nil, fmt.Errorf("column %d has no row index", col)
	}
	m, err := ParseMsg(st.Data)
	if err != nil {
		return nil, err
	}
	var out []Entry
	for _, b := range m.All(1) {
		e, err := ParseMsg(b)
		if err != nil {
			return nil, err
		}
		p, err := e.Us(1)
		if err != nil {
			return nil, err
		}
		x := Entry{Pos: p, Has: e.Has(2)}
		if x.Stats, err = ParseMsg(e.Bytes(2)); err != nil {
			return nil, err
		}
		out = append(out, x)
	}
	return out, nil
}

// position in a stream
type posKind int

const (
	posRaw  posKind = iota // bytes
	posInt                 // values of an integer run
	posByte                // values of a byte run
	posBool                // bytes of a byte run, bits
)

type posStream struct {
	stream int
	kind   posKind
	signed bool
}

// posPlan are the streams of a column which have positions.
func posPlan(n *Node, e Enc) (out []posStream) {
	switch n.Kind {
	case Boolean:
		return []posStream{{SData, posBool, false}}
	case Byte:
		return []posStream{{SData, posByte, false}}
	case Short, Int, Long, DateK:
		return []posStream{{SData, posInt, true}}
	case Float, Double:
		return []posStream{{SData, posRaw, false}}
	case String, Varchar, Char, Binary:
		if e.Kind == EDictV2 {
			return []posStream{{SData, posInt, false}}
		}
		return []posStream{{SData, posRaw, false}, {SLength, posInt, false}}
	case TimestampK:
		return []posStream{{SData, posInt, true}, {SSecondary, posInt, false}}
	case Decimal:
		return []posStream{{SData, posRaw, false}, {SSecondary, posInt, true}}
	case ListK, MapK:
		return []posStream{{SLength, posInt, false}}
	}
	return nil
}

// CheckPositions makes sure that the positions of the entry for the group
// which starts at row lead to the values of that group.
func (s *Stripe) CheckPositions(c *Column, e Entry, row, rowEnd int) error {
	pos := e.Pos
	take := func() (uint64, error) {
		if len(pos) == 0 {
			return 0, fmt.Errorf("%d positions are too few", len(e.Pos))
		}
		v := pos[0]
		pos = pos[1:]
		return v, nil
	}
	s0, s1 := c.Starts[row], c.Starts[rowEnd]
	v0, v1 := c.nn[s0], c.nn[s1]
	rest := func(kind int) ([]byte, error) { // the stream from its position on
		st := s.Stream(c.Node.ID, kind)
		data := []byte{}
		var chunks []Chunk
		if st != nil {
			data, chunks = st.Data, st.Chunks
		}
		start, most := uint64(0), uint64(len(data))
		if s.f.Comp != None {
			v, err := take()
			if err != nil {
				return nil, err
			}
			found := false
			for _, ch := range chunks {
				if uint64(ch.Start) == v {
					start, most, found = uint64(ch.Off), uint64(len(ch.Data)), true
				}
			}
			if st == nil && v == 0 || st != nil && v == uint64(st.Len) {
				start, most, found = uint64(len(data)), 0, true
			}
			if !found {
				return nil, fmt.Errorf("stream %d has no chunk at %d", kind, v)
			}
		}
		v, err := take()
		if err != nil {
			return nil, err
		}
		if v > most || start+v > uint64(len(data)) { // no further than the end of the chunk
			return nil, fmt.Errorf("stream %d has no byte %d in the chunk named", kind, v)
		}
		return data[start+v:], nil
	}
	if c.Present != nil {
		b, err := rest(SPresent)
		if err != nil {
			return fmt.Errorf("present: %w", err)
		}
		nb, err := take()
		if err != nil {
			return err
		}
		bits, err := take()
		if err != nil {
			return err
		}
		if bits > 8 {
			return fmt.Errorf("present: %d bits of a byte", bits)
		}
		bs, _, err := DecodeByteRLE(b)
		if err != nil && s1 > s0 {
			return fmt.Errorf("present: %w", err)
		}
		at := 8*int(nb) + int(bits)
		vs := BytesToBools(bs)
		if s1 > s0 || at > len(vs) {
			if at+s1-s0 > len(vs) {
				return fmt.Errorf("present: position leads to the end")
			}
			for i := s0; i < s1; i++ {
				if vs[at+i-s0] != c.Present[i] {
					return fmt.Errorf("present: position leads to wrong values")
				}
			}
		}
	}
	values := make([]any, 0, v1-v0)
	for i := s0; i < s1; i++ {
		if c.Slots[i] != nil {
			values = append(values, c.Slots[i])
		}
	}
	for _, p := range posPlan(c.Node, c.Enc) {
		b, err := rest(p.stream)
		if err != nil {
			return err
		}
		var skip, bits uint64
		if p.kind != posRaw {
			if skip, err = take(); err != nil {
				return err
			}
		}
		if p.kind == posBool {
			if bits, err = take(); err != nil {
				return err
			}
			if bits > 8 {
				return fmt.Errorf("stream %d: %d bits of a byte", p.stream, bits)
			}
		}
		if len(values) == 0 {
			continue
		}
		bad := fmt.Errorf("stream %d: position leads to wrong values", p.stream)
		switch p.kind {
		case posBool, posByte:
			bs, _, err := DecodeByteRLE(b)
			if err != nil {
				return fmt.Errorf("stream %d: %w", p.stream, err)
			}
			if uint64(len(bs)) < skip {
				return bad
			}
			bs = bs[skip:]
			if p.kind == posByte {
				for i, v := range values {
					if i >= len(bs) || int64(bs[i]) != v.(int64) {
						return bad
					}
				}
				break
			}
			vs := BytesToBools(bs)
			for i, v := range values {
				if int(bits)+i >= len(vs) || vs[int(bits)+i] != v.(bool) {
					return bad
				}
			}
		case posInt:
			vs, _, err := DecodeRLE2(b, p.signed)
			if err != nil {
				return fmt.Errorf("stream %d: %w", p.stream, err)
			}
			if uint64(len(vs)) < skip {
				return bad
			}
			vs = vs[skip:]
			want := s.intsOf(c, p.stream, values)
			for i, w := range want {
				if i < len(vs) && c.Node.Kind == TimestampK && p.stream == SSecondary {
					vs[i] = int64(DecodeNanos(uint64(vs[i])))
				}
				if i >= len(vs) || w != vs[i] {
					return bad
				}
			}
		case posRaw:
			var want []byte
			for _, v := range values {
				switch x := v.(type) {
				case F32:
					want = binary.LittleEndian.AppendUint32(want, uint32(x))
				case F64:
					want = binary.LittleEndian.AppendUint64(want, uint64(x))
				case string:
					want = append(want, x...)
				case Bin:
					want = append(want, x...)
				case Dec:
					want = append(want, bigVarint(x.U)...)
				}
			}
			if !bytes.HasPrefix(b, want) {
				return bad
			}
		}
	}
	if len(pos) != 0 {
		return fmt.Errorf("%d positions are %d too many", len(e.Pos), len(pos))
	}
	return nil
}

// intsOf are the numbers in an integer stream for values.
func (s *Stripe) intsOf(c *Column, stream int, values []any) (out []int64) {
	dict := map[string]int64{}
	if c.Enc.Kind == EDictV2 {
		lens, _, _ := DecodeRLE2(s.Stream(c.Node.ID, SLength).Data, false)
		ss, _, _ := cut(s.Stream(c.Node.ID, SDictData).Data, lens)
		for i, x := range ss {
			if _, ok := dict[x]; !ok {
				dict[x] = int64(i)
			}
		}
	}
	for _, v := range values {
		switch x := v.(type) {
		case int64:
			out = append(out, x)
		case Date:
			out = append(out, int64(x))
		case string:
			if c.Enc.Kind == EDictV2 {
				out = append(out, dict[x])
			} else {
				out = append(out, int64(len(x)))
			}
		case Bin:
			out = append(out, int64(len(x)))
		case TS:
			if stream == SData {
				out = append(out, x.Sec)
			} else {
				out = append(out, x.Nano)
			}
		case Dec:
			out = append(out, x.Scale)
		case List:
			out = append(out, int64(len(x)))
		case Map:
			out = append(out, int64(len(x)))
		}
	}
	return
}

func bigVarint(u string) (out []byte) {
	v, _ := new(big.Int).SetString(u, 10)
	if v.Sign() < 0 {
		v.Not(v)
		v.Lsh(v, 1)
		v.SetBit(v, 0, 1)
	} else {
		v.Lsh(v, 1)
	}
	for v.BitLen() > 7 {
		out = append(out, byte(new(big.Int).And(v, big.NewInt(0x7f)).Uint64())|0x80)
		v.Rsh(v, 7)
	}
	return append(out, byte(v.Uint64()))
}
