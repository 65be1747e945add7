package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/bits"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/encoding"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C04: byte and boolean run lengths

// piece is a stretch of a byte sequence: the same byte, or changing bytes.
type piece struct {
	N   int
	V   byte
	Lit bool   `json:",omitempty"`
	S   uint64 `json:",omitempty"`
}

func expandPieces(ps []piece) (out []byte) {
	for _, p := range ps {
		r := rng(p.S)
		for i := 0; i < p.N; i++ {
			if !p.Lit {
				out = append(out, p.V)
				continue
			}
			b := byte(r.next())
			if p.V&1 == 1 && r.n(3) == 0 && len(out) > 0 { // pairs
				b = out[len(out)-1]
			}
			out = append(out, b)
		}
	}
	return
}

func drawPieces(t *rapid.T) []piece {
	k := rapid.IntRange(1, 12).Draw(t, "pieces")
	out := make([]piece, k)
	for i := range out {
		p := piece{V: byte(rapid.SampledFrom([]int{0, 1, 2, 127, 128, 255, 5, 170}).Draw(t, "v")), Lit: rapid.Bool().Draw(t, "lit")}
		switch rapid.IntRange(0, 3).Draw(t, "nK") {
		case 0, 1:
			p.N = rapid.IntRange(1, 6).Draw(t, "n")
		case 2:
			p.N = rapid.IntRange(120, 136).Draw(t, "n")
		default:
			p.N = rapid.IntRange(1, 400).Draw(t, "n")
		}
		if p.Lit {
			p.S = drawSeed(t)
		}
		out[i] = p
	}
	return out
}

type byteCase struct {
	P       []piece
	Flushes []int
	Pos     bool
}

func genByteCase(t *rapid.T) byteCase {
	c := byteCase{P: drawPieces(t), Pos: rapid.Bool().Draw(t, "pos")}
	n := 0
	for _, p := range c.P {
		n += p.N
	}
	for k := rapid.IntRange(0, 4).Draw(t, "flushes"); k > 0; k-- {
		c.Flushes = append(c.Flushes, rapid.IntRange(0, n).Draw(t, "at"))
	}
	return c
}

// decodeBytes decodes everything with the decoder of the project.
func decodeBytes(b []byte) (out []byte, err error) {
	in := bufio.NewReaderSize(&slowReader{b: b}, 16)
	for {
		if _, err := in.Peek(1); err == io.EOF {
			return out, nil
		}
		if out, err = encoding.DecodeByteRL(in, out); err != nil {
			return out, err
		}
	}
}

func decodeBools(b []byte) (out []bool, err error) {
	in := bufio.NewReaderSize(&slowReader{b: b}, 16)
	for {
		if _, err := in.Peek(1); err == io.EOF {
			return out, nil
		}
		if out, err = encoding.DecodeBools(in, out); err != nil {
			return out, err
		}
	}
}

func diffBytes(want, got []byte) string {
	for i := range want {
		if i < len(got) && want[i] != got[i] {
			return fmt.Sprintf("value %d of %d is %d, should be %d", i, len(want), got[i], want[i])
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d values, should be %d", len(got), len(want))
	}
	return ""
}

func diffBools(want, got []bool) string {
	for i := range want {
		if i < len(got) && want[i] != got[i] {
			return fmt.Sprintf("value %d of %d is %t, should be %t", i, len(want), got[i], want[i])
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d values, should be %d", len(got), len(want))
	}
	return ""
}

func flushSet(fs []int) map[int]bool {
	m := map[int]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return m
}

func classifyRuns(ctx *Ctx, runs []ref.ByteRun) {
	lit, rep := false, false
	for _, r := range runs {
		lit, rep = lit || r.Literal, rep || !r.Literal
		ctx.ClassIf(r.Len >= 128, "full run")
	}
	ctx.ClassIf(lit, "literals")
	ctx.ClassIf(rep, "repeats")
	if lit && rep && len(runs) > 2 {
		ctx.Nontrivial()
	}
}

func runBytes(ctx *Ctx, c byteCase) error {
	vals := expandPieces(c.P)
	fl := flushSet(c.Flushes)
	enc := encoding.NewByteEncoder(c.Pos)
	out := &bytes.Buffer{}
	for i, v := range vals {
		if fl[i] {
			if err := enc.Flush(out); err != nil {
				return violf("flush failed: %v", err)
			}
		}
		if err := enc.Encode(v, out); err != nil {
			return violf("encoding failed: %v", err)
		}
	}
	if err := enc.Flush(out); err != nil {
		return violf("flush failed: %v", err)
	}
	want, runs, err := ref.DecodeByteRLE(out.Bytes())
	if err != nil {
		return violf("not legal: %v", err)
	}
	classifyRuns(ctx, runs)
	if d := diffBytes(vals, want); d != "" {
		return violf("independent decoder reads %s", d)
	}
	got, err := decodeBytes(out.Bytes())
	if err != nil {
		return violf("decoding failed: %v", err)
	}
	if d := diffBytes(vals, got); d != "" {
		return violf("decoded %s", d)
	}
	return nil
}

func runBools(ctx *Ctx, c byteCase) error {
	// bits of the bytes, the first bits are left out so that segments do not
	// begin at byte boundaries
	bs := ref.BytesToBools(expandPieces(c.P))
	skip := len(c.P) % 8
	if skip < len(bs) {
		bs = bs[skip:]
	}
	fl := map[int]bool{}
	for _, f := range c.Flushes {
		fl[f*8+len(c.P)*3%11] = true
	}
	enc := encoding.NewBoolEncoder(c.Pos)
	out := &bytes.Buffer{}
	var want []bool
	flush := func() error {
		if err := enc.Flush(out); err != nil {
			return violf("flush failed: %v", err)
		}
		for len(want)%8 != 0 {
			want = append(want, false)
		}
		return nil
	}
	for i, v := range bs {
		if fl[i] {
			if err := flush(); err != nil {
				return err
			}
		}
		if err := enc.Encode(v, out); err != nil {
			return violf("encoding failed: %v", err)
		}
		want = append(want, v)
	}
	if err := flush(); err != nil {
		return err
	}
	raw, runs, err := ref.DecodeByteRLE(out.Bytes())
	if err != nil {
		return violf("not legal: %v", err)
	}
	classifyRuns(ctx, runs)
	ctx.ClassIf(len(fl) > 0, "flushes")
	if d := diffBools(want, ref.BytesToBools(raw)); d != "" {
		return violf("independent decoder reads %s", d)
	}
	got, err := decodeBools(out.Bytes())
	if err != nil {
		return violf("decoding failed: %v", err)
	}
	if d := diffBools(want, got); d != "" {
		return violf("decoded %s", d)
	}
	return nil
}

type byteRunsCase struct{ P []piece }

func runLegalBytes(ctx *Ctx, c byteRunsCase) error {
	var enc, vals []byte
	lit, rep := 0, 0
	for _, p := range c.P {
		v := expandPieces([]piece{p})
		if p.Lit {
			n := 1 + (len(v)-1)%128
			v = v[:n]
			enc = append(enc, ref.EncByteLiterals(v)...)
			lit++
		} else {
			n := 3 + (p.N-1)%128
			v = bytes.Repeat([]byte{p.V}, n)
			enc = append(enc, ref.EncByteRun(p.V, n)...)
			rep++
		}
		vals = append(vals, v...)
	}
	ctx.ClassIf(lit > 0, "literals")
	ctx.ClassIf(rep > 0, "repeats")
	if lit > 0 && rep > 0 {
		ctx.Nontrivial()
	}
	got, err := decodeBytes(enc)
	if err != nil {
		return violf("bytes: legal runs refused: %v", err)
	}
	if d := diffBytes(vals, got); d != "" {
		return violf("bytes: %s", d)
	}
	bools, err := decodeBools(enc)
	if err != nil {
		return violf("booleans: legal runs refused: %v", err)
	}
	if d := diffBools(ref.BytesToBools(vals), bools); d != "" {
		return violf("booleans: %s", d)
	}
	for _, b := range vals[:1] {
		if d := diffBools(ref.BytesToBools([]byte{b}), encoding.DecodeBoolsFromByte(b)); d != "" {
			return violf("booleans of a byte: %s", d)
		}
	}
	return nil
}

// C05: scalars

type scalarCase struct {
	V []Seg
	L []Seg `json:",omitempty"`
	X int   `json:",omitempty"`
}

func genScalar(t *rapid.T) scalarCase { return scalarCase{V: drawSegs(t, 4, 300)} }

func runFloats(ctx *Ctx, c scalarCase) error {
	vals := expandSegs(c.V)
	f, d := &bytes.Buffer{}, &bytes.Buffer{}
	fe, de := encoding.NewFloatEncoder(), encoding.NewDoubleEncoder()
	var fw, dw []byte
	special := false
	for _, v := range vals {
		for _, x := range []uint32{uint32(v), uint32(uint64(v) >> 32)} {
			if err := fe.Encode(math.Float32frombits(x), f); err != nil {
				return violf("float refused: %v", err)
			}
			fw = binary.LittleEndian.AppendUint32(fw, x)
			special = special || x<<1>>24 == 0 || x<<1>>24 == 255
		}
		for _, x := range []uint64{uint64(v), math.Float64bits(float64(v)), uint64(v) | 0x7ff0000000000000} {
			if err := de.Encode(math.Float64frombits(x), d); err != nil {
				return violf("double refused: %v", err)
			}
			dw = binary.LittleEndian.AppendUint64(dw, x)
		}
	}
	for e, b := range map[encoding.Encoder]*bytes.Buffer{fe: f, de: d} {
		if err := e.Flush(b); err != nil {
			return violf("flush failed: %v", err)
		}
	}
	ctx.ClassIf(special, "denormals, infinities or NaNs")
	if len(vals) > 4 {
		ctx.Nontrivial()
	}
	if !bytes.Equal(f.Bytes(), fw) {
		return violf("floats are not little endian IEEE 754")
	}
	if !bytes.Equal(d.Bytes(), dw) {
		return violf("doubles are not little endian IEEE 754")
	}
	in := bytes.NewReader(fw)
	for i := 0; in.Len() > 0; i++ {
		v, err := encoding.DecodeFloat(in)
		if err != nil {
			return violf("decoding float %d: %v", i, err)
		}
		if x := binary.LittleEndian.Uint32(fw[4*i:]); math.Float32bits(v) != x {
			return violf("float %08x is decoded as %08x", x, math.Float32bits(v))
		}
	}
	in = bytes.NewReader(dw)
	for i := 0; in.Len() > 0; i++ {
		v, err := encoding.DecodeDouble(in)
		if err != nil {
			return violf("decoding double %d: %v", i, err)
		}
		if x := binary.LittleEndian.Uint64(dw[8*i:]); math.Float64bits(v) != x {
			return violf("double %016x is decoded as %016x", x, math.Float64bits(v))
		}
	}
	return nil
}

func uvarint(v uint64) (out []byte) {
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return append(out, byte(v))
}

func zigzag(v int64) uint64 {
	if v < 0 {
		return uint64(-(v+1))*2 + 1
	}
	return uint64(v) * 2
}

func runVarints(ctx *Ctx, c scalarCase) error {
	vals := expandSegs(c.V)
	out := &bytes.Buffer{}
	e := encoding.NewVarint64Encoder()
	var want, uns []byte
	wide := false
	for _, v := range vals {
		if err := e.Encode(v, out); err != nil {
			return violf("varint refused: %v", err)
		}
		want = append(want, uvarint(zigzag(v))...)
		uns = append(uns, uvarint(uint64(v))...)
		wide = wide || len(uvarint(zigzag(v))) >= 9
		if encoding.Zigzag(v) != zigzag(v) || encoding.UnZigzag(zigzag(v)) != v {
			return violf("zigzag of %d", v)
		}
	}
	if err := e.Flush(out); err != nil {
		return violf("flush failed: %v", err)
	}
	ctx.ClassIf(wide, "9 or 10 bytes")
	if len(vals) > 4 {
		ctx.Nontrivial()
	}
	if !bytes.Equal(out.Bytes(), want) {
		return violf("varints of %d values are not zigzag base 128", len(vals))
	}
	in := bufio.NewReader(bytes.NewReader(want))
	for i, v := range vals {
		x, err := encoding.DecodeVarInt64(in)
		if err != nil {
			return violf("decoding varint %d (%d): %v", i, v, err)
		}
		if x != v {
			return violf("varint %d is decoded as %d", v, x)
		}
	}
	ui := bytes.NewReader(uns)
	for i, v := range vals {
		x, err := encoding.ReadVUint(ui)
		if err != nil {
			return violf("decoding unsigned varint %d (%d): %v", i, uint64(v), err)
		}
		if x != uint64(v) {
			return violf("unsigned varint %d is decoded as %d", uint64(v), x)
		}
	}
	if ui.Len() != 0 {
		return violf("unsigned varints leave %d bytes", ui.Len())
	}
	return nil
}

type stringsCase struct {
	V, L []Seg
	X    int
	Big  int `json:",omitempty"` // additionally a string of so many bytes
}

func genStrings(t *rapid.T) stringsCase {
	c := stringsCase{V: drawSegs(t, 2, 60), L: drawSegs(t, 2, 60), X: rapid.IntRange(0, 5).Draw(t, "style")}
	if rapid.IntRange(0, 40).Draw(t, "bigK") == 0 {
		c.Big = rapid.SampledFrom([]int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 16, 3<<20 + 17}).Draw(t, "big")
	}
	return c
}

func runStrings(ctx *Ctx, c stringsCase) error {
	v := expandSegs(c.V)
	l := fillTo(c.L, len(v))
	var vals [][]byte
	for i := range v {
		vals = append(vals, []byte(text(v[i], l[i], c.X)))
	}
	if c.Big > 0 {
		r := rng(c.Big)
		b := make([]byte, c.Big)
		for i := range b {
			b[i] = byte(r.next())
		}
		vals = append(vals, b)
		ctx.Class("large")
	}
	e := encoding.NewStringContentsEncoder()
	out := &bytes.Buffer{}
	for _, x := range vals {
		if err := e.Encode(x, out); err != nil {
			return violf("string refused: %v", err)
		}
	}
	if err := e.Flush(out); err != nil {
		return violf("flush failed: %v", err)
	}
	if !bytes.Equal(out.Bytes(), bytes.Join(vals, nil)) {
		return violf("string contents are not the bytes of the strings")
	}
	if len(vals) > 2 {
		ctx.Nontrivial()
	}
	in := bytes.NewReader(out.Bytes())
	for i, x := range vals {
		got, err := encoding.DecodeBytes(in, len(x))
		if err != nil && !(len(x) == 0 && in.Len() == 0) {
			return violf("decoding string %d of %d bytes: %v", i, len(x), err)
		}
		if !bytes.Equal(got, x) {
			return violf("string %d of %d bytes differs", i, len(x))
		}
	}
	if in.Len() != 0 {
		return violf("%d bytes are left after the strings", in.Len())
	}
	return nil
}

// nanoCase is a range of nanosecond counts, and the same with zeros at the end.
type nanoCase struct {
	From, N int
}

func genNano(t *rapid.T) nanoCase {
	return nanoCase{From: rapid.IntRange(0, 99999).Draw(t, "block") * 10000, N: 10000}
}

func oneNano(n uint64) error {
	want := ref.EncodeNanos(n)
	for name, f := range map[string]func(uint64) uint64{"encoding": encoding.EncodingNano, "api": api.EncodingTimestampNanos} {
		if got := f(n); got != want && ref.DecodeNanos(got) != n {
			return violf("%s: %d nanoseconds are encoded as %d, should be %d", name, n, got, want)
		} else if got != want {
			return violf("%s: %d nanoseconds are encoded as %d, zeros at the end are not removed as in %d", name, n, got, want)
		}
	}
	if got := uint64(encoding.DecodingNano(want)); got != n {
		return violf("encoding: %d is decoded as %d nanoseconds, should be %d", want, got, n)
	}
	if got := api.DecodingTimestampNanos(want); got != n {
		return violf("api: %d is decoded as %d nanoseconds, should be %d", want, got, n)
	}
	// zeros need not be removed
	if got := api.DecodingTimestampNanos(n << 3); got != n {
		return violf("api: %d is decoded as %d nanoseconds, should be %d", n<<3, got, n)
	}
	if got := uint64(encoding.DecodingNano(n << 3)); got != n {
		return violf("encoding: %d is decoded as %d nanoseconds, should be %d", n<<3, got, n)
	}
	return nil
}

func runNano(ctx *Ctx, c nanoCase) error {
	ctx.Nontrivial()
	for i := c.From; i < c.From+c.N && i < 1000000000; i++ {
		if err := oneNano(uint64(i)); err != nil {
			return err
		}
	}
	// digits of the block with zeros after them
	for i := c.From / 10000; i > 0 && i < 1000000000; i *= 10 {
		if err := oneNano(uint64(i)); err != nil {
			return err
		}
		ctx.Class("zeros at the end")
	}
	ctx.Eval(c.N)
	return nil
}

func runDateStream(ctx *Ctx, c scalarCase) error {
	vals := expandSegs(c.V)
	e := encoding.NewDateV2Encoder(c.X&1 == 1)
	out := &bytes.Buffer{}
	for i := range vals {
		vals[i] = int64(int32(vals[i]))
		if err := e.Encode(dateOf(vals[i]), out); err != nil {
			return violf("date of day %d refused: %v", vals[i], err)
		}
	}
	if err := e.Flush(out); err != nil {
		return violf("flush failed: %v", err)
	}
	if len(vals) > 10 {
		ctx.Nontrivial()
	}
	got, _, err := ref.DecodeRLE2(out.Bytes(), true)
	if err != nil {
		return violf("not legal: %v", err)
	}
	if d := diffInts(vals, got); d != "" {
		return violf("independent decoder reads days %s", d)
	}
	d := encoding.NewDateV2DeCoder()
	in := bytes.NewBuffer(out.Bytes())
	got = nil
	for in.Len() > 0 {
		ds, err := d.Decode(in)
		if err != nil {
			return violf("decoding failed: %v", err)
		}
		for _, x := range ds {
			got = append(got, int64(api.ToDays(x)))
		}
	}
	if d := diffInts(vals, got); d != "" {
		return violf("decoded days %s", d)
	}
	return nil
}

// C06: conversions

// civil gives the proleptic Gregorian date of an epoch day.
func civil(z int64) (y int64, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	m = int(mp + 3)
	if mp >= 10 {
		m = int(mp - 9)
	}
	y = yoe + era*400
	if m <= 2 {
		y++
	}
	return
}

// dateCase is every Step-th day from From on.
type dateCase struct {
	From int32
	Step int32
	N    int
	Zone int // index of the zone of the process
}

func genDates(t *rapid.T) dateCase {
	c := dateCase{N: 1500}
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		c.From, c.Step = rapid.Int32().Draw(t, "from"), rapid.Int32Range(1, 100000).Draw(t, "step")
	} else {
		// years 1 to 9999, every day
		c.From, c.Step = rapid.Int32Range(-719162, 2932896-1500).Draw(t, "from"), 1
	}
	if rapid.IntRange(0, 3).Draw(t, "zoneK") == 0 {
		c.Zone = rapid.IntRange(0, len(zones)-1).Draw(t, "zone")
	}
	return c
}

// withZone runs f with another local time zone.
func withZone(name string, f func() error) error {
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	old := time.Local
	time.Local = l
	defer func() { time.Local = old }()
	return f()
}

func runDates(ctx *Ctx, c dateCase) error {
	return withZone(zones[c.Zone], func() error {
		day := int64(c.From)
		for i := 0; i < c.N && day <= math.MaxInt32; i++ {
			y, m, d := civil(day)
			date := api.FromDays(int32(day))
			gy, gm, gd := time.Time(date).Date()
			if int64(gy) != y || int(gm) != m || gd != d {
				return violf("day %d is %d-%d-%d, should be %d-%d-%d", day, gy, gm, gd, y, m, d)
			}
			if back := api.ToDays(date); int64(back) != day {
				return violf("day %d comes back as %d", day, back)
			}
			if back := api.ToDays(api.NewDate(int(y), time.Month(m), d)); int64(back) != day {
				return violf("%d-%d-%d is day %d, should be %d", y, m, d, back, day)
			}
			for _, sec := range []int64{1, 43200 + day%40000, 86399} {
				if back := api.ToDays(api.Date(time.Unix(day*86400+sec, 999999999).UTC())); int64(back) != day {
					return violf("second %d of day %d is of day %d", sec, day, back)
				}
			}
			if y >= 1 && y <= 9999 {
				if s := date.String(); s != fmt.Sprintf("%04d-%02d-%02d", y, m, d) {
					return violf("day %d is shown as %q", day, s)
				}
			}
			day += int64(c.Step)
		}
		ctx.Eval(c.N)
		ctx.Nontrivial()
		ctx.ClassIf(c.From < 0, "before 1970")
		ctx.ClassIf(c.Zone != 0, "local zone not UTC")
		return nil
	})
}

type tsCase struct {
	Zone   string
	Offset int // of a fixed zone, if there is no name
	Sec    int64
	Nano   int64
	Step   int64
	N      int
	Local  int
}

var manyZones = []string{"UTC", "America/New_York", "America/Los_Angeles", "America/Sao_Paulo", "America/St_Johns", "Europe/London", "Europe/Amsterdam",
	"Europe/Moscow", "Africa/Monrovia", "Africa/Casablanca", "Asia/Kolkata", "Asia/Shanghai", "Asia/Tehran", "Asia/Kathmandu", "Australia/Lord_Howe", "Australia/Sydney",
	"Pacific/Apia", "Pacific/Chatham", "Pacific/Kiritimati", "Antarctica/Troll", "Asia/Pyongyang", "Europe/Dublin", "America/Caracas"}

func genTS(t *rapid.T) tsCase {
	c := tsCase{N: 60}
	if rapid.IntRange(0, 4).Draw(t, "fixed") == 0 {
		c.Offset = rapid.IntRange(-14*3600, 14*3600).Draw(t, "offset")
	} else {
		c.Zone = rapid.SampledFrom(manyZones).Draw(t, "zone")
	}
	switch rapid.IntRange(0, 7).Draw(t, "era") {
	case 0, 1: // years 1 to 9999
		c.Sec = rapid.Int64Range(-62135596800, 253402300799).Draw(t, "sec")
	case 2: // millions of years
		c.Sec = rapid.Int64Range(-1<<50, 1<<50).Draw(t, "sec")
	default: // 1800 to 2200
		c.Sec = rapid.Int64Range(-5364662400, 7289654400).Draw(t, "sec")
	}
	c.Nano = rapid.SampledFrom([]int64{0, 1, 999999999, 1000000, 999000000, 123456789, 500000000, 100}).Draw(t, "nano")
	c.Step = rapid.SampledFrom([]int64{1, 61, 1799, 3600, 86399, 86400 * 7, 86400 * 30}).Draw(t, "step")
	c.Local = rapid.IntRange(0, len(zones)-1).Draw(t, "local")
	return c
}

func runTS(ctx *Ctx, c tsCase) error {
	loc := time.FixedZone("", c.Offset)
	if c.Zone != "" {
		var err error
		if loc, err = time.LoadLocation(c.Zone); err != nil {
			panic(err)
		}
	}
	ctx.Nontrivial()
	return withZone(zones[c.Local], func() error {
		base := time.Date(2015, 1, 1, 0, 0, 0, 0, loc).Unix()
		r := rng(c.Sec)
		for i := 0; i < c.N; i++ {
			sec := c.Sec + int64(i)*c.Step
			ns := c.Nano
			if i%3 == 1 {
				ns = int64(r.n(1000000000))
			}
			in := time.Unix(sec, ns).In(loc)
			ts := api.GetTimestamp(in)
			if out := ts.Time(); !out.Equal(in) {
				return violf("%s comes back as %s", in.Format(time.RFC3339Nano), out.Format(time.RFC3339Nano))
			} else if out.Format(time.RFC3339Nano) != in.Format(time.RFC3339Nano) {
				return violf("%s comes back as %s, its wall clock differs", in.Format(time.RFC3339Nano), out.Format(time.RFC3339Nano))
			}
			if ts.Seconds != sec-base || ts.Nanos != uint64(ns) {
				return violf("%s is %d seconds %d nanoseconds from 2015, should be %d %d", in.Format(time.RFC3339Nano), ts.Seconds, ts.Nanos, sec-base, ns)
			}
			ms := sec*1000 + ns/1000000
			if got := ts.GetMilliSeconds(); got != ms {
				return violf("%s is %d milliseconds from 1970, should be %d", in.Format(time.RFC3339Nano), got, ms)
			}
			_, off := in.Zone()
			if got := ts.GetMilliSecondsUtc(); got != ms+int64(off)*1000 {
				return violf("wall clock of %s is %d milliseconds from 1970, should be %d", in.Format(time.RFC3339Nano), got, ms+int64(off)*1000)
			}
			ctx.ClassIf(sec < 0 && ns%1000000 != 0, "before 1970 with a fraction")
			ctx.ClassIf(off != 0, "not UTC")
			ctx.ClassIf(in.Year() > 2262 || in.Year() < 1677, "too far for nanoseconds in 64 bits")
		}
		ctx.Eval(c.N)
		return nil
	})
}

type decCase struct {
	V     []Seg
	Scale int
}

func genDec(t *rapid.T) decCase {
	c := decCase{V: drawSegs(t, 3, 40)}
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		c.Scale = rapid.IntRange(-60, 60).Draw(t, "scale")
	} else {
		c.Scale = rapid.IntRange(0, 18).Draw(t, "scale")
	}
	return c
}

func runDec(ctx *Ctx, c decCase) error {
	for _, v := range expandSegs(c.V) {
		got := api.Decimal64{Precision: v, Scale: c.Scale}.Float64()
		want := ref.MakeDec(v, int64(c.Scale)).Rat()
		if math.IsNaN(got) || math.IsInf(got, 0) {
			return violf("decimal %d scale %d is %v", v, c.Scale, got)
		}
		// two roundings, of the integer and of the quotient
		diff := new(big.Rat).Sub(want, new(big.Rat).SetFloat64(got))
		lim := new(big.Rat).Mul(new(big.Rat).Abs(want), big.NewRat(1, 1e14))
		if diff.Abs(diff).Cmp(lim) > 0 {
			f, _ := want.Float64()
			return violf("decimal %d scale %d is %v, should be %v", v, c.Scale, got, f)
		}
		ctx.ClassIf(bits.Len64(uint64(v)) > 53 && v > 0, "more than 53 bits")
		if c.Scale != 0 && v != 0 {
			ctx.Nontrivial()
		}
	}
	ctx.ClassIf(c.Scale < 0, "negative scale")
	return nil
}

func init() {
	pieces := "byte sequences made of repeats and changing stretches (lengths 1-6, 120-136, 1-400) with flushes in between; "
	register("C04", "bytes", pieces+"non-trivial: literal and repeat runs, more than two", 1500000, 15000000, genByteCase, runBytes)
	register("C04", "bools", pieces+"taken as bits, not byte aligned; non-trivial: literal and repeat runs, more than two", 600000, 5000000, genByteCase, runBools)
	register("C04", "legal-runs", "any legal byte runs, decoded as bytes and as booleans; non-trivial: both kinds of runs", 600000, 6000000,
		func(t *rapid.T) byteRunsCase { return byteRunsCase{drawPieces(t)} }, runLegalBytes)

	register("C05", "floats", "float and double bit patterns of integer segments; non-trivial: more than four", 500000, 5000000, genScalar, runFloats)
	register("C05", "varints", "64 bit integers of segments, signed and unsigned; non-trivial: more than four", 500000, 5000000, genScalar, runVarints)
	register("C05", "strings", "byte strings of several styles and lengths, at times over 1 MB; non-trivial: more than two", 400000, 2000000, genStrings, runStrings)
	register("C05", "nanos", "blocks of 10000 consecutive nanosecond counts, and their digits followed by zeros", 36000, 400000, genNano, runNano)
	register("C05", "dates", "days as date streams; non-trivial: more than ten", 200000, 1500000,
		func(t *rapid.T) scalarCase {
			return scalarCase{V: drawSegs(t, 3, 600), X: rapid.IntRange(0, 1).Draw(t, "pos")}
		}, runDateStream)

	register("C06", "dates", "1500 days at a time, in years 1-9999 or anywhere in 32 bits, under several local time zones", 200000, 2000000, genDates, runDates)
	register("C06", "timestamps", "60 instants at a time (of 1800-2200, of years 1-9999 or of millions of years), in 23 time zones and fixed offsets, under several local time zones", 300000, 4000000, genTS, runTS)
	register("C06", "decimals", "unscaled 64 bit integers of segments, scales -60..60 (mostly 0..18); non-trivial: scale and value not 0", 600000, 6000000, genDec, runDec)
}
