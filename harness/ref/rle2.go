// Package ref is an implementation of the ORC v1 file format written from the
// specification alone. It shares no code with the project under test.
package ref

import (
	"errors"
	"fmt"
	"math/big"
	"math/bits"
)

// DecWidths are the bit widths of the 5 bit width codes (a delta run reads
// code 0 as width 0).
var DecWidths = [32]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 28, 30, 32, 40, 48, 56, 64}

// ClosestWidth is the smallest encodable width which is at least n.
func ClosestWidth(n int) int {
	if n == 0 {
		return 1
	}
	for _, w := range DecWidths {
		if w >= n {
			return w
		}
	}
	return 64
}

func widthCode(w int) int {
	for i, x := range DecWidths {
		if x == w {
			return i
		}
	}
	panic(fmt.Sprintf("width %d has no code", w))
}

// Run kinds.
const (
	ShortRepeat = 0
	Direct      = 1
	Patched     = 2
	Delta       = 3
)

// Run describes a run which has been decoded.
type Run struct {
	Kind    int
	Len     int
	Width   int
	Patches int
	Start   int // offset in bytes
	Bytes   int
}

type bitReader struct {
	b   []byte
	pos int // in bits
}

func (r *bitReader) read(n int) (uint64, error) {
	if r.pos+n > 8*len(r.b) {
		return 0, errors.New("packed integers end early")
	}
	var v uint64
	for i := 0; i < n; i++ {
		bit := r.b[r.pos>>3] >> (7 - uint(r.pos&7)) & 1
		v = v<<1 | uint64(bit)
		r.pos++
	}
	return v, nil
}

// align goes to the next byte
func (r *bitReader) align() {
	r.pos = (r.pos + 7) &^ 7
}

func UnZig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }
func Zig(v int64) uint64   { return uint64(v)<<1 ^ uint64(v>>63) }

func Uvarint(b []byte) (uint64, int, error) {
	var v uint64
	for i := 0; i < len(b); i++ {
		if i == 9 && b[i] > 1 {
			return 0, 0, errors.New("varint of more than 64 bits")
		}
		if i > 9 {
			return 0, 0, errors.New("varint too long")
		}
		v |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, errors.New("varint ends early")
}

func PutUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// DecodeRLE2 decodes all runs of b. Values of an unsigned stream are returned
// as the int64 of the same bits. Arithmetic is checked: a run which needs a
// value out of the 64 bit range is an error.
func DecodeRLE2(b []byte, signed bool) (vals []int64, runs []Run, err error) {
	for pos := 0; pos < len(b); {
		vs, run, n, err := DecodeRun(b[pos:], signed)
		if err != nil {
			return vals, runs, fmt.Errorf("run %d at byte %d: %w", len(runs), pos, err)
		}
		run.Start = pos
		vals = append(vals, vs...)
		runs = append(runs, run)
		pos += n
	}
	return
}

// DecodeRun decodes the first run of b.
func DecodeRun(b []byte, signed bool) (vals []int64, run Run, n int, err error) {
	if len(b) == 0 {
		return nil, run, 0, errors.New("no header")
	}
	run.Kind = int(b[0] >> 6)
	code := int(b[0] >> 1 & 0x1f)
	length := 0
	if run.Kind != ShortRepeat {
		if len(b) < 2 {
			return nil, run, 0, errors.New("header ends early")
		}
		length = int(b[0]&1)<<8 | int(b[1]) + 1
	}
	switch run.Kind {
	case ShortRepeat:
		width := int(b[0]>>3&7) + 1
		count := int(b[0]&7) + 3
		if len(b) < 1+width {
			return nil, run, 0, errors.New("short repeat ends early")
		}
		var u uint64
		for _, x := range b[1 : 1+width] {
			u = u<<8 | uint64(x)
		}
		v := int64(u)
		if signed {
			v = UnZig(u)
		}
		for i := 0; i < count; i++ {
			vals = append(vals, v)
		}
		run.Width, run.Len = 8*width, count
		return vals, run, 1 + width, nil

	case Direct:
		width := DecWidths[code]
		r := &bitReader{b: b[2:]}
		for i := 0; i < length; i++ {
			u, err := r.read(width)
			if err != nil {
				return nil, run, 0, err
			}
			if signed {
				vals = append(vals, UnZig(u))
			} else {
				vals = append(vals, int64(u))
			}
		}
		r.align()
		run.Width, run.Len = width, length
		return vals, run, 2 + r.pos/8, nil

	case Patched:
		if len(b) < 4 {
			return nil, run, 0, errors.New("patched base header ends early")
		}
		width := DecWidths[code]
		bw := int(b[2]>>5) + 1
		pw := DecWidths[b[2]&0x1f]
		pgw := int(b[3]>>5) + 1
		pll := int(b[3] & 0x1f)
		if pll == 0 {
			return nil, run, 0, errors.New("patched base without patches")
		}
		if pgw+pw > 64 {
			return nil, run, 0, fmt.Errorf("patch gap width %d and patch width %d exceed 64", pgw, pw)
		}
		pos := 4
		if len(b) < pos+bw {
			return nil, run, 0, errors.New("base ends early")
		}
		var base int64
		for i, x := range b[pos : pos+bw] {
			if i == 0 {
				base = int64(x & 0x7f)
			} else {
				base = base<<8 | int64(x)
			}
		}
		if b[pos]&0x80 != 0 {
			base = -base
			if !signed {
				return nil, run, 0, errors.New("negative base in an unsigned stream")
			}
		}
		pos += bw
		r := &bitReader{b: b[pos:]}
		adj := make([]uint64, length)
		for i := range adj {
			if adj[i], err = r.read(width); err != nil {
				return nil, run, 0, err
			}
		}
		r.align()
		entry := ClosestWidth(pgw + pw)
		at := 0
		for i := 0; i < pll; i++ {
			e, err := r.read(entry)
			if err != nil {
				return nil, run, 0, err
			}
			gap := int(e >> uint(pw))
			if gap >= 1<<uint(pgw) {
				return nil, run, 0, errors.New("patch gap does not fit its width")
			}
			patch := e
			if pw < 64 {
				patch = e & (1<<uint(pw) - 1)
			}
			if patch == 0 && gap != 255 {
				return nil, run, 0, errors.New("empty patch")
			}
			at += gap
			if patch == 0 {
				continue
			}
			if at >= length {
				return nil, run, 0, errors.New("patch outside of the run")
			}
			if width+pw > 64 && bits.Len64(patch)+width > 64 {
				return nil, run, 0, errors.New("patch does not fit 64 bits")
			}
			if width < 64 {
				adj[at] |= patch << uint(width)
			}
			run.Patches++
		}
		r.align()
		for _, a := range adj {
			s := new(big.Int).Add(big.NewInt(base), new(big.Int).SetUint64(a))
			v, ok := fit(s, signed)
			if !ok {
				return nil, run, 0, errors.New("patched base value out of range")
			}
			vals = append(vals, v)
		}
		run.Width, run.Len = width, length
		return vals, run, pos + r.pos/8, nil

	default:
		width := DecWidths[code]
		if code == 0 {
			width = 0
		}
		pos := 2
		u, k, err := Uvarint(b[pos:])
		if err != nil {
			return nil, run, 0, err
		}
		pos += k
		base := int64(u)
		if signed {
			base = UnZig(u)
		}
		du, k, err := Uvarint(b[pos:])
		if err != nil {
			return nil, run, 0, err
		}
		pos += k
		delta := UnZig(du)
		vals = append(vals, base)
		cur := base
		step := func(d uint64, neg bool) bool {
			x := toBig(cur, signed)
			y := new(big.Int).SetUint64(d)
			if neg {
				y.Neg(y)
			}
			v, _ := fit(x.Add(x, y), signed)
			cur = v // modular, as 64 bit arithmetic of every implementation
			vals = append(vals, v)
			return true
		}
		abs := uint64(delta)
		if delta < 0 {
			abs = uint64(-delta)
		}
		if width == 0 {
			for i := 1; i < length; i++ {
				step(abs, delta < 0)
			}
			run.Width, run.Len = 0, length
			return vals, run, pos, nil
		}
		if length > 1 {
			step(abs, delta < 0)
		}
		r := &bitReader{b: b[pos:]}
		for i := 2; i < length; i++ {
			d, err := r.read(width)
			if err != nil {
				return nil, run, 0, err
			}
			step(d, delta < 0)
		}
		r.align()
		run.Width, run.Len = width, length
		return vals, run, pos + r.pos/8, nil
	}
}

func toBig(v int64, signed bool) *big.Int {
	if signed {
		return big.NewInt(v)
	}
	return new(big.Int).SetUint64(uint64(v))
}

// fit gives the low 64 bits of x, and whether x is in range.
func fit(x *big.Int, signed bool) (int64, bool) {
	ok := x.IsInt64()
	if !signed {
		ok = x.IsUint64()
	}
	m := new(big.Int).And(x, new(big.Int).SetUint64(^uint64(0)))
	return int64(m.Uint64()), ok
}

// encoding

type bitWriter struct {
	b    []byte
	free int
}

func (w *bitWriter) write(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.free == 0 {
			w.b = append(w.b, 0)
			w.free = 8
		}
		w.free--
		w.b[len(w.b)-1] |= byte(v>>uint(i)&1) << uint(w.free)
	}
}

func (w *bitWriter) align() { w.free = 0 }

func raw(v int64, signed bool) uint64 {
	if signed {
		return Zig(v)
	}
	return uint64(v)
}

// EncShortRepeat encodes n (3..10) times v, using at least minBytes bytes.
func EncShortRepeat(v int64, n int, signed bool, minBytes int) []byte {
	u := raw(v, signed)
	w := (bits.Len64(u) + 7) / 8
	if w == 0 {
		w = 1
	}
	if w < minBytes {
		w = minBytes
	}
	b := []byte{byte((w-1)<<3 | (n - 3))}
	for i := w - 1; i >= 0; i-- {
		b = append(b, byte(u>>(8*uint(i))))
	}
	return b
}

func header2(kind, code, n int) []byte {
	n--
	return []byte{byte(kind<<6 | code<<1 | n>>8&1), byte(n)}
}

// DirectWidth is the least width of a direct run.
func DirectWidth(vals []int64, signed bool) int {
	m := 0
	for _, v := range vals {
		if l := bits.Len64(raw(v, signed)); l > m {
			m = l
		}
	}
	return ClosestWidth(m)
}

// EncDirect encodes 1..512 values with width (encodable, wide enough).
func EncDirect(vals []int64, signed bool, width int) []byte {
	w := &bitWriter{b: header2(Direct, widthCode(width), len(vals))}
	for _, v := range vals {
		w.write(raw(v, signed), width)
	}
	w.align()
	return w.b
}

// EncFixedDelta encodes base, base+delta, ... n values.
func EncFixedDelta(base, delta int64, n int, signed bool) []byte {
	b := header2(Delta, 0, n)
	b = PutUvarint(b, raw(base, signed))
	return PutUvarint(b, Zig(delta))
}

// EncDelta encodes a base, a first delta with the sign of all of them, and
// the absolute values of the following deltas with width (2..64).
func EncDelta(base, first int64, deltas []uint64, width int, signed bool) []byte {
	b := header2(Delta, widthCode(width), len(deltas)+2)
	b = PutUvarint(b, raw(base, signed))
	b = PutUvarint(b, Zig(first))
	w := &bitWriter{b: b}
	for _, d := range deltas {
		w.write(d, width)
	}
	w.align()
	return w.b
}

// Patch of a patched base run.
type Patch struct {
	At  int
	Val uint64 // bits above the width
}

// EncPatched encodes base plus unsigned adjustments of width bits with
// patches. Gaps over 255 are split.
func EncPatched(base int64, baseBytes int, adj []uint64, width, pw, pgw int, patches []Patch) ([]byte, bool) {
	type entry struct {
		gap int
		val uint64
	}
	var es []entry
	at := 0
	for _, p := range patches {
		gap := p.At - at
		for gap > 255 {
			es = append(es, entry{255, 0})
			gap -= 255
		}
		es = append(es, entry{gap, p.Val})
		at = p.At
	}
	if len(es) == 0 || len(es) > 31 || pw+pgw > 64 {
		return nil, false
	}
	for _, e := range es {
		if bits.Len(uint(e.gap)) > pgw || bits.Len64(e.val) > pw {
			return nil, false
		}
	}
	b := header2(Patched, widthCode(width), len(adj))
	b = append(b, byte((baseBytes-1)<<5|widthCode(pw)), byte((pgw-1)<<5|len(es)))
	u := uint64(base)
	if base < 0 {
		u = uint64(-base)
	}
	if bits.Len64(u) > 8*baseBytes-1 {
		return nil, false
	}
	for i := baseBytes - 1; i >= 0; i-- {
		x := byte(u >> (8 * uint(i)))
		if i == baseBytes-1 && base < 0 {
			x |= 0x80
		}
		b = append(b, x)
	}
	w := &bitWriter{b: b}
	for _, a := range adj {
		w.write(a, width)
	}
	w.align()
	ew := ClosestWidth(pw + pgw)
	for _, e := range es {
		w.write(uint64(e.gap)<<uint(pw)|e.val, ew)
	}
	w.align()
	return w.b, true
}
