package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

// Field is a field of a protocol buffer message.
type Field struct {
	Num  int
	Wire int
	U    uint64 // varint and fixed
	B    []byte // length delimited
}

// Msg is a parsed message.
type Msg []Field

// ParseMsg parses the wire format.
func ParseMsg(b []byte) (m Msg, err error) {
	for pos := 0; pos < len(b); {
		k, n, err := Uvarint(b[pos:])
		if err != nil {
			return nil, err
		}
		pos += n
		f := Field{Num: int(k >> 3), Wire: int(k & 7)}
		if f.Num == 0 {
			return nil, errors.New("field number 0")
		}
		switch f.Wire {
		case 0:
			if f.U, n, err = Uvarint(b[pos:]); err != nil {
				return nil, err
			}
			pos += n
		case 1:
			if len(b)-pos < 8 {
				return nil, errors.New("fixed64 ends early")
			}
			f.U = binary.LittleEndian.Uint64(b[pos:])
			pos += 8
		case 5:
			if len(b)-pos < 4 {
				return nil, errors.New("fixed32 ends early")
			}
			f.U = uint64(binary.LittleEndian.Uint32(b[pos:]))
			pos += 4
		case 2:
			l, n, err := Uvarint(b[pos:])
			if err != nil {
				return nil, err
			}
			pos += n
			if l > uint64(len(b)-pos) {
				return nil, errors.New("bytes end early")
			}
			f.B = b[pos : pos+int(l)]
			pos += int(l)
		default:
			return nil, fmt.Errorf("wire type %d", f.Wire)
		}
		m = append(m, f)
	}
	return
}

// Has tells whether the field is there.
func (m Msg) Has(num int) bool {
	for _, f := range m {
		if f.Num == num {
			return true
		}
	}
	return false
}

// U is the last value of a scalar field, 0 if there is none.
func (m Msg) U(num int) (v uint64) {
	for _, f := range m {
		if f.Num == num && f.Wire != 2 {
			v = f.U
		}
	}
	return
}

// S is a sint64 field.
func (m Msg) S(num int) int64 { return UnZig(m.U(num)) }

// D is a double field.
func (m Msg) D(num int) float64 { return math.Float64frombits(m.U(num)) }

// Bytes is a bytes field.
func (m Msg) Bytes(num int) (b []byte) {
	for _, f := range m {
		if f.Num == num && f.Wire == 2 {
			b = f.B
		}
	}
	return
}

// All gives all values of a repeated length delimited field.
func (m Msg) All(num int) (out [][]byte) {
	for _, f := range m {
		if f.Num == num && f.Wire == 2 {
			out = append(out, f.B)
		}
	}
	return
}

// Us gives a repeated scalar, packed or not.
func (m Msg) Us(num int) (out []uint64, err error) {
	for _, f := range m {
		if f.Num != num {
			continue
		}
		if f.Wire == 2 {
			for pos := 0; pos < len(f.B); {
				v, n, err := Uvarint(f.B[pos:])
				if err != nil {
					return nil, err
				}
				out = append(out, v)
				pos += n
			}
		} else {
			out = append(out, f.U)
		}
	}
	return
}

// PB builds a message.
type PB struct{ b []byte }

func (p *PB) Out() []byte { return p.b }

func (p *PB) U(num int, v uint64) *PB {
	p.b = PutUvarint(p.b, uint64(num)<<3)
	p.b = PutUvarint(p.b, v)
	return p
}

func (p *PB) S(num int, v int64) *PB { return p.U(num, Zig(v)) }

func (p *PB) D(num int, v float64) *PB {
	p.b = PutUvarint(p.b, uint64(num)<<3|1)
	p.b = binary.LittleEndian.AppendUint64(p.b, math.Float64bits(v))
	return p
}

func (p *PB) B(num int, v []byte) *PB {
	p.b = PutUvarint(p.b, uint64(num)<<3|2)
	p.b = PutUvarint(p.b, uint64(len(v)))
	p.b = append(p.b, v...)
	return p
}

// Packed writes a packed repeated field.
func (p *PB) Packed(num int, vs []uint64) *PB {
	if len(vs) == 0 {
		return p
	}
	var b []byte
	for _, v := range vs {
		b = PutUvarint(b, v)
	}
	return p.B(num, b)
}

// Encode gives the bytes of a message.
func (m Msg) Encode() []byte {
	var p PB
	for _, f := range m {
		p.b = PutUvarint(p.b, uint64(f.Num)<<3|uint64(f.Wire))
		switch f.Wire {
		case 0:
			p.b = PutUvarint(p.b, f.U)
		case 1:
			p.b = binary.LittleEndian.AppendUint64(p.b, f.U)
		case 5:
			p.b = binary.LittleEndian.AppendUint32(p.b, uint32(f.U))
		default:
			p.b = PutUvarint(p.b, uint64(len(f.B)))
			p.b = append(p.b, f.B...)
		}
	}
	return p.b
}
