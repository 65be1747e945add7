package ref

import (
	"fmt"
	"math"
	"math/big"
)

// Kinds of types, numbers of the specification.
const (
	Boolean = iota
	Byte
	Short
	Int
	Long
	Float
	Double
	String
	Binary
	TimestampK
	ListK
	MapK
	StructK
	Union
	Decimal
	DateK
	Varchar
	Char
)

// Values of rows. nil is null, integers (byte too) are int64, booleans bool,
// strings string.
type (
	F32  uint32 // bits
	F64  uint64
	Bin  string
	Date int64 // days since 1970
	TS   struct{ Sec, Nano int64 }
	Dec  struct {
		U     string // unscaled, decimal
		Scale int64
	}
	Struct []any
	List   []any
	Map    [][2]any
)

// MakeDec is a decimal of a 64 bit unscaled value.
func MakeDec(u, scale int64) Dec { return Dec{big.NewInt(u).String(), scale} }

// Rat is the value of d.
func (d Dec) Rat() *big.Rat {
	u, _ := new(big.Int).SetString(d.U, 10)
	e := d.Scale
	if e < 0 {
		e = -e
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(e), nil)
	if d.Scale >= 0 {
		return new(big.Rat).SetFrac(u, p)
	}
	return new(big.Rat).SetInt(new(big.Int).Mul(u, p))
}

// Diff tells where two values differ, "" if they do not.
func Diff(want, got any) string {
	switch w := want.(type) {
	case Struct:
		g, ok := got.(Struct)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%v, should be %v", Show(got), Show(want))
		}
		for i := range w {
			if d := Diff(w[i], g[i]); d != "" {
				return fmt.Sprintf(".%d %s", i, d)
			}
		}
		return ""
	case List:
		g, ok := got.(List)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%v, should be %v", Show(got), Show(want))
		}
		for i := range w {
			if d := Diff(w[i], g[i]); d != "" {
				return fmt.Sprintf("[%d] %s", i, d)
			}
		}
		return ""
	case Map:
		g, ok := got.(Map)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%v, should be %v", Show(got), Show(want))
		}
		for i := range w {
			for j := 0; j < 2; j++ {
				if d := Diff(w[i][j], g[i][j]); d != "" {
					return fmt.Sprintf("{%d,%d} %s", i, j, d)
				}
			}
		}
		return ""
	}
	if want != got {
		return fmt.Sprintf("is %v, should be %v", Show(got), Show(want))
	}
	return ""
}

// DiffRows compares rows.
func DiffRows(want, got []any) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if d := Diff(want[i], got[i]); d != "" {
			return fmt.Sprintf("row %d of %d: %s", i, len(want), d)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d rows, should be %d", len(got), len(want))
	}
	return ""
}

// Show is a short form of a value.
func Show(v any) string {
	var s string
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		if len(x) > 60 {
			return fmt.Sprintf("%q... (%d bytes)", x[:60], len(x))
		}
		return fmt.Sprintf("%q", x)
	case Bin:
		return "binary " + Show(string(x))
	case F32:
		return fmt.Sprintf("float %v (%#x)", math.Float32frombits(uint32(x)), uint32(x))
	case F64:
		return fmt.Sprintf("double %v (%#x)", math.Float64frombits(uint64(x)), uint64(x))
	default:
		s = fmt.Sprintf("%T %v", v, v)
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// Node is a type of a schema.
type Node struct {
	ID    int
	Kind  int
	Names []string // of struct fields
	Kids  []*Node
}

// Number gives ids in pre-order, and all nodes.
func (n *Node) Number() (all []*Node) {
	n.ID = 0
	var walk func(x *Node)
	walk = func(x *Node) {
		x.ID = len(all)
		all = append(all, x)
		for _, k := range x.Kids {
			walk(k)
		}
	}
	walk(n)
	return
}
