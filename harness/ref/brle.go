package ref

import "errors"

// ByteRun is a run of a byte run length stream.
type ByteRun struct {
	Start, Len int
	Literal    bool
}

// DecodeByteRLE decodes all byte runs of b.
func DecodeByteRLE(b []byte) (vals []byte, runs []ByteRun, err error) {
	for pos := 0; pos < len(b); {
		c := b[pos]
		if c < 0x80 {
			if pos+1 >= len(b) {
				return vals, runs, errors.New("byte run ends early")
			}
			n := int(c) + 3
			for i := 0; i < n; i++ {
				vals = append(vals, b[pos+1])
			}
			runs = append(runs, ByteRun{pos, n, false})
			pos += 2
		} else {
			n := 256 - int(c)
			if pos+1+n > len(b) {
				return vals, runs, errors.New("byte literals end early")
			}
			vals = append(vals, b[pos+1:pos+1+n]...)
			runs = append(runs, ByteRun{pos, n, true})
			pos += 1 + n
		}
	}
	return
}

// EncByteRun is a run of n (3..130) bytes v.
func EncByteRun(v byte, n int) []byte { return []byte{byte(n - 3), v} }

// EncByteLiterals is a run of 1..128 literals.
func EncByteLiterals(vs []byte) []byte {
	return append([]byte{byte(256 - len(vs))}, vs...)
}

// EncodeByteRLE encodes greedily.
func EncodeByteRLE(vs []byte) (out []byte) {
	for i := 0; i < len(vs); {
		j := i
		for j < len(vs) && vs[j] == vs[i] && j-i < 130 {
			j++
		}
		if j-i >= 3 {
			out = append(out, EncByteRun(vs[i], j-i)...)
			i = j
			continue
		}
		j = i
		for j < len(vs) && j-i < 128 {
			if j+2 < len(vs) && vs[j] == vs[j+1] && vs[j] == vs[j+2] {
				break
			}
			j++
		}
		out = append(out, EncByteLiterals(vs[i:j])...)
		i = j
	}
	return
}

// BoolsToBytes packs most significant bit first.
func BoolsToBytes(vs []bool) []byte {
	out := make([]byte, (len(vs)+7)/8)
	for i, v := range vs {
		if v {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return out
}

// BytesToBools unpacks all bits.
func BytesToBools(b []byte) (out []bool) {
	for _, x := range b {
		for i := 0; i < 8; i++ {
			out = append(out, x&(0x80>>uint(i)) != 0)
		}
	}
	return
}
