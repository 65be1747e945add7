package ref

import (
	"bytes"
	"compress/flate"
	"errors"
	"fmt"
	"io"
	"sort"
	"sync"
)

// Compression kinds.
const (
	None = 0
	Zlib = 1
)

// Chunk is a chunk of a compressed stream.
type Chunk struct {
	Start    int // offset of its header
	Len      int // length of its payload
	Original bool
	Off      int // offset of its data in the decompressed stream
	Data     []byte
}

// ParseChunks takes a compressed stream apart. Every chunk is inflated on its
// own. blockSize limits the data of a chunk.
func ParseChunks(b []byte, blockSize int) (chunks []Chunk, err error) {
	off := 0
	for pos := 0; pos < len(b); {
		if len(b)-pos < 3 {
			return chunks, errors.New("chunk header ends early")
		}
		h := int(b[pos]) | int(b[pos+1])<<8 | int(b[pos+2])<<16
		c := Chunk{Start: pos, Len: h >> 1, Original: h&1 == 1, Off: off}
		pos += 3
		if len(b)-pos < c.Len {
			return chunks, fmt.Errorf("chunk of %d bytes ends early", c.Len)
		}
		p := b[pos : pos+c.Len]
		pos += c.Len
		if c.Original {
			c.Data = p
		} else {
			in := bytes.NewReader(p)
			r, _ := inflaters.Get().(io.ReadCloser)
			if r == nil {
				r = flate.NewReader(in)
			} else {
				r.(flate.Resetter).Reset(in, nil)
			}
			c.Data, err = io.ReadAll(io.LimitReader(r, int64(blockSize)+1))
			inflaters.Put(r)
			if err != nil {
				return chunks, fmt.Errorf("chunk at %d: %w", c.Start, err)
			}
			if len(c.Data) > blockSize {
				return chunks, fmt.Errorf("chunk at %d has more than %d bytes of data", c.Start, blockSize)
			}
			if in.Len() != 0 {
				return chunks, fmt.Errorf("chunk at %d has %d bytes after its data", c.Start, in.Len())
			}
		}
		if len(c.Data) > blockSize {
			return chunks, fmt.Errorf("chunk at %d has %d bytes of data, chunk size is %d", c.Start, len(c.Data), blockSize)
		}
		off += len(c.Data)
		chunks = append(chunks, c)
	}
	return
}

// Inflate gives the data of a stream.
func Inflate(kind int, b []byte, blockSize int) ([]byte, []Chunk, error) {
	if kind == None {
		return b, nil, nil
	}
	if kind != Zlib {
		return nil, nil, fmt.Errorf("compression %d", kind)
	}
	cs, err := ParseChunks(b, blockSize)
	if err != nil {
		return nil, cs, err
	}
	out := []byte{}
	for _, c := range cs {
		out = append(out, c.Data...)
	}
	return out, cs, nil
}

func chunkHeader(n int, original bool) []byte {
	h := n << 1
	if original {
		h |= 1
	}
	return []byte{byte(h), byte(h >> 8), byte(h >> 16)}
}

var inflaters sync.Pool

var deflaters [12]sync.Pool // by level

func deflate(p []byte, level int) []byte {
	var b bytes.Buffer
	pool := &deflaters[level+1]
	w, _ := pool.Get().(*flate.Writer)
	if w == nil {
		var err error
		if w, err = flate.NewWriter(&b, level); err != nil {
			panic(err)
		}
	} else {
		w.Reset(&b)
	}
	w.Write(p)
	w.Close()
	pool.Put(w)
	return b.Bytes()
}

// ChunkPlan says how to make chunks of a stream: a pure function of its seed.
type ChunkPlan struct {
	Kind      int
	Size      int  // chunk size of the file
	Split     bool // chunks of any size up to Size, otherwise all but the last are full
	Originals int  // percentage of chunks which are left uncompressed
	Empty     bool // there may be empty chunks
	Seed      uint64
}

// Pack makes a stream out of its data, with a function from offsets in data
// to positions (chunk start, offset in chunk).
func (p ChunkPlan) Pack(data []byte) (out []byte, at func(off int) (int, int)) {
	if p.Kind == None {
		return data, func(off int) (int, int) { return 0, off }
	}
	r := Rand(p.Seed)
	type mark struct{ start, off int }
	var marks []mark
	for pos := 0; pos < len(data); {
		n := p.Size
		if p.Split && r.N(3) != 0 {
			n = 1 + r.N(p.Size)
			if r.N(4) == 0 {
				n = 1 + r.N(8)
			}
		}
		if n > p.Size {
			n = p.Size
		}
		if n > len(data)-pos {
			n = len(data) - pos
		}
		if p.Empty && r.N(10) == 0 {
			n = 0
		}
		d := data[pos : pos+n]
		marks = append(marks, mark{len(out), pos})
		level, original := int(r.N(11))-1, r.N(100) < p.Originals
		if len(marks) > 5000 && r.N(20) != 0 { // it takes time
			original = true
		}
		var c []byte
		if !original {
			c = deflate(d, level)
		}
		// the payload is never larger than the chunk size
		if original || len(c) > p.Size || (len(c) >= len(d) && r.N(3) != 0) {
			out = append(out, chunkHeader(len(d), true)...)
			out = append(out, d...)
		} else {
			out = append(out, chunkHeader(len(c), false)...)
			out = append(out, c...)
		}
		pos += n
	}
	return out, func(off int) (int, int) {
		best := mark{0, 0}
		if k := sort.Search(len(marks), func(k int) bool { return marks[k].off > off }); k > 0 {
			best = marks[k-1]
		}
		if off == len(data) && len(marks) > 0 && p.Seed&1 == 1 {
			return len(out), 0 // end of the stream can be named in two ways
		}
		return best.start, off - best.off
	}
}

// Rand is splitmix64.
type Rand uint64

func (r *Rand) Next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// N is in 0..n-1.
func (r *Rand) N(n int) int { return int(r.Next() % uint64(n)) }
