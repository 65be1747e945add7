package main

import (
	"bytes"
	"errors"
	"os"

	"github.com/klauspost/compress/flate"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C19: chunks which are a thousand times larger when they are decompressed

type bomb struct {
	What   string // footer, stripe footer, index, stream
	Place  string // behind, before, whole: of the data of the chunk
	Stripe int
	Stream uint64
	MB     int
	S      uint64
}

type bombCase struct {
	F AnyFile
	B []bomb
}

func genBomb(t *rapid.T) bombCase {
	var c bombCase
	if rapid.IntRange(0, 2).Draw(t, "writer") > 0 {
		f := drawForeign(t)
		f.Comp, f.Block = 1, 262144
		c.F.F = &f
	} else {
		f := drawSmallFile(t)
		f.O.Comp, f.O.Chunk, f.O.Stripe = 1, 262144, 262144
		c.F.P = &f
	}
	for k := rapid.IntRange(1, 4).Draw(t, "bombs"); k > 0; k-- {
		c.B = append(c.B, bomb{What: rapid.SampledFrom([]string{"stream", "index", "stripe footer", "footer", "stream"}).Draw(t, "what"),
			Place:  rapid.SampledFrom([]string{"behind", "before", "whole"}).Draw(t, "place"),
			Stripe: rapid.IntRange(0, 5).Draw(t, "stripe"), Stream: drawSeed(t),
			MB: rapid.SampledFrom([]int{250, 220, 180}).Draw(t, "mb"), S: drawSeed(t)})
	}
	return c
}

var deflatedZeros = map[int][]byte{}

// zeros gives the last blocks of a deflate stream, for as many MB of zeros.
func zeros(mb int) []byte {
	if b := deflatedZeros[mb]; b != nil {
		return b
	}
	var out bytes.Buffer
	w, _ := flate.NewWriter(&out, 9)
	z := make([]byte, 1<<20)
	for i := 0; i < mb; i++ {
		w.Write(z)
	}
	w.Close()
	deflatedZeros[mb] = out.Bytes()
	return out.Bytes()
}

// pack makes chunks of b; the first chunk is the large one.
func (x bomb) pack(b []byte) []byte {
	var c []byte
	add := func(b []byte) {
		var out bytes.Buffer
		w, _ := flate.NewWriter(&out, 6)
		w.Write(b)
		w.Flush() // without a last block
		c = append(c, out.Bytes()...)
	}
	if x.Place == "behind" {
		n := len(b)
		if n > 100000 {
			n = 100000
		}
		add(b[:n])
	}
	if c = append(c, zeros(x.MB)...); len(c) > 262144 {
		return nil
	}
	n := len(c)
	c = append([]byte{byte(n << 1), byte(n >> 7), byte(n >> 15)}, c...)
	if x.Place != "before" {
		return c
	}
	out, _ := ref.ChunkPlan{Kind: ref.Zlib, Size: 262144, Seed: x.S}.Pack(b)
	return append(c, out...)
}

func (x bomb) apply(f *ref.File) []byte {
	plain := func(b []byte) []byte {
		out, _ := ref.ChunkPlan{Kind: f.Comp, Size: f.Block, Seed: x.S}.Pack(b)
		return out
	}
	if x.What == "footer" {
		nf := x.pack(f.Footer.Encode())
		if nf == nil {
			return nil
		}
		return f.WithTail(f.Data[:f.FooterStart], nf)
	}
	if len(f.Stripes) == 0 {
		return nil
	}
	k := x.Stripe % len(f.Stripes)
	var picks []int
	for j, st := range f.Stripes[k].Streams {
		isIndex := st.Kind >= ref.SRowIndex && st.Kind <= ref.SBloomUTF8
		if x.What == "stripe footer" || (x.What == "index" && st.Kind == ref.SRowIndex) || (x.What == "stream" && !isIndex && st.Len > 0) {
			picks = append(picks, j)
		}
	}
	if len(picks) == 0 {
		return nil
	}
	pick := picks[x.Stream%uint64(len(picks))]
	st := f.Stripes[k].Streams[pick]
	if x.What == "stripe footer" {
		first := true // the footer of the stripe, and then the one of the file
		return f.WithStream(k, pick, f.Data[st.Off:st.Off+st.Len:st.Off+st.Len], func(b []byte) []byte {
			if first {
				first = false
				return x.pack(b)
			}
			return plain(b)
		})
	}
	nb := x.pack(st.Data)
	if nb == nil {
		return nil
	}
	return f.WithStream(k, pick, nb, plain)
}

func runBomb(ctx *Ctx, c bombCase) error {
	path := ctx.Path()
	_, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	if f == nil {
		return violf("file is not parsed")
	}
	p := ctx.Path()
	for i, x := range c.B {
		b := x.apply(f)
		if b == nil {
			continue
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		r := rng(x.S)
		rows, err := func() (n int, err error) {
			defer func() {
				if x := recover(); x != nil {
					err = violf("panic: %v%s", x, panicSite())
				}
			}()
			return abuse(p, &r, 100<<20)
		}()
		ctx.Eval(1)
		var v *Violation
		if errors.As(err, &v) {
			return violf("chunk %d (%s) of %d MB, block size 256 KB, file of %d KB: %v", i, x.What, x.MB, len(b)>>10, err)
		}
		ctx.ClassIf(err != nil, "refused: "+x.What)
		ctx.ClassIf(err == nil, "not reached: "+x.What)
		ctx.ClassIf(err != nil && rows > 0, "refused after rows")
		if err != nil {
			ctx.Nontrivial()
		}
		os.Remove(p)
	}
	return nil
}

func init() {
	register("C19", "large-chunks", "files of both writers with a chunk of a stream, index or footer that holds 180-250 MB when it is decompressed, at a block size of 256 KB; no operation allocates more than 100 MB; non-trivial: refused", 600, 8000, genBomb, runBomb, cpu(40e9), heap(3<<30))
}
