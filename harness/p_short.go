package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/patrickhuang888/goorc/orc"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C25: files with streams which hold less than they should

type shortCut struct {
	What   string // contents, bytes, chunks, empty, gone, index, stripe, rows
	Stripe int
	Stream uint64
	At     int // per mille, negative: from the end
}

type shortCase struct {
	F     AnyFile
	Cuts  []shortCut
	Batch int
	Seeks []seekOp
}

func genShort(t *rapid.T) shortCase {
	c := shortCase{Batch: rapid.SampledFrom([]int{1000, 1, 3, 100, 512}).Draw(t, "batch")}
	if rapid.IntRange(0, 2).Draw(t, "writer") == 0 {
		f := drawForeign(t)
		if f.Rows > 700 {
			f.Rows %= 700
		}
		c.F.F = &f
	} else {
		f := drawFile(t)
		if f.Rows > 1500 {
			f.Rows %= 1500
		}
		c.F.P = &f
	}
	for k := rapid.IntRange(1, 8).Draw(t, "cuts"); k > 0; k-- {
		x := shortCut{What: rapid.SampledFrom([]string{"contents", "bytes", "contents", "chunks", "empty", "stripe", "index", "gone", "rows"}).Draw(t, "what"),
			Stripe: rapid.IntRange(0, 5).Draw(t, "stripe"), Stream: drawSeed(t)}
		switch rapid.IntRange(0, 2).Draw(t, "near") {
		case 0:
			x.At = -rapid.IntRange(1, 20).Draw(t, "fromEnd")
		default:
			x.At = uniform(t, 0, 999)
		}
		c.Cuts = append(c.Cuts, x)
	}
	for k := rapid.IntRange(0, 3).Draw(t, "seeks"); k > 0; k-- {
		c.Seeks = append(c.Seeks, seekOp{K: rapid.SampledFrom([]int{0, 1, 2, 2}).Draw(t, "seek"), A: rapid.IntRange(0, 3000).Draw(t, "at"), D: rapid.IntRange(-2, 2).Draw(t, "d"),
			Reads: rapid.IntRange(0, 2).Draw(t, "reads"), Size: rapid.SampledFrom([]int{1, 10, 100, 500}).Draw(t, "size")})
	}
	return c
}

func (x shortCut) length(n int) int {
	k := x.At * n / 1000
	if x.At < 0 {
		k = n + x.At
	}
	if k < 0 {
		k = 0
	}
	if k >= n {
		k = n - 1
	}
	return k
}

// apply makes a file in which one stream is shorter; nil if there is none.
func (x shortCut) apply(f *ref.File) (out []byte, what string) {
	if len(f.Stripes) == 0 {
		return nil, ""
	}
	pack := func(b []byte) []byte {
		out, _ := ref.ChunkPlan{Kind: f.Comp, Size: f.Block, Seed: x.Stream}.Pack(b)
		return out
	}
	if x.What == "stripe" { // not in the footer any more
		var footer ref.Msg
		at := x.Stripe % len(f.Stripes)
		for _, e := range f.Footer {
			if e.Num == 3 && e.Wire == 2 {
				if at--; at == -1 {
					continue
				}
			}
			footer = append(footer, e)
		}
		return f.WithTail(f.Data[:f.FooterStart], pack(footer.Encode())), "stripe"
	}
	if x.What == "rows" { // bits may have been padded to a byte
		if s := f.Stripes[len(f.Stripes)-1]; s.DataLen == 0 {
			return nil, ""
		}
		n := 8 + x.Stream%100
		return f.WithRows(n, pack), fmt.Sprintf("%d rows more in the footer", n)
	}
	k := x.Stripe % len(f.Stripes)
	s := f.Stripes[k]
	var picks []int
	for j, st := range s.Streams {
		isIndex := st.Kind >= ref.SRowIndex && st.Kind <= ref.SBloomUTF8
		if st.Len > 0 && len(st.Data) > 0 && (st.Kind == ref.SRowIndex) == (x.What == "index") && (!isIndex || x.What == "index") {
			picks = append(picks, j)
		}
	}
	if len(picks) == 0 {
		return nil, ""
	}
	pick := picks[x.Stream%uint64(len(picks))]
	st := s.Streams[pick]
	raw := f.Data[st.Off : st.Off+st.Len]
	var nb []byte
	switch x.What {
	case "gone":
	case "empty":
		nb = []byte{}
	case "bytes":
		nb = raw[:x.length(len(raw))]
	case "chunks":
		if f.Comp == ref.None || len(st.Chunks) < 2 {
			return nil, ""
		}
		nb = raw[:st.Chunks[1+x.length(len(st.Chunks)-1)].Start]
	default:
		n := x.length(len(st.Data))
		if f.Comp == ref.None {
			nb = raw[:n]
			break
		}
		for _, ch := range st.Chunks { // others stay where the index says they are
			if ch.Off >= n {
				break
			}
			if ch.Off+len(ch.Data) <= n {
				nb = raw[:ch.Start+3+ch.Len]
			} else {
				nb = append(raw[:ch.Start:ch.Start], pack(ch.Data[:n-ch.Off])...)
			}
		}
	}
	if len(nb) == 0 && st.Kind == ref.SPresent { // left out if there are no nulls
		return nil, ""
	}
	if x.What != "gone" && nb == nil {
		nb = []byte{}
	}
	return f.WithStream(k, pick, nb, pack), fmt.Sprintf("stream of kind %d of column %d of stripe %d with %d of %d bytes", st.Kind, st.Col, k, len(nb), len(raw))
}

func runShort(ctx *Ctx, c shortCase) error {
	path := ctx.Path()
	rows, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	if f == nil {
		return violf("file cannot be parsed")
	}
	for _, x := range c.Cuts {
		b, what := x.apply(f)
		if b == nil {
			continue
		}
		p := ctx.Path()
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		ctx.Eval(1)
		noticed, err := readShort(p, rows, f, c, x.What)
		if err != nil {
			return violf("%s: %v", what, err)
		}
		os.Remove(p)
		ctx.ClassIf(noticed, "refused: "+x.What)
		ctx.ClassIf(!noticed, "not needed: "+x.What)
		if noticed {
			ctx.Nontrivial()
		}
	}
	return nil
}

func readShort(path string, rows []any, f *ref.File, c shortCase, what string) (noticed bool, err error) {
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		return true, nil
	}
	defer r.Close()
	s, err := newSession(r, rows, readOpts{})
	if err != nil {
		return true, nil
	}
	defer s.br.Close()
	s.may = true
	if what == "rows" { // padding of booleans
		s.over = 7
	}
	err = s.rest(c.Batch)
	if err != nil && !errors.Is(err, errDamaged) {
		return false, err
	}
	noticed = err != nil
	// an error is no excuse for what comes after a seek
	for _, o := range c.Seeks {
		if len(rows) == 0 {
			break
		}
		n := o.row(len(rows), f)
		s.log = fmt.Sprint("seek to ", n)
		err := s.seek(n)
		for k := 0; err == nil && k < o.Reads; k++ {
			var done bool
			if done, err = s.read(o.Size, false); done {
				break
			}
		}
		if err != nil && !errors.Is(err, errDamaged) {
			return false, err
		}
		noticed = noticed || err != nil
	}
	return noticed, nil
}

func init() {
	register("C25", "short-streams", "files of both writers; 1-8 times a stream is cut before or after compression, at a chunk, or emptied, a row index is cut, or a stripe is left out of the footer; read from the start and after seeks; non-trivial: reading ended in an error", 7000, 80000, genShort, runShort)
}
