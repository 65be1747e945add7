package main

import (
	"os"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C22: another file takes the place of one that is being read, as when a table
// is rewritten and renamed

type replaceCase struct {
	F      AnyFile
	How    string // same columns, other values; other options; another file; gone
	Other  AnyFile
	Before int // batch readers there are already
	Read   int // batches read by them
	Batch  int
	Seek   int
}

func genReplace(t *rapid.T) replaceCase {
	c := replaceCase{How: rapid.SampledFrom([]string{"values", "values", "options", "other", "gone"}).Draw(t, "how"), Before: rapid.IntRange(0, 2).Draw(t, "before"),
		Read: rapid.IntRange(0, 3).Draw(t, "read"), Batch: rapid.SampledFrom([]int{100, 1000, 7, 1}).Draw(t, "batch"), Seek: rapid.IntRange(-1, 600).Draw(t, "seek")}
	file := func() AnyFile {
		if rapid.IntRange(0, 2).Draw(t, "foreign") == 0 {
			f := drawForeign(t)
			f.Rows = f.Rows%400 + 1
			return AnyFile{F: &f}
		}
		f := drawFile(t)
		f.Rows = f.Rows%600 + 1
		if f.O.Stripe < f.Rows {
			f.O.Stripe = f.Rows
		}
		limitStripes(&f)
		return AnyFile{P: &f}
	}
	c.F = file()
	switch c.How {
	case "options":
		c.Other = c.F
		if c.F.P != nil {
			f := *c.F.P
			f.O = drawOpts(t)
			limitStripes(&f)
			c.Other.P = &f
		}
	case "other":
		c.Other = file()
	}
	return c
}

// other is the same table with other values.
func (a AnyFile) other() AnyFile {
	change := func(root ColSpec) ColSpec {
		var copyOf func(x ColSpec) ColSpec
		copyOf = func(x ColSpec) ColSpec {
			x.D = append([]Seg{}, x.D...)
			for i := range x.D {
				x.D[i].A ^= 1
				x.D[i].S ^= 1
				x.D[i].V = append([]int64{}, x.D[i].V...)
				for k := range x.D[i].V {
					x.D[i].V[k] ^= 1
				}
			}
			kids := x.C
			x.C = nil
			for _, k := range kids {
				x.C = append(x.C, copyOf(k))
			}
			return x
		}
		return copyOf(root)
	}
	if a.F != nil {
		f := *a.F
		f.Root = change(f.Root)
		return AnyFile{F: &f}
	}
	f := *a.P
	f.Root = change(f.Root)
	return AnyFile{P: &f}
}

func runReplace(ctx *Ctx, c replaceCase) error {
	path, path2 := ctx.Path(), ctx.Path()
	rows, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	var rows2 []any
	if c.How != "gone" {
		o := c.Other
		if c.How == "values" {
			o = c.F.other()
		}
		var f2 *ref.File
		if rows2, f2, err = o.make(ctx, path2); err != nil {
			return err
		}
		ctx.ClassIf(f != nil && f2 != nil && len(readBytes(path)) == len(readBytes(path2)), "files of one size")
	}
	ctx.Class("replaced by: " + c.How)
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	var ss []*session
	for i := 0; i < c.Before; i++ {
		s, err := newSession(r, rows, readOpts{})
		if err != nil {
			return err
		}
		defer s.br.Close()
		for k := 0; k < c.Read && s.cursor < len(rows); k++ {
			if _, err := s.read(c.Batch, false); err != nil {
				return err
			}
		}
		ss = append(ss, s)
	}
	if c.How == "gone" {
		err = os.Remove(path)
	} else {
		err = os.Rename(path2, path)
	}
	if err != nil {
		panic(err)
	}
	if len(rows) > 0 {
		ctx.Nontrivial()
	}
	if r.NumberOfRows() != uint64(len(rows)) {
		return violf("after another file has taken its place, the reader has %d rows, should have %d", r.NumberOfRows(), len(rows))
	}
	// what was opened goes on
	for _, s := range ss {
		s.log = "another file has taken its place"
		if c.Seek >= 0 && c.Seek < len(rows) {
			if err := s.seek(c.Seek); err != nil {
				return err
			}
		}
		if err := s.rest(c.Batch); err != nil {
			return err
		}
	}
	// what is opened now is refused, or goes on as well
	s, err := newSession(r, rows, readOpts{})
	ctx.ClassIf(err != nil, "later batch reader refused")
	if err == nil {
		defer s.br.Close()
		s.log = "another file has taken its place before the batch reader"
		s.may = true
		if err := s.rest(c.Batch); err != nil && err != errDamaged {
			return err
		}
	}
	if c.How != "gone" {
		r2, err := openFor(path)
		if err != nil {
			return err
		}
		defer r2.Close()
		s, err := newSession(r2, rows2, readOpts{})
		if err != nil {
			return err
		}
		defer s.br.Close()
		return s.rest(c.Batch)
	}
	return nil
}

func init() {
	register("C22", "replaced", "a file that is being read is replaced by another (other values in the same layout, other options, another table) or removed; readers there are already go on, later ones go on or give an error; non-trivial: the file has rows", 1500, 25000, genReplace, runReplace)
}
