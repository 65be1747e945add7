package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sync"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C22: several readers and writers at the same time

type party struct {
	K    string // reader, batch (of a shared reader), writer, twin (a writer which shares the schema), opener (opens again and again), stats
	F    int    // which file
	Size int
	Inc  uint64 // columns, 0 for all
	S    uint64 // what it does
}

type togetherCase struct {
	Files    []AnyFile
	P        []party
	Parallel bool
	S        uint64 // schedule
}

func genTogether(parallel bool) func(t *rapid.T) togetherCase {
	return func(t *rapid.T) togetherCase {
		c := togetherCase{Parallel: parallel, S: drawSeed(t)}
		for k := rapid.IntRange(1, 3).Draw(t, "files"); k > 0; k-- {
			if rapid.IntRange(0, 3).Draw(t, "foreign") == 0 {
				f := drawForeign(t)
				f.Root = drawRoot(t, colOpts{maxDepth: 2, lists: true, maxSegs: 2, maxLen: 200})
				f.Root.walk(func(x *ColSpec) { x.E = 0 })
				f.Rows = rapid.IntRange(1, 500).Draw(t, "rows")
				limit := 15000 // the race detector takes its time
				if f.Comp != 0 && f.Block < 256 {
					limit = 2000
				}
				for f.Rows > 1 && weigh(f.spec().Rows) > limit {
					f.Rows /= 2
				}
				c.Files = append(c.Files, AnyFile{F: &f})
				continue
			}
			f := FileCase{Root: drawRoot(t, colOpts{maxDepth: 1, maxSegs: 2, maxLen: 200}), Rows: rapid.IntRange(1, 600).Draw(t, "rows"), O: drawOpts(t)}
			if f.Root.has(ref.TimestampK) {
				f.Zone = rapid.SampledFrom(zones).Draw(t, "zone")
			}
			if parallel && f.O.Comp != 0 && f.O.Chunk < 256 {
				f.Rows = f.Rows%60 + 1
			} else if parallel && f.O.Comp != 0 {
				f.Rows = f.Rows%300 + 1
			}
			f.O.Splits = append(f.O.Splits, rapid.IntRange(1, 100).Draw(t, "split"))
			limitStripes(&f)
			if f.O.Stripe < 5*f.Rows { // readers open all streams of all stripes
				f.O.Stripe = 5 * f.Rows
			}
			c.Files = append(c.Files, AnyFile{P: &f})
		}
		for k := rapid.IntRange(2, 6).Draw(t, "parties"); k > 0; k-- {
			p := party{K: rapid.SampledFrom([]string{"reader", "reader", "batch", "batch", "writer", "writer", "twin", "opener"}).Draw(t, "party"),
				F: rapid.IntRange(0, len(c.Files)-1).Draw(t, "file"), Size: rapid.SampledFrom([]int{1, 5, 17, 50, 100, 1000}).Draw(t, "size"), S: drawSeed(t)}
			if rapid.IntRange(0, 2).Draw(t, "some") == 0 {
				p.Inc = 1 + drawSeed(t)
			}
			c.P = append(c.P, p)
		}
		return c
	}
}

// weigh counts values.
func weigh(v any) (n int) {
	switch x := v.(type) {
	case []any:
		for _, k := range x {
			n += weigh(k)
		}
		return n
	case ref.Struct:
		return 1 + weigh([]any(x))
	case ref.List:
		return 1 + weigh([]any(x))
	case ref.Map:
		for _, e := range x {
			n += weigh(e[0]) + weigh(e[1])
		}
		return n + 1
	}
	return 1
}

// actor is a party at work.
type actor struct {
	what string
	step func() (done bool, err error)
	end  func() error // after all have finished
}

func runTogether(ctx *Ctx, c togetherCase) error {
	type fileState struct {
		path   string
		bytes  []byte
		rows   []any
		f      *ref.File
		shared orc.Reader
		schema *api.TypeDescription
	}
	files := make([]*fileState, len(c.Files))
	for i, af := range c.Files {
		st := &fileState{path: ctx.Path()}
		var err error
		if st.rows, st.f, err = af.make(ctx, st.path); err != nil {
			return err
		}
		st.bytes = readBytes(st.path)
		if st.shared, err = openFor(st.path); err != nil {
			return err
		}
		defer st.shared.Close()
		if af.P != nil {
			st.schema = af.P.Root.schema()
			if err := api.NormalizeSchema(st.schema); err != nil {
				return violf("schema refused: %v", err)
			}
		}
		files[i] = st
	}
	includes := func(p party, td *api.TypeDescription) []uint32 {
		if p.Inc == 0 {
			return nil
		}
		ids, in := includeSet(td, p.Inc)
		if !closedSet(td, in) || !hasLeaf(td, in) {
			return nil
		}
		return ids
	}
	var actors []*actor
	kinds := map[string]int{}
	for i, p := range c.P {
		p := p
		st := files[p.F]
		kind := p.K
		if (kind == "writer" || kind == "twin") && c.Files[p.F].P == nil {
			kind = "reader"
		}
		kinds[kind]++
		r := rng(p.S)
		a := &actor{what: fmt.Sprintf("%s %d of file %d", kind, i, p.F), end: func() error { return nil }}
		switch kind {
		case "reader", "batch":
			var s *session
			rd := st.shared
			if kind == "batch" { // all are there before the work starts
				var err error
				if s, err = newSession(rd, st.rows, readOpts{includes: includes(p, rd.GetSchema())}); err != nil {
					return err
				}
				s.keep = true
				defer s.br.Close()
			}
			steps := 0
			a.step = func() (bool, error) {
				if s == nil {
					var err error
					if rd, err = openFor(st.path); err != nil {
						return false, err
					}
					if s, err = newSession(rd, st.rows, readOpts{includes: includes(p, rd.GetSchema())}); err != nil {
						return false, err
					}
					s.keep = true
					return false, nil
				}
				steps++
				if steps < 40 && r.n(5) == 0 {
					return false, s.seek(r.n(len(st.rows)))
				}
				done, err := s.read(p.Size, p.S%3 == 0)
				if err != nil {
					return false, err
				}
				if done && steps < 15 && r.n(3) == 0 {
					return false, s.seek(r.n(len(st.rows)))
				}
				if !done && steps > 150 {
					done = true
				}
				if !done {
					return false, nil
				}
				if kind == "reader" && r.n(2) == 0 { // closed before the others end
					s.br.Close()
					rd.Close()
				} else if kind == "reader" {
					prev := a.end
					a.end = func() error {
						err := prev()
						s.br.Close()
						rd.Close()
						return err
					}
				}
				return true, s.unchanged()
			}
			a.end = func() error { return s.unchanged() }
		case "writer", "twin":
			fc := *c.Files[p.F].P
			schema := st.schema
			if kind == "writer" {
				schema = fc.Root.schema()
			}
			path := ctx.Path()
			var w orc.Writer
			at, k := 0, 0
			a.step = func() (bool, error) {
				if w == nil {
					if kind == "writer" {
						if err := api.NormalizeSchema(schema); err != nil {
							return false, violf("schema refused: %v", err)
						}
					}
					var err error
					if w, err = orc.NewOSFileWriter(path, schema, fc.O.config()); err != nil {
						return false, violf("writer refused: %v", err)
					}
					return false, nil
				}
				if at < len(st.rows) {
					n := len(st.rows) - at
					if len(fc.O.Splits) > 0 {
						if s := fc.O.Splits[k%len(fc.O.Splits)]; s < n {
							n = s
						}
						k++
					}
					if err := w.Write(toVec(schema, st.rows[at:at+n], fc.loc(), fc.O.Garb)); err != nil {
						return false, violf("writing rows %d to %d: %v", at, at+n, err)
					}
					at += n
					return false, nil
				}
				if err := w.Close(); err != nil {
					return false, violf("closing: %v", err)
				}
				return true, nil
			}
			a.end = func() error {
				b := readBytes(path)
				os.Remove(path)
				if !bytes.Equal(b, st.bytes) {
					return violf("the file differs from the one written alone: %s", firstDiff(st.bytes, b))
				}
				return nil
			}
		default: // opener
			n := 2 + r.n(6)
			a.step = func() (bool, error) {
				n--
				rd, err := openFor(st.path)
				if err != nil {
					return false, err
				}
				defer rd.Close()
				if rd.NumberOfRows() != uint64(len(st.rows)) {
					return false, violf("%d rows are reported, should be %d", rd.NumberOfRows(), len(st.rows))
				}
				s, err := newSession(rd, st.rows, readOpts{includes: includes(p, rd.GetSchema())})
				if err != nil {
					return false, err
				}
				defer s.br.Close()
				if err := s.seek(r.n(len(st.rows))); err != nil {
					return false, err
				}
				if _, err := s.read(p.Size, false); err != nil {
					return false, err
				}
				return n <= 0, nil
			}
		}
		actors = append(actors, a)
	}
	for k := range kinds {
		ctx.Class(k)
	}
	ctx.ClassIf(kinds["writer"]+kinds["twin"] > 1, "several writers")
	ctx.ClassIf(kinds["batch"] > 1, "several batch readers of a file")
	if len(actors) > 2 || kinds["writer"]+kinds["twin"] > 1 || kinds["batch"] > 1 {
		ctx.Nontrivial()
	}
	ctx.Eval(len(actors))

	errs := make([]error, len(actors))
	if c.Parallel {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, a := range actors {
			wg.Add(1)
			go func(i int, a *actor) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						errs[i] = violf("panic: %v%s", x, panicSite())
					}
				}()
				r := rng(c.S + uint64(i))
				<-start
				for {
					done, err := a.step()
					if err != nil {
						errs[i] = err
						return
					}
					if done {
						return
					}
					if r.n(3) == 0 {
						runtime.Gosched()
					}
				}
			}(i, a)
		}
		close(start)
		wg.Wait()
	} else {
		left := map[int]bool{}
		var order []int
		for i := range actors {
			left[i] = true
			order = append(order, i)
		}
		r := rng(c.S)
		for len(order) > 0 {
			k := r.n(len(order))
			i := order[k]
			// some do several steps in a row
			for n := 1 + r.n(3)*r.n(3); n > 0 && left[i]; n-- {
				done, err := actors[i].step()
				if err != nil {
					return violf("%s: %v", actors[i].what, err)
				}
				if done {
					left[i] = false
					order = append(order[:k], order[k+1:]...)
				}
			}
		}
	}
	for i, err := range errs {
		if err != nil {
			return violf("%s: %v", actors[i].what, err)
		}
	}
	for _, a := range actors {
		if err := a.end(); err != nil {
			return violf("%s: %v", a.what, err)
		}
	}
	// the files which were read are as before
	for i, st := range files {
		if !bytes.Equal(readBytes(st.path), st.bytes) {
			return violf("file %d, which was only read, has changed", i)
		}
	}
	return nil
}

func init() {
	what := "1-3 files, 2-6 readers, batch readers of one open file, writers (some share a schema), each compared with its own model or the file written alone; returned batches are looked at again; non-trivial: more than two parties, several writers or several batch readers of a file"
	register("C22", "interleaved", "steps in a generated order: "+what, 2400, 40000, genTogether(false), runTogether)
	register("C22", "parallel", "in goroutines, under the race detector: "+what, 600, 8000, genTogether(true), runTogether, raceBuild)
}
