package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C20: files cut short

type prefixCase struct {
	F      FileCase
	Writes int // the writer is left after so many writes
	S      uint64
}

func drawSmallFile(t *rapid.T) FileCase {
	c := FileCase{Root: drawRoot(t, colOpts{maxDepth: 1, maxSegs: 2, maxLen: 200}), Rows: rapid.IntRange(1, 200).Draw(t, "rows"), O: drawOpts(t)}
	if rapid.IntRange(0, 9).Draw(t, "more") == 0 {
		c.Rows = rapid.IntRange(200, 1500).Draw(t, "manyRows")
	}
	limitStripes(&c)
	return c
}

func runPrefix(ctx *Ctx, c prefixCase) error {
	rows := c.F.rows()
	path := ctx.Path()
	if err := writeFile(path, c.F, rows); err != nil {
		return err
	}
	b := readBytes(path)
	f, err := ref.Parse(b)
	if err != nil {
		f = nil
	}
	classifyFile(ctx, c.F, f)
	cut := ctx.Path()
	fh, err := os.Create(cut)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	if _, err := fh.Write(b); err != nil {
		panic(err)
	}
	try := func(n int) error {
		if err := fh.Truncate(int64(n)); err != nil {
			panic(err)
		}
		ctx.Eval(1)
		if r, err := orc.NewOSFileReader(cut); err == nil {
			r.Close()
			return violf("the first %d of %d bytes are opened as a file of %d rows", n, len(b), r.NumberOfRows())
		}
		return nil
	}
	// from the end, so that the file is only ever cut: all of them near the
	// tail and, in small files, everywhere
	r := rng(c.S)
	for n := len(b) - 1; n >= 0; {
		if err := try(n); err != nil {
			return err
		}
		if n < 400 || len(b)-n < 600 {
			n--
			continue
		}
		k := 1 + r.n(1+len(b)/300)
		if f != nil { // ends of stripes
			for _, s := range f.Stripes {
				e := int(s.Offset + s.IndexLen + s.DataLen + s.FooterLen)
				if e < n && n-k < e {
					k = n - e
				}
			}
		}
		n -= k
	}
	return nil
}

// runUnclosed looks at the file while it is written.
func runUnclosed(ctx *Ctx, c prefixCase) error {
	rows := c.F.rows()
	path := ctx.Path()
	schema := c.F.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return violf("schema refused: %v", err)
	}
	leaveOld(path, mix(c.F.O, len(rows), c.S))
	w, err := orc.NewOSFileWriter(path, schema, c.F.O.config())
	if err != nil {
		return violf("writer refused: %v", err)
	}
	closed := false
	defer func() {
		if !closed {
			w.Close()
		}
	}()
	look := func(at int) error {
		ctx.Eval(1)
		if r, err := orc.NewOSFileReader(path); err == nil {
			r.Close()
			return violf("after %d of %d rows were written, and the writer is not closed, the file is opened, with %d rows", at, len(rows), r.NumberOfRows())
		}
		return nil
	}
	if err := look(0); err != nil {
		return err
	}
	last := int64(0)
	for at := 0; at < len(rows); {
		n := 1 + len(rows)/(1+c.Writes)
		if n > len(rows)-at {
			n = len(rows) - at
		}
		if err := w.Write(toVec(schema, rows[at:at+n], c.F.loc(), false)); err != nil {
			return violf("writing rows %d to %d failed: %v", at, at+n, err)
		}
		at += n
		if st, err := os.Stat(path); err == nil && st.Size() > last {
			last = st.Size()
			ctx.ClassIf(last > 3, "stripes on disk")
			if last > 3 {
				ctx.Nontrivial()
			}
		}
		if err := look(at); err != nil {
			return err
		}
	}
	closed = true
	if err := w.Close(); err != nil {
		return violf("closing the writer failed: %v", err)
	}
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		return violf("file refused: %v", err)
	}
	r.Close()
	return nil
}

// C21: failing writes

type failCase struct {
	F  FileCase
	At []int // offsets, per mille of the size of the file; negative: bytes from the end
	Up bool  // writing works again after the first failure
}

func genFail(t *rapid.T) failCase {
	c := failCase{F: drawSmallFile(t), Up: rapid.Bool().Draw(t, "up")}
	for k := rapid.IntRange(1, 8).Draw(t, "offsets"); k > 0; k-- {
		switch rapid.IntRange(0, 2).Draw(t, "near") {
		case 0:
			c.At = append(c.At, -rapid.IntRange(1, 400).Draw(t, "fromEnd"))
		default:
			c.At = append(c.At, rapid.IntRange(0, 999).Draw(t, "at"))
		}
	}
	return c
}

// fileSizeLimit makes writes beyond n bytes fail.
func fileSizeLimit(n uint64) (restore func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}
}

// writeUnder writes rows while writes fail beyond limit, and gives the errors.
func writeUnder(path string, c FileCase, rows []any, limit int, up bool) (errs []string, err error) {
	schema := c.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return nil, violf("schema refused: %v", err)
	}
	// batches are made before
	var vecs []*api.ColumnVector
	for k, at := 0, 0; at < len(rows); k++ {
		n := len(rows) - at
		if len(c.O.Splits) > 0 {
			if s := c.O.Splits[k%len(c.O.Splits)]; s < n {
				n = s
			}
		}
		vecs = append(vecs, toVec(schema, rows[at:at+n], c.loc(), false))
		at += n
	}
	restore := fileSizeLimit(uint64(limit))
	limited := true
	unlimit := func() {
		if limited {
			restore()
			limited = false
		}
	}
	defer unlimit()
	note := func(what string, e error) {
		if e != nil {
			errs = append(errs, what+": "+e.Error())
			if up {
				unlimit()
			}
		}
	}
	w, e := orc.NewOSFileWriter(path, schema, c.O.config())
	note("creating", e)
	if e != nil {
		return errs, nil
	}
	for i, v := range vecs {
		note(fmt.Sprint("write ", i), w.Write(v))
	}
	note("close", w.Close())
	unlimit()
	// nothing is accepted any more
	if len(rows) > 0 && vecs[0].Len() > 0 {
		before := readBytes(path)
		if e := w.Write(vecs[0]); e == nil {
			return errs, violf("rows are accepted after close, and lost")
		}
		w.Close()
		if !bytes.Equal(before, readBytes(path)) {
			return errs, violf("the file is changed after close")
		}
	}
	return errs, nil
}

func runFail(ctx *Ctx, c failCase) error {
	rows := c.F.rows()
	path := ctx.Path()
	if err := writeFile(path, c.F, rows); err != nil {
		return err
	}
	b := readBytes(path)
	f, _ := ref.Parse(b)
	if f != nil {
		ctx.ClassIf(len(f.Stripes) > 1, "several stripes")
	}
	for _, at := range c.At {
		n := at * len(b) / 1000
		if at < 0 {
			n = len(b) + at
			if n < 0 {
				n = 0
			}
		}
		p := ctx.Path()
		errs, err := writeUnder(p, c.F, rows, n, c.Up)
		if err != nil {
			return err
		}
		ctx.Eval(1)
		if len(errs) == 0 {
			st, _ := os.Stat(p)
			return violf("writing beyond byte %d of %d failed, but no call returned an error, %d bytes are on disk", n, len(b), st.Size())
		}
		switch {
		case strings.HasPrefix(errs[0], "creating"):
			ctx.Class("header fails")
		case strings.HasPrefix(errs[0], "close"):
			ctx.Class("close fails")
			ctx.Nontrivial()
		default:
			ctx.Class("write fails")
			ctx.Nontrivial()
		}
		os.Remove(p)
	}
	// nothing fails if there is room for all
	p := ctx.Path()
	errs, err := writeUnder(p, c.F, rows, len(b), false)
	if err != nil {
		return err
	}
	if len(errs) > 0 {
		return violf("no write failed, but %s", errs[0])
	}
	got, err := readFile(p, readOpts{}, len(rows))
	if err != nil {
		return asViolation(err, "reading")
	}
	if d := ref.DiffRows(rows, got); d != "" {
		return violf("read %s", d)
	}
	return nil
}

// badDescriptor: the file of the writer is taken away, everything fails.
func runTaken(ctx *Ctx, c prefixCase) error {
	rows := c.F.rows()
	path := ctx.Path()
	schema := c.F.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return violf("schema refused: %v", err)
	}
	w, err := orc.NewOSFileWriter(path, schema, c.F.O.config())
	if err != nil {
		return violf("writer refused: %v", err)
	}
	n := c.Writes * len(rows) / 6
	if n > len(rows) {
		n = len(rows)
	}
	if n > 0 {
		if err := w.Write(toVec(schema, rows[:n], c.F.loc(), false)); err != nil {
			w.Close()
			return violf("writing failed: %v", err)
		}
	}
	// its descriptor now is one which cannot be written
	fds := openFds(path)
	if len(fds) == 0 {
		ctx.Class("writer has no descriptor open")
		w.Close()
		return nil
	}
	ro, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	for _, fd := range fds {
		if err := syscall.Dup2(int(ro.Fd()), fd); err != nil {
			panic(err)
		}
	}
	ro.Close()
	var errs []string
	if n < len(rows) {
		if err := w.Write(toVec(schema, rows[n:], c.F.loc(), false)); err != nil {
			errs = append(errs, err.Error())
			ctx.Class("write fails")
		}
	}
	if err := w.Close(); err != nil {
		errs = append(errs, err.Error())
		ctx.Class("close fails")
	}
	ctx.Nontrivial()
	if len(errs) == 0 {
		return violf("the file could not be written after %d of %d rows, but no call returned an error", n, len(rows))
	}
	return nil
}

// openFds are the descriptors of path, or all but the standard ones.
func openFds(path string) (out []int) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		t, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name()))
		if err != nil {
			continue
		}
		if t == path || path == "" {
			n := 0
			fmt.Sscan(e.Name(), &n)
			out = append(out, n)
		}
	}
	return
}

// underScratch are the descriptors of files in dir.
func openUnder(dir string) (out []string) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if t, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil && strings.HasPrefix(t, dir+"/") {
			out = append(out, filepath.Base(t))
		}
	}
	return
}

// C24: descriptors

type fdOp struct {
	K    string
	A, B uint64
}

type fdCase struct {
	F   AnyFile
	Ops []fdOp
}

func genFd(t *rapid.T) fdCase {
	c := fdCase{F: drawAny(t)}
	if c.F.P != nil && c.F.P.Rows > 600 {
		c.F.P.Rows -= c.F.P.Rows / 2
	}
	for k := rapid.IntRange(1, 6).Draw(t, "ops"); k > 0; k-- {
		c.Ops = append(c.Ops, fdOp{K: rapid.SampledFrom([]string{"read", "read", "seek", "part", "includes", "bad includes", "damaged", "damaged", "damaged", "bad options", "cut", "writer", "bad write", "failing write", "bad path"}).Draw(t, "op"), A: drawSeed(t), B: drawSeed(t)})
	}
	return c
}

// damage gives bytes with something broken. Damage near the end, or in
// footers, makes it fail early.
func damage(b []byte, f *ref.File, seed uint64) []byte {
	r := rng(seed)
	out := append([]byte{}, b...)
	for k := 1 + r.n(3); k > 0; k-- {
		at := r.n(len(out))
		if f != nil && len(f.Stripes) > 0 {
			switch r.n(6) {
			case 0:
				at = f.FooterStart + r.n(len(out)-f.FooterStart)
			case 1:
				at = f.PSStart + r.n(len(out)-f.PSStart)
			case 2:
				s := f.Stripes[r.n(len(f.Stripes))]
				at = int(s.Offset+s.IndexLen+s.DataLen) + r.n(int(s.FooterLen))
			case 3, 4:
				s := f.Stripes[r.n(len(f.Stripes))]
				if st := s.Streams[r.n(len(s.Streams))]; st.Len > 0 {
					n := st.Len
					if r.n(2) == 0 && n > 4 { // header
						n = 4
					}
					at = st.Off + r.n(n)
				}
			}
		}
		if r.n(2) == 0 {
			out[at] ^= 1 << r.n(8)
		} else {
			out[at] = byte(r.next())
		}
	}
	return out
}

// useFile does what is possible with a file, ends at the first error, and
// closes everything.
func useFile(path string, r *rng, max int) (rows int, err error) {
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		return 0, err
	}
	defer rd.Close()
	for k := 1 + r.n(2); k > 0; k-- {
		var inc []uint32
		if r.n(3) == 0 {
			inc, _ = includeSet(rd.GetSchema(), r.next())
		}
		size := []int{1, 7, 100, 1000}[r.n(4)]
		o := &api.BatchOption{RowSize: size, Includes: inc}
		br, err := rd.CreateBatchReader(o)
		if err != nil {
			return rows, err
		}
		n, err := func() (int, error) {
			defer br.Close()
			vec, err := rd.GetSchema().CreateVector(o)
			if err != nil {
				return 0, err
			}
			if vec == nil {
				return 0, violf("no vector")
			}
			total := 0
			for i := 0; total < max; i++ {
				if r.n(6) == 0 {
					if err := br.Seek(r.next() % (rd.NumberOfRows() + 2)); err != nil && r.n(2) == 0 {
						return total, err
					}
				}
				end, err := br.Next(vec)
				total += vec.Len()
				if err != nil || end {
					return total, err
				}
				if vec.Len() == 0 {
					return total, violf("no rows, no error and no end after %d rows", total)
				}
				if vec.Len() > size {
					return total, violf("%d rows read, batch has room for %d", vec.Len(), size)
				}
			}
			return total, nil
		}()
		rows += n
		if err != nil {
			return rows, err
		}
	}
	return rows, nil
}

func runFd(ctx *Ctx, c fdCase) error {
	// Descriptors nobody closes are closed by the garbage collector, which
	// therefore runs between operations only, unless memory gets short.
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(1 << 30))
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	dir := filepath.Dir(ctx.Path())
	runtime.GC()
	before := len(openUnder(dir))
	check := func(after string) error {
		fds := openUnder(dir)
		if len(fds) < before { // left by a case which had not enough
			before = len(fds)
		}
		if len(fds) > before {
			return violf("%d files are open after %s", len(fds)-before, after)
		}
		return nil
	}
	path := ctx.Path()
	rows, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	if err := check("writing a file"); err != nil {
		return err
	}
	b := readBytes(path)
	for _, op := range c.Ops {
		r := rng(op.A)
		what := op.K
		var failed error
		switch op.K {
		case "read":
			_, failed = readFile(path, readOpts{batches: []int{1 + r.n(1000)}}, len(rows))
		case "seek":
			_, failed = useFile(path, &r, 3000)
		case "part": // leave in the middle
			rd, err := orc.NewOSFileReader(path)
			if err != nil {
				return violf("file refused: %v", err)
			}
			var brs []orc.BatchReader
			for k := 1 + r.n(3); k > 0; k-- {
				o := &api.BatchOption{RowSize: 1 + r.n(50)}
				br, err := rd.CreateBatchReader(o)
				if err != nil {
					return violf("batch reader refused: %v", err)
				}
				brs = append(brs, br)
				vec, _ := rd.GetSchema().CreateVector(o)
				for j := r.n(4); j > 0; j-- {
					if _, err := br.Next(vec); err != nil {
						return violf("reading: %v", err)
					}
				}
			}
			if r.n(2) == 0 {
				rd.Close()
			} else {
				defer rd.Close()
				before++
			}
			for _, br := range brs {
				br.Close()
			}
		case "includes", "bad includes":
			rd, err := orc.NewOSFileReader(path)
			if err != nil {
				return violf("file refused: %v", err)
			}
			inc, _ := includeSet(rd.GetSchema(), op.B)
			if op.K == "bad includes" {
				inc = [][]uint32{{99999}, {1}, {0, 99999}}[r.n(3)]
			}
			o := &api.BatchOption{RowSize: 10, Includes: inc}
			br, err := rd.CreateBatchReader(o)
			if failed = err; err == nil {
				if vec, err := rd.GetSchema().CreateVector(o); err == nil {
					_, failed = br.Next(vec)
				}
				br.Close()
			}
			rd.Close()
		case "damaged", "cut":
			d := damage(b, f, op.A)
			if op.K == "cut" {
				d = b[:r.n(len(b))]
			}
			p := ctx.Path()
			if err := os.WriteFile(p, d, 0o644); err != nil {
				panic(err)
			}
			_, failed = useFile(p, &r, 3000)
			os.Remove(p)
			var v *Violation
			if errors.As(failed, &v) {
				failed = nil
			}
		case "bad options":
			bad := config.DefaultWriterOptions()
			switch r.n(3) {
			case 0:
				bad.CompressionKind = pb.CompressionKind_SNAPPY
			case 1:
				bad.ChunkSize = 1 << 23
			case 2:
				bad.WriteIndex, bad.IndexStride = true, 0
			}
			s := &api.TypeDescription{Kind: pb.Type_INT, Encoding: pb.ColumnEncoding_DIRECT_V2}
			if r.n(2) == 0 {
				s.Encoding = pb.ColumnEncoding_DICTIONARY
			}
			p := ctx.Path()
			w, err := orc.NewOSFileWriter(p, s, bad)
			if failed = err; err == nil {
				w.Close()
			}
		case "writer", "failing write", "bad write":
			var fc FileCase
			if c.F.P != nil {
				fc = *c.F.P
			} else {
				fc = FileCase{Root: ColSpec{K: ref.Long, D: []Seg{{K: "rand", N: 50, W: 60, S: op.B}}}, Rows: 100 + r.n(1000), O: FileOpts{Comp: r.n(2), Chunk: 100, Stripe: 1000}}
			}
			wrows := fc.rows()
			p := ctx.Path()
			if op.K == "bad write" {
				schema := fc.Root.schema()
				api.NormalizeSchema(schema)
				w, err := orc.NewOSFileWriter(p, schema, fc.O.config())
				if err != nil {
					return violf("writer refused: %v", err)
				}
				failed = w.Write(&api.ColumnVector{Id: 77, Kind: pb.Type_LONG, Vector: []api.Value{{V: "x"}}})
				w.Close()
				break
			}
			limit := len(b) * 2
			if op.K == "failing write" {
				limit = r.n(len(b))
			}
			if limit < 8 {
				limit = r.n(8)
			}
			errs, err := writeUnder(p, fc, wrows, limit, r.n(2) == 0)
			if err != nil {
				return err
			}
			if len(errs) > 0 {
				failed = errors.New(errs[0])
			}
		case "bad path":
			_, failed = orc.NewOSFileReader(filepath.Join(dir, "missing", "x"))
			s := &api.TypeDescription{Kind: pb.Type_INT, Encoding: pb.ColumnEncoding_DIRECT_V2}
			_, err := orc.NewOSFileWriter(filepath.Join(dir, "missing", "x"), s, config.DefaultWriterOptions())
			if err == nil {
				return violf("a file in a missing directory is written")
			}
		}
		if failed != nil {
			what += ", which failed with " + failed.Error()
			ctx.Class(op.K + " fails")
			ctx.Nontrivial()
		} else {
			ctx.Class(op.K)
		}
		ctx.Eval(1)
		if err := check(what); err != nil {
			return err
		}
		runtime.GC()
	}
	return nil
}

func init() {
	small := "small tables of 1-4 columns, 1-1500 rows, any options; "
	genP := func(t *rapid.T) prefixCase {
		return prefixCase{F: drawSmallFile(t), Writes: rapid.IntRange(0, 12).Draw(t, "writes"), S: drawSeed(t)}
	}
	register("C20", "prefixes", small+"prefixes of all lengths below 400 bytes and within 600 bytes of the end, at stripe ends, and some in between; non-trivial: several stripes or chunks, nulls or nested structs, more than 512 rows", 2880, 30000, genP, runPrefix)
	register("C20", "unclosed", small+"the file is opened after every write, before it is closed; non-trivial: stripes were on disk before the end", 7200, 90000, func(t *rapid.T) prefixCase {
		c := genP(t)
		c.F.O.Stripe = rapid.SampledFrom([]int{1, 100, 300, 1000}).Draw(t, "stripe")
		limitStripes(&c.F)
		return c
	}, runUnclosed)
	register("C21", "full-disk", small+"writes fail beyond 1-8 offsets, for good or once; non-trivial: a write or close failed", 1920, 30000, genFail, runFail)
	register("C21", "lost-file", small+"the file cannot be written any more after some rows; non-trivial: always", 2400, 30000, genP, runTaken)
	register("C24", "descriptors", "files of the project and of the independent writer; 1-6 histories of reading, seeking, leaving, projecting, refused options, damaged and cut files, failing writes; non-trivial: something failed", 4800, 100000, genFd, runFd)
}
