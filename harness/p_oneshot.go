package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"syscall"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C21: a single write of many which fails

// failOnce refuses the write of number at, or a part of it.
type failOnce struct {
	at, part, n int
	lens        []int
	got         []byte
}

var errOnce = errors.New("injected failure")

func (f *failOnce) Write(p []byte) (int, error) {
	f.n++
	f.lens = append(f.lens, len(p))
	if f.n == f.at {
		k := len(p) * f.part / 100
		f.got = append(f.got, p[:k]...)
		return k, errOnce
	}
	f.got = append(f.got, p...)
	return len(p), nil
}

type columnFailCase struct {
	C    ColSpec  `json:"c"`
	Rows int      `json:"rows"`
	O    FileOpts `json:"o"`
	Skip int      `json:"skip"` // one row of so many is skipped
	Part int      `json:"part"`
}

func genColumnFail(t *rapid.T) columnFailCase {
	c := columnFailCase{C: drawCol(t, colOpts{maxDepth: 0, maxSegs: 2, maxLen: 300}, 0), Rows: rapid.IntRange(1, 700).Draw(t, "rows"), O: drawOpts(t)}
	c.Skip = rapid.SampledFrom([]int{0, 0, 2, 10}).Draw(t, "skip")
	c.Part = rapid.SampledFrom([]int{0, 50, 99}).Draw(t, "part")
	return c
}

func runColumnFail(ctx *Ctx, c columnFailCase) error {
	slots := c.C.slots(c.Rows)
	write := func(out *failOnce) (n int64, w column.Writer, err error) {
		root := &api.TypeDescription{Kind: ref.StructK}
		td := c.C.schema()
		root.AddChild("c", td)
		if err = api.NormalizeSchema(root); err != nil {
			return 0, nil, violf("schema refused: %v", err)
		}
		opts := c.O.config()
		if w, err = column.NewWriter(td, &opts); err != nil {
			return 0, nil, violf("column refused: %v", err)
		}
		for i, v := range toVec(td, slots, (FileCase{}).loc(), c.O.Garb).Vector {
			if c.Skip > 0 && i%c.Skip == 1 {
				w.SkipRow()
			}
			if err = w.Write(v); err != nil {
				return 0, nil, violf("value %d refused: %v", i, err)
			}
		}
		if err = w.Flush(); err != nil {
			return 0, nil, violf("flush failed: %v", err)
		}
		n, err = w.WriteOut(out)
		return
	}
	whole := &failOnce{}
	n, w, err := write(whole)
	if err != nil {
		return violf("no write failed, but %v", err)
	}
	if int(n) != len(whole.got) {
		return violf("%d bytes are written, but %d reported", len(whole.got), n)
	}
	sum := 0
	for _, s := range w.GetStreamInfos() {
		sum += int(s.GetLength())
	}
	if sum != len(whole.got) {
		return violf("%d bytes are written, but streams have %d", len(whole.got), sum)
	}
	for k := 1; k <= whole.n; k++ {
		if whole.lens[k-1] == 0 {
			continue
		}
		out := &failOnce{at: k, part: c.Part}
		_, _, err := write(out)
		ctx.Eval(1)
		if v := new(Violation); errors.As(err, &v) {
			return err
		}
		if err == nil {
			return violf("write %d of %d of the column failed, and no error is returned", k, whole.n)
		}
		ctx.ClassIf(k < whole.n, "not the last one fails")
		if whole.n > 1 {
			ctx.Nontrivial()
		}
	}
	ctx.Class(fmt.Sprint("writes: ", whole.n))
	return nil
}

// one-write: the file is a socket which does not take long messages

type longWriteCase struct {
	F    FileCase
	Max  []int // messages longer than that are refused; below 1000: per mille of the longest stream
	Name int   // length of the name of a column
}

const minSndbuf = 4608 // of linux, messages up to this minus 32 are taken

func genLongWrite(t *rapid.T) longWriteCase {
	o := colOpts{maxDepth: 1, maxSegs: 2, maxLen: 400}
	c := longWriteCase{F: FileCase{Root: ColSpec{K: ref.StructK}, Rows: rapid.IntRange(300, 2500).Draw(t, "rows"), O: drawOpts(t)}}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "cols"); i < n; i++ {
		k := drawCol(t, o, 0)
		k.N = fmt.Sprintf("c%d", i)
		k.walk(func(x *ColSpec) {
			if rapid.IntRange(0, 2).Draw(t, "wide") > 0 {
				x.D = []Seg{{K: "rand", N: 3000, W: rapid.IntRange(12, 64).Draw(t, "w"), S: drawSeed(t)}}
				if x.K == ref.String || x.K == ref.Binary || x.K == ref.Varchar || x.K == ref.Char {
					x.L = []Seg{{K: "rand", N: 64, W: rapid.IntRange(2, 6).Draw(t, "lw"), S: drawSeed(t)}}
				}
			}
		})
		c.F.Root.C = append(c.F.Root.C, k)
	}
	c.F.Root.countable()
	if rapid.IntRange(0, 3).Draw(t, "index") == 0 {
		c.F.O.Index, c.F.O.Stride = true, rapid.IntRange(1, 10).Draw(t, "stride")
	}
	c.F.O.Stripe = rapid.SampledFrom([]int{5000, 8000, 12000, 20000, 50000, 1 << 28}).Draw(t, "stripe")
	if c.F.O.Chunk < 1000 {
		c.F.O.Chunk = 1000
	}
	if rapid.IntRange(0, 4).Draw(t, "names") == 0 {
		c.Name = rapid.IntRange(4000, 9000).Draw(t, "name")
	}
	for k := rapid.IntRange(1, 4).Draw(t, "limits"); k > 0; k-- {
		c.Max = append(c.Max, rapid.OneOf(rapid.Just(minSndbuf), rapid.IntRange(100, 999)).Draw(t, "max"))
	}
	limitStripes(&c.F)
	return c
}

// pipeFile puts a socket in place of the file of the descriptor. What is
// written is given by the function which is returned.
func pipeFile(fd int, sndbuf int) func() []byte {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_SEQPACKET|syscall.SOCK_CLOEXEC, 0)
	must(err)
	must(syscall.SetsockoptInt(p[0], syscall.SOL_SOCKET, syscall.SO_SNDBUF, sndbuf/2))
	must(syscall.Dup3(p[0], fd, syscall.O_CLOEXEC))
	end := []byte("end of the messages of the file")
	res := make(chan []byte)
	go func() {
		var got []byte
		buf := make([]byte, 1<<20)
		for {
			n, err := syscall.Read(p[1], buf)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				panic(err)
			}
			if bytes.Equal(buf[:n], end) {
				break
			}
			got = append(got, buf[:n]...)
		}
		res <- got
	}()
	return func() []byte {
		for {
			_, err := syscall.Write(p[0], end)
			if err == syscall.EINTR {
				continue
			}
			must(err)
			break
		}
		got := <-res
		syscall.Close(p[0])
		syscall.Close(p[1])
		return got
	}
}

func runLongWrite(ctx *Ctx, c longWriteCase) error {
	if c.Name > 0 {
		c.F.Root.C = append([]ColSpec(nil), c.F.Root.C...)
		c.F.Root.C[0].N = strings.Repeat("n", c.Name)
	}
	rows := c.F.rows()
	path := ctx.Path()
	if err := writeFile(path, c.F, rows); err != nil {
		return err
	}
	want := readBytes(path)
	f, err := ref.Parse(want)
	if err != nil {
		return violf("file is wrong: %v", err)
	}
	classifyFile(ctx, c.F, f)
	longest := 0
	for _, s := range f.Stripes {
		for _, st := range s.Streams {
			if st.Len > longest {
				longest = st.Len
			}
		}
	}
	schema := c.F.Root.schema()
	if err := api.NormalizeSchema(schema); err != nil {
		return violf("schema refused: %v", err)
	}
	for _, max := range c.Max {
		if max < 1000 {
			max = longest*max/1000 + 32
		}
		if max < minSndbuf {
			max = minSndbuf
		}
		if max > 200000 {
			max = 200000
		}
		p := ctx.Path()
		w, err := orc.NewOSFileWriter(p, schema, c.F.O.config())
		if err != nil {
			return violf("writer refused: %v", err)
		}
		head := readBytes(p)
		fds := openFds(p)
		if len(fds) != 1 {
			panic(fmt.Sprint("descriptors of the writer: ", fds))
		}
		finish := pipeFile(fds[0], max)
		var errs []string
		for k, at := 0, 0; at < len(rows); k++ {
			n := len(rows) - at
			if len(c.F.O.Splits) > 0 {
				if s := c.F.O.Splits[k%len(c.F.O.Splits)]; s < n {
					n = s
				}
			}
			if err := w.Write(toVec(schema, rows[at:at+n], c.F.loc(), c.F.O.Garb)); err != nil {
				errs = append(errs, fmt.Sprint("write ", k, ": ", err))
			}
			at += n
		}
		if err := w.Close(); err != nil {
			errs = append(errs, fmt.Sprint("close: ", err))
		}
		got := append(head, finish()...)
		ctx.Eval(1)
		same := bytes.Equal(got, want)
		switch {
		case len(errs) == 0 && !same:
			return violf("writes of more than %d bytes failed, %d bytes of %d were written, and no call returned an error", max-32, len(got), len(want))
		case len(errs) > 0 && same: // what files do and sockets do not
			ctx.Class("failed otherwise")
		case same:
			ctx.Class("nothing failed")
		default:
			ctx.Nontrivial()
			ctx.ClassIf(strings.HasPrefix(errs[0], "close"), "close fails")
			ctx.ClassIf(strings.HasPrefix(errs[0], "write"), "write fails")
		}
	}
	return nil
}

func init() {
	register("C21", "columns", "a column of 1-700 values is written out, every write of it fails once, as a whole or in part; non-trivial: there is more than one write", 9600, 150000, genColumnFail, runColumnFail)
	register("C21", "long-writes", "tables of 1-5 columns, 300-2500 rows; only writes longer than a limit fail, later ones succeed, what was written is compared to the whole file; non-trivial: a write failed", 2400, 30000, genLongWrite, runLongWrite)
}
