package main

import (
	"embed"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ForeignCase is a file of the independent writer. It has everything a
// conforming writer may choose.
type ForeignCase struct {
	Root  ColSpec
	Rows  int
	Cuts  []int // rows of stripes, repeated
	Flags uint64
	Comp  int
	Block int
	Orig  int
	Dict  int
	Strid int
	Seed  uint64
	Pad   int
	Stats int
}

const (
	fSplit = 1 << iota
	fEmpty
	fSuppress
	fBloom
	fMeta
	fZero
	fShuffle
	fLoose
	fNoIndex
)

func (c ForeignCase) spec() *ref.Spec {
	s := &ref.Spec{Root: c.Root.node(), Rows: c.Root.slots(c.Rows), Comp: c.Comp, Block: c.Block, Originals: c.Orig, Stride: c.Strid,
		DictPct: c.Dict, Seed: c.Seed, Pad: c.Pad, Stats: c.Stats,
		Split: c.Flags&fSplit != 0, Empty: c.Flags&fEmpty != 0, Suppress: c.Flags&fSuppress != 0, Bloom: c.Flags&fBloom != 0,
		Metadata: c.Flags&fMeta != 0, Zero: c.Flags&fZero != 0, Shuffle: c.Flags&fShuffle != 0, Loose: c.Flags&fLoose != 0, NoIndex: c.Flags&fNoIndex != 0}
	left := c.Rows
	for k := 0; left > 0; k++ {
		n := left
		if len(c.Cuts) > 0 && k < 40 {
			if x := c.Cuts[k%len(c.Cuts)]; x < n {
				n = x
			}
		}
		s.Stripes = append(s.Stripes, n)
		left -= n
	}
	return s
}

func drawForeign(t *rapid.T) ForeignCase {
	c := ForeignCase{Comp: rapid.IntRange(0, 1).Draw(t, "comp")}
	c.Root = drawRoot(t, colOpts{maxDepth: 3, lists: true, maxSegs: 3, maxLen: 500})
	c.Root.walk(func(x *ColSpec) { x.E = 0 })
	c.Rows = drawRows(t)
	if c.Rows > 1300 {
		c.Rows -= 1200
	}
	for k := rapid.IntRange(0, 3).Draw(t, "cuts"); k > 0; k-- {
		c.Cuts = append(c.Cuts, rapid.SampledFrom([]int{1, 5, 100, 128, 500, 512, 513, 1000}).Draw(t, "cut"))
	}
	c.Block = rapid.SampledFrom([]int{64, 100, 200, 256, 1000, 4096, 65536, 262144}).Draw(t, "block")
	if rapid.IntRange(0, 15).Draw(t, "tiny") == 0 {
		c.Block = rapid.IntRange(16, 60).Draw(t, "tinyBlock")
	}
	c.Flags = uint64(uniform(t, 0, 511))
	c.Orig = rapid.SampledFrom([]int{0, 0, 30, 100}).Draw(t, "originals")
	c.Dict = rapid.SampledFrom([]int{0, 50, 100}).Draw(t, "dict")
	if rapid.IntRange(0, 2).Draw(t, "stride") > 0 {
		c.Strid = drawStride(t)
	}
	c.Seed = drawSeed(t)
	c.Pad = rapid.SampledFrom([]int{0, 0, 0, 7}).Draw(t, "pad")
	c.Stats = rapid.IntRange(0, 2).Draw(t, "stats")
	return c
}

// AnyFile is a file of the project, of the independent writer, or one that was
// written by the Java or C++ implementation.
type AnyFile struct {
	P *FileCase    `json:",omitempty"`
	F *ForeignCase `json:",omitempty"`
	J string       `json:",omitempty"`
}

//go:embed corpus/*.orc
var corpus embed.FS

type javaFile struct {
	b    []byte
	rows []any
	f    *ref.File
	root *ColSpec
}

var javaFiles = map[string]*javaFile{}

// java gives a file of the corpus as the independent reader sees it.
func java(name string) *javaFile {
	if x := javaFiles[name]; x != nil {
		return x
	}
	b, err := corpus.ReadFile("corpus/" + name)
	if err != nil {
		panic(err)
	}
	f, err := ref.Parse(b)
	if err != nil {
		panic(err)
	}
	rows, _, err := f.ReadAll()
	if err != nil {
		panic(err)
	}
	x := &javaFile{b: b, rows: rows, f: f, root: specOf(f.Root)}
	javaFiles[name] = x
	return x
}

func specOf(n *ref.Node) *ColSpec {
	c := &ColSpec{K: n.Kind}
	for _, k := range n.Kids {
		c.C = append(c.C, *specOf(k))
	}
	return c
}

// drawJava is one of the big ones, which have several stripes and row groups, now and then.
func drawJava(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "big") == 0 {
		return rapid.SampledFrom([]string{"testSeek.0.12.orc", "testColumnProjection.0.12.orc"}).Draw(t, "java")
	}
	return rapid.SampledFrom([]string{"testStructs.0.12.orc", "basicLongNoCompression.orc", "patchBaseNegativeMin.orc", "patchBaseNegativeMin2.orc", "patchBaseNegativeMin3.orc",
		"testStringAndBinaryStatistics.0.12.orc", "testTimestamp.0.12.orc"}).Draw(t, "java")
}

func drawAny(t *rapid.T) AnyFile {
	if rapid.IntRange(0, 39).Draw(t, "javaFile") == 39 {
		return AnyFile{J: drawJava(t)}
	}
	if rapid.IntRange(0, 2).Draw(t, "writer") == 0 {
		f := drawForeign(t)
		return AnyFile{F: &f}
	}
	f := drawFile(t)
	return AnyFile{P: &f}
}

func (a AnyFile) root() *ColSpec {
	if a.P != nil {
		return &a.P.Root
	}
	if a.J != "" {
		return java(a.J).root
	}
	return &a.F.Root
}

// make writes the file, and gives the rows and the independent view.
func (a AnyFile) make(ctx *Ctx, path string) (rows []any, f *ref.File, err error) {
	if a.J != "" {
		x := java(a.J)
		if err := os.WriteFile(path, x.b, 0o644); err != nil {
			panic(err)
		}
		ctx.Class("file of another implementation")
		ctx.ClassIf(len(x.f.Stripes) > 1, "several stripes")
		return x.rows, x.f, nil
	}
	if a.F != nil {
		s := a.F.spec()
		b := ref.Write(s)
		if f, err = ref.Parse(b); err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, b, 0o644); err != nil {
			panic(err)
		}
		ctx.Class("file of the independent writer")
		classifyRoot(ctx, &a.F.Root)
		ctx.ClassIf(len(f.Stripes) > 1, "several stripes")
		ctx.ClassIf(a.F.Strid > 0, "row index")
		ctx.ClassIf(a.F.Comp == 0, "uncompressed")
		return s.Rows, f, nil
	}
	rows = a.P.rows()
	if err := writeFile(path, *a.P, rows); err != nil {
		return nil, nil, err
	}
	if f, err = ref.Parse(readBytes(path)); err != nil {
		f = nil
	}
	classifyFile(ctx, *a.P, f)
	return rows, f, nil
}

func classifyRoot(ctx *Ctx, root *ColSpec) {
	root.walk(func(x *ColSpec) {
		switch x.K {
		case ref.ListK:
			ctx.Class("list")
		case ref.MapK:
			ctx.Class("map")
		}
		ctx.ClassIf(x.H && x.Nu.K != "", "nulls")
	})
	for i := range root.C {
		ctx.ClassIf(root.C[i].K == ref.StructK, "nested struct")
	}
}

// session is a batch reader with the model of what it must give.
type session struct {
	br     orc.BatchReader
	schema *api.TypeDescription // of the file
	pruned *api.TypeDescription
	o      readOpts
	rows   []any
	cursor int
	vecs   map[int]*api.ColumnVector
	kept   []keptBatch
	keep   bool // remember the batches
	may    bool // errors are errDamaged
	over   int  // rows there may be after rows, before an error
	log    string
}

// errDamaged is of a damaged file, which is refused.
var errDamaged = errors.New("refused")

type keptBatch struct {
	vec  *api.ColumnVector
	n    int
	from int
}

func newSession(r orc.Reader, rows []any, o readOpts) (*session, error) {
	s := &session{schema: r.GetSchema(), o: o, vecs: map[int]*api.ColumnVector{}}
	s.pruned = prune(s.schema, o.includes)
	s.rows = pruneRows(s.schema, o.includes, rows)
	var err error
	if o.rowSize == 0 {
		o.rowSize = 1000
	}
	s.br, err = r.CreateBatchReader(&api.BatchOption{RowSize: o.rowSize, Includes: o.includes, Loc: o.loc})
	if err != nil {
		return nil, violf("batch reader refused: %v", err)
	}
	return s, nil
}

func (s *session) where() string {
	if s.log == "" {
		return ""
	}
	return " (" + s.log + ")"
}

// read reads a batch and compares it. done is true if the end was reported.
func (s *session) read(size int, fresh bool) (done bool, err error) {
	vec := s.vecs[size]
	if vec == nil || fresh {
		if vec, err = s.schema.CreateVector(&api.BatchOption{RowSize: size, Includes: s.o.includes, Loc: s.o.loc}); err != nil {
			return false, violf("vector refused: %v", err)
		}
		s.vecs[size] = vec
	}
	end, err := s.br.Next(vec)
	if err != nil && s.may {
		return false, errDamaged
	}
	if err != nil {
		return false, violf("reading at row %d of %d%s: %v", s.cursor, len(s.rows), s.where(), err)
	}
	n := vec.Len()
	if n > size {
		return false, violf("%d rows read, batch has room for %d", n, size)
	}
	if s.cursor+n > len(s.rows)+s.over {
		return false, violf("%d rows read at row %d of %d%s", n, s.cursor, len(s.rows), s.where())
	}
	vals, err := fromVec(s.pruned, vec, n)
	if err != nil {
		return false, violf("batch at row %d%s: %v", s.cursor, s.where(), err)
	}
	known := s.rows[min(s.cursor, len(s.rows)):min(s.cursor+n, len(s.rows))]
	if d := ref.DiffRows(known, vals[:len(known)]); d != "" {
		return false, violf("batch at row %d of %d%s: %s", s.cursor, len(s.rows), s.where(), d)
	}
	if s.o.loc != nil {
		if err := checkLoc(vec, s.o.loc); err != nil {
			return false, err
		}
	}
	if s.keep && n > 0 {
		k := keptBatch{vec, n, s.cursor}
		if !fresh {
			k.vec = shallow(vec) // the values stay, the vector is used again
		}
		s.kept = append(s.kept, k)
	}
	s.cursor += n
	if end && s.over > 0 {
		return true, violf("end reported after row %d, there should be more%s", s.cursor, s.where())
	}
	if end && s.cursor < len(s.rows) {
		return true, violf("end reported after row %d of %d%s", s.cursor, len(s.rows), s.where())
	}
	if !end && n == 0 {
		return false, violf("no rows and no end at row %d of %d%s", s.cursor, len(s.rows), s.where())
	}
	return end, nil
}

// unchanged makes sure that the batches read before still are the same.
func (s *session) unchanged() error {
	for _, k := range s.kept {
		vals, err := fromVec(s.pruned, k.vec, k.n)
		if err != nil {
			return violf("batch of rows %d to %d has changed: %v", k.from, k.from+k.n, err)
		}
		if d := ref.DiffRows(s.rows[k.from:k.from+k.n], vals); d != "" {
			return violf("batch of rows %d to %d has changed: %s", k.from, k.from+k.n, d)
		}
	}
	return nil
}

func (s *session) seek(row int) error {
	if err := s.br.Seek(uint64(row)); err != nil {
		if s.may {
			return errDamaged
		}
		return violf("seek to row %d of %d%s: %v", row, len(s.rows), s.where(), err)
	}
	s.cursor = row
	return nil
}

func (s *session) rest(size int) error {
	for i := 0; ; i++ {
		if i > len(s.rows)+s.over+1 {
			return violf("no end after %d batches", i)
		}
		done, err := s.read(size, false)
		if err != nil || done {
			return err
		}
	}
}

// shallow copies the vectors, not the values.
func shallow(v *api.ColumnVector) *api.ColumnVector {
	c := &api.ColumnVector{Id: v.Id, Kind: v.Kind, Vector: append([]api.Value{}, v.Vector...)}
	for _, k := range v.Children {
		c.Children = append(c.Children, shallow(k))
	}
	return c
}

func checkLoc(v *api.ColumnVector, loc *time.Location) error {
	for i, x := range v.Vector {
		if ts, ok := x.V.(api.Timestamp); ok && !x.Null {
			want := time.Unix(time.Date(2015, 1, 1, 0, 0, 0, 0, loc).Unix()+ts.Seconds, int64(ts.Nanos))
			if got := ts.Time(); !got.Equal(want) {
				return violf("timestamp %d of column %d, read in %s, is %s, should be %s", i, v.Id, loc, got, want)
			}
		}
	}
	for _, k := range v.Children {
		if err := checkLoc(k, loc); err != nil {
			return err
		}
	}
	return nil
}

// pruneRows takes the fields which are not included away.
func pruneRows(td *api.TypeDescription, includes []uint32, rows []any) []any {
	if len(includes) == 0 {
		return rows
	}
	in := map[uint32]bool{}
	for _, i := range includes {
		in[i] = true
	}
	var walk func(x *api.TypeDescription, v any) any
	walk = func(x *api.TypeDescription, v any) any {
		switch w := v.(type) {
		case ref.Struct:
			out := ref.Struct{}
			for i, k := range x.Children {
				if in[k.Id] {
					out = append(out, walk(k, w[i]))
				}
			}
			return out
		case ref.List:
			out := ref.List{}
			for _, e := range w {
				out = append(out, walk(x.Children[0], e))
			}
			return out
		case ref.Map:
			out := ref.Map{}
			for _, e := range w {
				out = append(out, [2]any{walk(x.Children[0], e[0]), walk(x.Children[1], e[1])})
			}
			return out
		}
		return v
	}
	out := make([]any, len(rows))
	for i, r := range rows {
		out[i] = walk(td, r)
	}
	return out
}

// C10: batches

type batchCase struct {
	F     AnyFile
	Sizes [][]int // of a pass, repeated; 0 and less are relative to the rows of the first stripe
	Fresh bool
}

func genBatch(t *rapid.T) batchCase {
	c := batchCase{F: drawAny(t), Fresh: rapid.IntRange(0, 3).Draw(t, "fresh") == 0}
	for p := rapid.IntRange(1, 3).Draw(t, "passes"); p > 0; p-- {
		var s []int
		for k := rapid.IntRange(1, 3).Draw(t, "sizes"); k > 0; k-- {
			switch rapid.IntRange(0, 3).Draw(t, "sizeK") {
			case 0:
				s = append(s, rapid.IntRange(1, 12).Draw(t, "size"))
			case 1:
				s = append(s, rapid.IntRange(-3, 0).Draw(t, "size"))
			case 2:
				s = append(s, rapid.SampledFrom([]int{1, 100, 128, 511, 512, 513, 1000, 1024, 5000}).Draw(t, "size"))
			default:
				s = append(s, rapid.IntRange(1, 1500).Draw(t, "size"))
			}
		}
		c.Sizes = append(c.Sizes, s)
	}
	return c
}

// size of a batch for a file
func batchSize(x int, f *ref.File, rows int) int {
	if x > 0 {
		return x
	}
	n := rows
	if f != nil && len(f.Stripes) > 0 {
		n = int(f.Stripes[0].Rows)
	}
	switch x {
	case -1:
		n--
	case -2:
		n++
	case -3:
		n = (n + 1) / 2
	}
	if n < 1 {
		n = 1
	}
	return n
}

func openFor(path string) (orc.Reader, error) {
	r, err := orc.NewOSFileReader(path)
	if err != nil {
		return nil, violf("file refused: %v", err)
	}
	return r, nil
}

func runBatch(ctx *Ctx, c batchCase) error {
	path := ctx.Path()
	rows, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	if r.NumberOfRows() != uint64(len(rows)) {
		return violf("%d rows reported, there are %d", r.NumberOfRows(), len(rows))
	}
	for k, sizes := range c.Sizes {
		// the size asked for is that of the vector
		s, err := newSession(r, rows, readOpts{rowSize: []int{0, batchSize(sizes[0], f, len(rows)), 1 + sizes[0]*sizes[0]%2000}[(k+len(sizes))%3]})
		if err != nil {
			return err
		}
		s.log = fmt.Sprint("batch sizes ", sizes)
		err = func() error {
			n := 0
			for i := 0; ; i++ {
				if i > len(rows)+1 {
					return violf("no end after %d batches", i)
				}
				done, err := s.read(batchSize(sizes[i%len(sizes)], f, len(rows)), c.Fresh)
				if err != nil {
					return err
				}
				n++
				if done {
					break
				}
			}
			if s.cursor != len(rows) {
				return violf("end reported after row %d of %d", s.cursor, len(rows))
			}
			ctx.ClassIf(n > 2, "several batches")
			if n > 2 && f != nil && len(f.Stripes) > 1 {
				ctx.Nontrivial()
			}
			for i := 0; i < 3; i++ {
				done, err := s.read(batchSize(sizes[i%len(sizes)], f, len(rows)), c.Fresh)
				if err != nil {
					return err
				}
				if !done {
					return violf("reading after the end gives no end")
				}
			}
			return nil
		}()
		s.br.Close()
		if err != nil {
			return err
		}
		ctx.Eval(1)
	}
	return nil
}

// C15: projection

type projCase struct {
	F     AnyFile
	Sets  []uint64 // seeds of inclusion sets
	Batch int
	Seek  bool
}

func genProj(t *rapid.T) projCase {
	c := projCase{F: drawAny(t), Batch: rapid.SampledFrom([]int{1000, 1, 7, 300, 3000}).Draw(t, "batch"), Seek: rapid.IntRange(0, 2).Draw(t, "seek") == 0}
	for k := rapid.IntRange(1, 4).Draw(t, "sets"); k > 0; k-- {
		c.Sets = append(c.Sets, drawSeed(t))
	}
	return c
}

// closed says if the set is one which has to be read.
func closedSet(td *api.TypeDescription, in map[uint32]bool) bool {
	ok := in[0]
	known := map[uint32]bool{}
	var walk func(x *api.TypeDescription)
	walk = func(x *api.TypeDescription) {
		known[x.Id] = true
		for _, k := range x.Children {
			if in[k.Id] && !in[x.Id] {
				ok = false
			}
			if x.Kind != structKind && in[x.Id] && !in[k.Id] {
				ok = false
			}
			walk(k)
		}
	}
	walk(td)
	for i := range in {
		ok = ok && known[i]
	}
	return ok
}

const structKind = ref.StructK

// includeSet makes a set: closed ones most of the time.
func includeSet(td *api.TypeDescription, seed uint64) (ids []uint32, in map[uint32]bool) {
	r := rng(seed)
	in = map[uint32]bool{}
	total := 0
	var all []*api.TypeDescription
	var walk func(x *api.TypeDescription)
	walk = func(x *api.TypeDescription) {
		total++
		all = append(all, x)
		for _, k := range x.Children {
			walk(k)
		}
	}
	walk(td)
	if r.n(6) == 0 { // anything
		for i := 0; i < total; i++ {
			if r.n(2) == 0 {
				in[uint32(i)] = true
			}
		}
		if r.n(5) == 0 {
			in[uint32(total+r.n(3))] = true
		}
		if len(in) == 0 {
			in[uint32(r.n(total))] = true
		}
	} else {
		pct := []int{20, 50, 80}[r.n(3)]
		var pick func(x *api.TypeDescription)
		pick = func(x *api.TypeDescription) {
			in[x.Id] = true
			if x.Kind != structKind {
				for _, k := range x.Children {
					pick(k)
				}
				return
			}
			any := false
			for _, k := range x.Children {
				if r.n(100) < pct {
					pick(k)
					any = true
				}
			}
			// a struct without fields tells nothing
			if !any && len(x.Children) > 0 {
				pick(x.Children[r.n(len(x.Children))])
			}
		}
		pick(td)
	}
	for i := 0; i < total+3; i++ {
		if in[uint32(i)] {
			ids = append(ids, uint32(i))
		}
	}
	if r.n(3) == 0 {
		for i := len(ids) - 1; i > 0; i-- {
			j := r.n(i + 1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	if r.n(6) == 0 {
		ids = append(ids, ids[r.n(len(ids))])
	}
	return
}

func runProj(ctx *Ctx, c projCase) error {
	path := ctx.Path()
	rows, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	for _, seed := range c.Sets {
		ids, in := includeSet(r.GetSchema(), seed)
		if closedSet(r.GetSchema(), in) && hasLeaf(r.GetSchema(), in) {
			if len(in) < c.F.root().count() {
				ctx.Class("some columns left out")
				ctx.Nontrivial()
			}
			s, err := newSession(r, rows, readOpts{includes: ids})
			if err != nil {
				return violf("columns %v: %v", ids, err)
			}
			s.log = fmt.Sprint("columns ", ids)
			err = func() error {
				if err := s.rest(c.Batch); err != nil {
					return err
				}
				if !c.Seek || len(rows) == 0 {
					return nil
				}
				q := rng(seed)
				for i := 0; i < 2; i++ {
					if err := s.seek(q.n(len(rows))); err != nil {
						return err
					}
					if err := s.rest(c.Batch); err != nil {
						return err
					}
				}
				ctx.Class("seeks")
				return nil
			}()
			s.br.Close()
			if err != nil {
				return err
			}
			ctx.Eval(1)
			continue
		}
		// to be refused, or read as if the parents were there
		ctx.Class("set is not closed")
		ctx.Eval(1)
		got, err := readFile(path, readOpts{includes: ids, batches: []int{c.Batch}}, len(rows)+1)
		if err != nil {
			continue
		}
		if !in[0] {
			return violf("columns %v: the root is not included, but it is read", ids)
		}
		want := pruneRows(r.GetSchema(), ids, rows)
		if d := ref.DiffRows(want, got); d != "" {
			return violf("columns %v, which is not closed, are read: %s", ids, d)
		}
	}
	_ = f
	return nil
}

// hasLeaf is true if the number of rows, and of all elements, can be told from
// the included columns: a struct without nulls has no values of its own.
func hasLeaf(td *api.TypeDescription, in map[uint32]bool) bool {
	ok := true
	var walk func(x *api.TypeDescription) bool
	walk = func(x *api.TypeDescription) bool {
		counts := x.Kind != structKind || x.HasNulls
		for _, k := range x.Children {
			if in[k.Id] {
				c := walk(k)
				if x.Kind != structKind && !c {
					ok = false
				}
				counts = counts || c
			}
		}
		return counts
	}
	return walk(td) && ok
}

// C16: seeking

// seekOp is a seek, followed by reading some batches.
type seekOp struct {
	K     int // 0 row, 1 relative to a stripe, 2 relative to a row group, 3 beyond the end
	A     int
	D     int
	Reads int // -1 to the end
	Size  int
}

type seekCase struct {
	F    AnyFile
	Pre  int // batches before
	Ops  []seekOp
	Incl uint64 // seed of an inclusion set, 0 for all
}

func genSeek(t *rapid.T) seekCase {
	c := seekCase{F: drawAny(t), Pre: rapid.IntRange(0, 3).Draw(t, "pre")}
	if c.F.P != nil && rapid.IntRange(0, 3).Draw(t, "indexed") > 0 && !c.F.P.O.Index {
		c.F.P.O.Index, c.F.P.O.Stride = true, drawStride(t)
	}
	if rapid.IntRange(0, 4).Draw(t, "proj") == 0 {
		c.Incl = drawSeed(t) + 1
	}
	for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
		o := seekOp{K: rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3}).Draw(t, "seek"), A: rapid.IntRange(0, 3000).Draw(t, "at"), D: rapid.IntRange(-2, 2).Draw(t, "d"),
			Reads: rapid.IntRange(-1, 3).Draw(t, "reads"), Size: rapid.SampledFrom([]int{1, 2, 10, 100, 500, 512, 1000, 3000}).Draw(t, "size")}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// target row of a seek
func (o seekOp) row(rows int, f *ref.File) int {
	n := 0
	switch o.K {
	case 1:
		if f != nil {
			for i := 0; i < o.A%(len(f.Stripes)+1); i++ {
				n += int(f.Stripes[i].Rows)
			}
		}
		n += o.D
	case 2:
		if f != nil && f.Stride > 0 {
			k := o.A % len(f.Stripes)
			for i := 0; i < k; i++ {
				n += int(f.Stripes[i].Rows)
			}
			groups := (int(f.Stripes[k].Rows) + int(f.Stride) - 1) / int(f.Stride)
			n += (o.A / 7 % groups) * int(f.Stride)
		} else {
			n = o.A
		}
		n += o.D
	default:
		n = o.A
	}
	n %= rows
	if n < 0 {
		n += rows
	}
	return n
}

func runSeek(ctx *Ctx, c seekCase) error {
	path := ctx.Path()
	rows, f, err := c.F.make(ctx, path)
	if err != nil {
		return err
	}
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	var o readOpts
	if c.Incl != 0 {
		ids, in := includeSet(r.GetSchema(), c.Incl)
		if closedSet(r.GetSchema(), in) && hasLeaf(r.GetSchema(), in) {
			o.includes = ids
			ctx.Class("projection")
		}
	}
	s, err := newSession(r, rows, o)
	if err != nil {
		return err
	}
	defer s.br.Close()
	for i := 0; i < c.Pre; i++ {
		if _, err := s.read(100, false); err != nil {
			return err
		}
	}
	for k, op := range c.Ops {
		if op.K == 3 || len(rows) == 0 {
			n := len(rows) + op.A%50*op.A%7
			if err := s.br.Seek(uint64(n)); err == nil {
				return violf("seek to row %d of %d is no error", n, len(rows))
			}
			ctx.Class("seek beyond the end")
			continue
		}
		n := op.row(len(rows), f)
		s.log += fmt.Sprintf("seek %d, ", n)
		if k == 0 {
			s.log = fmt.Sprintf("columns %v, seek %d, ", o.includes, n)
		}
		ctx.ClassIf(n < s.cursor, "backwards")
		if f != nil && f.Stride > 0 && uint64(n) >= f.Stride {
			ctx.Class("by row index")
			ctx.Nontrivial()
		}
		if f != nil && len(f.Stripes) > 1 {
			ctx.Nontrivial()
		}
		if err := s.seek(n); err != nil {
			return err
		}
		if op.Reads < 0 {
			if err := s.rest(op.Size); err != nil {
				return err
			}
		}
		for i := 0; i < op.Reads; i++ {
			done, err := s.read(op.Size, false)
			if err != nil {
				return err
			}
			if done {
				break
			}
		}
		ctx.Eval(1)
	}
	return nil
}

// C14: files of other writers

type foreignCase struct {
	F     ForeignCase
	J     string `json:",omitempty"` // instead of F
	Batch int
	Zone  string
}

func runForeignFile(ctx *Ctx, c foreignCase) error {
	path := ctx.Path()
	file := AnyFile{F: &c.F}
	if c.J != "" {
		file = AnyFile{J: c.J}
	}
	rows, f, err := file.make(ctx, path)
	if err != nil {
		return err
	}
	o := readOpts{}
	if c.Zone != "" {
		if o.loc, err = time.LoadLocation(c.Zone); err != nil {
			panic(err)
		}
	}
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	s, err := newSession(r, rows, o)
	if err != nil {
		return err
	}
	defer s.br.Close()
	for flag, name := range map[uint64]string{fSplit: "chunks of any size", fEmpty: "empty chunks", fSuppress: "suppressed present streams", fBloom: "bloom filters", fMeta: "metadata", fZero: "empty streams", fShuffle: "streams in any order", fLoose: "positions in earlier runs", fNoIndex: "row indexes left out"} {
		ctx.ClassIf(c.J == "" && c.F.Flags&flag != 0, name)
	}
	dict := false
	for _, st := range f.Stripes {
		for _, e := range st.Encs {
			dict = dict || e.Kind == ref.EDictV2
		}
	}
	ctx.ClassIf(dict, "dictionary")
	if len(rows) > 20 || dict || len(f.Stripes) > 1 {
		ctx.Nontrivial()
	}
	return s.rest(c.Batch)
}

func init() {
	const files = "files of the project (two in three) and of the independent writer with lists and maps; "
	register("C10", "batches", files+"1-3 passes with sequences of batch sizes, also relative to stripe sizes; non-trivial: several stripes and batches", 8000, 100000, genBatch, runBatch)
	register("C15", "projection", files+"1-4 inclusion sets, one in six arbitrary, shuffled and repeated ids, with seeks; non-trivial: columns are left out", 8000, 100000, genProj, runProj)
	register("C16", "seek", files+"1-8 seeks near stripes, row groups, anywhere and beyond the end, with reads in between; non-trivial: several stripes or row groups", 9000, 200000, genSeek, runSeek)
	register("C14", "foreign", "files of an independent writer: random legal runs, dictionaries, lists, maps, nested structs, chunk mixtures, stream orders, optional parts; non-trivial: more than 20 rows, a dictionary or several stripes",
		24000, 400000, func(t *rapid.T) foreignCase {
			c := foreignCase{F: drawForeign(t), Batch: rapid.SampledFrom([]int{1000, 1, 3, 100, 512, 3000}).Draw(t, "batch")}
			if c.F.Root.has(ref.TimestampK) && rapid.Bool().Draw(t, "zoneK") {
				c.Zone = rapid.SampledFrom(zones).Draw(t, "zone")
			}
			if rapid.IntRange(0, 79).Draw(t, "javaFile") == 79 {
				c.J = drawJava(t)
			}
			return c
		}, runForeignFile)
}
