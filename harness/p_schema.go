package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// C23: schemas and options

// schemaCase is a tree of which only the types matter. Names are a function
// of their style and the number of the column.
type schemaCase struct {
	Root  ColSpec
	Names uint64
	Rows  int
	O     FileOpts
	Sets  []uint64
	Size  int
}

func fieldName(r *rng, i int) string {
	switch r.n(13) {
	case 12: // not UTF-8
		return fmt.Sprintf("\xff%d\xc3", i)
	case 0:
		return ""
	case 1:
		return "a"
	case 2:
		return fmt.Sprint("a.b.", i)
	case 3:
		return "数据列 ✓ ñ"
	case 4:
		return strings.Repeat("long name ", 1+r.n(40))
	case 5:
		return "ORC"
	case 6:
		return fmt.Sprintf("`q\"'%d\\\n\t\x00", i)
	case 7:
		return "_col" + fmt.Sprint(i)
	case 8:
		return strings.Repeat("x", 127+r.n(3))
	}
	return fmt.Sprint("c", i)
}

func noiseText(r *rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(' ' + r.n(94))
	}
	return string(b)
}

func (c schemaCase) named() *ColSpec {
	r := rng(c.Names)
	i := 0
	var walk func(x ColSpec) ColSpec
	walk = func(x ColSpec) ColSpec {
		kids := make([]ColSpec, len(x.C))
		for k := range x.C {
			kids[k] = walk(x.C[k])
			if kids[k].N = fieldName(&r, i); c.Names%3 == 0 { // a long footer
				kids[k].N = noiseText(&r, 100+r.n(200))
			}
			i++
		}
		x.C = kids
		return x
	}
	out := walk(c.Root)
	return &out
}

func drawTree(t *rapid.T, depth, width int) ColSpec {
	c := ColSpec{H: rapid.IntRange(0, 2).Draw(t, "nulls") == 0}
	if depth > 0 && rapid.IntRange(0, 2).Draw(t, "nested") > 0 {
		c.K = ref.StructK
		k := rapid.IntRange(1, width).Draw(t, "fields")
		if uniform(t, 0, 11) == 0 {
			k = 0
		}
		for ; k > 0; k-- {
			c.C = append(c.C, drawTree(t, depth-1, width))
		}
	} else {
		c.K = rapid.SampledFrom(leafKinds).Draw(t, "kind")
		c.E = rapid.IntRange(0, 1).Draw(t, "dict")
		if c.K == ref.Binary {
			c.E = 0
		}
		c.D = []Seg{{K: "rand", N: 9, W: 12, S: drawSeed(t)}}
		c.L = []Seg{{K: "rand", N: 9, W: 4, S: drawSeed(t)}}
	}
	if c.H {
		c.Nu = NullSpec{K: "rand", P: 30, S: drawSeed(t)}
	}
	return c
}

func genSchema(t *rapid.T) schemaCase {
	c := schemaCase{Names: drawSeed(t), Rows: rapid.IntRange(0, 60).Draw(t, "rows"), O: drawOpts(t)}
	switch rapid.IntRange(0, 5).Draw(t, "shape") {
	case 0: // deep
		x := drawTree(t, 0, 1)
		depth := rapid.IntRange(1, 30).Draw(t, "depth")
		if uniform(t, 0, 9) == 0 {
			depth = uniform(t, 30, 400)
		}
		for k := depth; k > 0; k-- {
			x = ColSpec{K: ref.StructK, C: []ColSpec{x}}
		}
		c.Root = x
	case 1: // wide
		c.Root = ColSpec{K: ref.StructK}
		for k := rapid.IntRange(1, 12).Draw(t, "wide"); k > 0; k-- {
			x := drawTree(t, 0, 1)
			for j := rapid.IntRange(1, 20).Draw(t, "copies"); j > 0; j-- {
				c.Root.C = append(c.Root.C, x)
			}
		}
	default:
		c.Root = drawTree(t, rapid.IntRange(0, 5).Draw(t, "maxDepth"), rapid.IntRange(1, 4).Draw(t, "width"))
	}
	c.Root.countable()
	if n := c.Root.count(); n > 12 && c.O.Stripe < 500*n {
		c.O.Stripe = 500 * n
	}
	if c.O.Comp == 0 || rapid.IntRange(0, 1).Draw(t, "anyChunk") == 0 {
		c.O.Chunk = rapid.IntRange(16, 1<<20).Draw(t, "chunkSize")
	}
	if c.O.Index && rapid.Bool().Draw(t, "anyStride") {
		c.O.Stride = rapid.IntRange(1, 1<<30).Draw(t, "strideSize")
	}
	if uniform(t, 0, 99) == 0 { // very wide
		x := drawTree(t, 0, 1)
		c.Root = ColSpec{K: ref.StructK}
		for k := uniform(t, 250, 1500); k > 0; k-- {
			c.Root.C = append(c.Root.C, x)
		}
		c.Rows, c.O.Chunk, c.O.Stripe = c.Rows%5, 16+c.O.Chunk%1000, 1<<24
	}
	for k := rapid.IntRange(1, 4).Draw(t, "sets"); k > 0; k-- {
		c.Sets = append(c.Sets, drawSeed(t))
	}
	c.Size = rapid.SampledFrom([]int{1, 2, 10, 100, 1000, 10000}).Draw(t, "size")
	if c.Root.count() > 30 && c.Size > 100 {
		c.Size = 100
	}
	return c
}

// sameTree compares a schema of the project with a tree of types.
func sameTree(what string, td *api.TypeDescription, want *ref.Node) error {
	if td == nil {
		return violf("%s: no schema", what)
	}
	id := 0
	var walk func(td *api.TypeDescription, n *ref.Node, path string) error
	walk = func(td *api.TypeDescription, n *ref.Node, path string) error {
		if int(td.Id) != id {
			return violf("%s: column %s has number %d, should have %d", what, path, td.Id, id)
		}
		id++
		if int(td.Kind) != n.Kind {
			return violf("%s: column %d is %s, should be %s", what, td.Id, td.Kind, pb.Type_Kind(n.Kind))
		}
		if len(td.Children) != len(n.Kids) {
			return violf("%s: column %d has %d children, should have %d", what, td.Id, len(td.Children), len(n.Kids))
		}
		if n.Kind == ref.StructK {
			if len(td.ChildrenNames) != len(n.Names) {
				return violf("%s: column %d has %d names of children, should have %d", what, td.Id, len(td.ChildrenNames), len(n.Names))
			}
			for i, name := range n.Names {
				if td.ChildrenNames[i] != name {
					return violf("%s: field %d of column %d is %q, should be %q", what, i, td.Id, td.ChildrenNames[i], name)
				}
			}
		}
		for i, k := range n.Kids {
			if err := walk(td.Children[i], k, fmt.Sprintf("%s.%d", path, i)); err != nil {
				return err
			}
		}
		return nil
	}
	return walk(td, want, "root")
}

func sameNodes(a, b *ref.Node) bool {
	if a.Kind != b.Kind || len(a.Kids) != len(b.Kids) {
		return false
	}
	if a.Kind == ref.StructK && fmt.Sprintf("%q", a.Names) != fmt.Sprintf("%q", b.Names) {
		return false
	}
	for i := range a.Kids {
		if !sameNodes(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// counts is false if a vector has no values to count.
func counts(td *api.TypeDescription) bool {
	if td.Kind != structKind || td.HasNulls {
		return true
	}
	for _, k := range td.Children {
		if counts(k) {
			return true
		}
	}
	return false
}

// checkVector makes sure that vec mirrors td.
func checkVector(vec *api.ColumnVector, td *api.TypeDescription, size int, create bool) error {
	if vec == nil {
		return violf("column %d has no vector", td.Id)
	}
	if vec.Id != td.Id || vec.Kind != td.Kind {
		return violf("vector of column %d (%s) has number %d and is %s", td.Id, td.Kind, vec.Id, vec.Kind)
	}
	if len(vec.Children) != len(td.Children) {
		return violf("vector of column %d has %d children, should have %d", td.Id, len(vec.Children), len(td.Children))
	}
	if create {
		if (td.Kind != structKind || vec.Vector != nil) && cap(vec.Vector) < size {
			return violf("vector of column %d (%s) has room for %d rows, should have for %d", td.Id, td.Kind, cap(vec.Vector), size)
		}
		if vec.Cap() < size && counts(td) {
			return violf("vector of column %d (%s) has capacity %d, should have %d", td.Id, td.Kind, vec.Cap(), size)
		}
	} else if len(vec.Vector) != 0 || cap(vec.Vector) != 0 {
		return violf("vector of column %d (%s) has %d values, there should be none", td.Id, td.Kind, len(vec.Vector))
	}
	for i, k := range td.Children {
		if err := checkVector(vec.Children[i], k, size, create); err != nil {
			return err
		}
	}
	return nil
}

func checkVectors(td *api.TypeDescription, seeds []uint64, size int) error {
	sets := [][]uint32{nil}
	for _, s := range seeds {
		if ids, in := includeSet(td, s); closedSet(td, in) && hasLeaf(td, in) {
			sets = append(sets, ids)
		}
	}
	for _, ids := range sets {
		for _, create := range []bool{true, false} {
			o := &api.BatchOption{RowSize: size, Includes: ids, NotCreateVector: !create}
			vec, err := td.CreateVector(o)
			if err != nil {
				return violf("vector of columns %v refused: %v", ids, err)
			}
			if err := checkVector(vec, prune(td, ids), size, create); err != nil {
				return violf("columns %v, size %d: %v", ids, size, err)
			}
			// two vectors share nothing
			if create {
				other, err := td.CreateVector(o)
				if err != nil {
					return violf("second vector refused: %v", err)
				}
				if v := sharedVec(vec, other); v != "" {
					return violf("columns %v: %s", ids, v)
				}
			}
		}
		for _, bad := range []int{0, -1, -size} {
			if vec, err := td.CreateVector(&api.BatchOption{RowSize: bad, Includes: ids}); err == nil {
				return violf("vector of size %d is made, capacity %d", bad, vec.Cap())
			}
		}
	}
	return nil
}

func sharedVec(a, b *api.ColumnVector) string {
	if a == b {
		return fmt.Sprintf("two vectors of column %d are the same", a.Id)
	}
	if cap(a.Vector) > 0 && cap(b.Vector) > 0 && &a.Vector[:1][0] == &b.Vector[:1][0] {
		return fmt.Sprintf("two vectors of column %d have the same values", a.Id)
	}
	for i := range a.Children {
		if s := sharedVec(a.Children[i], b.Children[i]); s != "" {
			return s
		}
	}
	return ""
}

func checkOptions(r orc.Reader, f *ref.File, rows int) error {
	o := r.GetReaderOptions()
	if int(o.CompressionKind) != f.Comp {
		return violf("compression is reported as %s, should be %s", o.CompressionKind, pb.CompressionKind(f.Comp))
	}
	if f.Comp != ref.None && o.ChunkSize != uint64(f.Block) {
		return violf("chunk size is reported as %d, should be %d", o.ChunkSize, f.Block)
	}
	if uint64(o.IndexStride) != f.Stride {
		return violf("index stride is reported as %d, should be %d", o.IndexStride, f.Stride)
	}
	if r.NumberOfRows() != uint64(rows) {
		return violf("%d rows are reported, should be %d", r.NumberOfRows(), rows)
	}
	return nil
}

func runSchema(ctx *Ctx, c schemaCase) error {
	root := c.named()
	node := root.node()
	schema := root.schema()
	count := root.count()
	depth := 0
	var dive func(x *ColSpec, d int)
	dive = func(x *ColSpec, d int) {
		if d > depth {
			depth = d
		}
		for i := range x.C {
			dive(&x.C[i], d+1)
		}
	}
	dive(root, 0)
	ctx.ClassIf(depth > 3, "deep")
	ctx.ClassIf(count > 50, "wide")
	if depth > 1 || count > 10 {
		ctx.Nontrivial()
	}
	for i := 0; i < 2; i++ { // twice is the same as once
		if err := api.NormalizeSchema(schema); err != nil {
			return violf("schema refused: %v", err)
		}
		if err := sameTree("after NormalizeSchema", schema, node); err != nil {
			return err
		}
	}
	flat, err := schema.Flat()
	if err != nil {
		return violf("schema is not flattened: %v", err)
	}
	var all []*api.TypeDescription
	var walk func(x *api.TypeDescription)
	walk = func(x *api.TypeDescription) {
		all = append(all, x)
		for _, k := range x.Children {
			walk(k)
		}
	}
	walk(schema)
	if len(flat) != len(all) {
		return violf("flattened schema has %d columns, should have %d", len(flat), len(all))
	}
	for i := range flat {
		if flat[i] != all[i] {
			return violf("column %d of the flattened schema is another one", i)
		}
	}
	types := api.SchemasToTypes(flat)
	if len(types) != len(all) {
		return violf("%d types, should be %d", len(types), len(all))
	}
	for i, ty := range types {
		td := all[i]
		if ty.GetKind() != td.Kind {
			return violf("type %d is %s, should be %s", i, ty.GetKind(), td.Kind)
		}
		if len(ty.Subtypes) != len(td.Children) || len(ty.FieldNames) != len(td.ChildrenNames) {
			return violf("type %d has %d children and %d names, should have %d", i, len(ty.Subtypes), len(ty.FieldNames), len(td.Children))
		}
		for j, k := range td.Children {
			if ty.Subtypes[j] != k.Id || ty.FieldNames[j] != td.ChildrenNames[j] {
				return violf("child %d of type %d is %d %q, should be %d %q", j, i, ty.Subtypes[j], ty.FieldNames[j], k.Id, td.ChildrenNames[j])
			}
		}
	}
	if err := checkVectors(schema, c.Sets, c.Size); err != nil {
		return violf("schema of the writer: %v", err)
	}

	path := ctx.Path()
	w, err := orc.NewOSFileWriter(path, schema, c.O.config())
	if err != nil {
		return violf("writer refused: %v", err)
	}
	if err := sameTree("schema of the writer", w.GetSchema(), node); err != nil {
		w.Close()
		return err
	}
	rows := root.slots(c.Rows)
	if len(rows) > 0 {
		if err := w.Write(toVec(schema, rows, FileCase{}.loc(), false)); err != nil {
			w.Close()
			return violf("writing failed: %v", err)
		}
	}
	if err := w.Close(); err != nil {
		return violf("closing the writer failed: %v", err)
	}
	f, err := ref.Parse(readBytes(path))
	if err != nil {
		return violf("file is not legal: %v", err)
	}
	ctx.ClassIf(len(f.Data)-f.MetaStart > 16<<10, "tail of more than 16 KB")
	if !sameNodes(f.Root, node) {
		return violf("types in the file are not those of the schema")
	}
	stride := uint64(0)
	if c.O.Index {
		stride = uint64(c.O.Stride)
	}
	if f.Comp != c.O.Comp || f.Comp != ref.None && f.Block != c.O.Chunk || f.Stride != stride || f.Rows != uint64(c.Rows) {
		return violf("file has compression %d, chunk size %d, stride %d, %d rows, should be %d, %d, %d, %d", f.Comp, f.Block, f.Stride, f.Rows, c.O.Comp, c.O.Chunk, stride, c.Rows)
	}
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	if err := sameTree("schema of the reader", r.GetSchema(), node); err != nil {
		return err
	}
	if err := checkOptions(r, f, c.Rows); err != nil {
		return err
	}
	if err := checkVectors(r.GetSchema(), c.Sets, c.Size); err != nil {
		return violf("schema of the reader: %v", err)
	}
	s, err := newSession(r, rows, readOpts{})
	if err != nil {
		return err
	}
	defer s.br.Close()
	return s.rest(c.Size)
}

type foreignSchema struct {
	F     ForeignCase
	Names uint64
	Sets  []uint64
	Size  int
}

func runForeignSchema(ctx *Ctx, c foreignSchema) error {
	named := schemaCase{Root: c.F.Root, Names: c.Names}.named()
	c.F.Root = *named
	s := c.F.spec()
	path := ctx.Path()
	b := ref.Write(s)
	f, err := ref.Parse(b)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
	classifyRoot(ctx, &c.F.Root)
	if c.F.Root.count() > 3 {
		ctx.Nontrivial()
	}
	r, err := openFor(path)
	if err != nil {
		return err
	}
	defer r.Close()
	if err := sameTree("schema of the reader", r.GetSchema(), c.F.Root.node()); err != nil {
		return err
	}
	if err := checkOptions(r, f, c.F.Rows); err != nil {
		return err
	}
	return checkVectors(r.GetSchema(), c.Sets, c.Size)
}

func init() {
	register("C23", "schemas", "trees of structs up to 30 deep, up to 240 columns, names of all sorts, any options; ids, names, kinds, flattening, types, vectors of all and of some columns, options; non-trivial: nested twice or more than 10 columns", 8000, 80000, genSchema, runSchema)
	register("C23", "foreign-schemas", "files of the independent writer, lists and maps too; non-trivial: more than 3 columns", 6000, 60000, func(t *rapid.T) foreignSchema {
		c := foreignSchema{F: drawForeign(t), Names: drawSeed(t), Size: rapid.SampledFrom([]int{1, 2, 10, 100, 1000}).Draw(t, "size")}
		c.F.Root = drawRoot(t, colOpts{maxDepth: 4, lists: true, maxSegs: 1, maxLen: 20})
		c.F.Root.walk(func(x *ColSpec) { x.E = 0 })
		c.F.Rows = rapid.IntRange(0, 30).Draw(t, "rowsF")
		for k := rapid.IntRange(1, 4).Draw(t, "sets"); k > 0; k-- {
			c.Sets = append(c.Sets, drawSeed(t))
		}
		return c
	}, runForeignSchema)
}
