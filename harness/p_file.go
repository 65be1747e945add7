package main

import (
	"errors"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// asViolation wraps errors of reading what must be readable
func asViolation(err error, what string) error {
	var v *Violation
	if errors.As(err, &v) {
		return violf("%s: %s", what, v.msg)
	}
	return violf("%s: %v", what, err)
}

// C09: what is written is read

type roundCase struct {
	F     FileCase
	Batch int
}

func genRound(t *rapid.T) roundCase {
	return roundCase{F: drawFile(t), Batch: rapid.SampledFrom([]int{1000, 1, 3, 100, 512, 3000}).Draw(t, "batch")}
}

func runRound(ctx *Ctx, c roundCase) error {
	rows := c.F.rows()
	path := ctx.Path()
	if err := writeFile(path, c.F, rows); err != nil {
		return err
	}
	f, err := ref.Parse(readBytes(path))
	if err != nil {
		f = nil
	}
	classifyFile(ctx, c.F, f)
	got, err := readFile(path, readOpts{batches: []int{c.Batch}}, len(rows))
	if err != nil {
		return asViolation(err, "reading")
	}
	if d := ref.DiffRows(rows, got); d != "" {
		return violf("read %s", d)
	}
	return nil
}

// C12: the independent reader reads it

func runValid(ctx *Ctx, c FileCase) error {
	rows := c.rows()
	path := ctx.Path()
	if err := writeFile(path, c, rows); err != nil {
		return err
	}
	f, err := ref.Parse(readBytes(path))
	if err != nil {
		return violf("not a valid file: %v", err)
	}
	classifyFile(ctx, c, f)
	if d := diffNode(c.Root.node(), f.Root); d != "" {
		return violf("schema: %s", d)
	}
	got, _, err := f.ReadAll()
	if err != nil {
		return violf("not valid: %v", err)
	}
	if d := ref.DiffRows(rows, got); d != "" {
		return violf("independent reader: %s", d)
	}
	return nil
}

func diffNode(want, got *ref.Node) string {
	if want.Kind != got.Kind || len(want.Kids) != len(got.Kids) {
		return "types differ"
	}
	for i, n := range want.Names {
		if i >= len(got.Names) || got.Names[i] != n {
			return "field names differ"
		}
	}
	for i := range want.Kids {
		if d := diffNode(want.Kids[i], got.Kids[i]); d != "" {
			return d
		}
	}
	return ""
}

const fileRule = "tables of 1-4 columns (all writable types, nested structs, dictionary and direct strings, nullable and not, nulls in seven patterns, values from segments), 1-2500 rows, compression, chunk and stripe sizes, index strides, write splits; non-trivial: several stripes or chunks, more than 512 rows, nulls or nested structs"

func init() {
	register("C09", "round-trip", fileRule+"; read with one batch size", 10800, 120000, genRound, runRound)
	register("C12", "independent-reader", fileRule, 10200, 120000, drawFile, runValid)
}
