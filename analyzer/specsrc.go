package main

// The reference: Go source checked together with the library. Names of the
// library that are not exported are resolved from their role and substituted.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func specSources(c *ctx) (map[string]map[string]string, error) {
	files, err := filepath.Glob(filepath.Join(*verifDir, "spec", "*.go"))
	if err != nil || len(files) == 0 {
		return nil, fmt.Errorf("no reference sources in %s/spec", *verifDir)
	}
	stuff := stuffingField(c)
	if stuff == "" {
		return nil, fmt.Errorf("cannot tell which field of SpliceInfoSection keeps alignment_stuffing")
	}
	var rep []string
	for role, n := range c.r.name {
		rep = append(rep, "CMD_"+role, n)
	}
	for role, n := range c.r.dname {
		rep = append(rep, "DESC_"+role, n)
	}
	rep = append(rep, "STUFFING", stuff)
	r := strings.NewReplacer(rep...)
	out := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out[filepath.Base(f)] = r.Replace(string(b))
	}
	return map[string]map[string]string{c.p.lib.path: out}, nil
}

// stuffingField finds the unexported byte slice of a section that the encoder
// (or a method it calls) reads.
func stuffingField(c *ctx) string {
	sis := c.p.typ(c.p.lib, "SpliceInfoSection")
	enc := c.p.fn(c.p.lib, "SpliceInfoSection.Encode")
	if sis == nil || enc == nil {
		return ""
	}
	st, _ := sis.Underlying().(*types.Struct)
	if st == nil {
		return ""
	}
	pi := c.p.lib
	seen := map[*types.Func]bool{}
	found := map[string]bool{}
	var visit func(f *types.Func)
	visit = func(f *types.Func) {
		fd := c.p.funcs[f]
		if fd == nil || seen[f] {
			return
		}
		seen[f] = true
		ast.Inspect(fd, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			switch o := pi.info.Uses[id].(type) {
			case *types.Func:
				visit(origin(o))
			case *types.Var:
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == o && !o.Exported() {
						if s, ok := o.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Uint8]) {
							found[o.Name()] = true
						}
					}
				}
			}
			return true
		})
	}
	visit(enc)
	if len(found) != 1 {
		return ""
	}
	for n := range found {
		return n
	}
	return ""
}
