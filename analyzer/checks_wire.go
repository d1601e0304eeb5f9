package main

// JSON and XML: the marshalling methods against their references, and the
// names that each type's fields have in documents.

import (
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// wireInterp evaluates marshalling methods. The type code of a command or
// descriptor is recorded in the value when it is asked for, so the values
// asked so far are part of what is marshalled.
func (c *ctx) wireInterp(st *state) *interp {
	in := c.opaqueInterp()
	c.asWire(in, st)
	return in
}

func (c *ctx) asWire(in *interp, st *state) {
	in.ghosts = []int{in.newCell(st, nil, tEmpty), in.newCell(st, nil, tEmpty)}
	in.xmlReads = in.newCell(st, nil, tZero)
	prev := in.icall
	in.icall = func(in *interp, fr *frame, st *state, v *T, m *types.Func, args []*T, ce *ast.CallExpr) ([]*T, bool) {
		if m.Pkg() == in.p.lib.tpkg && c.r.byName[m.Name()] == "id" {
			g := in.ghosts[1]
			if types.Identical(m.Type().(*types.Signature).Recv().Type().Underlying(), c.r.cmd) {
				g = in.ghosts[0]
			}
			u := unit(in.freeze(st, v), nil)
			if old := in.content(st, g); old != u {
				st.mem[g] = cat(old, u)
			}
		}
		return prev(in, fr, st, v, m, args, ce)
	}
}

func (c *ctx) wireFields(rule, name string, a, s *side, t *types.Named, got *T, skip map[string]bool) {
	u := t.Underlying().(*types.Struct)
	where := c.p.pos(a.fn.Pos())
	when := s.errNil(1)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() || skip[f.Name()] {
			continue
		}
		x, y := field(got, i, t), field(s.val(0), i, t)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			x, y = seqOf(x), seqOf(y)
		}
		c.same(rule, name+" "+f.Name(), where, x, y, when, newFacts())
	}
	c.same("error-nil", name, where, a.errNil(0), s.errNil(1), nil, newFacts())
	c.count("functions_compared", 1)
}

func (c *ctx) marshalJSON() {
	t := c.typeNamed("SpliceInfoSection")
	st := newState()
	in := c.wireInterp(st)
	recv := in.symReceiver(st, t, "v")
	a := c.runFn(in, st, c.method(t, "MarshalJSON"), recv)
	s := c.runFn(in, st, c.function("specMarshalJSON"), nil, recv)
	where := c.p.pos(a.fn.Pos())
	c.same("json-written", "MarshalJSON", where, seqOf(a.val(0)), seqOf(s.val(0)), s.errNil(1), newFacts())
	c.same("error-nil", "MarshalJSON", where, a.errNil(1), s.errNil(1), nil, newFacts())
	c.count("functions_compared", 1)
}

func (c *ctx) unmarshalJSON() {
	t := c.typeNamed("SpliceInfoSection")
	st := newState()
	in := c.wireInterp(st)
	b := in.newSliceSym(st, "doc")
	a := c.runFn(in, st, c.method(t, "UnmarshalJSON"), in.symReceiver(st, t, "earlier"), b)
	s := c.runFn(in, st, c.function("specUnmarshalJSON"), nil, b)
	c.wireFields("json-read", "UnmarshalJSON", a, s, t, a.recvVal(), map[string]bool{"XMLName": true, "PreRollMilliSeconds": true})
}

func (c *ctx) unmarshalDescriptorsJSON() {
	t := c.typeNamed("SpliceDescriptors")
	st := newState()
	in := c.wireInterp(st)
	b := in.newSliceSym(st, "doc")
	a := c.runFn(in, st, c.method(t, "UnmarshalJSON"), in.symReceiver(st, t, "earlier"), b)
	s := c.runFn(in, st, c.function("specUnmarshalDescriptorsJSON"), nil, b)
	where := c.p.pos(a.fn.Pos())
	c.same("json-read", "SpliceDescriptors", where, seqOf(a.recvVal()), seqOf(s.val(0)), s.errNil(1), newFacts())
	c.same("error-nil", "SpliceDescriptors", where, a.errNil(0), s.errNil(1), nil, newFacts())
	c.count("functions_compared", 1)
}

func (c *ctx) xmlArgs() (d, start *T) {
	sig := c.method(c.typeNamed("SpliceInfoSection"), "UnmarshalXML").Type().(*types.Signature)
	return mkSym("nonnil:decoder", sig.Params().At(0).Type()), mkSym("start", sig.Params().At(1).Type())
}

func (c *ctx) unmarshalXML() {
	t := c.typeNamed("SpliceInfoSection")
	st := newState()
	in := c.wireInterp(st)
	d, start := c.xmlArgs()
	a := c.runFn(in, st, c.method(t, "UnmarshalXML"), in.symReceiver(st, t, "earlier"), d, start)
	s := c.runFn(in, st, c.function("specUnmarshalXML"), nil, d, start)
	c.wireFields("xml-read", "UnmarshalXML", a, s, t, a.recvVal(), map[string]bool{"XMLName": true})
}

func (c *ctx) unmarshalDescriptorXML() {
	t := c.typeNamed("SpliceDescriptors")
	st := newState()
	in := c.wireInterp(st)
	d, start := c.xmlArgs()
	recv := in.symReceiver(st, t, "earlier")
	a := c.runFn(in, st, c.method(t, "UnmarshalXML"), recv, d, start)
	s := c.runFn(in, st, c.function("specUnmarshalDescriptorXML"), nil, in.load(st, recv), d, start)
	where := c.p.pos(a.fn.Pos())
	c.same("xml-read", "SpliceDescriptors", where, seqOf(a.recvVal()), seqOf(s.val(0)), s.errNil(1), newFacts())
	c.same("error-nil", "SpliceDescriptors", where, a.errNil(0), s.errNil(1), nil, newFacts())
	c.count("functions_compared", 1)
}

func (c *ctx) unmarshalUPIDXML() {
	t := c.typeNamed("SegmentationUPID")
	st := newState()
	in := c.wireInterp(st)
	d, start := c.xmlArgs()
	// encoding/xml calls it on a new element
	recv := mkPtr(in.newCell(st, t, in.zero(t)))
	a := c.runFn(in, st, c.method(t, "UnmarshalXML"), recv, d, start)
	s := c.runFn(in, st, c.function("specUnmarshalUPIDXML"), nil, in.zero(t), d, start)
	c.wireFields("xml-read", "SegmentationUPID", a, s, t, a.recvVal(), nil)
}

func init() {
	register(&check{id: "C18", spec: true, level: "translation_validation",
		rule: "MarshalJSON and the UnmarshalJSON methods and their references are evaluated abstractly on an arbitrary section and an arbitrary document; the document written, every field read and the condition of success must be the same value graph. The JSON names of every exported struct type must be those of the reference schema.",
		units: func(c *ctx) []aunit {
			return []aunit{{"marshal", func(c *ctx) { c.marshalJSON() }}, {"unmarshal", func(c *ctx) { c.unmarshalJSON() }},
				{"descriptors", func(c *ctx) { c.unmarshalDescriptorsJSON() }},
				{"schema", func(c *ctx) { c.schema("json") }}}
		},
		minimum: map[string]int{"json-written": 1, "json-read": 8, "error-nil": 3, "field-name": 80}})
	register(&check{id: "C19", spec: true, level: "translation_validation",
		rule: "The UnmarshalXML methods and their references are evaluated abstractly on an arbitrary element; every field read and the condition of success must be the same value graph. The XML names of every exported struct type must be those of the reference schema.",
		units: func(c *ctx) []aunit {
			return []aunit{{"section", func(c *ctx) { c.unmarshalXML() }}, {"descriptors", func(c *ctx) { c.unmarshalDescriptorXML() }},
				{"upid", func(c *ctx) { c.unmarshalUPIDXML() }},
				{"schema", func(c *ctx) { c.schema("xml") }}}
		},
		minimum: map[string]int{"xml-read": 10, "error-nil": 3, "field-name": 80}})
}

const scteSpace = "http://www.scte.org/schemas/35"

// wireTypes are the struct types that occur in the documents of a section.
func (c *ctx) wireTypes() []*types.Named {
	seen := map[*types.Named]bool{}
	var out []*types.Named
	var visit func(t types.Type)
	visit = func(t types.Type) {
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != c.p.lib.tpkg || seen[n] {
				return
			}
			seen[n] = true
			if _, ok := n.Underlying().(*types.Interface); ok {
				for _, x := range append(append([]*types.Named{}, c.r.cmdTypes...), c.r.descTypes...) {
					visit(x)
				}
				return
			}
			out = append(out, n)
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != c.p.lib.tpkg {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Exported() || u.Field(i).Embedded() {
					visit(u.Field(i).Type())
				}
			}
		}
	}
	visit(c.typeNamed("SpliceInfoSection"))
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// wireNames lists what encoding/json or encoding/xml makes of a type.
func wireNames(t *types.Named, format string) map[string]string {
	out := map[string]string{}
	var ms []string
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "MarshalXML", "UnmarshalXML", "MarshalXMLAttr", "UnmarshalXMLAttr"} {
		if !strings.Contains(m, strings.ToUpper(format)) && !strings.HasSuffix(m, "Text") {
			continue
		}
		if hasMethod(t, m) {
			ms = append(ms, m)
		}
	}
	out["methods"] = strings.Join(ms, " ")
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return out
	}
	if format == "json" {
		if hasMethod(t, "MarshalJSON") && hasMethod(t, "UnmarshalJSON") {
			return out
		}
		for _, f := range jsonFields(t) {
			s := f.name
			if f.omit {
				s += ",omitempty"
			}
			if f.kind != "" {
				s += "," + f.kind
			}
			out[f.goN] = s
		}
		return out
	}
	if hasMethod(t, "MarshalXML") && hasMethod(t, "UnmarshalXML") || hasMethod(t, "MarshalText") && hasMethod(t, "UnmarshalText") {
		return out
	}
	for _, f := range xmlFields(t) {
		s := f.kind + " " + strings.Replace(f.space, scteSpace, "35", 1) + ":" + f.name
		if f.omit {
			s += ",omitempty"
		}
		out[f.goN] = s
	}
	return out
}

// schema compares the names of every type's fields with the reference.
func (c *ctx) schema(format string) {
	b, err := os.ReadFile(filepath.Join(*verifDir, "spec", "wire-"+format+".txt"))
	if err != nil {
		giveUp("no reference schema: %v", err)
	}
	want := map[string]map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		k, v, _ := strings.Cut(l, " ")
		tn, fn, _ := strings.Cut(k, ".")
		if want[tn] == nil {
			want[tn] = map[string]string{}
		}
		want[tn][fn] = v
	}
	done := map[string]bool{}
	for _, t := range c.wireTypes() {
		n := t.Obj().Name()
		done[n] = true
		where := c.p.pos(t.Obj().Pos())
		if want[n] == nil {
			c.bad("field-name", n, where, "no reference schema for this type")
			continue
		}
		got := wireNames(t, format)
		var fs []string
		for f := range got {
			fs = append(fs, f)
		}
		for f := range want[n] {
			if _, ok := got[f]; !ok {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		for _, f := range fs {
			w := where
			if u, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == f {
						w = c.p.pos(u.Field(i).Pos())
					}
				}
			}
			g, x := got[f], want[n][f]
			ok := g == x
			for _, alt := range strings.Split(x, " | ") {
				ok = ok || g == alt
			}
			c.test(ok, "field-name", n+"."+f, w, "%s name is %q, the reference has %q", format, g, x)
		}
	}
	for n := range want {
		c.test(done[n], "field-type", n, "", "the type is no longer part of a section")
	}
}
