package main

// Panics and termination: every obligation met while evaluating an entry
// point abstractly must hold on every path.

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

// settle reports the obligations collected by an evaluation.
func (c *ctx) settle(in *interp, entry string, terminates bool) {
	type key struct{ rule, fn string }
	good := map[key]string{}
	var order []key
	n := 0
	for _, k := range in.oblOrder {
		o := in.obls[k]
		if (o.kind == "terminates") != terminates {
			continue
		}
		n++
		name := o.fn
		if name == "" {
			name = entry
		}
		if !o.ok {
			c.bad(o.kind, name, c.p.pos(o.pos), "reached from %s; not shown: %s", entry, o.why)
			continue
		}
		kk := key{o.kind, name}
		if good[kk] == "" {
			good[kk] = c.p.pos(o.pos)
			order = append(order, kk)
		}
	}
	for _, k := range order {
		c.ok(k.rule, k.fn, good[k])
	}
	c.ok("entry", entry, "")
	if terminates {
		c.count("loops", in.nloops)
	} else {
		c.count("sites", n)
	}
}

// entry is a function evaluated from arbitrary arguments.
type entry struct {
	name string
	fn   *types.Func
	role string
}

func (c *ctx) runEntry(e entry, opaque []string, terminates bool) {
	in := c.opaqueInterp(opaque...)
	if len(opaque) == 1 && opaque[0] == "none" {
		in = newInterp(c.p)
	}
	if sis := c.typeNamed("SpliceInfoSection"); e.name != "(*SpliceInfoSection).Decode" {
		in.opaqueDecode(sis, c.method(sis, "Decode"))
	}
	in.noStrict = false
	st := newState()
	if strings.HasPrefix(e.fn.Name(), "Marshal") || strings.HasPrefix(e.fn.Name(), "Unmarshal") {
		c.asWire(in, st)
	}
	sig := e.fn.Type().(*types.Signature)
	var recv *T
	if r := sig.Recv(); r != nil {
		if pt, ok := r.Type().Underlying().(*types.Pointer); ok {
			recv = in.symReceiver(st, pt.Elem().(*types.Named), "v")
		} else {
			recv = mkSym("v", r.Type())
		}
	}
	var args []*T
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		a := mkSym("a"+itoa(i), pt)
		if p, ok := pt.(*types.Pointer); ok && e.role == "writeTo" {
			a = in.tableArg(st, p.Elem().(*types.Named))
		} else if ok && types.TypeString(p.Elem(), nil) == "encoding/xml.Decoder" {
			a = mkSym("nonnil:decoder", pt)
		}
		args = append(args, a)
	}
	c.runFn(in, st, e.fn, recv, args...)
	c.settle(in, e.name, terminates)
}

// tableArg is a table under construction; its callers are shown to pass one
// that is not nil and whose pointers are set (see appendText).
func (in *interp) tableArg(st *state, t *types.Named) *T {
	p := in.symReceiver(st, t, "t")
	if u, ok := t.Underlying().(*types.Struct); ok {
		v := in.load(st, p)
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok {
				st.K = st.K.with(isNil(field(v, i, t)), false)
			}
		}
	}
	return p
}

func (c *ctx) roleEntries(roles ...string) []entry {
	var out []entry
	for _, r := range roles {
		for _, t := range c.r.cmdTypes {
			f := c.method(t, c.r.name[r])
			out = append(out, entry{shortName(f), f, r})
		}
		for _, t := range c.r.descTypes {
			f := c.method(t, c.r.dname[r])
			out = append(out, entry{shortName(f), f, r})
		}
	}
	return out
}

// exported lists the exported functions and methods of the library.
func (c *ctx) exported() []entry {
	var out []entry
	sc := c.p.lib.tpkg.Scope()
	for _, n := range sc.Names() {
		switch o := sc.Lookup(n).(type) {
		case *types.Func:
			if o.Exported() {
				out = append(out, entry{shortName(o), o, ""})
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || o.IsAlias() || !o.Exported() {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if m := nt.Method(i); m.Exported() {
					out = append(out, entry{shortName(m), m, ""})
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func isDecodeEntry(e entry) bool {
	switch e.fn.Name() {
	case "Decode", "DecodeBase64", "DecodeHex":
		return true
	}
	return false
}

func (c *ctx) safetyUnits(which func(e entry) bool, terminates bool, roles ...string) []aunit {
	var us []aunit
	for _, e := range c.roleEntries(roles...) {
		us = append(us, aunit{e.name, func(c *ctx) { c.runEntry(e, []string{"none"}, terminates) }})
	}
	for _, e := range c.exported() {
		if which(e) {
			us = append(us, aunit{e.name, func(c *ctx) { c.runEntry(e, nil, terminates) }})
		}
	}
	return us
}

// acyclic: an uninterpreted call (a method of a command or descriptor, a
// section decoder, a method that encoding/json or encoding/xml calls back) is
// decided by itself, which is an argument for termination only when no such
// call can lead back to itself.
func (c *ctx) acyclic() {
	out := map[*types.Func]map[*types.Func]ast.Node{}
	var all []*types.Func
	byName := map[string][]*types.Func{}
	c.bodies(c.p.lib, func(fn *types.Func, fd *ast.FuncDecl) {
		all = append(all, fn)
		if fn.Type().(*types.Signature).Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
	})
	c.bodies(c.p.lib, func(fn *types.Func, fd *ast.FuncDecl) {
		out[fn] = map[*types.Func]ast.Node{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			f, ok := c.p.lib.info.Uses[id].(*types.Func)
			if !ok || f.Pkg() != c.p.lib.tpkg {
				return true
			}
			f = origin(f)
			if r := f.Type().(*types.Signature).Recv(); r != nil && types.IsInterface(r.Type()) {
				for _, g := range byName[f.Name()] {
					out[fn][g] = id
				}
				return true
			}
			out[fn][f] = id
			return true
		})
	})
	for _, fn := range all {
		role, _, _ := c.r.roleFor(fn)
		if role == "" && !fn.Exported() {
			continue
		}
		seen := map[*types.Func]bool{}
		var path []*types.Func
		var walk func(f *types.Func) bool
		walk = func(f *types.Func) bool {
			for g := range out[f] {
				if g == fn {
					path = append(path, f)
					return true
				}
				if !seen[g] {
					seen[g] = true
					if walk(g) {
						path = append(path, f)
						return true
					}
				}
			}
			return false
		}
		var names []string
		if walk(fn) {
			for i := len(path) - 1; i >= 0; i-- {
				names = append(names, shortName(path[i]))
			}
		}
		c.test(len(names) == 0, "acyclic", shortName(fn), c.p.pos(fn.Pos()), "calls itself through %s", strings.Join(names, " -> "))
	}
}

func init() {
	register(&check{id: "C12", level: "proof",
		rule:    "Decode, DecodeBase64, DecodeHex and the decode method of every command and descriptor type are evaluated abstractly on arbitrary arguments; at every index, slice, dereference, assertion, division, shift, allocation and explicit panic reached, the condition under which it cannot panic must follow from the path conditions.",
		units:   func(c *ctx) []aunit { return c.safetyUnits(isDecodeEntry, false, "decode") },
		minimum: map[string]int{"entry": 15, "nil": 10, "bounds": 4}})
	register(&check{id: "C13", level: "proof",
		rule: "Every exported function and method outside the decoders, and the encode, length and table methods of every command and descriptor type, is evaluated abstractly on arbitrary arguments; at every index, slice, dereference, assertion, division, shift, allocation and explicit panic reached, the condition under which it cannot panic must follow from the path conditions.",
		units: func(c *ctx) []aunit {
			return c.safetyUnits(func(e entry) bool { return !isDecodeEntry(e) }, false, "encode", "length", "writeTo", "id")
		},
		minimum: map[string]int{"entry": 60, "nil": 20, "bounds": 8}})
	register(&check{id: "C28", level: "proof",
		rule: "Every exported function and method, and the decode, encode, length and table methods of every command and descriptor type, is evaluated abstractly on arbitrary arguments; every loop reached must have a counter or measure that approaches its exit on every iteration, and no call may be recursive.",
		units: func(c *ctx) []aunit {
			us := c.safetyUnits(func(e entry) bool { return true }, true, "decode", "encode", "length", "writeTo", "id")
			return append(us, aunit{"call-graph", func(c *ctx) { c.acyclic() }})
		},
		minimum: map[string]int{"entry": 90, "acyclic": 100}})
}
