package main

// Translation validation of the binary codec: each library function and its
// reference are evaluated abstractly from the same symbolic input, and their
// observable results are shown equal as value graphs.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// side is one evaluated function.
type side struct {
	in   *interp
	st   *state
	vals []*T
	recv *T // receiver pointer, if any
	fn   *types.Func
}

func (c *ctx) method(t *types.Named, name string) *types.Func {
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, c.p.lib.tpkg, name)
	f, _ := obj.(*types.Func)
	if f == nil {
		giveUp("no method %s.%s", t.Obj().Name(), name)
	}
	return f
}

func (c *ctx) function(name string) *types.Func {
	f := c.p.fn(c.p.lib, name)
	if f == nil {
		giveUp("no function %s", name)
	}
	return f
}

func (c *ctx) typeNamed(name string) *types.Named {
	t := c.p.typ(c.p.lib, name)
	if t == nil {
		giveUp("no type %s", name)
	}
	return t
}

// run evaluates fn from a copy of st.
func (c *ctx) runFn(in *interp, st *state, fn *types.Func, recv *T, args ...*T) *side {
	s := st.clone()
	vals := in.inline(fn, nil, s, recv, args, 0)
	for f := range in.visited {
		if !c.p.isSpec(f) {
			c.fns[shortName(f)+" ("+c.p.pos(f.Pos())+")"] = true
		}
	}
	return &side{in, s, vals, recv, fn}
}

func (s *side) val(i int) *T {
	if i >= len(s.vals) {
		giveUp("missing result")
	}
	return s.in.freeze(s.st, s.vals[i])
}

func (s *side) recvVal() *T { return s.in.freeze(s.st, s.in.load(s.st, s.recv)) }

func (s *side) errNil(i int) *T {
	return isNil(restrict(s.vals[i], s.st.K))
}

func (c *ctx) sentinel(in *interp, st *state, name string) *T {
	o := c.p.lib.tpkg.Scope().Lookup(name)
	if o == nil {
		giveUp("no variable %s", name)
	}
	return in.globalInit(st, o)
}

func (s *side) errorIs(i int, target *T) *T {
	e := restrict(s.vals[i], s.st.K)
	return mkIte(isNil(e), tFalse, s.in.errorIs(s.st, e, target))
}

// same compares two values under an assumption.
func (c *ctx) same(rule, construct, where string, a, b, when *T, K *Facts) (ok bool) {
	if c.keep != nil && !c.keep(rule, construct) {
		return true
	}
	defer func() {
		if r := recover(); r != nil {
			u, is := r.(undecided)
			if !is {
				panic(r)
			}
			ok = false
			c.bad(rule, construct, where, "undecided: %s", u.msg)
		}
	}()
	if when != nil {
		K = K.with(when, true)
		if K.dead {
			c.ok(rule, construct, where)
			return true
		}
	}
	e := newEq()
	if e.eqUnify(a, b, K, 2) {
		c.ok(rule, construct, where)
		return true
	}
	if os.Getenv("DEBUGSAME") != "" {
		fmt.Fprintln(os.Stderr, "A:", a.show(14, 6000), "\nB:", b.show(14, 6000), "\nW:", when.show(14, 6000))
		for _, l := range K.lits {
			fmt.Fprintln(os.Stderr, "LIT", l.val, l.atom.show(14, 3000))
		}
	}
	c.bad(rule, construct, where, "differs from the reference: %s", e.diff)
	return false
}

var sentinels = []string{"ErrBufferUnderflow", "ErrBufferOverflow", "ErrCRC32Invalid", "ErrUnsupportedEncoding"}

// sameErr compares error results: nil-ness and what errors.Is reports.
func (c *ctx) sameErr(construct string, a *side, ai int, b *side, bi int, names []string) {
	where := c.p.pos(a.fn.Pos())
	K := a.st.K
	c.same("error-nil", construct, where, a.errNil(ai), b.errNil(bi), nil, newFacts())
	for _, n := range names {
		t := c.sentinel(a.in, a.st, n)
		c.same("error-is", construct+" "+n, where, a.errorIs(ai, t), b.errorIs(bi, t), nil, newFacts())
	}
	_ = K
}

// observe makes nil and empty slices coincide, leaves out the fields that do
// not belong to the value on the wire.
func observe(v *T, typ types.Type, skip map[string]bool) *T { return observeD(v, typ, skip, 0) }

func observeD(v *T, typ types.Type, skip map[string]bool, d int) *T {
	if d > 12 {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(typ) {
			return v
		}
		if n, ok := typ.(*types.Named); ok && !inModule(n.Obj().Pkg()) && n.Obj().Name() != "Name" {
			return v
		}
		if v.op == OIte {
			return mkIte(v.args[0], observeD(v.args[1], typ, skip, d), observeD(v.args[2], typ, skip, d))
		}
		x := expandAll(v, typ)
		if x.op != OStruct {
			return v
		}
		var out []*T
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if skip[f.Name()] || skip[typeName(typ)+"."+f.Name()] {
				out = append(out, tZero)
				continue
			}
			out = append(out, observeD(x.args[i], f.Type(), skip, d+1))
		}
		return mkTuple(out...)
	case *types.Slice:
		s := seqOf(v)
		return obsSeq(s, u.Elem(), skip, d)
	}
	return v
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// obsSeq leaves element types without slices or skipped fields alone.
func obsSeq(s *T, et types.Type, skip map[string]bool, d int) *T { return s }

// compareFields compares two structs field by field so that reports name the field.
func (c *ctx) compareFields(rule, construct, where string, a, b *T, typ *types.Named, when *T, skip map[string]bool, K *Facts) {
	u := typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if skip[f.Name()] {
			continue
		}
		x, y := field(a, i, typ), field(b, i, typ)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			x, y = seqOf(x), seqOf(y)
		}
		c.same(rule, construct+"."+f.Name(), where, x, y, when, K)
	}
}

func (c *ctx) decoders(cmd bool) []aunit {
	ts, names := c.r.descTypes, c.r.dname
	if cmd {
		ts, names = c.r.cmdTypes, c.r.name
	}
	var us []aunit
	for _, t := range ts {
		us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.compareDecode(t.Obj().Name(), names["decode"], cmd) }})
	}
	return us
}

func (c *ctx) compareDecode(tn, method string, cmd bool) {
	t := c.typeNamed(tn)
	fn := c.method(t, method)
	spec := c.p.fn(c.p.lib, "specDecode"+tn)
	if spec == nil {
		giveUp("no reference for %s", tn)
	}
	in := newInterp(c.p)
	st := newState()
	b := in.newSliceSym(st, "b")
	cell := in.newCell(st, t, in.zero(t))
	if tn == "PrivateDescriptor" {
		// created with the identifier already filled in
		st.mem[cell] = withField(st.mem[cell], fieldIndex(t, "Identifier"), mkSym("identifier", types.Typ[types.Uint32]), t)
	}
	in.noStrict = true
	a := c.runFn(in, st, fn, mkPtr(cell), b)
	s := c.runFn(in, st, spec, nil, b)
	where := c.p.pos(fn.Pos())
	c.sameErr(tn+".decode", a, 0, s, 1, sentinels)
	when := s.errNil(1)
	if cmd {
		when = or(when, s.errorIs(1, c.sentinel(in, st, "ErrBufferUnderflow")))
	}
	c.compareFields("field", tn, where, a.recvVal(), s.val(0), t, when, map[string]bool{"JSONType": true, "XMLName": true}, newFacts())
	c.count("functions_compared", 1)
}

func fieldIndex(t types.Type, name string) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	giveUp("no field %s.%s", t, name)
	return -1
}

// newSliceSym is an arbitrary byte slice argument.
func (in *interp) newSliceSym(st *state, name string) *T {
	return mkSym(name, types.NewSlice(types.Typ[types.Uint8]))
}

func init() {
	register(&check{id: "C02", spec: true, level: "translation_validation",
		rule:  "For every type implementing SpliceCommand, the decode method and the reference transcribed from SCTE 35 are evaluated abstractly on the same arbitrary byte slice; error class and every decoded field must be the same value graph on every path.",
		units: func(c *ctx) []aunit { return c.decoders(true) }, minimum: map[string]int{"field": 12, "error-is": 20}})
	register(&check{id: "C03", spec: true, level: "translation_validation",
		rule:  "For every type implementing SpliceDescriptor, the decode method and the reference are evaluated abstractly on the same arbitrary byte slice; error class and every decoded field must be the same value graph on every path.",
		units: func(c *ctx) []aunit { return c.decoders(false) }, minimum: map[string]int{"field": 20, "error-is": 20}})
}

var _ = fmt.Sprint
var _ = sort.Strings
var _ = strings.Join
