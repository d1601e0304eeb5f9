package main

// The dynamically dispatched methods of splice commands and descriptors can be
// treated as uninterpreted operations of the value they are called on. Rules
// about the section use this; every implementation is analysed on its own by
// the rules about commands and descriptors.

import (
	"go/ast"
	"go/types"
)

// roles of the unexported interface methods, found by their signatures
type roles struct {
	cmd, desc           *types.Interface
	cmdNamed, descNamed *types.Named
	byName              map[string]string // method name -> role
	name                map[string]string // role -> method name (command interface)
	dname               map[string]string // role -> method name (descriptor interface)
	cmdTypes, descTypes []*types.Named
	missing             []string
}

func (p *program) findRoles() *roles {
	r := &roles{byName: map[string]string{}, name: map[string]string{}, dname: map[string]string{}}
	get := func(n string) (*types.Named, *types.Interface) {
		t := p.typ(p.lib, n)
		if t == nil {
			r.missing = append(r.missing, "type "+n)
			return nil, nil
		}
		i, _ := t.Underlying().(*types.Interface)
		if i == nil {
			r.missing = append(r.missing, "interface "+n)
		}
		return t, i
	}
	r.cmdNamed, r.cmd = get("SpliceCommand")
	r.descNamed, r.desc = get("SpliceDescriptor")
	if len(r.missing) > 0 {
		return r
	}
	classify := func(i *types.Interface, m map[string]string) {
		for k := 0; k < i.NumMethods(); k++ {
			f := i.Method(k)
			role := roleOf(f.Type().(*types.Signature), f.Name())
			if role != "" && m[role] == "" {
				m[role] = f.Name()
				r.byName[f.Name()] = role
			}
		}
		for _, want := range []string{"decode", "encode", "length", "writeTo", "id"} {
			if m[want] == "" {
				r.missing = append(r.missing, "interface method "+want)
			}
		}
	}
	classify(r.cmd, r.name)
	classify(r.desc, r.dname)
	for _, n := range p.lib.tpkg.Scope().Names() {
		tn, ok := p.lib.tpkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || isInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), r.cmd) {
			r.cmdTypes = append(r.cmdTypes, nt)
		} else if types.Implements(types.NewPointer(nt), r.desc) {
			r.descTypes = append(r.descTypes, nt)
		}
	}
	return r
}

func roleOf(s *types.Signature, name string) string {
	bs := types.NewSlice(types.Typ[types.Uint8])
	np, nr := s.Params().Len(), s.Results().Len()
	switch {
	case np == 1 && nr == 1 && types.Identical(s.Params().At(0).Type(), bs) && isError(s.Results().At(0).Type()):
		return "decode"
	case np == 0 && nr == 2 && types.Identical(s.Results().At(0).Type(), bs) && isError(s.Results().At(1).Type()):
		return "encode"
	case np == 0 && nr == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.Int]):
		return "length"
	case np == 1 && nr == 0:
		return "writeTo"
	case np == 0 && nr == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.Uint32]):
		return "id"
	}
	return ""
}

// roleFor tells which interface role a concrete method plays.
func (r *roles) roleFor(f *types.Func) (role string, named *types.Named, cmd bool) {
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		return "", nil, false
	}
	t := sig.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return "", nil, false
	}
	role = r.byName[f.Name()]
	if role == "" {
		return "", nil, false
	}
	for _, c := range r.cmdTypes {
		if c == n && r.name[role] == f.Name() {
			return role, n, true
		}
	}
	for _, c := range r.descTypes {
		if c == n && r.dname[role] == f.Name() {
			return role, n, false
		}
	}
	return "", nil, false
}

// setOpaque makes the given roles uninterpreted.
func (in *interp) setOpaque(r *roles, which ...string) {
	on := map[string]bool{}
	for _, w := range which {
		on[w] = true
	}
	in.roles = r
	in.opaque = func(in *interp, fr *frame, st *state, f *types.Func, recv *T, args []*T, c *ast.CallExpr) ([]*T, bool) {
		role, named, cmd := r.roleFor(f)
		if role == "" || !on[role] || recv == nil {
			return nil, false
		}
		sig := f.Type().(*types.Signature)
		_, isPtr := sig.Recv().Type().(*types.Pointer)
		var p, v *T
		if isPtr {
			p = restrict(recv, st.K)
			if p.op == OIte {
				return in.forkEv(st, p.args[0], func(s *state) []*T { return in.moduleCall(fr, s, f, nil, p.args[1], args, c) },
					func(s *state) []*T { return in.moduleCall(fr, s, f, nil, p.args[2], args, c) }), true
			}
			in.notNil(st, fr, "nil", c.Pos(), p)
			v = in.freeze(st, in.load(st, p))
		} else {
			v = in.freeze(st, recv)
		}
		if v.typ == nil || !types.Identical(v.typ, named) {
			v = mkApp("as:"+typeKey(named), named, v)
		}
		return in.roleCall(fr, st, role, cmd, named, p, v, args, c), true
	}
	in.icall = func(in *interp, fr *frame, st *state, v *T, m *types.Func, args []*T, c *ast.CallExpr) ([]*T, bool) {
		role := r.byName[m.Name()]
		if role == "" || m.Pkg() != in.p.lib.tpkg {
			return nil, false
		}
		it := m.Type().(*types.Signature).Recv().Type()
		cmd := types.Identical(it.Underlying(), r.cmd)
		if !cmd && !types.Identical(it.Underlying(), r.desc) {
			// a method both have, by way of an interface of its own
			switch {
			case v.typ != nil && isInterface(v.typ) && types.Identical(v.typ.Underlying(), r.cmd):
				cmd = true
			case v.typ != nil && isInterface(v.typ) && types.Identical(v.typ.Underlying(), r.desc):
			default:
				giveUp("%s of a value that may be a command or a descriptor", m.Name())
			}
		}
		if role == "id" {
			return []*T{mkApp("id", types.Typ[types.Uint32], in.freeze(st, v))}, true
		}
		if !on[role] {
			return nil, false
		}
		return in.roleCall(fr, st, role, cmd, nil, nil, in.freeze(st, v), args, c), true
	}
}

func (in *interp) roleCall(fr *frame, st *state, role string, cmd bool, named *types.Named, p, v *T, args []*T, c *ast.CallExpr) []*T {
	errT := types.Universe.Lookup("error").Type()
	switch role {
	case "decode":
		if named == nil {
			giveUp("decode of an unknown value")
		}
		b := in.seqIn(st, restrict(args[0], st.K))
		if p != nil {
			in.store(st, p, mkApp("decoded:"+named.Obj().Name(), named, b, v))
		}
		return []*T{mkApp("decodeErr:"+named.Obj().Name(), errT, b, v)}
	case "encode":
		e := mkApp("encodeErr", errT, v)
		n := mkApp("ilen", types.Typ[types.Int], v)
		if !cmd {
			n = add(n, mkI(2))
		}
		b := mkApp("encoded", types.NewSlice(types.Typ[types.Uint8]), v, n)
		b.bytes = true
		s := in.newSlice(st, types.Typ[types.Uint8], b)
		return []*T{s, e}
	case "length":
		return []*T{mkApp("ilen", types.Typ[types.Int], v)}
	case "writeTo":
		in.appendText(fr, st, restrict(args[0], st.K), v, c)
		return nil
	}
	giveUp("method role %s", role)
	return nil
}

// appendText models writeTo: the table's text grows by the rows of v.
func (in *interp) appendText(fr *frame, st *state, t, v *T, c *ast.CallExpr) {
	in.notNil(st, fr, "nil", c.Pos(), t)
	obj := in.load(st, t)
	pt, ok := in.ptrElem(t)
	if !ok {
		giveUp("table type")
	}
	s, ok := pt.Underlying().(*types.Struct)
	if !ok {
		giveUp("table is not a struct")
	}
	var opts []*T
	var dst *T
	var dt types.Type
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		f := field(obj, i, pt)
		bt := ft
		isPtr := false
		if q, ok := ft.(*types.Pointer); ok {
			bt, isPtr = q.Elem(), true
		}
		if n, ok := bt.(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder" || n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer") {
			dst, dt = f, bt
			if !isPtr {
				dst = in.subPtr(st, t, fldStep(pt, i))
			}
			continue
		}
		opts = append(opts, in.freeze(st, f))
	}
	if dst == nil {
		giveUp("no text builder in %s", pt)
	}
	in.notNil(st, fr, "nil", c.Pos(), dst)
	old := in.load(st, dst)
	text := rowsApp(v, opts)
	in.store(st, dst, withField(old, 0, cat(field(old, 0, dt), text), dt))
}

func (in *interp) ptrElem(p *T) (types.Type, bool) {
	switch p.op {
	case OPtr:
		t := in.ctyp[p.n]
		for _, s := range p.args {
			if s.s == "fld" {
				t = s.typ.Underlying().(*types.Struct).Field(int(s.args[0].i64())).Type()
			} else {
				t = s.typ
			}
		}
		return t, true
	case OIte:
		if t, ok := in.ptrElem(p.args[1]); ok {
			return t, true
		}
		return in.ptrElem(p.args[2])
	}
	if p.typ != nil {
		if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
			return pt.Elem(), true
		}
	}
	return nil, false
}

func init() {
	lenOf["encoded"] = func(t *T) *T { return t.args[1] }
}

// Values produced by decoding or unmarshalling hold no nil descriptors and no
// typed nil pointers behind an interface (checked where they are produced).
func init() {
	nilOf["assert"] = func(x *T) *T {
		if _, ok := x.typ.Underlying().(*types.Pointer); ok {
			return tFalse
		}
		return nil
	}
	nilOf["elem"] = func(x *T) *T {
		if n, ok := x.typ.(*types.Named); ok && n.Obj().Name() == "SpliceDescriptor" && wfSource(x.args[0]) {
			return tFalse
		}
		return nil
	}
}

// wfSource: the elements come from the section under analysis.
func wfSource(s *T) bool {
	for {
		switch {
		case s.op == OApp && (s.s == "seq" || s.s == "deref" || s.s[0] == '.'):
			s = s.args[0]
		case s.op == OSub:
			s = s.args[0]
		default:
			return s.op == OSym
		}
	}
}
