package main

// Calls: conversions, builtins, module functions (analysed in context),
// interface dispatch and library functions (intrinsics.go).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (in *interp) calleeOf(fr *frame, c *ast.CallExpr) (f *types.Func, id *ast.Ident, sel *ast.SelectorExpr) {
	fun := ast.Unparen(c.Fun)
	switch x := fun.(type) {
	case *ast.IndexExpr:
		fun = ast.Unparen(x.X)
	case *ast.IndexListExpr:
		fun = ast.Unparen(x.X)
	}
	switch x := fun.(type) {
	case *ast.Ident:
		f, _ = fr.pi.info.Uses[x].(*types.Func)
		return f, x, nil
	case *ast.SelectorExpr:
		f, _ = fr.pi.info.Uses[x.Sel].(*types.Func)
		return f, x.Sel, x
	}
	return nil, nil, nil
}

func (in *interp) call(fr *frame, st *state, c *ast.CallExpr) []*T {
	info := fr.pi.info
	if tv, ok := info.Types[c.Fun]; ok && tv.IsType() {
		v := in.ev(fr, st, c.Args[0])
		return []*T{in.conversion(fr, st, v, fr.typeOf(c.Args[0]), fr.subst(tv.Type), c)}
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return in.builtin(fr, st, b.Name(), c)
		}
	}
	f, id, sel := in.calleeOf(fr, c)
	if f == nil {
		fv := in.ev(fr, st, c.Fun)
		args := in.evArgs(fr, st, c, fr.typeOf(c.Fun).Underlying().(*types.Signature))
		return in.callValue(fr, st, fv, args, c)
	}
	var recv *T
	sig := f.Type().(*types.Signature)
	if sel != nil {
		if s := info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
			if isInterface(sig.Recv().Type()) {
				v := in.ev(fr, st, sel.X)
				if len(s.Index()) > 1 {
					v = in.recvFor(fr, st, sel, s)
				}
				args := in.evArgs(fr, st, c, sig)
				return in.ifaceCall(fr, st, v, f, args, c)
			}
			recv = in.recvFor(fr, st, sel, s)
		} else if s != nil && s.Kind() == types.MethodExpr {
			giveUp("method expression")
		}
	}
	tmap := fr.instance(id)
	isig := sig
	if len(tmap) > 0 {
		isig = substType(sig, tmap).(*types.Signature)
	}
	args := in.evArgs(fr, st, c, isig)
	return in.callFunc(fr, st, f, tmap, recv, args, c)
}

func (in *interp) callFunc(fr *frame, st *state, f *types.Func, tmap map[*types.TypeParam]types.Type, recv *T, args []*T, c *ast.CallExpr) []*T {
	if in.p.funcs[origin(f)] != nil {
		return in.moduleCall(fr, st, f, tmap, recv, args, c)
	}
	return in.library(fr, st, f, recv, args, c)
}

func (in *interp) moduleCall(fr *frame, st *state, f *types.Func, tmap map[*types.TypeParam]types.Type, recv *T, args []*T, c *ast.CallExpr) []*T {
	if in.opaque != nil {
		if r, ok := in.opaque(in, fr, st, f, recv, args, c); ok {
			return r
		}
	}
	return in.inline(f, tmap, st, recv, args, fr.depth+1)
}

// evArgs evaluates call arguments, converted to the parameter types, with
// variadic arguments packed.
func (in *interp) evArgs(fr *frame, st *state, c *ast.CallExpr, sig *types.Signature) []*T {
	var vals []*T
	var typs []types.Type
	if len(c.Args) == 1 && sig.Params().Len() != 1 || len(c.Args) == 1 && sig.Variadic() {
		if tp, ok := fr.typeOf(c.Args[0]).(*types.Tuple); ok {
			vals = in.call(fr, st, ast.Unparen(c.Args[0]).(*ast.CallExpr))
			for i := 0; i < tp.Len(); i++ {
				typs = append(typs, tp.At(i).Type())
			}
		}
	}
	if vals == nil {
		for _, a := range c.Args {
			vals = append(vals, in.ev(fr, st, a))
			typs = append(typs, fr.typeOf(a))
		}
	}
	n := sig.Params().Len()
	var out []*T
	fixed := n
	if sig.Variadic() && !c.Ellipsis.IsValid() {
		fixed = n - 1
	}
	for i := 0; i < fixed && i < len(vals); i++ {
		out = append(out, in.convertTo(vals[i], typs[i], fr.subst(sig.Params().At(i).Type())))
	}
	if fixed < n {
		et := fr.subst(sig.Params().At(n - 1).Type()).Underlying().(*types.Slice).Elem()
		var us []*T
		for i := fixed; i < len(vals); i++ {
			us = append(us, unit(in.convertTo(vals[i], typs[i], et), et))
		}
		if len(us) == 0 {
			out = append(out, mkSliceV(tTrue, tEmpty))
		} else {
			out = append(out, in.newSlice(st, et, cat(us...)))
		}
	}
	return out
}

func (in *interp) callParts(fr *frame, st *state, c *ast.CallExpr) (*T, []*T) {
	f, _, sel := in.calleeOf(fr, c)
	if f == nil {
		if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
			if _, ok := fr.pi.info.Uses[id].(*types.Builtin); ok {
				giveUp("deferred builtin")
			}
		}
	}
	sig := fr.typeOf(c.Fun).Underlying().(*types.Signature)
	var fv *T
	if f != nil && sel != nil {
		if s := fr.pi.info.Selections[sel]; s != nil && isInterface(f.Type().(*types.Signature).Recv().Type()) {
			v := in.ev(fr, st, sel.X)
			args := in.evArgs(fr, st, c, sig)
			in.closures = append(in.closures, &closure{intr: func(in *interp, fr *frame, st *state, args []*T, call *ast.CallExpr) []*T {
				return in.ifaceCall(fr, st, v, f, args, c)
			}})
			return intern(&T{op: OClosure, n: len(in.closures) - 1}), args
		}
	}
	fv = in.ev(fr, st, c.Fun)
	return fv, in.evArgs(fr, st, c, sig)
}

func (in *interp) callValue(fr *frame, st *state, fv *T, args []*T, c *ast.CallExpr) []*T {
	fv = restrict(fv, st.K)
	switch fv.op {
	case OIte:
		in.notNil(st, fr, "nil", c.Pos(), fv)
		fv = restrict(fv, st.K)
		if fv.op == OIte {
			return in.forkEv(st, fv.args[0], func(s *state) []*T { return in.callValue(fr, s, fv.args[1], args, c) },
				func(s *state) []*T { return in.callValue(fr, s, fv.args[2], args, c) })
		}
		return in.callValue(fr, st, fv, args, c)
	case ONil:
		in.notNil(st, fr, "nil", c.Pos(), fv)
		panic(deadPath{})
	case OClosure:
		cl := in.closures[fv.n]
		switch {
		case cl.intr != nil:
			return cl.intr(in, fr, st, args, c)
		case cl.lit != nil:
			nf := *cl.fr
			nf.vars = map[types.Object]int{}
			for k, v := range cl.fr.vars {
				nf.vars[k] = v
			}
			nf.fn, nf.res, nf.defers = nil, nil, nil
			nf.depth = fr.depth + 1
			if nf.depth > 60 {
				giveUp("recursive closure")
			}
			nf.sig = nf.pi.info.TypeOf(cl.lit).(*types.Signature)
			nf.name = cl.fr.name + ".func"
			return in.runBody(&nf, st, cl.lit.Type, cl.lit.Body, args, nil)
		default:
			return in.callFunc(fr, st, cl.fn, cl.tmap, cl.recv, args, c)
		}
	}
	giveUp("call of unknown function value %s", fv)
	return nil
}

// ---- interface dispatch ----

func (in *interp) ifaceCall(fr *frame, st *state, v *T, m *types.Func, args []*T, c *ast.CallExpr) []*T {
	v = restrict(v, st.K)
	in.notNil(st, fr, "nil", c.Pos(), v)
	return in.dispatch(fr, st, restrict(v, st.K), m, args, c)
}

func (in *interp) dispatch(fr *frame, st *state, v *T, m *types.Func, args []*T, c *ast.CallExpr) []*T {
	switch v.op {
	case ONil:
		panic(deadPath{})
	case OIte:
		return in.forkEv(st, v.args[0], func(s *state) []*T { return in.dispatch(fr, s, restrict(v.args[1], s.K), m, args, c) },
			func(s *state) []*T { return in.dispatch(fr, s, restrict(v.args[2], s.K), m, args, c) })
	case OIface:
		f, recv := in.resolve(fr, st, v, m, c)
		return in.callFunc(fr, st, f, nil, recv, args, c)
	}
	if isError(m.Type().(*types.Signature).Recv().Type()) || m.FullName() == "(error).Error" {
		return []*T{mkApp("errtext", types.Typ[types.String], v)}
	}
	if in.icall != nil {
		if r, ok := in.icall(in, fr, st, v, m, args, c); ok {
			return r
		}
	}
	giveUp("dynamic call of %s on an unknown value %s", m.FullName(), v)
	return nil
}

// resolve finds the method of a concrete value.
func (in *interp) resolve(fr *frame, st *state, v *T, m *types.Func, c *ast.CallExpr) (*types.Func, *T) {
	obj, index, _ := types.LookupFieldOrMethod(v.typ, true, m.Pkg(), m.Name())
	f, ok := obj.(*types.Func)
	if !ok {
		giveUp("method %s of %s", m.Name(), v.typ)
	}
	recv := v.args[0]
	t := v.typ
	for _, i := range index[:len(index)-1] {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			in.notNil(st, fr, "nil", c.Pos(), recv)
			s := pt.Elem().Underlying().(*types.Struct)
			recv = in.subPtr(st, restrict(recv, st.K), fldStep(pt.Elem(), i))
			t = types.NewPointer(s.Field(i).Type())
			if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
				recv = in.load(st, recv)
				t = s.Field(i).Type()
			}
		} else {
			recv = field(recv, i, t)
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
	}
	_, wantPtr := f.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
	_, havePtr := t.Underlying().(*types.Pointer)
	if havePtr && !wantPtr {
		in.notNil(st, fr, "nil", c.Pos(), recv)
		recv = in.load(st, restrict(recv, st.K))
	}
	if !havePtr && wantPtr {
		recv = mkPtr(in.newCell(st, t, recv))
	}
	return f, recv
}

// ---- conversions ----

func (in *interp) conversion(fr *frame, st *state, v *T, from, to types.Type, c *ast.CallExpr) *T {
	if isInterface(to) {
		return in.convertTo(v, from, to)
	}
	fu, tu := from.Underlying(), to.Underlying()
	if v == tNil {
		if _, ok := tu.(*types.Slice); ok {
			return mkSliceV(tTrue, tEmpty)
		}
		return v
	}
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case fb != nil && tb != nil:
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		fs, ts := fb.Info()&types.IsString != 0, tb.Info()&types.IsString != 0
		switch {
		case fi && ti:
			w, s, _ := intType(to)
			return wrapK(v, w, s, st.K)
		case fi && tf:
			return mkApp("i2f", to, v)
		case ff && ti:
			return mkApp("f2i", to, v)
		case ff && tf:
			if fb.Kind() == tb.Kind() || fb.Kind() == types.UntypedFloat {
				return v
			}
			return mkApp("f2f", to, v)
		case fs && ts:
			return v
		case fi && ts:
			return runeText(v)
		case fb.Info()&types.IsBoolean != 0:
			return v
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok {
			if isByteSeq(sl) {
				return in.newSlice(st, sl.Elem(), v)
			}
			return in.newSlice(st, sl.Elem(), mkApp("runes", to, v))
		}
	case tb != nil && tb.Info()&types.IsString != 0:
		if sl, ok := fu.(*types.Slice); ok {
			s := in.seqIn(st, v)
			if isByteSeq(sl) {
				return s
			}
			return mkApp("unrunes", types.Typ[types.String], s)
		}
	}
	if types.Identical(fu, tu) || types.IdenticalIgnoreTags(fu, tu) {
		if v.op == OStruct {
			return intern(&T{op: OStruct, s: typeKey(to), typ: to, args: v.args})
		}
		if _, ok := fu.(*types.Struct); ok && v.typ != nil {
			e := expandAll(v, from)
			if e.op == OStruct {
				return intern(&T{op: OStruct, s: typeKey(to), typ: to, args: e.args})
			}
		}
		return v
	}
	fp, _ := fu.(*types.Pointer)
	tp, _ := tu.(*types.Pointer)
	if fp != nil && tp != nil {
		// alias idiom: (*alias)(p); the layouts are identical
		return v
	}
	if _, ok := fu.(*types.Signature); ok {
		return v
	}
	giveUp("conversion from %s to %s", from, to)
	return nil
}

// ---- builtins ----

func (in *interp) builtin(fr *frame, st *state, name string, c *ast.CallExpr) []*T {
	arg := func(i int) *T { return restrict(in.ev(fr, st, c.Args[i]), st.K) }
	switch name {
	case "len", "cap":
		t := fr.typeOf(c.Args[0])
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			return []*T{mkI(u.Len())}
		case *types.Map:
			m := arg(0)
			if m.op == OPtr {
				m = in.load(st, m)
			}
			if m == tNil {
				return []*T{tZero}
			}
			if m.op == OMapV {
				return []*T{mkI(int64(len(m.args) / 2))}
			}
			return []*T{mkApp("maplen", types.Typ[types.Int], m)}
		}
		if name == "cap" {
			v := arg(0)
			return []*T{mkApp("cap", types.Typ[types.Int], v)}
		}
		return []*T{in.sliceLen(st, arg(0))}
	case "append":
		s := arg(0)
		t := fr.typeOf(c).Underlying().(*types.Slice)
		if s == tNil {
			s = mkSliceV(tTrue, tEmpty)
		}
		var add *T
		if c.Ellipsis.IsValid() {
			a := arg(1)
			add = in.seqIn(st, a)
		} else {
			var us []*T
			for i := 1; i < len(c.Args); i++ {
				v := in.convertTo(arg(i), fr.typeOf(c.Args[i]), t.Elem())
				us = append(us, unit(v, t.Elem()))
			}
			add = cat(us...)
		}
		return []*T{in.appendTo(fr, st, s, add, t)}
	case "copy":
		d := arg(0)
		src := in.seqIn(st, arg(1))
		return []*T{in.copyTo(fr, st, d, src, fr.typeOf(c.Args[0]))}
	case "make":
		t := fr.typeOf(c)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := arg(1)
			if len(c.Args) > 2 {
				m := arg(2)
				in.oblige(st, fr, "makelen", c.Pos(), and(leI(tZero, n), leI(n, m)))
			} else {
				in.oblige(st, fr, "makelen", c.Pos(), leI(tZero, n))
			}
			n = restrict(n, st.K)
			return []*T{in.newSlice(st, u.Elem(), zeroSeq(n, in.zero(u.Elem()), isByteSeq(u)))}
		case *types.Map:
			return []*T{mkPtr(in.newCell(st, t, intern(&T{op: OMapV})))}
		}
		giveUp("make %s", t)
	case "new":
		t := fr.typeOf(c).Underlying().(*types.Pointer).Elem()
		return []*T{mkPtr(in.newCell(st, t, in.zero(t)))}
	case "panic":
		in.ev(fr, st, c.Args[0])
		in.oblige(st, fr, "panic", c.Pos(), tFalse)
		panic(deadPath{})
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(c.Args); i++ {
			v := arg(i)
			if isFloat(fr.typeOf(c)) {
				r = mkApp("f"+name, fr.typeOf(c), r, v)
				continue
			}
			if name == "min" {
				r = mkIte(leI(r, v), r, v)
			} else {
				r = mkIte(leI(r, v), v, r)
			}
		}
		return []*T{restrict(r, st.K)}
	case "delete":
		m := arg(0)
		k := arg(1)
		if m.op == OPtr {
			mv := in.load(st, m)
			if mv.op == OMapV {
				var o []*T
				for i := 0; i < len(mv.args); i += 2 {
					e := restrict(valEq(mv.args[i], k), st.K)
					if e == tTrue {
						continue
					}
					if e != tFalse {
						giveUp("delete with a variable key")
					}
					o = append(o, mv.args[i], mv.args[i+1])
				}
				in.store(st, m, intern(&T{op: OMapV, args: o}))
				return nil
			}
		}
		giveUp("delete")
	case "clear":
		if sl, ok := fr.typeOf(c.Args[0]).Underlying().(*types.Slice); ok {
			d := arg(0)
			n := in.sliceLen(st, d)
			in.copyTo(fr, st, d, zeroSeq(n, in.zero(sl.Elem()), isByteSeq(sl)), sl)
			return nil
		}
	}
	giveUp("builtin %s", name)
	return nil
}

func (in *interp) appendTo(fr *frame, st *state, s, more *T, t *types.Slice) *T {
	if s.op == OSlice {
		base := in.load(st, s.args[0])
		rest := sub(slen(base), add(s.args[1], s.args[2]))
		if rest != tZero && restrict(eqI(rest, tZero), st.K) != tTrue {
			giveUp("append to a slice with spare elements behind it")
		}
	}
	if s.op == OIte && !isSeqT(s) {
		return mkIte(s.args[0], in.appendTo(fr, st, s.args[1], more, t), in.appendTo(fr, st, s.args[2], more, t))
	}
	seq := cat(in.seqIn(st, s), more)
	isn := restrict(and(isNil(s), eqI(slen(more), tZero)), st.K)
	if isn == tFalse {
		return in.newSlice(st, t.Elem(), seq)
	}
	return mkSliceV(isn, seq)
}

// copyTo implements copy(d, src).
func (in *interp) copyTo(fr *frame, st *state, d, src *T, dt types.Type) *T {
	d = restrict(d, st.K)
	switch d.op {
	case OIte:
		giveUp("copy into one of several slices")
	case OSliceV, ONil:
		if restrict(eqI(in.sliceLen(st, d), tZero), st.K) == tTrue {
			return tZero
		}
		giveUp("copy into a frozen slice")
	}
	dl, sl := in.sliceLen(st, d), slen(src)
	n := restrict(mkIte(leI(dl, sl), dl, sl), st.K)
	var ptr, off *T
	if d.op == OSlice {
		ptr, off = d.args[0], d.args[1]
	} else {
		ptr, off = mkPtr(in.symCell(st, d)), tZero
	}
	base := in.load(st, ptr)
	end := add(off, n)
	var nb *T
	if n.op == OIte {
		f := func(n *T, K *Facts) *T {
			return cat(subSeqK(base, tZero, off, K), subSeqK(src, tZero, n, K), subSeqK(base, add(off, n), sub(slen(base), add(off, n)), K))
		}
		c := n.args[0]
		nb = mkIte(c, f(n.args[1], st.K.with(c, true)), f(n.args[2], st.K.with(c, false)))
	} else {
		nb = cat(subSeqK(base, tZero, off, st.K), subSeqK(src, tZero, n, st.K), subSeqK(base, end, sub(slen(base), end), st.K))
	}
	in.store(st, ptr, nb)
	return n
}

// ---- text formatting ----

var tString = types.Typ[types.String]

// decText is the decimal text of an integer.
func decText(v *T) *T {
	if v.op == OInt {
		return constStr(v.z.String())
	}
	if v.op == OIte {
		return mkIte(v.args[0], decText(v.args[1]), decText(v.args[2]))
	}
	return mkApp("dec", tString, v)
}

func numText(verb string, v *T) *T {
	if v.op == OInt && v.z.IsInt64() {
		return constStr(fmt.Sprintf(verb, v.z.Int64()))
	}
	if v.op == OIte {
		return mkIte(v.args[0], numText(verb, v.args[1]), numText(verb, v.args[2]))
	}
	return mkApp("fmt:"+verb, tString, v)
}

func boolText(v *T) *T { return mkIte(v, constStr("true"), constStr("false")) }

// textOf formats a value the way fmt's %v does.
func (in *interp) textOf(fr *frame, st *state, v *T, t types.Type, verb string, c *ast.CallExpr) *T {
	v = restrict(v, st.K)
	if isInterface(t) {
		switch v.op {
		case OIface:
			return in.textOf(fr, st, v.args[0], v.typ, verb, c)
		case ONil:
			return constStr("<nil>")
		case OIte:
			return in.forkEv(st, v.args[0], func(s *state) []*T { return []*T{in.textOf(fr, s, v.args[1], t, verb, c)} },
				func(s *state) []*T { return []*T{in.textOf(fr, s, v.args[2], t, verb, c)} })[0]
		}
		return mkApp("text:"+verb, tString, v)
	}
	if verb == "%v" || verb == "%s" || verb == "%q" {
		for _, name := range []string{"Error", "String"} {
			obj, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
			if f, ok := obj.(*types.Func); ok {
				sig := f.Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
					ff, recv := in.resolve(fr, st, mkIface(t, v), f, c)
					return in.callFunc(fr, st, ff, nil, recv, nil, c)[0]
				}
			}
		}
	}
	b, _ := t.Underlying().(*types.Basic)
	if b != nil {
		switch {
		case b.Info()&types.IsInteger != 0:
			switch verb {
			case "%v", "%d":
				return decText(v)
			}
			// as many digits as the type has are the digits of its bytes
			if n := map[types.BasicKind]int{types.Uint8: 2, types.Uint16: 4, types.Uint32: 8, types.Uint64: 16}[b.Kind()]; n > 0 {
				switch verb {
				case fmt.Sprintf("%%0%dx", n):
					return hexEnc(bitF(v, 4*n))
				case fmt.Sprintf("%%0%dX", n):
					return hexUpper(bitF(v, 4*n))
				}
			}
			return numText(verb, v)
		case b.Info()&types.IsString != 0:
			switch verb {
			case "%v", "%s":
				return v
			}
			return mkApp("fmt:"+verb, tString, v)
		case b.Info()&types.IsBoolean != 0:
			if verb == "%v" || verb == "%t" {
				return boolText(v)
			}
		case b.Info()&types.IsFloat != 0:
			return mkApp("fmt:"+verb, tString, v)
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		_ = p
		return mkApp("fmt:"+verb, tString, in.freeze(st, v))
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && isByteSeq(sl) {
		if verb == "%s" {
			return in.seqIn(st, v)
		}
		if verb == "%x" {
			return mkApp("hexenc", tString, in.seqIn(st, v))
		}
		if verb == "%X" {
			return hexUpper(in.seqIn(st, v))
		}
	}
	return mkApp("fmt:"+verb, tString, in.freeze(st, v))
}

// format expands a constant format string.
func (in *interp) format(fr *frame, st *state, format string, args []*T, typs []types.Type, c *ast.CallExpr) (*T, []*T) {
	var out []*T
	var wrapped []*T
	k := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			out = append(out, constStr(format[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			giveUp("format string %q", format)
		}
		spec, v := format[i:j+1], format[j]
		i = j + 1
		if v == '%' {
			out = append(out, constStr("%"))
			continue
		}
		if v == '*' || v == '[' || k >= len(args) {
			giveUp("format string %q", format)
		}
		a, t := args[k], typs[k]
		k++
		if v == 'w' {
			wrapped = append(wrapped, a)
			out = append(out, mkApp("errtext", tString, a))
			continue
		}
		if v == 'T' {
			out = append(out, mkApp("fmt:%T", tString, a))
			continue
		}
		out = append(out, in.textOf(fr, st, a, t, spec, c))
	}
	if k != len(args) {
		giveUp("format string %q has extra arguments", format)
	}
	return cat(out...), wrapped
}

// variadicElems lists the elements of a packed variadic argument.
func (in *interp) variadicElems(st *state, v *T) []*T {
	s := in.seqIn(st, v)
	var out []*T
	for _, p := range parts(s) {
		if p.op != OUnit {
			giveUp("variadic argument of unknown length")
		}
		out = append(out, p.args[0])
	}
	return out
}

func (in *interp) sprint(fr *frame, st *state, fmtArg *T, packed *T, c *ast.CallExpr) (*T, []*T) {
	if fmtArg.op != OBits {
		if fmtArg.op == OIte {
			var w []*T
			r := in.forkEv(st, fmtArg.args[0], func(s *state) []*T {
				t, ww := in.sprint(fr, s, fmtArg.args[1], packed, c)
				w = append(w, ww...)
				return []*T{t}
			},
				func(s *state) []*T {
					t, ww := in.sprint(fr, s, fmtArg.args[2], packed, c)
					w = append(w, ww...)
					return []*T{t}
				})
			return r[0], w
		}
		giveUp("variable format string")
	}
	args := in.variadicElems(st, packed)
	typs := make([]types.Type, len(args))
	anyT := types.NewInterfaceType(nil, nil)
	for i := range args {
		typs[i] = anyT
	}
	return in.format(fr, st, bitsToBytes(fmtArg.s), args, typs, c)
}

// mkErr is a new error wrapping others.
func mkErr(wrapped ...*T) *T {
	if len(wrapped) == 0 {
		return mkApp("err:new", types.Universe.Lookup("error").Type())
	}
	return mkApp("err:wrap", types.Universe.Lookup("error").Type(), wrapped...)
}

// errIs decides errors.Is structurally.
func errIs(e, target *T) *T {
	if e == target {
		return tTrue
	}
	switch e.op {
	case ONil:
		return isNil(target)
	case OIte:
		return mkIte(e.args[0], errIs(e.args[1], target), errIs(e.args[2], target))
	case OApp:
		switch e.s {
		case "err:new":
			return isNil(target).andNotNil()
		case "err:wrap":
			r := tFalse
			for _, w := range e.args {
				r = or(r, mkIte(isNil(w), tFalse, errIs(w, target)))
			}
			return r
		}
		if strings.HasPrefix(e.s, "err:") && target.op == OSym {
			return tFalse
		}
	case OSym:
		if strings.HasPrefix(e.s, "global:") && target.op == OSym && strings.HasPrefix(target.s, "global:") {
			return mkB(e == target)
		}
	}
	if target.op == OIte {
		return mkIte(target.args[0], errIs(e, target.args[1]), errIs(e, target.args[2]))
	}
	return mkApp("errIs", types.Typ[types.Bool], e, target)
}

func (t *T) andNotNil() *T { return tFalse }

func init() {
	appSimp["dec"] = func(a []*T) *T { return decText(a[0]) }
	appSimp["errIs"] = func(a []*T) *T { return errIs(a[0], a[1]) }
	boolApps["errIs"] = true
	boolApps["str<"] = true
	boolApps["f<"] = true
	boolApps["f<="] = true
	appSimp["quo/"] = nil
	delete(appSimp, "quo/")
}

var _ = token.ADD
var _ = big.NewInt
