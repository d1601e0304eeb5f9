package main

// Loop summaries. Small constant trip counts are unrolled; every other loop is
// summarised by solving the recurrence of each variable it modifies, and its
// trip count by solving its exit guard.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
)

const (
	xDone = iota + 10 // loop condition became false
	xBrk              // break out of this loop
)

type iteration func(st *state, i *T) (next *exit, outs []*exit)

func (in *interp) forStmt(fr *frame, st *state, s *ast.ForStmt, label string) []*exit {
	if s.Init != nil {
		xs := in.stmt(fr, st, s.Init, "")
		if len(xs) == 0 {
			return nil
		}
		if len(xs) != 1 {
			giveUp("control flow in loop initialiser")
		}
		st = xs[0].st
	}
	iter := func(st *state, _ *T) (*exit, []*exit) {
		K := st.K
		var xs []*exit
		if s.Cond != nil {
			c := restrict(in.ev(fr, st, s.Cond), st.K)
			xs = in.branch(st, c, func(st *state) []*exit { return in.bodyOf(fr, st, s.Body, label, K) },
				func(st *state) []*exit { return []*exit{{kind: xDone, g: tTrue, st: st}} })
		} else {
			xs = in.bodyOf(fr, st, s.Body, label, K)
		}
		next, outs := splitNext(xs, K)
		if next != nil && s.Post != nil {
			g := next.g
			ps := in.stmt(fr, next.st, s.Post, "")
			if len(ps) == 0 {
				return nil, outs
			}
			if len(ps) != 1 {
				giveUp("control flow in loop post statement")
			}
			next = &exit{kind: xFall, g: g, st: ps[0].st}
		}
		return next, outs
	}
	return in.loop(fr, st, iter, nil, s.Pos())
}

// bodyOf runs a loop body; falling out of it or continuing is kind xFall.
func (in *interp) bodyOf(fr *frame, st *state, b *ast.BlockStmt, label string, K *Facts) []*exit {
	xs := in.block(fr, st, b.List)
	for _, x := range xs {
		switch {
		case x.kind == xContinue && (x.label == "" || x.label == label):
			x.kind, x.label = xFall, ""
		case x.kind == xBreak && (x.label == "" || x.label == label):
			x.kind, x.label = xBrk, ""
		}
	}
	return xs
}

func splitNext(xs []*exit, K *Facts) (*exit, []*exit) {
	var falls, outs []*exit
	for _, x := range xs {
		if x.g == tFalse || x.st.K.dead {
			continue
		}
		if x.kind == xFall {
			falls = append(falls, x)
		} else {
			outs = append(outs, x)
		}
	}
	return joinExits(falls, K), outs
}

func (in *interp) rangeStmt(fr *frame, st *state, s *ast.RangeStmt, label string) []*exit {
	xt := fr.typeOf(s.X)
	var n *T
	var elemAt func(st *state, i *T) *T
	var kt, et types.Type = types.Typ[types.Int], nil
	switch u := xt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n = restrict(in.ev(fr, st, s.X), st.K)
			n = restrict(mkIte(leI(tZero, n), n, tZero), st.K)
			kt = xt
			if u.Info()&types.IsUntyped != 0 {
				kt = types.Typ[types.Int]
				if s.Key != nil {
					kt = fr.typeOf(s.Key)
				}
			}
			break
		}
		if u.Info()&types.IsString != 0 {
			v := restrict(in.ev(fr, st, s.X), st.K)
			if v.op != OBits {
				giveUp("range over a string")
			}
			// constant text
			str := bitsToBytes(v.s)
			var ks, rs []*T
			for i, r := range str {
				ks = append(ks, mkI(int64(i)))
				rs = append(rs, mkI(int64(r)))
			}
			n = mkI(int64(len(ks)))
			et = types.Typ[types.Int32]
			return in.unroll(fr, st, s, label, len(ks), ks, rs, kt, et)
		}
		giveUp("range over %s", xt)
	case *types.Slice:
		v := restrict(in.ev(fr, st, s.X), st.K)
		n = in.sliceLen(st, v)
		et = u.Elem()
		elemAt = func(st *state, i *T) *T { return elemK(in.seqIn(st, v), i, u.Elem(), st.K) }
	case *types.Array:
		v := restrict(in.ev(fr, st, s.X), st.K)
		n = mkI(u.Len())
		et = u.Elem()
		elemAt = func(st *state, i *T) *T { return elemK(v, i, u.Elem(), st.K) }
	case *types.Pointer:
		at, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			giveUp("range over %s", xt)
		}
		p := in.ev(fr, st, s.X)
		n = mkI(at.Len())
		et = at.Elem()
		if s.Value != nil {
			in.notNil(st, fr, "nil", s.Pos(), p)
		}
		elemAt = func(st *state, i *T) *T { return elemK(in.load(st, p), i, at.Elem(), st.K) }
	case *types.Map:
		m := restrict(in.ev(fr, st, s.X), st.K)
		if m == tNil {
			return fall(st)
		}
		giveUp("range over a map")
	default:
		giveUp("range over %s", xt)
	}
	bind := func(st *state, e ast.Expr, v *T, t types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				if o := fr.pi.info.Defs[id]; o != nil {
					fr.vars[o] = in.newCell(st, fr.subst(o.Type()), v)
					return
				}
			}
		}
		lv := in.lval(fr, st, e)
		lv.set(in.convertTo(v, t, lv.typ))
	}
	iter := func(st *state, i *T) (*exit, []*exit) {
		K := st.K
		bind(st, s.Key, i, kt)
		if s.Value != nil {
			if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
				bind(st, s.Value, elemAt(st, i), et)
			}
		}
		return splitNext(in.bodyOf(fr, st, s.Body, label, K), K)
	}
	return in.loop(fr, st, iter, restrict(n, st.K), s.Pos())
}

func (in *interp) unroll(fr *frame, st *state, s *ast.RangeStmt, label string, n int, ks, vs []*T, kt, et types.Type) []*exit {
	iter := func(st *state, i *T) (*exit, []*exit) {
		K := st.K
		k := int(i.i64())
		set := func(e ast.Expr, v *T) {
			if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
				if o := fr.pi.info.Defs[id]; o != nil {
					fr.vars[o] = in.newCell(st, fr.subst(o.Type()), v)
					return
				}
				in.lval(fr, st, e).set(v)
			}
		}
		if s.Key != nil {
			set(s.Key, ks[k])
		}
		if s.Value != nil {
			set(s.Value, vs[k])
		}
		return splitNext(in.bodyOf(fr, st, s.Body, label, K), K)
	}
	return in.loop(fr, st, iter, mkI(int64(n)), s.Pos())
}

// loop runs a loop from st. n is the trip count of a range loop, nil for
// conditional loops.
func (in *interp) loop(fr *frame, st *state, iter iteration, n *T, pos token.Pos) []*exit {
	in.nloops++
	if xs, ok := in.tryUnroll(st, iter, n); ok {
		return xs
	}
	// A writer only ever grows, so if it fits after the last iteration it fitted
	// all along: assume so inside, and check at the end.
	saved := st.clone()
	outer := in.fits
	in.fits = &fitAssumption{cells: st.mem, outer: outer}
	res := in.summarise(fr, st, iter, n, pos, nil)
	used := in.fits.used
	in.fits = outer
	if in.fitsAfter(used, res) {
		return res
	}
	in.fits = nil
	defer func() { in.fits = outer }()
	return in.summarise(fr, saved, iter, n, pos, nil)
}

type fitWriter struct {
	ptr *T
	typ types.Type
}

type fitAssumption struct {
	cells map[int]*T
	used  []fitWriter
	outer *fitAssumption
}

// assumeFit notes that a writer is taken to fit; false when that cannot be
// checked later.
func (in *interp) assumeFit(w fitWriter) bool {
	if in.fits == nil || w.ptr.op != OPtr {
		return false
	}
	if _, ok := in.fits.cells[w.ptr.n]; !ok {
		return false
	}
	for _, u := range in.fits.used {
		if u == w {
			return true
		}
	}
	in.fits.used = append(in.fits.used, w)
	return true
}

func (in *interp) fitsAfter(used []fitWriter, res []*exit) bool {
	for _, w := range used {
		for _, x := range res {
			if x.kind != xFall {
				continue
			}
			obj := in.load(x.st, w.ptr)
			dst, bits := field(obj, 0, w.typ), field(obj, 1, w.typ)
			n := restrict(blen(bits), x.st.K)
			if !proves(leI(n, mulC(in.sliceLen(x.st, dst), 8)), x.st.K) && !in.assumeFit(w) {
				return false
			}
		}
	}
	return true
}

// proves decides whether t holds under K, splitting cases where needed.
func proves(t *T, K *Facts) (ok bool) {
	t = restrict(t, K)
	if t.op == OBool {
		return t == tTrue
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(undecided); !is {
				panic(r)
			}
			ok = false
		}
	}()
	e := newEq()
	e.max = 4000
	return e.eq(t, tTrue, K)
}

func (in *interp) tryUnroll(st0 *state, iter iteration, n *T) (res []*exit, ok bool) {
	if n != nil && (n.op != OInt || n.i64() > 600) {
		return nil, false
	}
	if n == nil {
		// the condition must be decided at once
		in.rec++
		probe := st0.clone()
		next, outs := func() (a *exit, b []*exit) {
			defer in.catchDead()
			return iter(probe, nil)
		}()
		in.rec--
		if next == nil && len(outs) == 1 && outs[0].kind == xDone && outs[0].g == tTrue {
			outs[0].kind = xFall
			return outs, true
		}
		dec := false
		for _, x := range outs {
			if x.kind == xDone {
				return nil, false
			}
			dec = true
		}
		if next == nil && !dec {
			return nil, true
		}
		if len(outs) > 0 {
			return nil, false // conditional exits: summarise
		}
	}
	st := st0.clone()
	g := tTrue
	var out []*exit
	limit := 600
	if n != nil {
		limit = int(n.i64())
	}
	K0 := st.K
	for k := 0; ; k++ {
		if n != nil && k == limit {
			out = append(out, &exit{kind: xFall, g: g, st: st})
			break
		}
		if k >= limit {
			return nil, false
		}
		var i *T
		if n != nil {
			i = mkI(int64(k))
		}
		next, outs := func() (a *exit, b []*exit) {
			defer in.catchDead()
			return iter(st, i)
		}()
		for _, x := range outs {
			if n == nil && x.kind == xDone && x.g != tTrue {
				return nil, false
			}
			if x.kind == xDone || x.kind == xBrk {
				x.kind = xFall
			}
			x.g = and(g, x.g)
			out = append(out, x)
		}
		if next == nil {
			break
		}
		if len(out) > 40 {
			return nil, false
		}
		g = and(g, next.g)
		st = next.st
	}
	_ = K0
	return out, true
}

func (in *interp) catchDead() {
	if r := recover(); r != nil {
		if _, ok := r.(deadPath); !ok {
			panic(r)
		}
	}
}

// ---- leaves ----

type leaf struct {
	cell  int
	path  []*T
	typ   types.Type
	slice bool
	sym   *T // value or sequence
	nsym  *T // nil flag of a slice
	init  *T
	ninit *T
	q     *T // sym = 8·q + r
	r     *big.Int
	tried bool
	plain *T
	hint  bool
}

// Integer loop variables are taken to stay within a range while the loop
// is analysed; the closed form then has to confirm it for every iteration.
var (
	symRange = map[int][2]*big.Int{}
)

func hintRange(sym, init *T) bool {
	if sym.op != OSym || sym.typ == nil {
		return false
	}
	w, sg, ok := intType(sym.typ)
	if !ok || w < 64 {
		return false
	}
	l, h := rng(init)
	if l == nil || h == nil {
		return false
	}
	for k := uint(57); k < 63; k += 2 {
		half := new(big.Int).Lsh(bigOne, k-1)
		hi := new(big.Int).Lsh(bigOne, k)
		lo := new(big.Int).Neg(hi)
		if !sg {
			lo = bigZero
		}
		if l.Cmp(new(big.Int).Neg(half)) < 0 || l.Cmp(lo) < 0 || h.Cmp(half) > 0 {
			continue
		}
		symRange[sym.id] = [2]*big.Int{lo, hi}
		delete(rangeMemo, sym.id)
		return true
	}
	return false
}

func hintHolds(sym, closed *T) bool {
	r := symRange[sym.id]
	l, h := rng(closed)
	return l != nil && h != nil && l.Cmp(r[0]) >= 0 && h.Cmp(r[1]) <= 0
}

func leafKey(l *leaf) string {
	k := fmt.Sprint(l.cell)
	for _, p := range l.path {
		k += fmt.Sprintf(".%d", p.id)
	}
	return k
}

func (in *interp) leafGet(st *state, l *leaf) *T {
	return in.navigate(st, in.content(st, l.cell), l.path)
}

var symLen = map[int]*T{}

func (in *interp) leafSet(st *state, l *leaf, v, nv *T) {
	x := v
	if l.slice {
		x = mkSliceV(nv, v)
	}
	st.mem[l.cell] = in.update(st, in.content(st, l.cell), l.path, x)
}

func modelledField(typ types.Type, i int) types.Type {
	bs := types.NewSlice(types.Typ[types.Uint8])
	switch typeKey(typ) {
	case rdT:
		return []types.Type{bs, types.Typ[types.Uint]}[i]
	case wrT:
		return []types.Type{bs, types.Typ[types.String]}[i]
	}
	return types.Typ[types.String]
}

// restrictNew simplifies what differs from the old value.
func restrictNew(old, v *T, K *Facts) *T {
	if old == v {
		return v
	}
	if old != nil && old.op == OStruct && v.op == OStruct && old.s == v.s {
		args := make([]*T, len(v.args))
		for i := range args {
			args[i] = restrictNew(old.args[i], v.args[i], K)
		}
		return mkStruct(v.typ, args)
	}
	return restrict(v, K)
}

// modOf is t modulo m where it is the same on every path.
func modOf(t *T, m int64) (*big.Int, bool) {
	bm := big.NewInt(m)
	if isDef(t) {
		return modOf(t.args[0], m)
	}
	switch t.op {
	case OInt:
		return new(big.Int).Mod(t.z, bm), true
	case OIte:
		a, ok := modOf(t.args[1], m)
		b, ok2 := modOf(t.args[2], m)
		return a, ok && ok2 && a.Cmp(b) == 0
	case OLin:
		r := new(big.Int).Set(t.z)
		for i, a := range t.args {
			if new(big.Int).Mod(t.coefs[i], bm).Sign() == 0 {
				continue
			}
			x, ok := modOf(a, m)
			if !ok {
				return nil, false
			}
			r.Add(r, new(big.Int).Mul(t.coefs[i], x))
		}
		return r.Mod(r, bm), true
	}
	return nil, false
}

// exactDiv divides a multiple of m by m.
func exactDiv(t *T, m int64) *T {
	bm := big.NewInt(m)
	switch t.op {
	case OInt:
		return mkZ(new(big.Int).Quo(t.z, bm))
	case OIte:
		return mkIte(t.args[0], exactDiv(t.args[1], m), exactDiv(t.args[2], m))
	case OLin:
		r := tZero
		rest := mkZ(t.z)
		for i, a := range t.args {
			if new(big.Int).Mod(t.coefs[i], bm).Sign() == 0 {
				r = addMul(r, new(big.Int).Quo(t.coefs[i], bm), a)
				continue
			}
			x, ok := modOf(a, m)
			if !ok {
				return mkDiv(t, bm)
			}
			r = addMul(r, t.coefs[i], exactDiv(sub(a, mkZ(x)), m))
			rest = addMul(rest, t.coefs[i], mkZ(x))
		}
		return add(r, exactDiv(rest, m))
	}
	return mkDiv(t, bm)
}

// diff lists the leaves at which two values of a type differ.
func (in *interp) diff(cell int, path []*T, typ types.Type, a, b *T, add func(path []*T, typ types.Type, old *T)) {
	if a == b {
		return
	}
	if typ != nil {
		n := numFields(typ)
		if n >= 0 && !(opaqueStruct(typ)) {
			ea, eb := expandAll(a, typ), expandAll(b, typ)
			if ea.op == OStruct && eb.op == OStruct {
				for i := 0; i < n; i++ {
					var ft types.Type
					if _, ok := modelled[typeKey(typ)]; ok {
						ft = modelledField(typ, i)
					} else {
						ft = typ.Underlying().(*types.Struct).Field(i).Type()
					}
					in.diff(cell, append(append([]*T{}, path...), fldStep(typ, i)), ft, ea.args[i], eb.args[i], add)
				}
				return
			}
		}
	}
	add(path, typ, a)
}

func isSliceValue(v *T, typ types.Type) bool {
	if typ == nil {
		return false
	}
	if _, ok := typ.Underlying().(*types.Slice); !ok {
		return false
	}
	return !isSeqT(v)
}

func (in *interp) summarise(fr *frame, base *state, iter iteration, n *T, pos token.Pos, noHint map[string]bool) []*exit {
	idx := newIdx()
	cells := map[int]bool{}
	for c := range base.mem {
		cells[c] = true
	}
	var leaves []*leaf
	covered := func(cell int, path []*T) *leaf {
		for _, l := range leaves {
			if l.cell != cell || len(l.path) > len(path) {
				continue
			}
			same := true
			for i := range l.path {
				if l.path[i] != path[i] {
					same = false
				}
			}
			if same {
				return l
			}
		}
		return nil
	}
	headK := func() *Facts {
		K := base.K.with(leI(tZero, idx), true)
		if n != nil {
			K = K.with(ltI(idx, n), true)
		}
		return K
	}
	isLocal := func(head *state) func(int) bool {
		return func(c int) bool {
			if _, ok := head.mem[c]; ok {
				return false
			}
			return in.symAtoms[c] == nil
		}
	}
	ncl0 := in.ncell
	_ = ncl0
	var head *state
	var next *exit
	var outs []*exit
	for round := 0; ; round++ {
		if round > 12 {
			giveUp("loop variables do not stabilise")
		}
		head = base.clone()
		for _, l := range leaves {
			in.leafSet(head, l, l.sym, l.nsym)
		}
		head.K = headK()
		if head.K.dead {
			break
		}
		// remember lazily created cells
		in.rec++
		work := head.clone()
		func() {
			defer func() { in.rec-- }()
			defer in.catchDead()
			next, outs = nil, nil
			next, outs = iter(work, idx)
		}()
		if next == nil {
			break
		}
		found := false
		for c, nv := range next.st.mem {
			hv, ok := head.mem[c]
			if !ok {
				atom := in.symAtoms[c]
				if atom == nil {
					continue // local to the iteration, or a lazily read global
				}
				hv = in.symContent(atom)
				if hv != nv {
					moves := mentions(atom, idx)
					for _, l := range leaves {
						moves = moves || mentions(atom, l.sym) || l.nsym != nil && mentions(atom, l.nsym)
					}
					if moves && !onlyCode(atom, nv, hv) {
						giveUp("write through a pointer that changes from one iteration to the next")
					}
					base.mem[c] = hv
					head.mem[c] = hv
					cells[c] = true
				}
			}
			if hv == nv {
				continue
			}
			cell := c
			in.diff(cell, nil, in.ctyp[cell], hv, nv, func(path []*T, typ types.Type, old *T) {
				if l := covered(cell, path); l != nil {
					return
				}
				l := &leaf{cell: cell, path: path, typ: typ}
				found = true
				bv := in.navigate(base, in.content(base, cell), path)
				if isSliceValue(bv, typ) && isSliceLike(bv) {
					l.slice = true
					l.init, l.ninit = in.freeze(base, in.seqIn(base, bv)), isNil(bv)
					l.sym = freshSym("seq", typ)
					l.nsym = freshSym("phi", types.Typ[types.Bool])
				} else {
					l.init = in.freeze(base, bv)
					name := "phi"
					if isSeqT(bv) {
						name = "seq"
					}
					t := typ
					if t == nil {
						t = bv.typ
					}
					if t == nil && isIntT(bv) {
						t = types.Typ[types.Int]
					}
					l.sym = freshSym(name, t)
					if !noHint[leafKey(l)] {
						l.hint = hintRange(l.sym, l.init)
					}
					if isSeqT(bv) && len(path) == 0 && isArrayCell(in.ctyp[cell]) {
						symLen[l.sym.id] = slen(bv)
					}
				}
				// drop finer leaves below a coarser one
				var keep []*leaf
				for _, o := range leaves {
					if o.cell == cell && len(o.path) > len(path) && samePath(o.path[:len(path)], path) {
						continue
					}
					keep = append(keep, o)
				}
				leaves = append(keep, l)
			})
		}
		if found {
			continue
		}
		// integers that keep their residue modulo 8 (bit positions)
		again := false
		for _, l := range leaves {
			if l.slice || l.path == nil || l.path[len(l.path)-1].s != "fld" || typeKey(l.path[len(l.path)-1].typ) != rdT || !isIntT(l.sym) || l.init.op == OIte && l.init.typ != nil && isFloat(l.init.typ) {
				continue
			}
			nv := restrict(in.leafGet(next.st, l), next.st.K)
			if l.q != nil {
				if r, ok := modOf(nv, 8); !ok || r.Cmp(l.r) != 0 {
					if debugDerived {
						fmt.Println("DROPQ", fr.name, ok, r, l.r, nv.show(8, 1500))
					}
					l.sym, l.q = l.plain, nil
					again = true
				}
				continue
			}
			if l.tried {
				continue
			}
			l.tried = true
			if _, plain := toLin(sub(nv, l.sym)), true; plain && sub(nv, l.sym).op == OInt {
				continue // solved directly
			}
			if r, ok := modOf(l.init, 8); ok && l.sym.op == OSym {
				l.plain = l.sym
				l.q, l.r = freshSym("phi", types.Typ[types.Int]), r
				l.sym = add(mulC(l.q, 8), mkZ(r))
				again = true
			}
		}
		if !again {
			break
		}
	}
	post := func(sub map[*T]*T, x *exit, K *Facts) *state {
		r := &state{make(map[int]*T, len(x.st.mem)), K}
		for c, v := range x.st.mem {
			if b, ok := base.mem[c]; ok && b == v {
				r.mem[c] = v
				continue
			}
			if p := in.symAtoms[c]; p != nil && v == in.symContent(p) {
				continue // read in the loop and not written
			}
			r.mem[c] = restrictNew(base.mem[c], substN(v, sub), K)
		}
		return r
	}
	if head.K.dead { // n <= 0
		return fall(base)
	}
	if next == nil {
		// at most one iteration
		h := base.clone()
		if n != nil {
			c := restrict(leI(tOne, n), base.K)
			return in.branch(h, c, func(st *state) []*exit {
				var os []*exit
				func() {
					defer in.catchDead()
					_, os = iter(st, tZero)
				}()
				for _, x := range os {
					if x.kind == xBrk || x.kind == xDone {
						x.kind = xFall
					}
				}
				return os
			}, func(st *state) []*exit { return fall(st) })
		}
		_, os := iter(h, tZero)
		for _, x := range os {
			if x.kind == xBrk || x.kind == xDone {
				x.kind = xFall
			}
		}
		return os
	}

	// ---- recurrences ----
	sys := &recDef{idx: idx}
	for _, l := range leaves {
		v := in.freezeIf(next.st, in.leafGet(next.st, l), isLocal(head))
		if l.slice {
			var s *T
			if isSeqT(v) {
				s = v
			} else {
				s = in.freezeIf(next.st, in.seqIn(next.st, v), isLocal(head))
			}
			sys.vars = append(sys.vars, l.sym, l.nsym)
			sys.inits = append(sys.inits, l.init, l.ninit)
			sys.steps = append(sys.steps, s, isNil(v))
		} else if l.q != nil {
			sys.vars = append(sys.vars, l.q)
			sys.inits = append(sys.inits, exactDiv(sub(l.init, mkZ(l.r)), 8))
			sys.steps = append(sys.steps, exactDiv(sub(restrict(v, next.st.K), mkZ(l.r)), 8))
		} else {
			sys.vars = append(sys.vars, l.sym)
			sys.inits = append(sys.inits, l.init)
			sys.steps = append(sys.steps, v)
		}
	}
	K := next.st.K
	if n != nil {
		K = K.with(ltI(idx, n), true)
	}
	for i := range sys.steps {
		budget := 64
		sys.steps[i] = deepRestrict(restrict(sys.steps[i], K), K, &budget)
	}
	closed := solveSystem(sys, K)
	retry := false
	for i, v := range sys.vars {
		for _, l := range leaves {
			if l.hint && l.sym == v && !hintHolds(v, closed[i]) {
				if noHint == nil {
					noHint = map[string]bool{}
				}
				noHint[leafKey(l)] = true
				if debugJoin {
					fmt.Println("NOHINT", in.p.pos(pos), symRange[v.id], closed[i].dump(9, "  ", map[int]bool{}))
					lo, hi := rng(closed[i])
					fmt.Println(lo, hi)
				}
				retry = true
			}
		}
	}
	if retry {
		return in.summarise(fr, base, iter, n, pos, noHint)
	}
	symSub := map[*T]*T{}
	for i, v := range sys.vars {
		symSub[v] = closed[i]
	}
	if in.rec == 0 && n == nil {
		in.checkMeasure(fr, pos, head, next, outs, sys, idx)
	}

	// ---- trip count ----
	guardOf := func(outs []*exit, sub map[*T]*T) *T {
		E := tFalse
		for _, x := range outs {
			E = or(E, substN(x.g, sub))
		}
		return E
	}
	N := n
	if n == nil {
		E := restrict(guardOf(outs, symSub), base.K)
		if m, _, ok := trip(restrict(unwrapFor(E, idx, base.K), base.K), idx); ok {
			N = restrict(m, base.K)
		}
	}

	// ---- final pass with closed forms ----
	fin := base.clone()
	j := 0
	for _, l := range leaves {
		if l.slice {
			in.leafSet(fin, l, closed[j], closed[j+1])
			j += 2
		} else if l.q != nil {
			in.leafSet(fin, l, add(mulC(closed[j], 8), mkZ(l.r)), nil)
			j++
		} else {
			in.leafSet(fin, l, closed[j], nil)
			j++
		}
	}
	headState := fin.clone()
	fin.K = base.K.with(leI(tZero, idx), true)
	if n != nil {
		fin.K = fin.K.with(ltI(idx, n), true)
	} else if N != nil {
		fin.K = fin.K.with(leI(idx, N), true)
	}
	for c, v := range fin.mem {
		if b, ok := base.mem[c]; !ok || b != v {
			fin.mem[c] = restrictNew(b, v, fin.K)
		}
	}
	func() {
		defer in.catchDead()
		next, outs = nil, nil
		next, outs = iter(fin, idx)
	}()

	// ---- exits ----
	var early, done []*exit
	var KN *Facts
	if N != nil {
		KN = base.K.with(leI(tZero, idx), true).with(ltI(idx, N), true)
	}
	E := tFalse
	for _, x := range outs {
		if N != nil {
			g := restrict(x.g, KN)
			if n == nil && x.kind == xDone && g == tFalse {
				done = append(done, x)
				continue
			}
			if g == tFalse {
				continue
			}
			x.g = g
		}
		early = append(early, x)
		E = or(E, x.g)
	}
	bound := N
	if bound == nil {
		bound = inf()
	}
	var res []*exit
	any := tFalse
	F := bound
	if E != tFalse {
		F = restrict(mkFirst(bound, E, idx), base.K)
		if N != nil {
			any = restrict(mkAny(N, E, idx), base.K)
		} else {
			any = tTrue
		}
	}
	if any != tFalse {
		sub := map[*T]*T{idx: F}
		Ka := base.K
		if any != tTrue {
			Ka = Ka.with(any, true)
		}
		Ka = Ka.with(leI(tZero, F), true)
		if N != nil {
			Ka = Ka.with(ltI(F, N), true)
		}
		EF := substN(E, sub)
		Ka = Ka.with(EF, true)
		rem := tTrue
		for k, x := range early {
			g := restrict(substN(x.g, sub), Ka)
			if k == len(early)-1 {
				g = tTrue
			}
			gg := and(any, and(rem, g))
			rem = and(rem, not(g))
			Kx := Ka
			if gg != tTrue {
				Kx = Ka.with(g, true)
			}
			if Kx.dead || gg == tFalse {
				continue
			}
			y := &exit{kind: x.kind, label: x.label, g: gg, st: post(sub, x, Kx)}
			for _, v := range x.vals {
				y.vals = append(y.vals, restrict(substN(v, sub), Kx))
			}
			if y.kind == xBrk || y.kind == xDone {
				y.kind = xFall
			}
			res = append(res, y)
		}
	}
	if any != tTrue {
		Kd := base.K
		if any != tFalse {
			Kd = Kd.with(any, false)
		}
		sub := map[*T]*T{idx: N}
		if n != nil {
			x := &exit{st: headState}
			res = append(res, &exit{kind: xFall, g: not(any), st: post(sub, x, Kd)})
		} else {
			Kd = Kd.with(leI(tZero, N), true)
			rem := tTrue
			for k, x := range done {
				g := restrict(substN(x.g, sub), Kd)
				if k == len(done)-1 {
					g = tTrue
				}
				gg := and(not(any), and(rem, g))
				rem = and(rem, not(g))
				if gg == tFalse {
					continue
				}
				res = append(res, &exit{kind: xFall, g: gg, st: post(sub, x, Kd)})
			}
		}
	}
	return res
}

func isSliceLike(v *T) bool {
	switch v.op {
	case OSlice, OSliceV, ONil:
		return true
	case OIte:
		return isSliceLike(v.args[1]) || isSliceLike(v.args[2])
	case OSym, OApp, OBV, ORec:
		return true
	}
	return false
}

func isArrayCell(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

func samePath(a, b []*T) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// unwrapFor removes reductions that cannot take effect before the loop ends.
func unwrapFor(E, idx *T, K *Facts) *T {
	for _, lit := range literals(E) {
		if lit.op != OIn {
			continue
		}
		p := lit.args[0]
		l := toLin(p)
		for i, a := range l.as {
			if a.op != OWrap || !mentions(a, idx) {
				continue
			}
			inner := addMul(addMul(p, new(big.Int).Neg(l.cs[i]), a), l.cs[i], a.args[0])
			nl := mkIn(inner, lit.set)
			for _, v := range []bool{true, false} {
				set := lit.set
				if !v {
					set = complement(set)
				}
				m := firstIn(inner, set, idx)
				if m == nil || assume1(E, lit, v) != tTrue {
					continue
				}
				// the reduction is the identity on 0..m
				lo, hi := rangeK(subst1(a.args[0], idx, tZero), K)
				lo2, hi2 := rangeK(restrict(subst1(a.args[0], idx, m), K), K)
				tl, th := bigZero, new(big.Int).Lsh(bigOne, uint(a.n))
				if a.s == "i" {
					th = new(big.Int).Lsh(bigOne, uint(a.n-1))
					tl = new(big.Int).Neg(th)
				}
				c := coefOf(a.args[0], idx)
				if c.Sign() == 0 || lo == nil || hi == nil || lo2 == nil || hi2 == nil {
					continue
				}
				if lo.Cmp(tl) >= 0 && lo2.Cmp(tl) >= 0 && hi.Cmp(th) < 0 && hi2.Cmp(th) < 0 {
					E = or(mkIn(inner, set), assume1(E, lit, !v))
					_ = nl
					return E
				}
			}
		}
	}
	return E
}

// checkMeasure requires a conditional loop to make progress towards its exit.
func (in *interp) checkMeasure(fr *frame, pos token.Pos, head *state, next *exit, outs []*exit, sys *recDef, idx *T) {
	E := tFalse
	for _, x := range outs {
		E = or(E, x.g)
	}
	step := map[*T]*T{idx: add(idx, tOne)}
	for i, v := range sys.vars {
		step[v] = sys.steps[i]
	}
	// a copy of a condition stands for it
	E = substN(E, derivedVars(sys))
	ok, why := makesProgress(E, step, next.st.K, 4)
	in.note(fr, "terminates", pos, ok, why)
}

// makesProgress tells whether some condition of E, which ends the loop, comes
// nearer with every step. Where what E asks depends on conditions the loop
// does not change, each of their outcomes must do so.
func makesProgress(E *T, step map[*T]*T, K *Facts, depth int) (bool, string) {
	ok := false
	why := "no exit condition makes progress"
	for _, lit := range literals(E) {
		if lit.op != OIn {
			continue
		}
		for _, v := range []bool{true, false} {
			if assume1(E, lit, v) != tTrue {
				continue
			}
			// continuing requires the literal to be !v
			stay := lit.set
			if v {
				stay = complement(stay)
			}
			if len(stay) == 0 {
				ok = true
				continue
			}
			p := lit.args[0]
			d := sub(p, substN(p, step))
			lo, hi := rangeK(restrict(d, K), K)
			if lo != nil && lo.Sign() > 0 && stay[0].lo != nil {
				ok = true
			}
			if hi != nil && hi.Sign() < 0 && stay[len(stay)-1].hi != nil {
				ok = true
			}
			why = "measure " + p.String() + " changes by " + d.String()
		}
	}
	if ok || depth == 0 || E == tFalse {
		return ok, why
	}
	for _, lit := range literals(E) {
		moves := false
		for v := range step {
			moves = moves || mentions(lit, v)
		}
		if moves {
			continue
		}
		for _, v := range []bool{true, false} {
			if ok, w := makesProgress(assume1(E, lit, v), step, K, depth-1); !ok {
				return false, w
			}
		}
		return true, ""
	}
	return false, why
}

// ---- recurrence solver ----

// solveSystem returns, for each variable, its value at the start of iteration
// d.idx. K holds facts about the state at the end of an iteration.
func solveSystem(d *recDef, K *Facts) []*T {
	n := len(d.vars)
	closed := make([]*T, n)
	steps := append([]*T{}, d.steps...)
	done := map[*T]*T{}
	left := n
	derived := derivedVars(d)
	if len(derived) > 0 {
		for i := range steps {
			steps[i] = substN(steps[i], derived)
		}
		for i, v := range d.vars {
			if derived[v] != nil {
				closed[i] = derived[v]
				left--
			}
		}
		defer func() {
			for i, v := range d.vars {
				if derived[v] != nil {
					closed[i] = substN(derived[v], done)
				}
			}
		}()
	}
	for left > 0 {
		progress := false
		for i := 0; i < n; i++ {
			if closed[i] != nil {
				continue
			}
			s := substN(steps[i], done)
			dep := false
			for j := 0; j < n; j++ {
				if j != i && closed[j] == nil && mentions(s, d.vars[j]) {
					dep = true
				}
			}
			if dep {
				continue
			}
			c := solve1(d.vars[i], d.inits[i], restrict(s, K), d.idx)
			if c == nil {
				continue
			}
			closed[i] = c
			done[d.vars[i]] = c
			left--
			progress = true
		}
		if progress {
			continue
		}
		// the rest form recurrences without a closed form; take the ones
		// whose dependency cone is smallest first
		best, bestN := -1, 0
		for i := 0; i < n; i++ {
			if closed[i] != nil {
				continue
			}
			c := len(cone(d, steps, closed, i))
			if best < 0 || c < bestN {
				best, bestN = i, c
			}
		}
		if debugJoin {
			for i := range d.vars {
				fmt.Println("UNSOLVED", closed[i] != nil, d.vars[i], "=", d.inits[i], "STEP", restrict(substN(steps[i], done), K).dump(6, "   ", map[int]bool{}))
			}
		}
		rd := &recDef{idx: d.idx}
		var ids []int
		for _, j := range cone(d, steps, closed, best) {
			ids = append(ids, j)
			rd.vars = append(rd.vars, d.vars[j])
			rd.inits = append(rd.inits, d.inits[j])
			rd.steps = append(rd.steps, restrict(substN(steps[j], done), K))
		}
		for k, j := range ids {
			closed[j] = recAt(rd, k, d.idx)
			left--
		}
		for _, j := range ids {
			done[d.vars[j]] = closed[j]
		}
	}
	return closed
}

var debugDerived = os.Getenv("DEBUGDERIVED") != ""

// derivedVars finds the variables that always equal a function of the others,
// like the number of bits left next to a read position.
func derivedVars(d *recDef) map[*T]*T {
	var out map[*T]*T
	for i, v := range d.vars {
		s := d.steps[i]
		if mentions(s, v) || isSeqT(v) || s.op == OInt || s.op == OBool {
			continue
		}
		f := s
		back := map[*T]*T{}
		ini := map[*T]*T{}
		for j, u := range d.vars {
			if j == i || out[u] != nil || !isIntT(u) || !mentions(f, u) {
				continue
			}
			if d.steps[j] == u {
				w := freshSym("phi", u.typ)
				f = subst1(f, u, w)
				back[w], ini[w] = u, d.inits[j]
				continue
			}
			w := freshSym("phi", u.typ)
			if f = express(f, u, d.steps[j], w); f == nil {
				break
			}
			back[w], ini[w] = u, d.inits[j]
		}
		if debugDerived && (f == nil || len(back) == 0 || mentions(f, d.idx)) {
			fmt.Println("NOT", v, f == nil, s.show(9, 900))
			for j := range d.vars {
				fmt.Println("    ", d.vars[j], d.steps[j].show(9, 600))
			}
		}
		if f == nil || len(back) == 0 || mentions(f, d.idx) {
			continue
		}
		bad := false
		for _, u := range d.vars {
			bad = bad || mentions(f, u)
		}
		if debugDerived {
			fmt.Println("DERIVED?", v, bad, f.show(8, 800), "\n   INIT", substN(f, ini).show(8, 500), "\n   WANT", d.inits[i].show(8, 500))
		}
		if bad || substN(f, ini) != d.inits[i] {
			continue
		}
		if out == nil {
			out = map[*T]*T{}
		}
		out[v] = substN(f, back)
	}
	return out
}

// express rewrites t, a function of u, as a function of w = su(u); nil when it
// still depends on u.
func express(t, u, su, w *T) *T {
	var pivot *T
	var k *big.Int
	for i, a := range toLin(su).as {
		if mentions(a, u) {
			pivot, k = a, toLin(su).cs[i]
			break
		}
	}
	if k == nil {
		return nil
	}
	coef := func(t *T) *big.Int {
		l := toLin(t)
		for i, a := range l.as {
			if a == pivot {
				return l.cs[i]
			}
		}
		return nil
	}
	memo := map[*T]*T{}
	var f func(t *T) *T
	f = func(t *T) *T {
		if t == su {
			return w
		}
		if len(t.args) == 0 || !mentions(t, u) {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *T
		if c := coef(t); c != nil && t.op == OLin {
			q, m := new(big.Int).QuoRem(c, k, new(big.Int))
			if m.Sign() == 0 {
				r = addMul(addMul(t, new(big.Int).Neg(q), su), q, w)
			}
		}
		if r == nil {
			r = rebuild(t, f)
		}
		memo[t] = r
		return r
	}
	r := f(t)
	if mentions(r, u) {
		return nil
	}
	return r
}

// cone lists the unsolved variables i depends on, i first.
func cone(d *recDef, steps, closed []*T, i int) []int {
	order := []int{i}
	in := map[int]bool{i: true}
	for p := 0; p < len(order); p++ {
		for j := range d.vars {
			if closed[j] == nil && !in[j] && mentions(steps[order[p]], d.vars[j]) {
				in[j] = true
				order = append(order, j)
			}
		}
	}
	return order
}

func recAt(d *recDef, k int, at *T) *T {
	v := d.vars[k]
	if at == tZero {
		return d.inits[k]
	}
	r := d.at(k, at)
	if isSeqT(v) && !isSeqT(r) {
		return mkApp("seq", v.typ, r)
	}
	if c := recogniseCRC(r); c != nil {
		return c
	}
	return r
}

// solveRec re-solves a recurrence after its parts changed; the result is the
// first variable after `at` iterations.
func solveRec(d *recDef, at *T) *T {
	if at == tZero {
		return d.inits[0]
	}
	if at == tOne {
		// one iteration: the steps themselves
		m := map[*T]*T{d.idx: tZero}
		for j, v := range d.vars {
			m[v] = d.inits[j]
		}
		return substN(d.steps[0], m)
	}
	if len(d.vars) == 1 {
		if c := solve1(d.vars[0], d.inits[0], d.steps[0], d.idx); c != nil {
			return subst1(c, d.idx, at)
		}
	} else {
		cl := solveSystem(d, newFacts())
		if cl[0].op != ORec && !(cl[0].op == OApp && cl[0].s == "seq") {
			return subst1(cl[0], d.idx, at)
		}
		return retarget(cl[0], at, d.idx)
	}
	r := d.at(0, at)
	if c := recogniseCRC(r); c != nil {
		return c
	}
	return r
}

func retarget(t, at, idx *T) *T {
	if t.op == OApp && t.s == "seq" {
		return mkApp("seq", t.typ, retarget(t.args[0], at, idx))
	}
	if t.op == ORec && t.args[0] == idx {
		a := append([]*T{at}, t.args[1:]...)
		return intern(&T{op: ORec, n: t.n, k: t.k, z: t.z, args: a, typ: t.typ, h: t.h})
	}
	return subst1(t, idx, at)
}

// solve1 solves v' = s(v, idx) with v(0) = init; s mentions no other variable.
func solve1(v, init, s, idx *T) *T {
	if s == v {
		return init
	}
	if !mentions(s, v) {
		if s == init {
			return init
		}
		prev := subst1(s, idx, sub(idx, tOne))
		if !mentions(s, idx) && !mentions(init, idx) {
			return mkIte(eqI(idx, tZero), init, s)
		}
		// overwritten by a function of the index that extends the initial value
		if subst1(s, idx, mkI(-1)) == init {
			return prev
		}
		return mkIte(eqI(idx, tZero), init, prev)
	}
	if s.op == OIte && !mentions(s.args[0], v) && !mentions(s.args[0], idx) {
		a := solve1(v, init, s.args[1], idx)
		b := solve1(v, init, s.args[2], idx)
		if a != nil && b != nil {
			return mkIte(s.args[0], a, b)
		}
	}
	if isBoolT(v) {
		t1, t0 := assume1(s, v, true), assume1(s, v, false)
		if !mentions(t1, v) && !mentions(t0, v) {
			switch {
			case t1 == tTrue:
				return or(init, mkAny(idx, t0, idx2(idx, &t0)))
			case t0 == tFalse:
				nt := not(t1)
				return and(init, not(mkAny(idx, nt, idx2(idx, &nt))))
			}
		}
		return nil
	}
	if isIntT(v) {
		w, sg, inner := 0, false, s
		if s.op == OWrap {
			w, sg, inner = s.n, s.s == "i", s.args[0]
		}
		f := increment(inner, v)
		if f == nil && w == 0 {
			if fw, ww, ss := wrapIncrement(s, v); fw != nil {
				f, w, sg = fw, ww, ss
			}
		}
		if f != nil && !mentions(f, v) {
			if w != 0 {
				// the variable itself must be of that width
				lo, hi := rng(v)
				tl, th := bigZero, new(big.Int).Lsh(bigOne, uint(w))
				if sg {
					th = new(big.Int).Lsh(bigOne, uint(w-1))
					tl = new(big.Int).Neg(th)
				}
				if lo == nil || hi == nil || lo.Cmp(tl) < 0 || hi.Cmp(th) >= 0 {
					return nil
				}
			}
			j := newIdx()
			r := add(init, mkSum(idx, subst1(f, idx, j), j))
			if w != 0 {
				return mkWrap(r, w, sg)
			}
			return r
		}
		return nil
	}
	if isSeqT(v) {
		if g := appended(s, v); g != nil && !mentions(g, v) {
			j := newIdx()
			return cat(init, mkMap(idx, subst1(g, idx, j), j))
		}
		if c := stored(s, v, init, idx); c != nil {
			return c
		}
		// a fixed number of elements taken off one end
		if s.op == OSub && s.args[0] == v {
			if k := s.args[1]; k.op == OInt && s.args[2] == sub(slen(v), k) {
				off := addMul(tZero, k.z, idx)
				return subSeq(init, off, sub(slen(init), off))
			}
			if k := sub(slen(v), s.args[2]); k.op == OInt && s.args[1] == tZero {
				return subSeq(init, tZero, addMul(slen(init), new(big.Int).Neg(k.z), idx))
			}
		}
	}
	return nil
}

// idx2 renames the bound index.
func idx2(idx *T, body **T) *T {
	j := newIdx()
	*body = subst1(*body, idx, j)
	return j
}

// increment is s - v, distributing over choices.
func increment(s, v *T) *T {
	if s.op == OIte && mentions(s, v) && !mentions(s.args[0], v) {
		a, b := increment(s.args[1], v), increment(s.args[2], v)
		if a == nil || b == nil {
			return nil
		}
		return mkIte(s.args[0], a, b)
	}
	f := sub(s, v)
	if mentions(f, v) {
		// choices nested in the sum
		l := toLin(f)
		for i, a := range l.as {
			if a.op == OIte && mentions(a, v) && !mentions(a.args[0], v) {
				r := addMul(f, new(big.Int).Neg(l.cs[i]), a)
				x, y := increment(addMul(add(r, v), l.cs[i], a.args[1]), v), increment(addMul(add(r, v), l.cs[i], a.args[2]), v)
				if x == nil || y == nil {
					return nil
				}
				return mkIte(a.args[0], x, y)
			}
		}
		return nil
	}
	return f
}

// wrapIncrement handles choices between reduced increments.
func wrapIncrement(s, v *T) (f *T, w int, sg bool) {
	switch s.op {
	case OIte:
		if mentions(s.args[0], v) {
			return nil, 0, false
		}
		a, w1, s1 := wrapIncrement(s.args[1], v)
		b, w2, s2 := wrapIncrement(s.args[2], v)
		if a == nil || b == nil {
			return nil, 0, false
		}
		if w1 == 0 {
			w1, s1 = w2, s2
		}
		if w2 == 0 {
			w2, s2 = w1, s1
		}
		if w1 != w2 || s1 != s2 {
			return nil, 0, false
		}
		return mkIte(s.args[0], a, b), w1, s1
	case OWrap:
		f = increment(s.args[0], v)
		return f, s.n, s.s == "i"
	}
	if s == v {
		return tZero, 0, false
	}
	return nil, 0, false
}

// appended returns g with s = cat(v, g), or nil.
func appended(s, v *T) *T {
	switch s.op {
	case OIte:
		if mentions(s.args[0], v) {
			return nil
		}
		a, b := appended(s.args[1], v), appended(s.args[2], v)
		if a == nil || b == nil {
			return nil
		}
		return mkIte(s.args[0], a, b)
	case OCat:
		if s.args[0] == v {
			return cat(s.args[1:]...)
		}
	}
	if s == v {
		return tEmpty
	}
	return nil
}

// stored recognises consecutive stores: s = v[:p] ++ u ++ v[p+|u|:] with
// p = p0 + |u|*idx.
func stored(s, v, init, idx *T) *T {
	L := slen(v)
	if slen(init) != L {
		return nil
	}
	// the stores may be conditional, or several to the same place
	p, w := storePlace(s, v, 0)
	if p == nil {
		return nil
	}
	u := blockAt(s, v, p, w)
	if u == nil {
		return nil
	}
	if w == tOne && !mentions(p, idx) && !mentions(p, v) {
		return storedInto(p, u, v, init, idx)
	}
	return storedBlocks(p, w, u, v, init, idx)
}

// storedInto solves repeated stores to one element: the element has a
// recurrence of its own.
func storedInto(p, u, v, init, idx *T) *T {
	et := elemType(v.typ)
	if et == nil || v.bytes {
		return nil
	}
	val := elem(u, tZero, et)
	old := elem(v, p, et)
	at := elem(init, p, et)
	var vars, inits, steps []*T
	newVar := func(typ types.Type, i, s *T, isBool bool) *T {
		name := "phi"
		if isSeqT(i) || isSeqT(s) {
			name = "seq"
		}
		if isBool {
			typ = types.Typ[types.Bool]
		}
		x := freshSym(name, typ)
		vars, inits, steps = append(vars, x), append(inits, i), append(steps, s)
		return x
	}
	// leaves of the element
	var split func(typ types.Type, i, s *T) *T
	split = func(typ types.Type, i, s *T) *T {
		if _, ok := typ.Underlying().(*types.Struct); ok && typeKey(typ) != "time.Time" {
			n := numFields(typ)
			args := make([]*T, n)
			for k := range args {
				ft := typ.Underlying().(*types.Struct).Field(k).Type()
				args[k] = split(ft, field(i, k, typ), field(s, k, typ))
			}
			return mkStruct(typ, args)
		}
		if _, ok := typ.Underlying().(*types.Slice); ok {
			q := newVar(typ, seqOf(i), seqOf(s), false)
			return mkSliceV(newVar(typ, isNil(i), isNil(s), true), q)
		}
		return newVar(typ, i, s, false)
	}
	e := split(et, at, val)
	m := map[*T]*T{old: e}
	d := &recDef{idx: idx, vars: vars, inits: inits}
	for _, s := range steps {
		if s = substN(s, m); mentions(s, v) {
			return nil
		}
		d.steps = append(d.steps, s)
	}
	closed := solveSystem(d, newFacts())
	cm := map[*T]*T{}
	for i, x := range vars {
		cm[x] = closed[i]
	}
	end := sub(sub(slen(init), p), tOne)
	return cat(subSeq(init, tZero, p), unit(substN(e, cm), et), subSeq(init, sub(p, mkI(-1)), end))
}

func storedBlocks(p, w, u, v, init, idx *T) *T {
	p0 := sub(p, mul(w, idx))
	if mentions(p0, idx) || mentions(w, idx) || mentions(p, v) {
		return nil
	}
	// reads of the block being replaced see the initial value
	u = substReads(u, v, init, p, w, idx)
	if u == nil {
		return nil
	}
	j := newIdx()
	end := add(p0, mul(w, idx))
	return cat(subSeq(init, tZero, p0), mkMap(idx, subst1(u, idx, j), j), subSeq(init, end, sub(slen(init), end)))
}

func substReads(u, v, init, p, w, idx *T) *T {
	if !mentions(u, v) {
		return u
	}
	memo := map[int]*T{}
	var f func(*T) *T
	f = func(t *T) *T {
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *T
		switch {
		case t.op == OApp && t.s == "elem" && t.args[0] == v && w == tOne && t.args[1] == p:
			r = elem(init, p, t.typ)
		case t.op == OSub && t.args[0] == v && t.args[1] == p && t.args[2] == w:
			r = subSeq(init, p, w)
		case len(t.args) == 0:
			r = t
		default:
			r = rebuild(t, f)
		}
		memo[t.id] = r
		return r
	}
	r := f(u)
	if mentions(r, v) {
		return nil
	}
	return r
}

// storeAt decomposes s as v with a block u of length w replaced at p.
func storeAt(s, v *T) (p, w, u *T) {
	if s.op == OApp && s.s == "store" && s.args[0] == v {
		return s.args[1], tOne, unit(s.args[2], elemType(v.typ))
	}
	if s.op != OCat {
		return nil, nil, nil
	}
	L := slen(v)
	a := s.args
	p = tZero
	if a[0].op == OSub && a[0].args[0] == v && a[0].args[1] == tZero {
		p = a[0].args[2]
		a = a[1:]
	}
	end := L
	if len(a) > 0 {
		l := a[len(a)-1]
		if l.op == OSub && l.args[0] == v && add(l.args[1], l.args[2]) == L {
			end = l.args[1]
			a = a[:len(a)-1]
		}
	}
	if len(a) == len(s.args) || len(a) == 0 {
		return nil, nil, nil
	}
	u = cat(a...)
	w = sub(end, p)
	if slen(u) != w {
		return nil, nil, nil
	}
	return p, w, u
}

// storePlace finds the place at which s differs from v.
func storePlace(s, v *T, depth int) (p, w *T) {
	if s == v || depth > 40 {
		return nil, nil
	}
	if s.op == OIte {
		if p, w = storePlace(s.args[1], v, depth+1); p != nil {
			return p, w
		}
		return storePlace(s.args[2], v, depth+1)
	}
	if p, w, _ = storeAt(s, v); p == nil && s.op == OApp && s.s == "store" && mentions(s.args[0], v) {
		return s.args[1], tOne
	}
	return p, w
}

// blockAt is the block of s at p, where s is otherwise like v.
func blockAt(s, v, p, w *T) *T {
	if s == v {
		if w == tOne && !v.bytes {
			return unit(elem(v, p, elemType(v.typ)), elemType(v.typ))
		}
		return subSeq(v, p, w)
	}
	if s.op == OIte {
		a := blockAt(s.args[1], v, p, w)
		if a == nil {
			return nil
		}
		b := blockAt(s.args[2], v, p, w)
		if b == nil {
			return nil
		}
		return mkIte(s.args[0], a, b)
	}
	if s.op == OApp && s.s == "store" && s.args[0] != v {
		if s.args[1] != p || w != tOne || blockAt(s.args[0], v, p, w) == nil {
			return nil
		}
		return unit(s.args[2], elemType(v.typ))
	}
	q, w2, u := storeAt(s, v)
	if q == p && w == w2 {
		return u
	}
	return nil
}

// ---- package variables ----

func (p *program) globalsScan() {
	if p.mutated != nil {
		return
	}
	p.mutated = map[types.Object]bool{}
	p.initAssign = map[types.Object]ast.Expr{}
	for _, pi := range p.order {
		for _, f := range pi.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				isInit := fd.Recv == nil && fd.Name.Name == "init"
				mark := func(e ast.Expr, rhs ast.Expr) {
					r := rootIdent(e)
					if r == nil {
						return
					}
					o := pi.info.ObjectOf(r)
					if sel, ok := ast.Unparen(e).(*ast.SelectorExpr); ok && pi.info.Selections[sel] == nil {
						o = pi.info.Uses[sel.Sel]
					}
					if o == nil || !isGlobal(o) {
						return
					}
					_, direct := ast.Unparen(e).(*ast.Ident)
					if isInit && rhs != nil && direct && p.initAssign[o] == nil {
						p.initAssign[o] = rhs
					}
					p.mutated[o] = true
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						for i, l := range x.Lhs {
							var r ast.Expr
							if len(x.Rhs) == len(x.Lhs) && x.Tok == token.ASSIGN {
								r = x.Rhs[i]
							}
							if x.Tok != token.DEFINE {
								mark(l, r)
							}
						}
					case *ast.IncDecStmt:
						mark(x.X, nil)
					case *ast.UnaryExpr:
						if x.Op == token.AND {
							if _, lit := ast.Unparen(x.X).(*ast.CompositeLit); !lit {
								mark(x.X, nil)
							}
						}
					}
					return true
				})
			}
		}
	}
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := ast.Unparen(e).(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				return id
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func (p *program) mutatedGlobals() map[types.Object]bool { p.globalsScan(); return p.mutated }

func (p *program) initAssigned(o types.Object) ast.Expr { p.globalsScan(); return p.initAssign[o] }

var _ = strings.HasPrefix
