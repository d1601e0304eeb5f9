package main

// Abstract interpretation of Go function bodies over value-graph terms. State
// is joined at every control-flow merge (gated values), calls into the module
// are analysed in context, loops are summarised in loops.go.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type state struct {
	mem map[int]*T
	K   *Facts
}

func (s *state) clone() *state {
	m := make(map[int]*T, len(s.mem)+8)
	for k, v := range s.mem {
		m[k] = v
	}
	return &state{m, s.K}
}

func (s *state) assume(c *T, v bool) *state {
	n := s.clone()
	n.K = s.K.with(c, v)
	return n
}

const (
	xFall = iota
	xBreak
	xContinue
	xReturn
)

type exit struct {
	kind  int
	label string
	g     *T // guard relative to the start of the construct
	st    *state
	vals  []*T
}

type deadPath struct{}

type obligation struct {
	kind string
	pos  token.Pos
	fn   string
	key  string
	ok   bool
	why  string
}

type closure struct {
	lit  *ast.FuncLit
	fr   *frame
	fn   *types.Func
	recv *T
	tmap map[*types.TypeParam]types.Type
	intr func(in *interp, fr *frame, st *state, args []*T, call *ast.CallExpr) []*T
}

// deferred are the cells a defer statement leaves what it defers in: whether
// it was reached, the function and its arguments.
type deferred struct {
	stmt  *ast.DeferStmt
	cells []int
}

type frame struct {
	fn     *types.Func
	pi     *pkgInfo
	vars   map[types.Object]int
	res    []types.Object
	sig    *types.Signature
	tmap   map[*types.TypeParam]types.Type
	defers []deferred
	depth  int
	name   string
}

type interp struct {
	fits      *fitAssumption
	p         *program
	ncell     int
	ctyp      map[int]types.Type
	symCells  map[int]int
	symAtoms  map[int]*T
	closures  []*closure
	rec       int // obligations are recorded when zero
	obls      map[string]*obligation
	oblOrder  []string
	opaque    func(in *interp, fr *frame, st *state, f *types.Func, recv *T, args []*T, c *ast.CallExpr) ([]*T, bool)
	icall     func(in *interp, fr *frame, st *state, v *T, m *types.Func, args []*T, c *ast.CallExpr) ([]*T, bool)
	roles     *roles
	stack     []*types.Func
	addr      map[*types.Func]map[types.Object]bool
	globals   map[types.Object]*T
	inGlobal  map[types.Object]bool
	steps     int
	ghosts    []int // cells collecting the values whose type code was asked for
	xmlReads  int   // cell counting elements read, 0 = no XML
	events    int   // cell collecting output effects, 0 = none
	onOutput  func(st *state, w, s *T)
	models    map[string]func(l *libCall) []*T // library functions of the program under analysis
	visited   map[*types.Func]bool
	nloops    int
	ncalls    int
	unterm    []string
	textInput bool // documents are whole texts, looked at before they are read
	noStrict  bool // do not record obligations at all
	openWr    map[int]*T
}

func newInterp(p *program) *interp {
	return &interp{p: p, ncell: 1, ctyp: map[int]types.Type{}, symCells: map[int]int{}, symAtoms: map[int]*T{}, obls: map[string]*obligation{},
		addr: map[*types.Func]map[types.Object]bool{}, globals: map[types.Object]*T{}, inGlobal: map[types.Object]bool{}, visited: map[*types.Func]bool{}}
}

func newState() *state { return &state{map[int]*T{}, newFacts()} }

// ---- memory ----

func (in *interp) newCell(st *state, typ types.Type, v *T) int {
	in.ncell++
	in.ctyp[in.ncell] = typ
	st.mem[in.ncell] = v
	return in.ncell
}

func mkPtr(cell int, path ...*T) *T { return intern(&T{op: OPtr, n: cell, args: path}) }

func fldStep(st types.Type, i int) *T { return mkApp("fld", st, mkI(int64(i))) }
func idxStep(et types.Type, i *T) *T  { return mkApp("idx", et, i) }

func (in *interp) symCell(st *state, p *T) int {
	c, ok := in.symCells[p.id]
	if !ok {
		in.ncell++
		c = in.ncell
		in.symCells[p.id] = c
		in.symAtoms[c] = p
		if t := elemType(p.typ); t != nil {
			in.ctyp[c] = t
		}
	}
	if _, ok := st.mem[c]; !ok {
		st.mem[c] = in.symContent(p)
	}
	return c
}

func (in *interp) symContent(p *T) *T {
	if p.typ == nil {
		giveUp("dereference of untyped value %s (%v %v)", p, p.args[0].typ, p.args[0].args)
	}
	switch u := p.typ.Underlying().(type) {
	case *types.Pointer:
		return mkApp("deref", u.Elem(), p)
	case *types.Slice:
		return seqOf(p)
	}
	giveUp("dereference of %s : %v; %s %v", p, p.typ, p.args[0].s, p.args[0].typ)
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

func (in *interp) content(st *state, cell int) *T {
	if v, ok := st.mem[cell]; ok {
		return v
	}
	if p := in.symAtoms[cell]; p != nil {
		v := in.symContent(p)
		st.mem[cell] = v
		return v
	}
	giveUp("read of an unknown cell")
	return nil
}

func (in *interp) navigate(st *state, v *T, path []*T) *T {
	for _, s := range path {
		switch s.s {
		case "fld":
			v = field(v, int(s.args[0].i64()), s.typ)
		case "idx":
			v = elemK(v, s.args[0], s.typ, st.K)
		}
	}
	return v
}

func (in *interp) load(st *state, p *T) *T {
	switch p.op {
	case OPtr:
		return in.navigate(st, in.content(st, p.n), p.args)
	case OBox:
		return p.args[0]
	case OIte:
		c := restrict(p.args[0], st.K)
		if c == tTrue || p.args[2].op == ONil {
			return in.load(st, p.args[1])
		}
		if c == tFalse || p.args[1].op == ONil {
			return in.load(st, p.args[2])
		}
		return mkIte(c, in.load(st, p.args[1]), in.load(st, p.args[2]))
	case ONil:
		panic(deadPath{})
	}
	return in.content(st, in.symCell(st, p))
}

func (in *interp) update(st *state, v *T, path []*T, nv *T) *T {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if v.op == OIte && s.s == "fld" {
		if e := expandAll(v, s.typ); e.op == OStruct {
			v = e
		}
	}
	switch s.s {
	case "fld":
		i := int(s.args[0].i64())
		return withField(v, i, in.update(st, field(v, i, s.typ), path[1:], nv), s.typ)
	case "idx":
		if len(path) > 1 {
			nv = in.update(st, elemK(v, s.args[0], s.typ, st.K), path[1:], nv)
		}
		return storeSeqK(v, s.args[0], nv, s.typ, st.K)
	}
	giveUp("update")
	return nil
}

// expandAll turns a struct-valued Ite into a struct of Ites.
func expandAll(v *T, typ types.Type) *T {
	if v.op != OIte {
		return expand(v, typ)
	}
	n := numFields(typ)
	args := make([]*T, n)
	for i := range args {
		args[i] = field(v, i, typ)
	}
	return intern(&T{op: OStruct, s: typeKey(typ), typ: typ, args: args})
}

func (in *interp) store(st *state, p, v *T) {
	switch p.op {
	case OPtr:
		st.mem[p.n] = in.update(st, in.content(st, p.n), p.args, v)
	case OIte:
		c := restrict(p.args[0], st.K)
		switch {
		case c == tTrue || p.args[2].op == ONil:
			in.store(st, p.args[1], v)
		case c == tFalse || p.args[1].op == ONil:
			in.store(st, p.args[2], v)
		default:
			o1, o2 := in.load(st, p.args[1]), in.load(st, p.args[2])
			in.store(st, p.args[1], mkIte(c, v, o1))
			_ = o2
			in.store(st, p.args[2], mkIte(c, in.load(st, p.args[2]), v))
		}
	case ONil:
		panic(deadPath{})
	case OBox:
		giveUp("store into a frozen object")
	default:
		in.store(st, mkPtr(in.symCell(st, p)), v)
	}
}

// subPtr extends a pointer by a path step.
func (in *interp) subPtr(st *state, p *T, step *T) *T {
	switch p.op {
	case OPtr:
		return mkPtr(p.n, append(append([]*T{}, p.args...), step)...)
	case OIte:
		if p.args[1].op == ONil {
			return in.subPtr(st, p.args[2], step)
		}
		if p.args[2].op == ONil {
			return in.subPtr(st, p.args[1], step)
		}
		return mkIte(p.args[0], in.subPtr(st, p.args[1], step), in.subPtr(st, p.args[2], step))
	case OBox:
		return mkBox(in.navigate(st, p.args[0], []*T{step}))
	case ONil:
		panic(deadPath{})
	}
	return mkPtr(in.symCell(st, p), step)
}

// seqIn is the current content of a slice (or string/array) value.
func (in *interp) seqIn(st *state, v *T) *T {
	switch v.op {
	case OSlice:
		base := in.load(st, v.args[0])
		return subSeqK(base, v.args[1], v.args[2], st.K)
	case OIte:
		if !isSeqT(v) {
			return mkIte(v.args[0], in.seqIn(st, v.args[1]), in.seqIn(st, v.args[2]))
		}
	case OSliceV:
		return v.args[1]
	case ONil:
		return tEmpty
	}
	if isSeqT(v) {
		return v
	}
	if v.typ != nil {
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			if c, ok := in.symCells[v.id]; ok {
				return in.content(st, c)
			}
			return seqOf(v)
		}
	}
	return v
}

func (in *interp) sliceLen(st *state, v *T) *T {
	switch v.op {
	case OSlice:
		return v.args[2]
	case OIte:
		if !isSeqT(v) {
			return mkIte(v.args[0], in.sliceLen(st, v.args[1]), in.sliceLen(st, v.args[2]))
		}
	}
	return slen(in.seqIn(st, v))
}

// newSlice allocates a fresh backing array.
func (in *interp) newSlice(st *state, elem types.Type, seq *T) *T {
	c := in.newCell(st, types.NewSlice(elem), seq)
	return intern(&T{op: OSlice, args: []*T{mkPtr(c), tZero, slen(seq)}, typ: types.NewSlice(elem)})
}

func mkSlice(ptr, off, n *T, typ types.Type) *T {
	return intern(&T{op: OSlice, args: []*T{ptr, off, n}, typ: typ})
}

// elemPtr is the address of element i of a slice value.
func (in *interp) elemPtr(st *state, v, i *T, et types.Type) *T {
	switch v.op {
	case OSlice:
		return in.subPtr(st, v.args[0], idxStep(et, add(v.args[1], i)))
	case OIte:
		return mkIte(v.args[0], in.elemPtr(st, v.args[1], i, et), in.elemPtr(st, v.args[2], i, et))
	case OSliceV, ONil:
		return mkBox(elemK(in.seqIn(st, v), i, et, st.K))
	}
	return mkPtr(in.symCell(st, v), idxStep(et, i))
}

func (in *interp) reslice(st *state, v, lo, hi *T, typ types.Type) *T {
	switch v.op {
	case OSlice:
		return mkSlice(v.args[0], add(v.args[1], lo), sub(hi, lo), v.typ)
	case OIte:
		if !isSeqT(v) {
			return mkIte(v.args[0], in.reslice(st, v.args[1], lo, hi, typ), in.reslice(st, v.args[2], lo, hi, typ))
		}
	case OSliceV:
		return mkSliceV(v.args[0], subSeqK(v.args[1], lo, sub(hi, lo), st.K))
	case ONil:
		return v
	}
	if isSeqT(v) {
		return subSeqK(v, lo, sub(hi, lo), st.K)
	}
	if _, isp := v.typ.Underlying().(*types.Slice); isp {
		return mkSlice(mkPtr(in.symCell(st, v)), lo, sub(hi, lo), v.typ)
	}
	giveUp("slice of %s", v)
	return nil
}

// freeze replaces references to cells by their content.
func (in *interp) freeze(st *state, v *T) *T {
	return in.freezeIf(st, v, func(int) bool { return true })
}

func (in *interp) freezeIf(st *state, v *T, local func(int) bool) *T {
	memo := map[int]*T{}
	busy := map[int]bool{}
	var f func(*T) *T
	f = func(v *T) *T {
		if r, ok := memo[v.id]; ok {
			return r
		}
		var r *T
		switch v.op {
		case OPtr:
			if !local(v.n) {
				return v
			}
			if busy[v.id] {
				giveUp("cyclic data")
			}
			busy[v.id] = true
			if p := in.symAtoms[v.n]; p != nil && len(v.args) == 0 {
				if c, ok := st.mem[v.n]; !ok || c == in.symContent(p) {
					r = p
					break
				}
			}
			r = mkBox(f(in.load(st, v)))
			busy[v.id] = false
		case OSlice:
			if b := v.args[0]; b.op == OPtr && !local(b.n) {
				return v
			}
			r = mkSliceV(tFalse, f(in.seqIn(st, v)))
		case OClosure:
			r = v
		case OSym, OBV, OInt, OBool, OBits:
			r = v
			if c, ok := in.symCells[v.id]; ok && local(c) {
				if cur, ok := st.mem[c]; ok && cur != in.symContent(v) {
					if _, isS := v.typ.Underlying().(*types.Slice); isS {
						r = mkSliceV(isNil(v), f(cur))
					} else {
						r = mkBox(f(cur))
					}
				}
			}
		case OApp:
			if c, ok := in.symCells[v.id]; ok && local(c) {
				if cur, ok := st.mem[c]; ok && cur != in.symContent(v) {
					if _, isS := v.typ.Underlying().(*types.Slice); isS {
						r = mkSliceV(isNil(v), f(cur))
					} else {
						r = mkBox(f(cur))
					}
					break
				}
			}
			if v.s == "deref" || v.s == "seq" {
				r = v // content at the start of the analysed function
			} else {
				r = rebuild(v, f)
			}
		default:
			r = rebuild(v, f)
		}
		memo[v.id] = r
		return r
	}
	return f(v)
}

// join merges two states reached under c and not c.
func join(c *T, a, b *state, K *Facts) *state {
	r := &state{make(map[int]*T, len(a.mem)), K}
	for k, v := range a.mem {
		if w, ok := b.mem[k]; ok && w != v {
			r.mem[k] = mkIte(c, v, w)
		} else {
			r.mem[k] = v
		}
	}
	for k, v := range b.mem {
		if _, ok := a.mem[k]; !ok {
			r.mem[k] = v
		}
	}
	return r
}

var debugJoin bool

// nameMerged names merged reader positions.
func nameMerged(st *state) {
	for c, v := range st.mem {
		if n := nameIn(v, st.K, 3); n != v {
			st.mem[c] = n
		}
	}
}

// nameIn names the position of a reader, or of one within a structure.
func nameIn(v *T, K *Facts, depth int) *T {
	if !v.ites || v.op != OStruct || depth == 0 {
		return v
	}
	if v.s == rdT {
		if n := mkDef(oneWay(v.args[1], K)); n != v.args[1] {
			return mkStruct(v.typ, []*T{v.args[0], n})
		}
		return v
	}
	var out []*T
	for i, a := range v.args {
		if n := nameIn(a, K, depth-1); n != a {
			if out == nil {
				out = append([]*T(nil), v.args...)
			}
			out[i] = n
		}
	}
	if out == nil {
		return v
	}
	return mkStruct(v.typ, out)
}

// oneWay is a merged integer itself, or what it comes to when that is the same
// on every path to it.
func oneWay(t *T, K *Facts) *T {
	if !t.ites || !isIntT(t) {
		return t
	}
	if K == nil {
		K = newFacts()
	}
	try := func(t *T) *T {
		n := 8
		return leafOf(t, K, nil, &n)
	}
	if r := try(t); r != nil {
		return r
	}
	// names among the conditions, latest first
	var names []*T
	seen := map[int]bool{}
	var f func(*T)
	f = func(t *T) {
		if !t.defs || seen[t.id] {
			return
		}
		seen[t.id] = true
		if isDef(t) {
			names = append(names, t)
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	sort.Slice(names, func(i, j int) bool { return names[i].id > names[j].id })
	for i := 0; i < len(names) && i < 2; i++ {
		u := subst1(t, names[i], names[i].args[0])
		if r := try(u); r != nil && !r.ites {
			return r
		}
		// the same value with and without its name
		named := mkDef(u)
		for _, a := range toLin(t).as {
			if a.op != OIte {
				continue
			}
			for _, v := range []bool{true, false} {
				if arm := assume1(t, a.args[0], v); arm == named || arm == u {
					return u
				}
			}
		}
	}
	return t
}

// leafOf is what t comes to on all paths, nil when they differ.
func leafOf(t *T, K *Facts, want *T, n *int) *T {
	t = restrict(t, K)
	c := pickAtom(t)
	if c == nil {
		if *n--; *n < 0 || want != nil && want != t {
			return nil
		}
		return t
	}
	for _, v := range []bool{true, false} {
		k := K.with(c, v)
		if k.dead {
			continue
		}
		if want = leafOf(assume1(t, c, v), k, want, n); want == nil {
			return nil
		}
	}
	return want
}

// joinExits folds exits of one kind into a single one.
func joinExits(xs []*exit, K *Facts) *exit {
	var live []*exit
	for _, x := range xs {
		if x.g != tFalse && !x.st.K.dead {
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	for _, x := range live {
		if debugJoin && x.g.size > 200 {
			println("JOIN", len(live), x.kind, x.g.size)
			println(x.g.dump(12, " ", map[int]bool{}))
		}
	}
	acc := live[len(live)-1]
	st, vals, g := acc.st, acc.vals, acc.g
	for i := len(live) - 2; i >= 0; i-- {
		x := live[i]
		st = join(x.g, x.st, st, K)
		nv := make([]*T, len(vals))
		for j := range vals {
			nv[j] = mkIte(x.g, x.vals[j], vals[j])
		}
		vals = nv
		g = or(x.g, g)
	}
	if g != tTrue {
		st.K = K.with(g, true)
	} else {
		st.K = K
	}
	nameMerged(st)
	return &exit{acc.kind, acc.label, g, st, vals}
}

// ---- obligations ----

func (in *interp) oblige(st *state, fr *frame, kind string, pos token.Pos, cond *T) {
	c := restrict(cond, st.K)
	if c == tTrue {
		if in.rec == 0 && !in.noStrict {
			in.note(fr, kind, pos, true, "")
		}
		return
	}
	if in.rec == 0 && !in.noStrict {
		e := newEq()
		ok := e.eq(c, tTrue, st.K)
		why := ""
		if !ok {
			why = e.diff
		}
		in.note(fr, kind, pos, ok, why)
	}
	if c == tFalse {
		panic(deadPath{})
	}
	st.K = st.K.with(c, true)
	if st.K.dead {
		panic(deadPath{})
	}
}

func (in *interp) note(fr *frame, kind string, pos token.Pos, ok bool, why string) {
	name := ""
	if fr != nil {
		name = fr.name
	}
	k := fmt.Sprintf("%s|%s|%s", kind, name, in.p.pos(pos))
	o := in.obls[k]
	if o == nil {
		o = &obligation{kind: kind, pos: pos, fn: name, key: k, ok: true}
		in.obls[k] = o
		in.oblOrder = append(in.oblOrder, k)
	}
	if !ok {
		if o.ok {
			o.why = why
		}
		o.ok = false
	}
}

func (in *interp) notNil(st *state, fr *frame, kind string, pos token.Pos, p *T) {
	in.oblige(st, fr, kind, pos, not(isNil(p)))
}

// ---- types ----

func (fr *frame) typeOf(e ast.Expr) types.Type {
	return fr.subst(fr.pi.info.TypeOf(e))
}

func (fr *frame) subst(t types.Type) types.Type {
	if t == nil || len(fr.tmap) == 0 {
		return t
	}
	return substType(t, fr.tmap)
}

func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
	case *types.Pointer:
		return types.NewPointer(substType(u.Elem(), m))
	case *types.Slice:
		return types.NewSlice(substType(u.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(u.Elem(), m), u.Len())
	case *types.Map:
		return types.NewMap(substType(u.Key(), m), substType(u.Elem(), m))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < u.Len(); i++ {
			v := u.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), m)))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		return types.NewSignatureType(u.Recv(), nil, nil, substType(u.Params(), m).(*types.Tuple), substType(u.Results(), m).(*types.Tuple), u.Variadic())
	case *types.Named:
		if u.TypeArgs().Len() > 0 {
			var as []types.Type
			for i := 0; i < u.TypeArgs().Len(); i++ {
				as = append(as, substType(u.TypeArgs().At(i), m))
			}
			if r, err := types.Instantiate(nil, u.Origin(), as, false); err == nil {
				return r
			}
		}
	}
	return t
}

func inModule(pk *types.Package) bool {
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if inModule(n.Obj().Pkg()) {
		return false
	}
	if _, ok := modelled[typeKey(t)]; ok {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || typeKey(t) == "github.com/spf13/cobra.Command" {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (in *interp) zero(t types.Type) *T {
	if n, ok := modelled[typeKey(t)]; ok {
		args := make([]*T, n)
		for i := range args {
			args[i] = tEmpty
		}
		switch typeKey(t) {
		case "github.com/bamiaux/iobit.Reader":
			args = []*T{tEmpty, tZero}
		case "github.com/bamiaux/iobit.Writer":
			args = []*T{mkSliceV(tTrue, tEmpty), tEmpty}
		}
		return intern(&T{op: OStruct, s: typeKey(t), typ: t, args: args})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsFloat != 0:
			return mkSym("f:0", t)
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return tNil
		}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return tNil
	case *types.Slice:
		return mkSliceV(tTrue, tEmpty)
	case *types.Array:
		return zeroSeq(mkI(u.Len()), in.zero(u.Elem()), isByteSeq(u))
	case *types.Struct:
		if opaqueStruct(t) {
			return mkSym("zero:"+typeKey(t), t)
		}
		args := make([]*T, u.NumFields())
		for i := range args {
			args[i] = in.zero(u.Field(i).Type())
		}
		return intern(&T{op: OStruct, s: typeKey(t), typ: t, args: args})
	}
	giveUp("zero value of %s", t)
	return nil
}

func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// convertTo is an implicit conversion on assignment.
func (in *interp) convertTo(v *T, from, to types.Type) *T {
	if to == nil || from == nil {
		return v
	}
	if isInterface(to) && !isInterface(from) {
		if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return tNil
		}
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			from = types.Default(from)
		}
		return mkIface(from, v)
	}
	if v == tNil {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return mkSliceV(tTrue, tEmpty)
		}
	}
	return v
}

// ---- address-taken analysis ----

func (in *interp) escaping(fn *types.Func, body ast.Node, info *types.Info) map[types.Object]bool {
	if fn != nil {
		if m, ok := in.addr[fn]; ok {
			return m
		}
	}
	m := map[types.Object]bool{}
	var root func(e ast.Expr)
	root = func(e ast.Expr) {
		switch x := e.(type) {
		case *ast.Ident:
			if o := info.ObjectOf(x); o != nil {
				m[o] = true
			}
		case *ast.ParenExpr:
			root(x.X)
		case *ast.SelectorExpr:
			root(x.X)
		case *ast.IndexExpr:
			root(x.X)
		case *ast.SliceExpr:
			root(x.X)
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				root(x.X)
			}
		case *ast.SliceExpr:
			root(x.X)
		case *ast.SelectorExpr:
			if s := info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				root(x.X)
			}
		case *ast.FuncLit:
			ast.Inspect(x.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o := info.ObjectOf(id); o != nil {
						m[o] = true
					}
				}
				return true
			})
		}
		return true
	})
	if fn != nil {
		in.addr[fn] = m
	}
	return m
}

// ---- functions ----

func origin(fn *types.Func) *types.Func { return fn.Origin() }

// inline analyses a call to a module function in context.
func (in *interp) inline(fn *types.Func, tmap map[*types.TypeParam]types.Type, st *state, recv *T, args []*T, depth int) []*T {
	fn = origin(fn)
	fd := in.p.funcs[fn]
	if fd == nil || fd.Body == nil {
		giveUp("no source for %s", fn.FullName())
	}
	n := 0
	for _, f := range in.stack {
		if f == fn {
			n++
		}
	}
	if n > 3 || depth > 60 {
		giveUp("recursion in %s", fn.FullName())
	}
	in.visited[fn] = true
	in.ncalls++
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	pi := in.p.fpkg[fn]
	fr := &frame{fn: fn, pi: pi, vars: map[types.Object]int{}, sig: fn.Type().(*types.Signature), tmap: tmap, depth: depth, name: shortName(fn)}
	if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
		if o := pi.info.Defs[fd.Recv.List[0].Names[0]]; o != nil {
			fr.vars[o] = in.newCell(st, fr.subst(o.Type()), recv)
		}
	}
	return in.runBody(fr, st, fd.Type, fd.Body, args, in.escaping(fn, fd.Body, pi.info))
}

func shortName(fn *types.Func) string {
	s := fn.FullName()
	s = strings.ReplaceAll(s, modPath+"/pkg/scte35.", "")
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (in *interp) runBody(fr *frame, st *state, ft *ast.FuncType, body *ast.BlockStmt, args []*T, esc map[types.Object]bool) []*T {
	i := 0
	before := in.ncell
	_ = before
	if ft.Params != nil {
		for _, f := range ft.Params.List {
			if len(f.Names) == 0 {
				i++
			}
			for _, nm := range f.Names {
				if o := fr.pi.info.Defs[nm]; o != nil {
					fr.vars[o] = in.newCell(st, fr.subst(o.Type()), args[i])
				}
				i++
			}
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, nm := range f.Names {
				o := fr.pi.info.Defs[nm]
				if o == nil || nm.Name == "_" {
					o = types.NewVar(token.NoPos, nil, "_", fr.pi.info.TypeOf(f.Type))
				}
				fr.vars[o] = in.newCell(st, fr.subst(o.Type()), in.zero(fr.subst(o.Type())))
				fr.res = append(fr.res, o)
			}
		}
	}
	fr.defers = in.deferCells(fr, st, body)
	K := st.K
	exits := in.block(fr, st.clone(), body.List)
	var rets []*exit
	for _, x := range exits {
		switch x.kind {
		case xReturn:
			rets = append(rets, x)
		case xFall:
			if fr.sig.Results().Len() > 0 {
				if len(fr.res) == 0 {
					continue // unreachable end
				}
				for _, o := range fr.res {
					x.vals = append(x.vals, x.st.mem[fr.vars[o]])
				}
			}
			x.kind = xReturn
			rets = append(rets, x)
		default:
			giveUp("jump out of %s", fr.name)
		}
	}
	r := joinExits(rets, K)
	if r == nil {
		panic(deadPath{})
	}
	if len(fr.defers) > 0 {
		if len(fr.res) > 0 {
			for j, o := range fr.res {
				r.st.mem[fr.vars[o]] = r.vals[j]
			}
		}
		for j := len(fr.defers) - 1; j >= 0; j-- {
			d := fr.defers[j]
			in.forkEv(r.st, r.st.mem[d.cells[0]], func(s *state) []*T {
				var args []*T
				for _, c := range d.cells[2:] {
					args = append(args, restrict(s.mem[c], s.K))
				}
				in.callValue(fr, s, s.mem[d.cells[1]], args, d.stmt.Call)
				return nil
			}, func(*state) []*T { return nil })
			for _, c := range d.cells {
				delete(r.st.mem, c)
			}
		}
		if len(fr.res) > 0 {
			for j, o := range fr.res {
				r.vals[j] = r.st.mem[fr.vars[o]]
			}
		}
	}
	st.mem, st.K = r.st.mem, r.st.K
	for o, c := range fr.vars {
		if !esc[o] {
			if fr.owned(o) {
				delete(st.mem, c)
			}
		}
	}
	return r.vals
}

// deferCells sets aside the memory for the defer statements of a body. They are
// reached in the order they are written in, as none is in a loop.
func (in *interp) deferCells(fr *frame, st *state, body *ast.BlockStmt) []deferred {
	var out []deferred
	var walk func(n ast.Node, loop bool)
	walk = func(n ast.Node, loop bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				if x != n {
					walk(x, true)
					return false
				}
			case *ast.DeferStmt:
				if loop {
					giveUp("defer inside a loop")
				}
				sig := fr.typeOf(s.Call.Fun).Underlying().(*types.Signature)
				d := deferred{stmt: s, cells: []int{in.newCell(st, types.Typ[types.Bool], tFalse), in.newCell(st, sig, in.zero(sig))}}
				for i := 0; i < sig.Params().Len(); i++ {
					t := fr.subst(sig.Params().At(i).Type())
					d.cells = append(d.cells, in.newCell(st, t, in.zero(t)))
				}
				out = append(out, d)
			}
			return true
		})
	}
	walk(body, false)
	return out
}

// owned: the variable is declared by this frame's function (not captured).
func (fr *frame) owned(o types.Object) bool { return fr.fn != nil }

// ---- statements ----

func (in *interp) block(fr *frame, st *state, list []ast.Stmt) []*exit {
	var out []*exit
	g := tTrue
	for _, s := range list {
		xs := in.stmt(fr, st, s, "")
		var falls []*exit
		for _, x := range xs {
			if x.g == tFalse || x.st.K.dead {
				continue
			}
			if x.kind == xFall {
				falls = append(falls, x)
				continue
			}
			x.g = and(g, x.g)
			out = append(out, x)
		}
		f := joinExits(falls, st.K)
		if f == nil {
			return out
		}
		g = and(g, f.g)
		st = f.st
	}
	return append(out, &exit{kind: xFall, g: g, st: st})
}

func fall(st *state) []*exit { return []*exit{{kind: xFall, g: tTrue, st: st}} }

func (in *interp) stmt(fr *frame, st *state, s ast.Stmt, label string) (xs []*exit) {
	curPos = s.Pos()
	in.steps++
	if in.steps > 3000000 {
		giveUp("step budget exhausted in %s", fr.name)
	}
	if st.K.dead {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadPath); ok {
				xs = nil
				return
			}
			if u, ok := r.(undecided); ok && !strings.Contains(u.msg, "[at ") {
				u.msg += " [at " + fr.name + " " + in.p.pos(s.Pos()) + "]"
				panic(u)
			}
			panic(r)
		}
	}()
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return fall(st)
	case *ast.BlockStmt:
		return in.block(fr, st, s.List)
	case *ast.ExprStmt:
		if c, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			in.call(fr, st, c)
		} else {
			in.ev(fr, st, s.X)
		}
		return fall(st)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return fall(st)
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, nm := range vs.Names {
					o := fr.pi.info.Defs[nm]
					if o == nil {
						continue
					}
					fr.vars[o] = in.newCell(st, fr.subst(o.Type()), in.zero(fr.subst(o.Type())))
				}
				continue
			}
			var lhs []ast.Expr
			for _, nm := range vs.Names {
				lhs = append(lhs, nm)
			}
			in.assign(fr, st, lhs, vs.Values, true)
		}
		return fall(st)
	case *ast.AssignStmt:
		if s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
			in.assign(fr, st, s.Lhs, s.Rhs, s.Tok == token.DEFINE)
			return fall(st)
		}
		op := assignOp(s.Tok)
		lv := in.lval(fr, st, s.Lhs[0])
		old := lv.get()
		y := in.ev(fr, st, s.Rhs[0])
		lv.set(in.binop(fr, st, op, old, y, fr.typeOf(s.Lhs[0]), fr.typeOf(s.Rhs[0]), s.Pos()))
		return fall(st)
	case *ast.IncDecStmt:
		lv := in.lval(fr, st, s.X)
		t := fr.typeOf(s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		lv.set(in.binop(fr, st, op, lv.get(), tOne, t, t, s.Pos()))
		return fall(st)
	case *ast.ReturnStmt:
		var vals []*T
		n := fr.sig.Results().Len()
		switch {
		case len(s.Results) == 0:
			for _, o := range fr.res {
				vals = append(vals, st.mem[fr.vars[o]])
			}
		case len(s.Results) == 1 && n > 1:
			c := ast.Unparen(s.Results[0]).(*ast.CallExpr)
			vals = in.call(fr, st, c)
			tp := fr.typeOf(c).(*types.Tuple)
			for i := range vals {
				vals[i] = in.convertTo(vals[i], tp.At(i).Type(), fr.subst(fr.sig.Results().At(i).Type()))
			}
		default:
			for i, e := range s.Results {
				v := in.ev(fr, st, e)
				vals = append(vals, in.convertTo(v, fr.typeOf(e), fr.subst(fr.sig.Results().At(i).Type())))
			}
		}
		for i := range vals {
			if vals[i].op == OIte && isError(fr.sig.Results().At(i).Type()) {
				if n := isNil(vals[i]); n.op == OIte && (restrict(n, st.K) == tFalse || st.K.decide(not(n)) == 1 || st.K.val[not(n).id]) {
					vals[i] = withoutNil(vals[i])
				}
			}
		}
		if len(fr.res) > 0 {
			for i, o := range fr.res {
				st.mem[fr.vars[o]] = vals[i]
			}
		}
		return []*exit{{kind: xReturn, g: tTrue, st: st, vals: vals}}
	case *ast.IfStmt:
		if s.Init != nil {
			xs := in.stmt(fr, st, s.Init, "")
			if len(xs) == 0 {
				return nil
			}
			if len(xs) != 1 {
				giveUp("control flow in if initialiser")
			}
			st = xs[0].st
		}
		c := restrict(in.ev(fr, st, s.Cond), st.K)
		return in.branch(st, c, func(st *state) []*exit {
			return in.block(fr, st, s.Body.List)
		}, func(st *state) []*exit {
			if s.Else == nil {
				return fall(st)
			}
			return in.stmt(fr, st, s.Else, "")
		})
	case *ast.SwitchStmt:
		return in.switchStmt(fr, st, s, label)
	case *ast.TypeSwitchStmt:
		return in.typeSwitch(fr, st, s, label)
	case *ast.LabeledStmt:
		return in.stmt(fr, st, s.Stmt, s.Label.Name)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []*exit{{kind: xBreak, label: l, g: tTrue, st: st}}
		case token.CONTINUE:
			return []*exit{{kind: xContinue, label: l, g: tTrue, st: st}}
		}
		giveUp("%s statement", s.Tok)
	case *ast.ForStmt:
		return in.forStmt(fr, st, s, label)
	case *ast.RangeStmt:
		return in.rangeStmt(fr, st, s, label)
	case *ast.DeferStmt:
		fv, args := in.callParts(fr, st, s.Call)
		for _, d := range fr.defers {
			if d.stmt == s {
				if len(args) != len(d.cells)-2 {
					giveUp("arguments of a deferred call")
				}
				st.mem[d.cells[0]], st.mem[d.cells[1]] = tTrue, fv
				for i, a := range args {
					st.mem[d.cells[2+i]] = a
				}
				return fall(st)
			}
		}
		giveUp("defer statement")
	}
	giveUp("unsupported statement %T", s)
	return nil
}

// branch forks on c and merges the paths that fall through.
func (in *interp) branch(st *state, c *T, then, els func(*state) []*exit) []*exit {
	if c == tTrue {
		return then(st)
	}
	if c == tFalse {
		return els(st)
	}
	a := st.assume(c, true)
	b := st.assume(c, false)
	var xa, xb []*exit
	if !a.K.dead {
		xa = then(a)
	}
	if !b.K.dead {
		xb = els(b)
	}
	if a.K.dead {
		return xb
	}
	if b.K.dead {
		return xa
	}
	var out, fa, fb []*exit
	for _, x := range xa {
		if x.g == tFalse || x.st.K.dead {
			continue
		}
		if x.kind == xFall {
			fa = append(fa, x)
		} else {
			x.g = and(c, x.g)
			out = append(out, x)
		}
	}
	for _, x := range xb {
		if x.g == tFalse || x.st.K.dead {
			continue
		}
		if x.kind == xFall {
			fb = append(fb, x)
		} else {
			x.g = and(not(c), x.g)
			out = append(out, x)
		}
	}
	A, B := joinExits(fa, a.K), joinExits(fb, b.K)
	switch {
	case A == nil && B == nil:
		return out
	case A == nil:
		B.g = and(not(c), B.g)
		return append(out, B)
	case B == nil:
		A.g = and(c, A.g)
		return append(out, A)
	}
	g := mkIte(c, A.g, B.g)
	K := st.K
	if g != tTrue {
		K = K.with(g, true)
	}
	st2 := join(c, A.st, B.st, K)
	nameMerged(st2)
	return append(out, &exit{kind: xFall, g: g, st: st2})
}

// withoutNil is a value known not to be nil.
func withoutNil(v *T) *T {
	if v.op != OIte {
		return v
	}
	a, b := withoutNil(v.args[1]), withoutNil(v.args[2])
	switch {
	case a == tNil:
		return b
	case b == tNil:
		return a
	}
	return mkIte(v.args[0], a, b)
}

// forkEv evaluates one of two expressions depending on c.
func (in *interp) forkEv(st *state, c *T, f, g func(*state) []*T) []*T {
	c = restrict(c, st.K)
	if c == tTrue {
		return f(st)
	}
	if c == tFalse {
		return g(st)
	}
	wrap := func(h func(*state) []*T) func(*state) []*exit {
		return func(s *state) (xs []*exit) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(deadPath); ok {
						xs = nil
						return
					}
					panic(r)
				}
			}()
			v := h(s)
			return []*exit{{kind: xReturn, g: tTrue, st: s, vals: v}}
		}
	}
	xs := in.branch(st, c, wrap(f), wrap(g))
	x := joinExits(xs, st.K)
	if x == nil {
		panic(deadPath{})
	}
	st.mem, st.K = x.st.mem, x.st.K
	return x.vals
}

func (in *interp) switchStmt(fr *frame, st *state, s *ast.SwitchStmt, label string) []*exit {
	if s.Init != nil {
		xs := in.stmt(fr, st, s.Init, "")
		if len(xs) != 1 {
			if len(xs) == 0 {
				return nil
			}
			giveUp("control flow in switch initialiser")
		}
		st = xs[0].st
	}
	var tag *T
	var tt types.Type
	if s.Tag != nil {
		tag = in.ev(fr, st, s.Tag)
		tt = fr.typeOf(s.Tag)
		if b, ok := tt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			tt = types.Default(tt)
		}
	}
	var clauses []*ast.CaseClause
	def := -1
	for i, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		clauses = append(clauses, cc)
		if cc.List == nil {
			def = i
		}
	}
	var body func(i int, st *state) []*exit
	body = func(i int, st *state) []*exit {
		list := clauses[i].Body
		if n := len(list); n > 0 {
			if b, ok := list[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				xs := in.block(fr, st, list[:n-1])
				var out, falls []*exit
				for _, x := range xs {
					if x.kind == xFall {
						falls = append(falls, x)
					} else {
						out = append(out, x)
					}
				}
				if f := joinExits(falls, st.K); f != nil {
					for _, y := range body(i+1, f.st) {
						y.g = and(f.g, y.g)
						out = append(out, y)
					}
				}
				return out
			}
		}
		return in.block(fr, st, list)
	}
	var from func(i int, st *state) []*exit
	from = func(i int, st *state) []*exit {
		for i < len(clauses) && clauses[i].List == nil {
			i++
		}
		if i == len(clauses) {
			if def >= 0 {
				return body(def, st)
			}
			return fall(st)
		}
		c := tFalse
		for _, e := range clauses[i].List {
			var m *T
			if tag == nil {
				m = in.ev(fr, st, e)
			} else {
				v := in.ev(fr, st, e)
				et := fr.typeOf(e)
				m = in.equal(st, tag, v, tt, et)
			}
			c = or(c, m)
		}
		c = restrict(c, st.K)
		return in.branch(st, c, func(st *state) []*exit { return body(i, st) }, func(st *state) []*exit { return from(i+1, st) })
	}
	return breakOut(from(0, st), label, st.K)
}

func breakOut(xs []*exit, label string, K *Facts) []*exit {
	for _, x := range xs {
		if x.kind == xBreak && (x.label == "" || x.label == label) {
			x.kind, x.label = xFall, ""
		}
	}
	return xs
}

func (in *interp) typeSwitch(fr *frame, st *state, s *ast.TypeSwitchStmt, label string) []*exit {
	if s.Init != nil {
		xs := in.stmt(fr, st, s.Init, "")
		if len(xs) != 1 {
			giveUp("control flow in switch initialiser")
		}
		st = xs[0].st
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X
	case *ast.AssignStmt:
		x = a.Rhs[0]
	}
	v := in.ev(fr, st, ast.Unparen(x).(*ast.TypeAssertExpr).X)
	var clauses []*ast.CaseClause
	def := -1
	for i, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		clauses = append(clauses, cc)
		if cc.List == nil {
			def = i
		}
	}
	xt := fr.typeOf(ast.Unparen(x).(*ast.TypeAssertExpr).X)
	run := func(i int, st *state) []*exit {
		cc := clauses[i]
		if o := fr.pi.info.Implicits[cc]; o != nil {
			val := v
			t := fr.subst(o.Type())
			if len(cc.List) == 1 {
				if tv := fr.pi.info.Types[cc.List[0]]; !tv.IsNil() && !isInterface(t) {
					val = assertVal(v, t)
				}
			}
			_ = xt
			fr.vars[o] = in.newCell(st, t, val)
		}
		return in.block(fr, st, cc.Body)
	}
	var from func(i int, st *state) []*exit
	from = func(i int, st *state) []*exit {
		for i < len(clauses) && clauses[i].List == nil {
			i++
		}
		if i == len(clauses) {
			if def >= 0 {
				return run(def, st)
			}
			return fall(st)
		}
		c := tFalse
		for _, e := range clauses[i].List {
			if fr.pi.info.Types[e].IsNil() {
				c = or(c, isNil(v))
				continue
			}
			c = or(c, in.implements(v, fr.typeOf(e)))
		}
		c = restrict(c, st.K)
		return in.branch(st, c, func(st *state) []*exit { return run(i, st) }, func(st *state) []*exit { return from(i+1, st) })
	}
	return breakOut(from(0, st), label, st.K)
}

// implements: the dynamic type of v is, or implements, t.
func (in *interp) implements(v *T, t types.Type) *T {
	if !isInterface(t) {
		return isType(v, t, nil)
	}
	switch v.op {
	case ONil:
		return tFalse
	case OIface:
		return mkB(types.AssignableTo(v.typ, t))
	case OIte:
		return mkIte(v.args[0], in.implements(v.args[1], t), in.implements(v.args[2], t))
	}
	if v.typ != nil && isInterface(v.typ) && types.Implements(v.typ, t.Underlying().(*types.Interface)) {
		return not(isNil(v))
	}
	return isType(v, t, nil)
}

func assertVal(v *T, t types.Type) *T {
	switch v.op {
	case OIface:
		if types.Identical(v.typ, t) {
			return v.args[0]
		}
		return mkApp("undef", t)
	case ONil:
		return mkApp("undef", t)
	case OIte:
		a, b := assertVal(v.args[1], t), assertVal(v.args[2], t)
		if a.op == OApp && a.s == "undef" {
			return b
		}
		if b.op == OApp && b.s == "undef" {
			return a
		}
		return mkIte(v.args[0], a, b)
	}
	return mkApp("assert", t, v)
}

// ---- assignment ----

type lvalue struct {
	get func() *T
	set func(*T)
	typ types.Type
}

func (in *interp) assign(fr *frame, st *state, lhs, rhs []ast.Expr, define bool) {
	var vals []*T
	var typs []types.Type
	var lvs []*lvalue
	// operands of index and indirection on the left are evaluated first
	if !define {
		for _, l := range lhs {
			lvs = append(lvs, in.lval(fr, st, l))
		}
	}
	if len(rhs) == 1 && len(lhs) > 1 {
		vals, typs = in.multi(fr, st, rhs[0])
	} else {
		for _, r := range rhs {
			vals = append(vals, in.ev(fr, st, r))
			typs = append(typs, fr.typeOf(r))
		}
	}
	for i, l := range lhs {
		if id, ok := l.(*ast.Ident); ok && define {
			if id.Name == "_" {
				continue
			}
			if o := fr.pi.info.Defs[id]; o != nil {
				t := fr.subst(o.Type())
				fr.vars[o] = in.newCell(st, t, in.convertTo(vals[i], typs[i], t))
				continue
			}
			lv := in.lval(fr, st, l)
			lv.set(in.convertTo(vals[i], typs[i], lv.typ))
			continue
		}
		if lvs[i] == nil {
			continue
		}
		lvs[i].set(in.convertTo(vals[i], typs[i], lvs[i].typ))
	}
}

// multi evaluates an expression with several results.
func (in *interp) multi(fr *frame, st *state, e ast.Expr) ([]*T, []types.Type) {
	switch x := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		vals := in.call(fr, st, x)
		tp := fr.typeOf(x).(*types.Tuple)
		var ts []types.Type
		for i := 0; i < tp.Len(); i++ {
			ts = append(ts, tp.At(i).Type())
		}
		return vals, ts
	case *ast.TypeAssertExpr:
		v := in.ev(fr, st, x.X)
		t := fr.typeOf(x.Type)
		ok := restrict(in.implements(v, t), st.K)
		var val *T
		if isInterface(t) {
			val = mkIte(ok, v, tNil)
		} else {
			val = mkIte(ok, assertVal(v, t), in.zero(t))
		}
		return []*T{val, ok}, []types.Type{t, types.Typ[types.Bool]}
	case *ast.IndexExpr:
		m := in.ev(fr, st, x.X)
		mt := fr.typeOf(x.X).Underlying().(*types.Map)
		k := in.convertTo(in.ev(fr, st, x.Index), fr.typeOf(x.Index), mt.Key())
		v, ok := in.mapGet(st, m, k, mt)
		return []*T{v, ok}, []types.Type{mt.Elem(), types.Typ[types.Bool]}
	}
	giveUp("unsupported multi-value expression %T", e)
	return nil, nil
}

func (in *interp) mapGet(st *state, m, k *T, mt *types.Map) (*T, *T) {
	switch m.op {
	case ONil:
		return in.zero(mt.Elem()), tFalse
	case OPtr:
		return in.mapGet(st, in.load(st, m), k, mt)
	case OMapV:
		v, ok := in.zero(mt.Elem()), tFalse
		for i := len(m.args) - 2; i >= 0; i -= 2 {
			c := in.equal(st, k, m.args[i], mt.Key(), mt.Key())
			v = mkIte(c, m.args[i+1], v)
			ok = or(c, ok)
		}
		return v, ok
	case OIte:
		a, x := in.mapGet(st, m.args[1], k, mt)
		b, y := in.mapGet(st, m.args[2], k, mt)
		return mkIte(m.args[0], a, b), mkIte(m.args[0], x, y)
	}
	giveUp("lookup in map %s", m)
	return nil, nil
}

// mapSet returns the map content with k set to v.
func (in *interp) mapSet(st *state, m, k, v *T) *T {
	if m.op == OIte {
		return mkIte(m.args[0], in.mapSet(st, m.args[1], k, v), in.mapSet(st, m.args[2], k, v))
	}
	args := append([]*T{}, m.args...)
	for i := 0; i < len(args); i += 2 {
		c := restrict(valEq(args[i], k), st.K)
		if c == tTrue {
			args[i+1] = v
			return intern(&T{op: OMapV, args: args})
		}
		if c != tFalse {
			giveUp("store with a variable map key")
		}
	}
	return intern(&T{op: OMapV, args: sortMap(append(args, k, v))})
}

func sortMap(a []*T) []*T {
	n := len(a) / 2
	for i := 1; i < n; i++ {
		for j := i; j > 0 && mapLess(a[2*j], a[2*j-2]); j-- {
			a[2*j], a[2*j-2] = a[2*j-2], a[2*j]
			a[2*j+1], a[2*j-1] = a[2*j-1], a[2*j+1]
		}
	}
	return a
}
func mapLess(a, b *T) bool {
	if a.op == OInt && b.op == OInt {
		return a.z.Cmp(b.z) < 0
	}
	if a.op == OBits && b.op == OBits {
		return a.s < b.s
	}
	return a.id < b.id
}

func (in *interp) lval(fr *frame, st *state, e ast.Expr) *lvalue {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return nil
		}
		o := fr.pi.info.ObjectOf(x)
		t := fr.subst(o.Type())
		if c, ok := fr.vars[o]; ok {
			return &lvalue{func() *T { return in.content(st, c) }, func(v *T) { st.mem[c] = v }, t}
		}
		if isGlobal(o) {
			p := in.globalPtr(st, o)
			return &lvalue{func() *T { return in.load(st, p) }, func(v *T) { in.store(st, p, v) }, t}
		}
		giveUp("assignment to %s", x.Name)
	case *ast.StarExpr:
		p := in.ev(fr, st, x.X)
		in.notNil(st, fr, "nil", x.Pos(), p)
		p = restrict(p, st.K)
		return &lvalue{func() *T { return in.load(st, p) }, func(v *T) { in.store(st, p, v) }, fr.typeOf(x)}
	case *ast.IndexExpr:
		t := fr.typeOf(x.X)
		if mt, ok := t.Underlying().(*types.Map); ok {
			m := in.ev(fr, st, x.X)
			k := in.convertTo(in.ev(fr, st, x.Index), fr.typeOf(x.Index), mt.Key())
			return &lvalue{func() *T { v, _ := in.mapGet(st, m, k, mt); return v }, func(v *T) {
				in.notNil(st, fr, "nilmap", x.Pos(), m)
				m := restrict(m, st.K)
				in.store(st, m, in.mapSet(st, in.load(st, m), k, v))
			}, mt.Elem()}
		}
		p := in.addrOf(fr, st, x)
		return &lvalue{func() *T { return in.load(st, p) }, func(v *T) { in.store(st, p, v) }, fr.typeOf(x)}
	case *ast.SelectorExpr:
		if o, ok := fr.pi.info.Uses[x.Sel].(*types.Var); ok && isGlobal(o) {
			p := in.globalPtr(st, o)
			return &lvalue{func() *T { return in.load(st, p) }, func(v *T) { in.store(st, p, v) }, o.Type()}
		}
		p := in.addrOf(fr, st, x)
		return &lvalue{func() *T { return in.load(st, p) }, func(v *T) { in.store(st, p, v) }, fr.typeOf(x)}
	}
	giveUp("unsupported assignment target %T", e)
	return nil
}

func isGlobal(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// addrOf evaluates &e.
func (in *interp) addrOf(fr *frame, st *state, e ast.Expr) *T {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		o := fr.pi.info.ObjectOf(x)
		if c, ok := fr.vars[o]; ok {
			return mkPtr(c)
		}
		if isGlobal(o) {
			return in.globalPtr(st, o)
		}
	case *ast.CompositeLit:
		v := in.ev(fr, st, x)
		return mkPtr(in.newCell(st, fr.typeOf(x), v))
	case *ast.StarExpr:
		p := in.ev(fr, st, x.X)
		in.notNil(st, fr, "nil", x.Pos(), p)
		return restrict(p, st.K)
	case *ast.SelectorExpr:
		sel := fr.pi.info.Selections[x]
		if sel == nil {
			if o, ok := fr.pi.info.Uses[x.Sel].(*types.Var); ok && isGlobal(o) {
				return in.globalPtr(st, o)
			}
			giveUp("address of %s", x.Sel.Name)
		}
		bt := fr.typeOf(x.X)
		var p *T
		if _, ok := bt.Underlying().(*types.Pointer); ok {
			p = in.ev(fr, st, x.X)
		} else {
			p = in.addrOf(fr, st, x.X)
		}
		return in.fieldPath(fr, st, p, bt, sel.Index(), x)
	case *ast.IndexExpr:
		t := fr.typeOf(x.X)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			p := in.ev(fr, st, x.X)
			in.notNil(st, fr, "nil", x.Pos(), p)
			at := pt.Elem().Underlying().(*types.Array)
			i := in.ev(fr, st, x.Index)
			in.bounds(fr, st, x.Pos(), i, mkI(at.Len()))
			return in.subPtr(st, restrict(p, st.K), idxStep(at.Elem(), i))
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			p := in.addrOf(fr, st, x.X)
			i := in.ev(fr, st, x.Index)
			in.bounds(fr, st, x.Pos(), i, mkI(at.Len()))
			return in.subPtr(st, p, idxStep(at.Elem(), restrict(i, st.K)))
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			v := restrict(in.ev(fr, st, x.X), st.K)
			i := restrict(in.ev(fr, st, x.Index), st.K)
			in.bounds(fr, st, x.Pos(), i, in.sliceLen(st, v))
			v = restrict(v, st.K)
			if frozen(v) {
				// give the frozen sequence a backing cell again
				if lv := in.tryLval(fr, st, x.X); lv != nil {
					v = in.newSlice(st, sl.Elem(), in.seqIn(st, v))
					lv.set(v)
				}
			}
			return in.elemPtr(st, v, i, sl.Elem())
		}
	case *ast.CallExpr:
		// temporaries may be addressed when calling pointer methods on
		// struct results held in variables only
	}
	giveUp("address of %T", e)
	return nil
}

func frozen(v *T) bool {
	switch v.op {
	case OSliceV:
		return true
	case OIte:
		return frozen(v.args[1]) || frozen(v.args[2])
	}
	return false
}

func (in *interp) tryLval(fr *frame, st *state, e ast.Expr) *lvalue {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.StarExpr, *ast.SelectorExpr:
		return in.lval(fr, st, x)
	case *ast.IndexExpr:
		if _, ok := fr.typeOf(x.X).Underlying().(*types.Map); ok {
			return nil
		}
		return in.lval(fr, st, x)
	}
	return nil
}

// fieldPath follows a (possibly promoted) field selection from a pointer.
func (in *interp) fieldPath(fr *frame, st *state, p *T, bt types.Type, index []int, x *ast.SelectorExpr) *T {
	t := bt
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		in.notNil(st, fr, "nil", x.Pos(), p)
		p = restrict(p, st.K)
		t = pt.Elem()
	}
	for j, i := range index {
		s := t.Underlying().(*types.Struct)
		p = in.subPtr(st, p, fldStep(t, i))
		t = s.Field(i).Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok && j < len(index)-1 {
			p = in.load(st, p)
			in.notNil(st, fr, "nil", x.Pos(), p)
			p = restrict(p, st.K)
			t = pt.Elem()
		}
	}
	return p
}

func (in *interp) bounds(fr *frame, st *state, pos token.Pos, i, n *T) {
	in.oblige(st, fr, "bounds", pos, and(leI(tZero, i), ltI(i, n)))
}

// ---- globals ----

func (in *interp) globalPtr(st *state, o types.Object) *T {
	key := mkSym("globalvar:"+o.Pkg().Path()+"."+o.Name(), types.NewPointer(o.Type()))
	c, ok := in.symCells[key.id]
	if !ok {
		in.ncell++
		c = in.ncell
		in.symCells[key.id] = c
		in.ctyp[c] = o.Type()
	}
	if _, ok := st.mem[c]; !ok {
		st.mem[c] = in.globalInit(st, o)
	}
	return mkPtr(c)
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// globalInit is the value of a package variable. Error values and variables of
// other packages are symbolic constants.
func (in *interp) globalInit(st *state, o types.Object) *T {
	name := "global:" + o.Pkg().Path() + "." + o.Name()
	if isError(o.Type()) || !inModule(o.Pkg()) {
		return mkSym(name, o.Type())
	}
	pi := in.p.pkgs[o.Pkg().Path()]
	var init ast.Expr
	for _, f := range pi.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, nm := range vs.Names {
					if pi.info.Defs[nm] == o && len(vs.Values) == len(vs.Names) {
						init = vs.Values[i]
					}
				}
			}
		}
	}
	if in.p.mutatedGlobals()[o] {
		if init == nil && in.p.initAssigned(o) == nil {
			return mkSym(name, o.Type())
		}
		if e := in.p.initAssigned(o); e != nil {
			init = e
		} else {
			return mkSym(name, o.Type())
		}
	}
	if init == nil {
		return in.zero(o.Type())
	}
	if in.inGlobal[o] {
		giveUp("initialisation cycle at %s", o.Name())
	}
	if v, ok := in.globals[o]; ok {
		return in.thawGlobal(st, v)
	}
	if p, ok := o.Type().Underlying().(*types.Pointer); ok && !inModuleType(p.Elem()) {
		return mkSym(name, o.Type()) // *log.Logger and the like
	}
	in.inGlobal[o] = true
	fr := &frame{pi: pi, vars: map[types.Object]int{}, sig: types.NewSignatureType(nil, nil, nil, nil, nil, false), name: o.Name()}
	in.rec++
	v := in.convertTo(in.ev(fr, st, init), pi.info.TypeOf(init), o.Type())
	in.rec--
	in.inGlobal[o] = false
	in.globals[o] = in.freezeKeepMaps(st, v)
	return v
}

func (in *interp) freezeKeepMaps(st *state, v *T) *T { return in.freeze(st, v) }

// thawGlobal: maps are addressed through a cell.
func (in *interp) thawGlobal(st *state, v *T) *T {
	if v.op == OBox && v.args[0].op == OMapV {
		return mkPtr(in.newCell(st, nil, v.args[0]))
	}
	return v
}

func inModuleType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && inModule(n.Obj().Pkg())
}

// ---- expressions ----

func constTerm(v constant.Value, t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkB(constant.BoolVal(v))
		case u.Info()&types.IsString != 0:
			return constStr(constant.StringVal(v))
		case u.Info()&types.IsInteger != 0:
			z, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
			if ok {
				return mkZ(z)
			}
		case u.Info()&types.IsFloat != 0:
			return mkSym("f:"+constant.ToFloat(v).ExactString(), t)
		}
	case *types.Interface, *types.TypeParam:
		return constTerm(v, types.Default(constKindType(v)))
	}
	giveUp("constant of type %s", t)
	return nil
}

func constKindType(v constant.Value) types.Type {
	switch v.Kind() {
	case constant.Bool:
		return types.Typ[types.UntypedBool]
	case constant.String:
		return types.Typ[types.UntypedString]
	case constant.Int:
		return types.Typ[types.UntypedInt]
	}
	return types.Typ[types.UntypedFloat]
}

func (in *interp) ev(fr *frame, st *state, e ast.Expr) *T {
	tv, ok := fr.pi.info.Types[e]
	if ok && tv.Value != nil {
		return constTerm(tv.Value, fr.subst(tv.Type))
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.ev(fr, st, x.X)
	case *ast.Ident:
		if tv.IsNil() {
			return tNil
		}
		o := fr.pi.info.ObjectOf(x)
		if c, ok := fr.vars[o]; ok {
			return in.content(st, c)
		}
		switch o := o.(type) {
		case *types.Var:
			if isGlobal(o) {
				return in.load(st, in.globalPtr(st, o))
			}
		case *types.Func:
			return in.funcValue(o, nil, fr.instance(x))
		case *types.Nil:
			return tNil
		}
		giveUp("identifier %s", x.Name)
	case *ast.BasicLit:
		giveUp("literal")
	case *ast.FuncLit:
		vars := map[types.Object]int{}
		for k, v := range fr.vars {
			vars[k] = v
		}
		nf := *fr
		nf.vars = vars
		in.closures = append(in.closures, &closure{lit: x, fr: &nf})
		return intern(&T{op: OClosure, n: len(in.closures) - 1})
	case *ast.CompositeLit:
		return in.composite(fr, st, x, fr.typeOf(x))
	case *ast.SelectorExpr:
		return in.selector(fr, st, x)
	case *ast.StarExpr:
		p := in.ev(fr, st, x.X)
		in.notNil(st, fr, "nil", x.Pos(), p)
		return in.load(st, restrict(p, st.K))
	case *ast.UnaryExpr:
		return in.unary(fr, st, x)
	case *ast.BinaryExpr:
		return in.binary(fr, st, x)
	case *ast.CallExpr:
		vs := in.call(fr, st, x)
		if len(vs) != 1 {
			giveUp("call used as a single value")
		}
		return vs[0]
	case *ast.IndexExpr:
		return in.index(fr, st, x)
	case *ast.IndexListExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if f, ok := fr.pi.info.Uses[id].(*types.Func); ok {
				return in.funcValue(f, nil, fr.instance(id))
			}
		}
		giveUp("generic instantiation")
	case *ast.SliceExpr:
		return in.slice(fr, st, x)
	case *ast.TypeAssertExpr:
		v := in.ev(fr, st, x.X)
		t := fr.typeOf(x.Type)
		in.oblige(st, fr, "assert", x.Pos(), in.implements(v, t))
		v = restrict(v, st.K)
		if isInterface(t) {
			return v
		}
		return assertVal(v, t)
	}
	giveUp("unsupported expression %T", e)
	return nil
}

func (fr *frame) instance(id *ast.Ident) map[*types.TypeParam]types.Type {
	inst, ok := fr.pi.info.Instances[id]
	if !ok {
		return nil
	}
	f, ok := fr.pi.info.Uses[id].(*types.Func)
	if !ok {
		return nil
	}
	tps := f.Origin().Type().(*types.Signature).TypeParams()
	m := map[*types.TypeParam]types.Type{}
	for i := 0; i < tps.Len(); i++ {
		m[tps.At(i)] = fr.subst(inst.TypeArgs.At(i))
	}
	return m
}

func (in *interp) funcValue(f *types.Func, recv *T, tmap map[*types.TypeParam]types.Type) *T {
	for i, c := range in.closures {
		if c.fn == f && c.recv == recv && c.lit == nil && len(tmap) == 0 && len(c.tmap) == 0 {
			return intern(&T{op: OClosure, n: i})
		}
	}
	in.closures = append(in.closures, &closure{fn: f, recv: recv, tmap: tmap})
	return intern(&T{op: OClosure, n: len(in.closures) - 1})
}

func (in *interp) composite(fr *frame, st *state, x *ast.CompositeLit, t types.Type) *T {
	lit := func(e ast.Expr, et types.Type) *T {
		if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
			if p, ok := et.Underlying().(*types.Pointer); ok {
				return mkPtr(in.newCell(st, p.Elem(), in.composite(fr, st, c, p.Elem())))
			}
			return in.composite(fr, st, c, et)
		}
		return in.convertTo(in.ev(fr, st, e), fr.typeOf(e), et)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := in.zero(t)
		if v.op != OStruct {
			if len(x.Elts) == 0 {
				return v
			}
			giveUp("literal of opaque type %s", t)
		}
		args := append([]*T{}, v.args...)
		for i, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						args[j] = lit(kv.Value, fr.subst(u.Field(j).Type()))
					}
				}
				continue
			}
			args[i] = lit(e, fr.subst(u.Field(i).Type()))
		}
		return mkStruct(t, args)
	case *types.Slice, *types.Array:
		et := elemType(u)
		var elems []*T
		pos := 0
		set := func(i int, v *T) {
			for len(elems) <= i {
				elems = append(elems, in.zero(et))
			}
			elems[i] = v
		}
		for _, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				pos = int(in.ev(fr, st, kv.Key).i64())
				e = kv.Value
			}
			set(pos, lit(e, et))
			pos++
		}
		if a, ok := u.(*types.Array); ok {
			if a.Len() > 0 && a.Len() < 1<<16 {
				set(int(a.Len())-1, func() *T {
					if len(elems) >= int(a.Len()) {
						return elems[a.Len()-1]
					}
					return in.zero(et)
				}())
			}
		}
		us := make([]*T, len(elems))
		for i := range elems {
			us[i] = unit(elems[i], et)
		}
		seq := cat(us...)
		if _, ok := u.(*types.Array); ok {
			return seq
		}
		return in.newSlice(st, et, seq)
	case *types.Map:
		var args []*T
		for _, e := range x.Elts {
			kv := e.(*ast.KeyValueExpr)
			args = append(args, lit(kv.Key, u.Key()), lit(kv.Value, u.Elem()))
		}
		m := intern(&T{op: OMapV, args: sortMap(args)})
		return mkPtr(in.newCell(st, t, m))
	}
	giveUp("composite literal of %s", t)
	return nil
}

func (in *interp) selector(fr *frame, st *state, x *ast.SelectorExpr) *T {
	sel := fr.pi.info.Selections[x]
	if sel == nil {
		switch o := fr.pi.info.Uses[x.Sel].(type) {
		case *types.Var:
			return in.load(st, in.globalPtr(st, o))
		case *types.Func:
			return in.funcValue(o, nil, fr.instance(x.Sel))
		}
		giveUp("qualified identifier %s", x.Sel.Name)
	}
	switch sel.Kind() {
	case types.FieldVal:
		bt := fr.typeOf(x.X)
		if _, ok := bt.Underlying().(*types.Pointer); ok {
			p := in.ev(fr, st, x.X)
			return in.load(st, in.fieldPath(fr, st, p, bt, sel.Index(), x))
		}
		v := in.ev(fr, st, x.X)
		t := bt
		for j, i := range sel.Index() {
			v = field(v, i, t)
			t = t.Underlying().(*types.Struct).Field(i).Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok && j < len(sel.Index())-1 {
				in.notNil(st, fr, "nil", x.Pos(), v)
				v = in.load(st, restrict(v, st.K))
				t = pt.Elem()
			}
		}
		return v
	case types.MethodVal:
		recv := in.recvFor(fr, st, x, sel)
		f := sel.Obj().(*types.Func)
		return in.funcValue(f, recv, nil)
	}
	giveUp("method expression %s", x.Sel.Name)
	return nil
}

// recvFor evaluates the receiver operand of a method selection.
func (in *interp) recvFor(fr *frame, st *state, x *ast.SelectorExpr, sel *types.Selection) *T {
	f := sel.Obj().(*types.Func)
	bt := fr.typeOf(x.X)
	idx := sel.Index()
	rt := f.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.Underlying().(*types.Pointer)
	if isInterface(rt) {
		wantPtr = false
	}
	_, havePtr := bt.Underlying().(*types.Pointer)
	if len(idx) == 1 {
		switch {
		case wantPtr && !havePtr:
			return in.addrOfRecv(fr, st, x.X)
		case !wantPtr && havePtr && !isInterface(bt):
			p := in.ev(fr, st, x.X)
			in.notNil(st, fr, "nil", x.Pos(), p)
			return in.load(st, restrict(p, st.K))
		}
		return in.ev(fr, st, x.X)
	}
	// promoted method
	var v *T
	var p *T
	t := bt
	if havePtr {
		p = in.ev(fr, st, x.X)
		in.notNil(st, fr, "nil", x.Pos(), p)
		p = restrict(p, st.K)
		t = bt.Underlying().(*types.Pointer).Elem()
	} else if wantPtr {
		p = in.addrOfRecv(fr, st, x.X)
	} else {
		v = in.ev(fr, st, x.X)
	}
	for _, i := range idx[:len(idx)-1] {
		s := t.Underlying().(*types.Struct)
		if p != nil {
			p = in.subPtr(st, p, fldStep(t, i))
		} else {
			v = field(v, i, t)
		}
		t = s.Field(i).Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if p != nil {
				p = in.load(st, p)
			} else {
				p = v
			}
			t = pt.Elem()
		}
	}
	if wantPtr {
		if p == nil {
			p = mkPtr(in.newCell(st, t, v))
		}
		return p
	}
	if p != nil {
		return in.load(st, p)
	}
	return v
}

func (in *interp) addrOfRecv(fr *frame, st *state, e ast.Expr) *T {
	return in.addrOf(fr, st, e)
}

func (in *interp) unary(fr *frame, st *state, x *ast.UnaryExpr) *T {
	switch x.Op {
	case token.AND:
		return in.addrOf(fr, st, x.X)
	case token.NOT:
		return not(in.ev(fr, st, x.X))
	case token.SUB:
		t := fr.typeOf(x)
		v := in.ev(fr, st, x.X)
		if w, s, ok := intType(t); ok {
			return mkWrap(mulC(v, -1), w, s)
		}
		return mkApp("fneg", t, v)
	case token.ADD:
		return in.ev(fr, st, x.X)
	case token.XOR:
		t := fr.typeOf(x)
		v := in.ev(fr, st, x.X)
		if w, s, ok := intType(t); ok {
			return mkWrap(sub(mkI(-1), v), w, s)
		}
	}
	giveUp("unary %s", x.Op)
	return nil
}

func (in *interp) binary(fr *frame, st *state, x *ast.BinaryExpr) *T {
	switch x.Op {
	case token.LAND, token.LOR:
		a := restrict(in.ev(fr, st, x.X), st.K)
		if x.Op == token.LAND {
			return in.forkEv(st, a, func(s *state) []*T { return []*T{in.ev(fr, s, x.Y)} }, func(*state) []*T { return []*T{tFalse} })[0]
		}
		return in.forkEv(st, a, func(*state) []*T { return []*T{tTrue} }, func(s *state) []*T { return []*T{in.ev(fr, s, x.Y)} })[0]
	}
	a := in.ev(fr, st, x.X)
	b := in.ev(fr, st, x.Y)
	return in.binop(fr, st, x.Op, a, b, fr.typeOf(x.X), fr.typeOf(x.Y), x.Pos())
}

func (in *interp) equal(st *state, a, b *T, ta, tb types.Type) *T {
	if ta != nil && tb != nil {
		if isInterface(ta) && !isInterface(tb) {
			b = in.convertTo(b, tb, ta)
		} else if isInterface(tb) && !isInterface(ta) {
			a = in.convertTo(a, ta, tb)
		}
	}
	if ta != nil {
		if ar, ok := ta.Underlying().(*types.Array); ok {
			_ = ar
			return seqEq(a, b)
		}
		if _, ok := ta.Underlying().(*types.Slice); ok {
			if b == tNil {
				return isNil(a)
			}
		}
	}
	if tb != nil {
		if _, ok := tb.Underlying().(*types.Slice); ok && a == tNil {
			return isNil(b)
		}
	}
	if a.op == OPtr && b.op == OPtr {
		return mkB(a == b)
	}
	return valEq(a, b)
}

func (in *interp) binop(fr *frame, st *state, op token.Token, a, b *T, ta, tb types.Type, pos token.Pos) *T {
	switch op {
	case token.EQL:
		return in.equal(st, a, b, ta, tb)
	case token.NEQ:
		return not(in.equal(st, a, b, ta, tb))
	}
	bt, _ := ta.Underlying().(*types.Basic)
	if bt == nil {
		giveUp("operator %s on %s", op, ta)
	}
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return cat(a, b)
		case token.LSS:
			return mkApp("str<", types.Typ[types.Bool], a, b)
		case token.GTR:
			return mkApp("str<", types.Typ[types.Bool], b, a)
		case token.LEQ:
			return not(mkApp("str<", types.Typ[types.Bool], b, a))
		case token.GEQ:
			return not(mkApp("str<", types.Typ[types.Bool], a, b))
		}
	}
	if bt.Info()&types.IsFloat != 0 || tb != nil && isFloat(tb) {
		return floatOp(op, a, b, ta)
	}
	if bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return and(a, b)
		case token.OR:
			return or(a, b)
		}
	}
	switch op {
	case token.LSS:
		return ltI(a, b)
	case token.LEQ:
		return leI(a, b)
	case token.GTR:
		return ltI(b, a)
	case token.GEQ:
		return leI(b, a)
	}
	w, s, ok := intType(ta)
	if !ok {
		giveUp("operator %s on %s", op, ta)
	}
	switch op {
	case token.ADD:
		return mkWrap(add(a, b), w, s)
	case token.SUB:
		return wrapK(sub(a, b), w, s, st.K)
	case token.MUL:
		return mkWrap(mul(a, b), w, s)
	case token.QUO, token.REM:
		b = restrict(b, st.K)
		if b.op != OInt {
			in.oblige(st, fr, "div", pos, not(eqI(b, tZero)))
			return mkApp("quo"+op.String(), ta, a, b)
		}
		if b.z.Sign() == 0 {
			in.oblige(st, fr, "div", pos, tFalse)
		}
		if b.z.Sign() < 0 {
			giveUp("division by a negative constant")
		}
		q := truncDiv(a, b.z, st.K)
		if op == token.QUO {
			return mkWrap(q, w, s)
		}
		return sub(a, mulZ(q, b.z))
	case token.AND:
		return mkWrap(bitop("and", unsigned(a, w, s), unsigned(b, w, s), ta), w, s)
	case token.OR:
		return mkWrap(bitop("or", unsigned(a, w, s), unsigned(b, w, s), ta), w, s)
	case token.XOR:
		return mkWrap(bitop("xor", unsigned(a, w, s), unsigned(b, w, s), ta), w, s)
	case token.AND_NOT:
		nb := sub(mkZ(new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)), unsigned(b, w, s))
		return mkWrap(bitop("and", unsigned(a, w, s), nb, ta), w, s)
	case token.SHL:
		b = restrict(b, st.K)
		if b.op == OInt {
			if b.z.Cmp(big.NewInt(int64(w))) >= 0 {
				return tZero
			}
			return mkWrap(mulZ(a, new(big.Int).Lsh(bigOne, uint(b.i64()))), w, s)
		}
		if _, bs, _ := intType(tb); bs {
			in.oblige(st, fr, "shift", pos, leI(tZero, b))
		}
		return mkApp("shl", ta, a, b)
	case token.SHR:
		b = restrict(b, st.K)
		if b.op == OInt {
			if b.z.Cmp(big.NewInt(int64(w))) >= 0 && !s {
				return tZero
			}
			return mkDiv(a, new(big.Int).Lsh(bigOne, uint(min(b.i64(), 64))))
		}
		if _, bs, _ := intType(tb); bs {
			in.oblige(st, fr, "shift", pos, leI(tZero, b))
		}
		return mkApp("shr", ta, a, b)
	}
	giveUp("operator %s", op)
	return nil
}

func assignOp(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	}
	return token.AND_NOT
}

// wrapK skips the reduction when facts bound the value.
func wrapK(t *T, w int, s bool, K *Facts) *T {
	lo, hi := rangeK(t, K)
	l, h := bigZero, new(big.Int).Lsh(bigOne, uint(w))
	if s {
		h = new(big.Int).Lsh(bigOne, uint(w-1))
		l = new(big.Int).Neg(h)
	}
	fits := func() bool { return lo != nil && hi != nil && lo.Cmp(l) >= 0 && hi.Cmp(h) < 0 }
	if fits() {
		return t
	}
	r := mkWrap(t, w, s)
	if r == t || r.op != OWrap {
		return r
	}
	// a named minimum or maximum: by cases on what it is
	if d := openLatest(t); d != t && K != nil {
		n := 6
		var ok bool
		if lo, hi, ok = pathRangeK(restrict(d, K), K, &n); ok && fits() {
			return t
		}
	}
	return r
}

// openLatest replaces the latest name among the terms of a sum by its
// definition.
func openLatest(t *T) *T {
	var best *T
	for _, a := range toLin(t).as {
		if isDef(a) && (best == nil || a.id > best.id) {
			best = a
		}
	}
	if best == nil {
		return t
	}
	return subst1(t, best, best.args[0])
}

func unsigned(a *T, w int, s bool) *T {
	if !s {
		return a
	}
	return mkWrap(a, w, false)
}

func truncDiv(a *T, d *big.Int, K *Facts) *T {
	lo, _ := rangeK(a, K)
	if lo != nil && lo.Sign() >= 0 {
		return mkDiv(a, d)
	}
	// multiples divide exactly
	l := toLin(a)
	exact := new(big.Int).Mod(l.c, d).Sign() == 0
	for _, c := range l.cs {
		if new(big.Int).Mod(c, d).Sign() != 0 {
			exact = false
		}
	}
	if exact {
		return mkDiv(a, d)
	}
	_, hi := rangeK(a, K)
	neg := mulC(mkDiv(mulC(a, -1), d), -1)
	if hi != nil && hi.Sign() <= 0 {
		return neg
	}
	return mkIte(leI(tZero, a), mkDiv(a, d), neg)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func floatOp(op token.Token, a, b *T, t types.Type) *T {
	switch op {
	case token.ADD, token.MUL:
		if a.id > b.id {
			a, b = b, a
		}
		return mkApp("f"+op.String(), t, a, b)
	case token.SUB, token.QUO:
		return mkApp("f"+op.String(), t, a, b)
	case token.LSS:
		return mkApp("f<", types.Typ[types.Bool], a, b)
	case token.GTR:
		return mkApp("f<", types.Typ[types.Bool], b, a)
	case token.LEQ:
		return mkApp("f<=", types.Typ[types.Bool], a, b)
	case token.GEQ:
		return mkApp("f<=", types.Typ[types.Bool], b, a)
	}
	giveUp("float operator %s", op)
	return nil
}

func (in *interp) index(fr *frame, st *state, x *ast.IndexExpr) *T {
	if tv := fr.pi.info.Types[x.X]; tv.Type != nil {
		if _, ok := tv.Type.Underlying().(*types.Signature); ok {
			switch id := ast.Unparen(x.X).(type) {
			case *ast.Ident:
				if f, ok := fr.pi.info.Uses[id].(*types.Func); ok {
					return in.funcValue(f, nil, fr.instance(id))
				}
			case *ast.SelectorExpr:
				if f, ok := fr.pi.info.Uses[id.Sel].(*types.Func); ok {
					return in.funcValue(f, nil, fr.instance(id.Sel))
				}
			}
		}
	}
	t := fr.typeOf(x.X)
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := in.ev(fr, st, x.X)
		k := in.convertTo(in.ev(fr, st, x.Index), fr.typeOf(x.Index), u.Key())
		v, _ := in.mapGet(st, m, k, u)
		return v
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := in.ev(fr, st, x.X)
		in.notNil(st, fr, "nil", x.Pos(), p)
		i := restrict(in.ev(fr, st, x.Index), st.K)
		in.bounds(fr, st, x.Pos(), i, mkI(at.Len()))
		return in.table(st, in.load(st, restrict(p, st.K)), i, at.Elem())
	}
	v := restrict(in.ev(fr, st, x.X), st.K)
	i := restrict(in.ev(fr, st, x.Index), st.K)
	in.bounds(fr, st, x.Pos(), i, in.sliceLen(st, v))
	v, i = restrict(v, st.K), restrict(i, st.K)
	return in.table(st, in.seqIn(st, v), i, elemType(t))
}

// table reads element i; a small constant table with a variable index becomes
// a selection.
func (in *interp) table(st *state, seq, i *T, et types.Type) *T {
	v := elemK(seq, i, et, st.K)
	return v
}

func (in *interp) slice(fr *frame, st *state, x *ast.SliceExpr) *T {
	t := fr.typeOf(x.X)
	var v *T
	if at, ok := t.Underlying().(*types.Array); ok {
		p := in.addrOf(fr, st, x.X)
		v = mkSlice(p, tZero, mkI(at.Len()), types.NewSlice(at.Elem()))
	} else if pt, ok := t.Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		p := in.ev(fr, st, x.X)
		in.notNil(st, fr, "nil", x.Pos(), p)
		v = mkSlice(restrict(p, st.K), tZero, mkI(at.Len()), types.NewSlice(at.Elem()))
	} else {
		v = restrict(in.ev(fr, st, x.X), st.K)
	}
	n := in.sliceLen(st, v)
	lo, hi := tZero, n
	if x.Low != nil {
		lo = restrict(in.ev(fr, st, x.Low), st.K)
	}
	if x.High != nil {
		hi = restrict(in.ev(fr, st, x.High), st.K)
	}
	if x.Max != nil {
		in.ev(fr, st, x.Max)
	}
	if lo != tZero || hi != n {
		// capacity is not tracked: stay within the length
		in.oblige(st, fr, "bounds", x.Pos(), and(leI(tZero, lo), and(leI(lo, hi), leI(hi, n))))
	}
	v = restrict(v, st.K)
	return in.reslice(st, v, restrict(lo, st.K), restrict(hi, st.K), t)
}
