package main

// Hash-consed value-graph terms. Every value the analysed program computes is
// numbered once; equal computations share a node, and the smart constructors
// keep nodes in a normal form in which rewritten but equivalent code coincides.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

type Op uint8

const (
	OInt     Op = iota // z
	OBool              // k
	OSym               // s: free symbol
	OBV                // bound variable (k = level, n = slot)
	OLin               // z + sum coefs[i]*args[i]
	OWrap              // args[0] reduced to n bits; s = "u" or "i"
	ODiv               // floor(args[0] / z)
	OIn                // args[0] in set
	OIte               // args c, a, b; c is an atom
	OApp               // s(args...)
	OStruct            // s = type, args = fields
	OTuple             // args
	OBits              // s of '0' and '1'; "" is the empty sequence
	OBitF              // low n bits of args[0]
	OUnit              // one element
	OSub               // args base, off, len (elements)
	OZero              // args count, element
	OCat               // args parts
	OMap               // args count, body; concatenation of body over 0..count-1
	OSum               // args count, body
	OAny               // args count, body
	OFirst             // args count (nil sym = unbounded), body
	ORec               // n = number of variables, k = selected; args idx, inits.., steps..
	OPtr               // n = cell, args = path (OSym field names ".f" or index terms)
	OSlice             // args cellptr, off, len
	OSliceV            // args isNil, seq: immutable slice value
	OBox               // args content: pointer to an object that is not otherwise referenced
	OIface             // typ, args value
	ONil               // nil pointer / interface / func / map
	OClosure           // n = closure index
	OMapV              // args alternate key, value (constant keys), sorted
)

type ival struct{ lo, hi *big.Int } // nil = unbounded

type T struct {
	id    int
	op    Op
	s     string
	n, k  int
	z     *big.Int
	coefs []*big.Int
	args  []*T
	set   []ival
	typ   types.Type
	h     int  // binder height
	size  int  // tree size, saturating
	ites  bool // contains an Ite or bool composite outside binders
	bvs   bool // contains a bound variable
	bytes bool // byte sequence
	defs  bool // contains a named intermediate value
}

var (
	tab     = map[string]*T{}
	nextID  int
	symSeq  int
	tTrue   *T
	tFalse  *T
	tEmpty  *T
	tZero   *T
	tOne    *T
	tNil    *T
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
)

func init() {
	tFalse = intern(&T{op: OBool, k: 0})
	tTrue = intern(&T{op: OBool, k: 1})
	tEmpty = intern(&T{op: OBits})
	tZero = mkI(0)
	tOne = mkI(1)
	tNil = intern(&T{op: ONil})
}

type undecided struct{ msg, at string }

var curPos token.Pos

func giveUp(f string, a ...any) { panic(undecided{msg: fmt.Sprintf(f, a...)}) }

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	s := types.TypeString(t, nil)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = aliasByte.ReplaceAllString(s, "uint8")
		s = aliasRune.ReplaceAllString(s, "int32")
	}
	return s
}

var aliasByte, aliasRune = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`)

var (
	typeIDs   = map[types.Type]int{}
	typeNames = map[string]int{}
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if n, ok := typeIDs[t]; ok {
		return n
	}
	k := typeKey(t)
	n := typeNames[k]
	if n == 0 {
		n = len(typeNames) + 1
		typeNames[k] = n
	}
	typeIDs[t] = n
	return n
}

var budget = 60000000

func intern(t *T) *T {
	var b strings.Builder
	b.WriteByte(byte(t.op) + 32)
	b.WriteString(t.s)
	fmt.Fprintf(&b, "|%d,%d", t.n, t.k)
	if t.z != nil {
		b.WriteByte('z')
		b.WriteString(t.z.Text(62))
	}
	for i, a := range t.args {
		fmt.Fprintf(&b, "_%d", a.id)
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].Text(62))
		}
	}
	for _, iv := range t.set {
		b.WriteByte('[')
		if iv.lo != nil {
			b.WriteString(iv.lo.Text(62))
		}
		b.WriteByte(',')
		if iv.hi != nil {
			b.WriteString(iv.hi.Text(62))
		}
	}
	if t.op == OIface || t.op == OApp {
		fmt.Fprintf(&b, "T%d", typeID(t.typ))
	}
	key := b.String()
	if o := tab[key]; o != nil {
		return o
	}
	nextID++
	if nextID > budget {
		giveUp("term budget exhausted")
	}
	t.id = nextID
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if a.h > t.h {
			t.h = a.h
		}
		t.bvs = t.bvs || a.bvs
		t.defs = t.defs || a.defs
		switch t.op {
		case OMap, OSum, OAny, OFirst:
			// bodies are opened on demand
			if a == t.args[0] {
				t.ites = t.ites || a.ites
			}
		case ORec:
		default:
			t.ites = t.ites || a.ites
		}
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	switch t.op {
	case OIte:
		t.ites = true
		t.bytes = t.args[1].bytes || t.args[2].bytes
	case OBV:
		t.bvs = true
		t.bytes = isByteSeq(t.typ)
	case ORec:
		t.ites = t.args[0].ites
		for i := 1; i <= t.n; i++ {
			t.ites = t.ites || t.args[i].ites
		}
	case OBits:
		t.bytes = t.s != ""
	case OBitF:
		t.bytes = true
	case OSub:
		t.bytes = t.args[0].bytes
	case OCat:
		for _, a := range t.args {
			t.bytes = t.bytes || a.bytes
		}
	case OMap:
		t.bytes = t.args[1].bytes
	case OZero:
		t.bytes = t.args[1] == tZero && t.n == 8
	case OSym, OApp:
		t.bytes = isByteSeq(t.typ)
		if isDef(t) {
			t.ites, t.defs = false, true
		}
	}
	tab[key] = t
	return t
}

// isByteSeq reports whether values of the type are byte sequences (seqTyp
// values, strings).
func isByteSeq(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
	}
	return false
}

func mkZ(z *big.Int) *T { return intern(&T{op: OInt, z: z}) }
func mkI(i int64) *T    { return mkZ(big.NewInt(i)) }
func mkB(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}
func mkSym(name string, typ types.Type) *T {
	return intern(&T{op: OSym, s: name + "\x00" + typeKey(typ), typ: typ})
}
func freshSym(prefix string, typ types.Type) *T {
	symSeq++
	return mkSym(fmt.Sprintf("%s#%d", prefix, symSeq), typ)
}
func mkApp(name string, typ types.Type, args ...*T) *T {
	return intern(&T{op: OApp, s: name, typ: typ, args: args})
}
func isC(t *T) bool { return t.op == OInt }
func (t *T) i64() int64 {
	if t.op != OInt || !t.z.IsInt64() {
		giveUp("constant expected, got %s", t)
	}
	return t.z.Int64()
}

// ---- integers ----

type lin struct {
	c  *big.Int
	cs []*big.Int
	as []*T
}

func toLin(t *T) lin {
	switch t.op {
	case OInt:
		return lin{c: t.z}
	case OLin:
		return lin{t.z, t.coefs, t.args}
	}
	return lin{bigZero, []*big.Int{bigOne}, []*T{t}}
}

func fromLin(l lin) *T {
	if len(l.as) == 0 {
		return mkZ(l.c)
	}
	if len(l.as) == 1 && l.c.Sign() == 0 && l.cs[0].Cmp(bigOne) == 0 {
		return l.as[0]
	}
	return intern(&T{op: OLin, z: l.c, coefs: l.cs, args: l.as})
}

// addMul returns a + k*b.
func addMul(a *T, k *big.Int, b *T) *T {
	if k.Sign() == 0 || (b.op == OInt && b.z.Sign() == 0) {
		return a
	}
	x, y := toLin(a), toLin(b)
	r := lin{c: new(big.Int).Add(x.c, new(big.Int).Mul(k, y.c))}
	i, j := 0, 0
	for i < len(x.as) || j < len(y.as) {
		switch {
		case j == len(y.as) || i < len(x.as) && x.as[i].id < y.as[j].id:
			r.as, r.cs = append(r.as, x.as[i]), append(r.cs, x.cs[i])
			i++
		case i == len(x.as) || y.as[j].id < x.as[i].id:
			r.as, r.cs = append(r.as, y.as[j]), append(r.cs, new(big.Int).Mul(k, y.cs[j]))
			j++
		default:
			c := new(big.Int).Add(x.cs[i], new(big.Int).Mul(k, y.cs[j]))
			if c.Sign() != 0 {
				r.as, r.cs = append(r.as, x.as[i]), append(r.cs, c)
			}
			i++
			j++
		}
	}
	return fromLin(r)
}
func add(a, b *T) *T           { return addMul(a, bigOne, b) }
func sub(a, b *T) *T           { return addMul(a, big.NewInt(-1), b) }
func mulC(a *T, k int64) *T    { return addMul(tZero, big.NewInt(k), a) }
func mulZ(a *T, k *big.Int) *T { return addMul(tZero, k, a) }
func mul(a, b *T) *T {
	if a.op == OInt {
		return mulZ(b, a.z)
	}
	if b.op == OInt {
		return mulZ(a, b.z)
	}
	// bilinear over the atoms
	x, y := toLin(a), toLin(b)
	r := mkZ(new(big.Int).Mul(x.c, y.c))
	for i := range x.as {
		r = addMul(r, new(big.Int).Mul(x.cs[i], y.c), x.as[i])
	}
	for j := range y.as {
		r = addMul(r, new(big.Int).Mul(y.cs[j], x.c), y.as[j])
		for i := range x.as {
			p, q := x.as[i], y.as[j]
			if p.id > q.id {
				p, q = q, p
			}
			r = addMul(r, new(big.Int).Mul(x.cs[i], y.cs[j]), mkApp("mul", nil, p, q))
		}
	}
	return r
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	if t == nil {
		return nil, nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	w, s, ok := intType(b)
	if !ok {
		return nil, nil
	}
	if s {
		hi = new(big.Int).Lsh(bigOne, uint(w-1))
		lo = new(big.Int).Neg(hi)
		return lo, new(big.Int).Sub(hi, bigOne)
	}
	hi = new(big.Int).Lsh(bigOne, uint(w))
	return bigZero, new(big.Int).Sub(hi, bigOne)
}

func intType(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

const maxLen = 1 << 24

var rangeMemo = map[int][2]*big.Int{}

// rng is the static range of an integer term.
func rng(t *T) (lo, hi *big.Int) {
	if t.op == OInt {
		return t.z, t.z
	}
	if r, ok := rangeMemo[t.id]; ok {
		return r[0], r[1]
	}
	lo, hi = rng1(t, rng, true)
	rangeMemo[t.id] = [2]*big.Int{lo, hi}
	return
}

// paths: also look at the paths of gated values separately (independent of rec).
func rng1(t *T, rec func(*T) (*big.Int, *big.Int), paths bool) (lo, hi *big.Int) {
	if isDef(t) && !paths {
		return rec(t.args[0])
	}
	if isDef(t) {
		n := 64
		if lo, hi, ok := pathRange(t.args[0], nil, &n); ok {
			return lo, hi
		}
		return rec(t.args[0])
	}
	switch t.op {
	case OInt:
		return t.z, t.z
	case OLin:
		lo, hi = t.z, t.z
		for i, a := range t.args {
			l, h := rec(a)
			cnt, sums := sumGroup(t, i)
			if cnt == skipAtom {
				continue
			}
			if cnt != nil {
				l, h = groupRange(t, cnt, sums, rec, paths)
				if lo != nil && l != nil {
					lo = new(big.Int).Add(lo, l)
				} else {
					lo = nil
				}
				if hi != nil && h != nil {
					hi = new(big.Int).Add(hi, h)
				} else {
					hi = nil
				}
				continue
			}
			if t.coefs[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(t.coefs[i], l))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(t.coefs[i], h))
			} else {
				hi = nil
			}
		}
		if !paths {
			return
		}
		if o := openOnce(t); o != t && (lo == nil || hi == nil || lo.Sign() < 0) {
			n := 16
			if l, h, ok := pathRangeK(o, newFacts(), &n); ok {
				lo, hi = tighten(lo, hi, l, h)
			}
		}
		return
	case OWrap:
		if t.s == "u" {
			hi = new(big.Int).Lsh(bigOne, uint(t.n))
			return bigZero, hi.Sub(hi, bigOne)
		}
		hi = new(big.Int).Lsh(bigOne, uint(t.n-1))
		return new(big.Int).Neg(hi), new(big.Int).Sub(hi, bigOne)
	case ODiv:
		l, h := rec(t.args[0])
		if l != nil {
			lo = floorDiv(l, t.z)
		}
		if h != nil {
			hi = floorDiv(h, t.z)
		}
		return
	case OIte:
		l1, h1 := rec(t.args[1])
		l2, h2 := rec(t.args[2])
		if c := t.args[0]; c.op == OIn {
			l, h := boundBy(t.args[1], c.args[0], c.set)
			l1, h1 = tighten(l1, h1, l, h)
			l, h = boundBy(t.args[2], c.args[0], complement(c.set))
			l2, h2 = tighten(l2, h2, l, h)
		}
		return zmin(l1, l2), zmax(h1, h2)
	case OSum:
		l, h := rec(t.args[1])
		nl, nh := rec(t.args[0])
		_ = nl
		if l != nil {
			if l.Sign() >= 0 {
				lo = bigZero
			} else if nh != nil {
				lo = new(big.Int).Mul(l, nh)
			}
		}
		if h != nil {
			if h.Sign() <= 0 {
				hi = bigZero
			} else if nh != nil {
				hi = new(big.Int).Mul(h, nh)
			}
		}
		return
	case OFirst:
		_, nh := rec(t.args[0])
		return bigZero, nh
	case OApp:
		switch t.s {
		case "len", "jlen":
			return bigZero, big.NewInt(maxLen)
		case "rd":
			hi = new(big.Int).Lsh(bigOne, uint(t.args[2].i64()))
			return bigZero, hi.Sub(hi, bigOne)
		case "rdx":
			hi = new(big.Int).Lsh(bigOne, uint(t.args[2].i64()))
			return bigZero, hi.Sub(hi, bigOne)
		case "elem":
			if t.args[0].bytes {
				return bigZero, big.NewInt(255)
			}
		case "xor", "and", "or":
			l1, h1 := rec(t.args[0])
			l2, h2 := rec(t.args[1])
			if l1 != nil && l2 != nil && h1 != nil && h2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
				if t.s == "and" {
					return bigZero, zmin(h1, h2)
				}
				m := zmax(h1, h2)
				hi = new(big.Int).Lsh(bigOne, uint(m.BitLen()))
				return bigZero, hi.Sub(hi, bigOne)
			}
			if t.s == "and" {
				if l1 != nil && l1.Sign() >= 0 && h1 != nil {
					return bigZero, h1
				}
				if l2 != nil && l2.Sign() >= 0 && h2 != nil {
					return bigZero, h2
				}
			}
		case "mul":
			l1, h1 := rec(t.args[0])
			l2, h2 := rec(t.args[1])
			if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
				lo = new(big.Int).Mul(l1, l2)
				if h1 != nil && h2 != nil {
					hi = new(big.Int).Mul(h1, h2)
				}
				return
			}
		case "count":
			return bigZero, big.NewInt(maxLen)
		case "ilen":
			return bigZero, big.NewInt(maxLen)
		}
		return typeRange(t.typ)
	case ORec:
		if l, h := recRange(t, rec); l != nil || h != nil {
			return l, h
		}
		return typeRange(t.typ)
	case OSym, OBV:
		if strings.HasPrefix(t.s, "idx#") {
			return bigZero, big.NewInt(maxLen * 8)
		}
		if r, ok := symRange[t.id]; ok {
			return r[0], r[1]
		}
		return typeRange(t.typ)
	}
	return nil, nil
}

// recRange: a recurrence that only grows is at least its initial value.
var skipAtom = &T{}

// sumGroup collects the sums over the same count: at the first of them it
// returns the count and their positions, at the others (and at the count
// itself) skipAtom.
func sumGroup(t *T, i int) (*T, []int) {
	a := t.args[i]
	var cnt *T
	if a.op == OSum {
		cnt = a.args[0]
	} else {
		for _, b := range t.args {
			if b.op == OSum && b.args[0] == a {
				return skipAtom, nil
			}
		}
		return nil, nil
	}
	var g []int
	hasCnt := false
	for j, b := range t.args {
		if b.op == OSum && b.args[0] == cnt {
			g = append(g, j)
		}
		if b == cnt {
			hasCnt = true
		}
	}
	if len(g) == 1 && !hasCnt {
		return nil, nil
	}
	if g[0] != i {
		return skipAtom, nil
	}
	return cnt, g
}

// groupRange is the range of k*n + c1*sum(n,b1) + c2*sum(n,b2) + ...
func groupRange(t, cnt *T, sums []int, rec func(*T) (*big.Int, *big.Int), paths bool) (lo, hi *big.Int) {
	lo = coefOf(t, cnt)
	hi = lo
	for _, j := range sums {
		l, h := rec(t.args[j].args[1])
		if t.coefs[j].Sign() < 0 {
			l, h = h, l
		}
		if lo != nil && l != nil {
			lo = new(big.Int).Add(lo, new(big.Int).Mul(t.coefs[j], l))
		} else {
			lo = nil
		}
		if hi != nil && h != nil {
			hi = new(big.Int).Add(hi, new(big.Int).Mul(t.coefs[j], h))
		} else {
			hi = nil
		}
	}
	if paths && len(sums) > 1 && (lo == nil || hi == nil || lo.Sign() < 0) {
		// the bodies taken together, path by path
		body := mkZ(coefOf(t, cnt))
		var sym *T
		for _, j := range sums {
			o := openB(t.args[j])
			b := o.body
			if sym == nil {
				sym = o.sym
			} else {
				b = subst1(b, o.sym, sym)
			}
			body = addMul(body, t.coefs[j], b)
		}
		n := 32
		if l, h, ok := pathRangeK(body, newFacts(), &n); ok {
			lo, hi = tighten(lo, hi, l, h)
		}
	}
	nl, nh := rec(cnt)
	if nl == nil || nl.Sign() < 0 {
		nl = bigZero
	}
	times := func(v *big.Int, low bool) *big.Int {
		if v == nil {
			return nil
		}
		n := nh
		if (v.Sign() >= 0) == low {
			n = nl
		}
		if n == nil {
			return nil
		}
		return new(big.Int).Mul(v, n)
	}
	return times(lo, true), times(hi, false)
}

// pathRange is the union of the ranges over the paths of a gated integer.
func pathRange(t *T, lits []flit, n *int) (lo, hi *big.Int, ok bool) {
	c := pickAtom(t)
	if c == nil {
		*n--
		if *n < 0 {
			return nil, nil, false
		}
		lo, hi = rng(t)
		for _, l := range lits {
			if l.atom.op == OIn {
				s := l.atom.set
				if !l.val {
					s = complement(s)
				}
				a, b := boundBy(t, l.atom.args[0], s)
				lo, hi = tighten(lo, hi, a, b)
			}
		}
		return lo, hi, true
	}
	lits = lits[:len(lits):len(lits)]
	l1, h1, ok := pathRange(assume1(t, c, true), append(lits, flit{c, true}), n)
	if !ok {
		return nil, nil, false
	}
	l2, h2, ok := pathRange(assume1(t, c, false), append(lits, flit{c, false}), n)
	return zmin(l1, l2), zmax(h1, h2), ok
}

// pathRangeK is pathRange with the literals of each path combined.
func pathRangeK(t *T, K *Facts, n *int) (lo, hi *big.Int, ok bool) {
	c := pickAtom(t)
	if c == nil {
		*n--
		if *n < 0 {
			return nil, nil, false
		}
		lo, hi = rangeK(t, K)
		return lo, hi, true
	}
	for _, v := range []bool{true, false} {
		k := K.with(c, v)
		if k.dead {
			continue
		}
		l, h, o := pathRangeK(restrict(assume1(t, c, v), k), k, n)
		if !o {
			return nil, nil, false
		}
		if !ok {
			lo, hi, ok = l, h, true
		} else {
			lo, hi = zmin(lo, l), zmax(hi, h)
		}
	}
	return
}

// boundBy bounds t given that q lies in the set, when t is linear in q.
func boundBy(t, q *T, set []ival) (lo, hi *big.Int) {
	if len(set) == 0 || isC(t) {
		return nil, nil
	}
	p, g, c := primitive(t)
	if p != q {
		return nil, nil
	}
	lo, hi = set[0].lo, set[len(set)-1].hi
	if g.Sign() < 0 {
		lo, hi = hi, lo
	}
	if lo != nil {
		lo = new(big.Int).Add(c, new(big.Int).Mul(g, lo))
	}
	if hi != nil {
		hi = new(big.Int).Add(c, new(big.Int).Mul(g, hi))
	}
	return
}

func recRange(t *T, rec func(*T) (*big.Int, *big.Int)) (lo, hi *big.Int) {
	st := t.args[1+t.n+t.k]
	bv := intern(&T{op: OBV, k: recLevel(t), n: 1 + t.k, typ: t.typ, s: typeKey(t.typ)})
	d := sub(st, bv)
	l, _ := rec(d)
	if l != nil && l.Sign() >= 0 {
		il, _ := rec(t.args[1+t.k])
		return il, nil
	}
	return nil, nil
}

func zmin(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func zmax(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean, b > 0: floor
	return q
}

func log2(z *big.Int) int { // -1 if not a power of two
	if z.Sign() <= 0 {
		return -1
	}
	n := z.BitLen() - 1
	if new(big.Int).Lsh(bigOne, uint(n)).Cmp(z) == 0 {
		return n
	}
	return -1
}

// mkWrap reduces t to w bits.
func mkWrap(t *T, w int, signed bool) *T {
	m := new(big.Int).Lsh(bigOne, uint(w))
	lo, hi := rng(t)
	if signed {
		half := new(big.Int).Rsh(m, 1)
		if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(half)) >= 0 && hi.Cmp(half) < 0 {
			return t
		}
		if t.op == OInt {
			z := new(big.Int).Mod(new(big.Int).Add(t.z, half), m)
			return mkZ(z.Sub(z, half))
		}
	} else {
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
			return t
		}
		if t.op == OInt {
			return mkZ(new(big.Int).Mod(t.z, m))
		}
	}
	// strip inner wraps of at least this width, reduce coefficients
	l := toLin(t)
	r := mkZ(new(big.Int).Mod(l.c, m))
	for i, a := range l.as {
		c := new(big.Int).Mod(l.cs[i], m)
		if l.cs[i].Sign() < 0 && !signed {
			c = l.cs[i]
			if new(big.Int).Mod(c, m).Sign() == 0 {
				c = bigZero
			}
		}
		if c.Sign() == 0 {
			continue
		}
		tz := int(c.TrailingZeroBits())
		if a.op == OWrap && a.n >= w-tz {
			a = a.args[0]
		}
		if a.op == OIte && a.args[2] != tZero {
			r = addMul(r, c, a)
			continue
		}
		r = addMul(r, c, a)
	}
	if r.z != nil && r.op == OLin {
		// canonical constant
		cc := new(big.Int).Mod(r.z, m)
		if cc.Cmp(r.z) != 0 {
			r = add(r, mkZ(new(big.Int).Sub(cc, r.z)))
		}
	}
	if r != t {
		return mkWrap(r, w, signed)
	}
	if t.op == OIte {
		return mkIte(t.args[0], mkWrap(t.args[1], w, signed), mkWrap(t.args[2], w, signed))
	}
	if !signed {
		// c*x + low with low in [0,c), c a power of two
		if top, low, c := splitTop(t); top != nil {
			k := log2(c)
			if k >= w {
				return mkWrap(low, w, false)
			}
			return addMul(low, c, mkWrap(top, w-k, false))
		}
		if t.op == OApp && t.s == "elem" && t.args[0].bytes && w < 8 {
			return mkRd(t.args[0], add(mulC(t.args[1], 8), mkI(int64(8-w))), w)
		}
		if t.op == OApp && t.s == "rd" {
			n := int(t.args[2].i64())
			return mkRd(t.args[0], add(t.args[1], mkI(int64(n-w))), w)
		}
	}
	s := "u"
	if signed {
		s = "i"
	}
	return intern(&T{op: OWrap, n: w, s: s, args: []*T{t}})
}

// splitTop writes t as c*top + low, 0 <= low < c, c > 1 a power of two, top an
// atom, when that is possible.
func splitTop(t *T) (top, low *T, c *big.Int) {
	if t.op != OLin {
		return
	}
	bi := -1
	for i := range t.args {
		if log2(t.coefs[i]) < 0 {
			return nil, nil, nil
		}
		if bi < 0 || t.coefs[i].Cmp(t.coefs[bi]) > 0 {
			bi = i
		}
	}
	c = t.coefs[bi]
	if c.Cmp(bigOne) <= 0 {
		return nil, nil, nil
	}
	low = addMul(t, new(big.Int).Neg(c), t.args[bi])
	lo, hi := rng(low)
	if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(c) >= 0 {
		return nil, nil, nil
	}
	return t.args[bi], low, c
}

// mkDiv is floor(t/d), d > 0.
func mkDiv(t *T, d *big.Int) *T {
	if d.Cmp(bigOne) == 0 {
		return t
	}
	l := toLin(t)
	q, r := tZero, tZero
	cq := floorDiv(l.c, d)
	q = mkZ(cq)
	r = mkZ(new(big.Int).Sub(l.c, new(big.Int).Mul(cq, d)))
	for i, a := range l.as {
		dq, dm := new(big.Int).QuoRem(l.cs[i], d, new(big.Int))
		if dm.Sign() == 0 {
			q = addMul(q, dq, a)
		} else {
			r = addMul(r, l.cs[i], a)
		}
	}
	if r.op == OInt {
		return add(q, mkZ(floorDiv(r.z, d)))
	}
	lo, hi := rng(r)
	if lo != nil && hi != nil {
		a, b := floorDiv(lo, d), floorDiv(hi, d)
		if a.Cmp(b) == 0 {
			return add(q, mkZ(a))
		}
	}
	if r.op == OIte {
		return add(q, mkIte(r.args[0], mkDiv(r.args[1], d), mkDiv(r.args[2], d)))
	}
	if k := log2(d); k > 0 {
		if top, low, c := splitTop(r); top != nil {
			_ = low
			if c.Cmp(d) <= 0 {
				return add(q, mkDiv(top, new(big.Int).Quo(d, c)))
			}
		}
		if r.op == OApp && r.s == "elem" && r.args[0].bytes {
			return add(q, mkRd(r.args[0], mulC(r.args[1], 8), 8-k))
		}
		if r.op == OApp && r.s == "rd" {
			return add(q, mkRd(r.args[0], r.args[1], int(r.args[2].i64())-k))
		}
	}
	// gcd reduction of the remainder part
	if r.op == OLin {
		g := new(big.Int).Set(d)
		for _, c := range r.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			x := addMul(tZero, bigOne, mkZ(floorDiv(r.z, g)))
			for i, a := range r.args {
				x = addMul(x, new(big.Int).Quo(r.coefs[i], g), a)
			}
			return add(q, mkDiv(x, new(big.Int).Quo(d, g)))
		}
	}
	if r.op == ODiv {
		return add(q, mkDiv(r.args[0], new(big.Int).Mul(r.z, d)))
	}
	return add(q, intern(&T{op: ODiv, z: d, args: []*T{r}}))
}

// ---- interval sets ----

func normSet(s []ival) []ival {
	var r []ival
	for _, v := range s {
		if v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) > 0 {
			continue
		}
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].lo == nil {
			return r[j].lo != nil
		}
		if r[j].lo == nil {
			return false
		}
		return r[i].lo.Cmp(r[j].lo) < 0
	})
	var o []ival
	for _, v := range r {
		if n := len(o); n > 0 {
			p := &o[n-1]
			if p.hi == nil {
				continue
			}
			if v.lo == nil || v.lo.Cmp(new(big.Int).Add(p.hi, bigOne)) <= 0 {
				if v.hi == nil || v.hi.Cmp(p.hi) > 0 {
					p.hi = v.hi
				}
				continue
			}
		}
		o = append(o, v)
	}
	return o
}
func complement(s []ival) []ival {
	var o []ival
	var lo *big.Int
	open := true // lo = -inf
	for _, v := range s {
		if v.lo != nil {
			o = append(o, ival{lo, new(big.Int).Sub(v.lo, bigOne)})
		}
		_ = open
		if v.hi == nil {
			return normSet(o)
		}
		lo = new(big.Int).Add(v.hi, bigOne)
	}
	o = append(o, ival{lo, nil})
	if len(s) == 0 {
		return []ival{{nil, nil}}
	}
	return normSet(o)
}
func intersect(a, b []ival) []ival {
	var o []ival
	for _, x := range a {
		for _, y := range b {
			v := x
			if y.lo != nil && (v.lo == nil || y.lo.Cmp(v.lo) > 0) {
				v.lo = y.lo
			}
			if y.hi != nil && (v.hi == nil || y.hi.Cmp(v.hi) < 0) {
				v.hi = y.hi
			}
			if v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) > 0 {
				continue
			}
			o = append(o, v)
		}
	}
	return normSet(o)
}
func setEq(a, b []ival) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !zeq(a[i].lo, b[i].lo) || !zeq(a[i].hi, b[i].hi) {
			return false
		}
	}
	return true
}
func zeq(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}
func subset(a, b []ival) bool { return setEq(intersect(a, b), normSet(a)) }

func point(z *big.Int) []ival { return []ival{{z, z}} }

// primitive returns t = g*p + c with p primitive, leading coefficient positive
// and no constant.
func primitive(t *T) (p *T, g, c *big.Int) {
	l := toLin(t)
	if len(l.as) == 0 {
		return nil, bigZero, l.c
	}
	g = new(big.Int)
	for _, k := range l.cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if l.cs[0].Sign() < 0 {
		g.Neg(g)
	}
	r := lin{c: bigZero, as: l.as}
	for _, k := range l.cs {
		r.cs = append(r.cs, new(big.Int).Quo(k, g))
	}
	return fromLin(r), g, l.c
}

// ---- named intermediate values ----

// mkDef names an integer that was merged from several paths, so that later
// conditions do not range over the ways it came about. The name is opened only
// when a comparison cannot be settled otherwise.
func mkDef(t *T) *T {
	if !t.ites || t.op == OInt || !isIntT(t) {
		return t
	}
	if r, ok := modOf(t, 8); ok {
		return add(mulC(mkDef1(exactDiv(sub(t, mkZ(r)), 8)), 8), mkZ(r))
	}
	return mkDef1(t)
}

func mkDef1(t *T) *T {
	if !t.ites {
		return t
	}
	c := toLin(t).c
	if t.op != OLin {
		c = bigZero
	}
	return add(mkApp("def", types.Typ[types.Int], sub(t, mkZ(c))), mkZ(c))
}

func isDef(t *T) bool { return t.op == OApp && t.s == "def" }

// openDefs replaces names by their definitions.
func openDefs(t *T) *T {
	memo := map[int]*T{}
	var f func(*T) *T
	f = func(t *T) *T {
		if !t.defs {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *T
		if isDef(t) {
			r = f(t.args[0])
		} else {
			r = rebuild(t, f)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

// openOnce replaces the named values of a linear form by their definitions.
func openOnce(t *T) *T {
	r := t
	for i, a := range t.args {
		if isDef(a) {
			r = addMul(r, t.coefs[i], sub(a.args[0], a))
		}
	}
	return r
}

// pickDef finds an atom that decides a named value occurring in the terms.
func pickDef(ts ...*T) *T {
	var best *T
	seen := map[int]bool{}
	var f func(t *T)
	f = func(t *T) {
		if !t.defs || seen[t.id] {
			return
		}
		seen[t.id] = true
		if isDef(t) {
			if a := t.args[0]; a.defs {
				f(a)
			}
			if c := pickAtom(t.args[0]); c != nil && !c.defs && !c.bvs && (best == nil || c.id < best.id) {
				best = c
			}
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range ts {
		f(t)
	}
	return best
}

// mkIn is the predicate t ∈ set.
func mkIn(t *T, set []ival) *T {
	set = normSet(set)
	if t.op == OIte && (t.args[1].op == OInt || t.args[2].op == OInt || !t.bvs) {
		return mkIte(t.args[0], mkIn(t.args[1], set), mkIn(t.args[2], set))
	}
	p, g, c := primitive(t)
	if p == nil {
		for _, v := range set {
			if (v.lo == nil || v.lo.Cmp(c) <= 0) && (v.hi == nil || v.hi.Cmp(c) >= 0) {
				return tTrue
			}
		}
		return tFalse
	}
	// g*p + c in set
	var s []ival
	ga := new(big.Int).Abs(g)
	for _, v := range set {
		lo, hi := v.lo, v.hi
		if lo != nil {
			lo = new(big.Int).Sub(lo, c)
		}
		if hi != nil {
			hi = new(big.Int).Sub(hi, c)
		}
		if g.Sign() < 0 {
			lo, hi = hi, lo
			if lo != nil {
				lo = new(big.Int).Neg(lo)
			}
			if hi != nil {
				hi = new(big.Int).Neg(hi)
			}
		}
		if lo != nil { // ceil
			lo = new(big.Int).Neg(floorDiv(new(big.Int).Neg(lo), ga))
		}
		if hi != nil {
			hi = floorDiv(hi, ga)
		}
		s = append(s, ival{lo, hi})
	}
	s = normSet(s)
	lo, hi := rng(p)
	full := []ival{{lo, hi}}
	s = intersect(s, full)
	if len(s) == 0 {
		return tFalse
	}
	if setEq(s, normSet(full)) {
		return tTrue
	}
	// an Ite atom inside a linear form: distribute, so that atoms are Ite-free
	if it := findIte(p); it != nil {
		c := it.args[0]
		return mkIte(c, mkIn(spine(p, c, true, 24), s), mkIn(spine(p, c, false, 24), s))
	}
	// polarity: atoms do not contain the minimum
	neg := false
	if lo != nil && s[0].lo != nil && s[0].lo.Cmp(lo) == 0 || lo == nil && s[0].lo == nil {
		neg = true
		s = intersect(complement(s), full)
	}
	a := intern(&T{op: OIn, args: []*T{p}, set: s})
	if neg {
		return not(a)
	}
	return a
}

func findIte(p *T) *T {
	if p.op == OIte {
		return p
	}
	if p.op == OLin {
		for _, a := range p.args {
			if a.op == OIte {
				return a
			}
		}
	}
	return nil
}
func replaceAtom(p, atom, by *T) *T {
	if p == atom {
		return by
	}
	for i, a := range p.args {
		if a == atom {
			return addMul(addMul(p, new(big.Int).Neg(p.coefs[i]), a), p.coefs[i], by)
		}
	}
	return p
}

func eqI(a, b *T) *T { return mkIn(sub(a, b), point(bigZero)) }
func ltI(a, b *T) *T { return mkIn(sub(b, a), []ival{{bigOne, nil}}) }
func leI(a, b *T) *T { return mkIn(sub(b, a), []ival{{bigZero, nil}}) }

// ---- booleans ----

func isLit(t *T) bool { return t.op != OIte }

func rawIte(c, a, b *T) *T { return intern(&T{op: OIte, args: []*T{c, a, b}, typ: firstTyp(a, b)}) }
func firstTyp(a, b *T) types.Type {
	if a.typ != nil {
		return a.typ
	}
	return b.typ
}
func not(t *T) *T    { return mkIte(t, tFalse, tTrue) }
func and(a, b *T) *T { return mkIte(a, b, tFalse) }
func or(a, b *T) *T  { return mkIte(a, tTrue, b) }
func iff(a, b *T) *T { return mkIte(a, b, not(b)) }
func isBoolT(t *T) bool {
	switch t.op {
	case OBool, OIn, OAny:
		return true
	case OIte:
		return isBoolT(t.args[1])
	case OSym, OApp, OBV, ORec:
		if t.op == OApp && boolApps[t.s] {
			return true
		}
		if t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok {
				return b.Info()&types.IsBoolean != 0
			}
		}
	}
	return false
}

var boolApps = map[string]bool{"nil": true, "istype": true, "seq=": true, "eq": true}

func isIntT(t *T) bool {
	switch t.op {
	case OInt, OLin, OWrap, ODiv, OSum, OFirst:
		return true
	case OIte:
		return isIntT(t.args[1]) && isIntT(t.args[2])
	case OSym, OApp, OBV, ORec:
		if t.op == OApp {
			switch t.s {
			case "len", "rd", "rdx", "xor", "and", "or", "mul", "count", "ilen":
				return true
			case "elem":
				if t.args[0].bytes {
					return true
				}
			}
		}
		if strings.HasPrefix(t.s, "idx#") {
			return true
		}
		if t.typ != nil {
			_, _, ok := intType(t.typ)
			return ok
		}
	}
	return false
}

func isSeqT(t *T) bool {
	switch t.op {
	case OBits, OBitF, OUnit, OSub, OZero, OCat, OMap:
		return true
	case OIte:
		return isSeqT(t.args[1]) || isSeqT(t.args[2])
	case OApp, OSym, OBV, ORec:
		if t.op == OApp && t.s == "seq" {
			return true
		}
		if (t.op == OSym || t.op == OBV) && strings.HasPrefix(t.s, "seq") {
			return true
		}
		if t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok {
				return b.Info()&types.IsString != 0
			}
		}
		return t.op == OApp && seqApps[t.s]
	}
	return false
}

var seqApps = map[string]bool{}

// litImplies: given atom c has truth v, the truth of atom d (0 unknown, 1 true, -1 false).
func litImplies(c *T, v bool, d *T) int {
	if c == d {
		if v {
			return 1
		}
		return -1
	}
	if c.op == OIn && d.op == OIn && c.args[0] == d.args[0] {
		s := c.set
		if !v {
			s = complement(s)
			lo, hi := rng(c.args[0])
			s = intersect(s, []ival{{lo, hi}})
		}
		i := intersect(s, d.set)
		if len(i) == 0 {
			return -1
		}
		if setEq(i, s) {
			return 1
		}
	}
	if v && c.op == OApp && d.op == OApp && c.s == "seq=" && d.s == "seq=" && c.args[0] == d.args[0] &&
		c.args[1].op == OBits && d.args[1].op == OBits {
		return -1
	}
	if v && c.op == OApp && d.op == OApp && c.s == "istype" && d.s == "istype" && c.args[0] == d.args[0] {
		return -1
	}
	if c.op == OApp && d.op == OApp && c.s == "nil" && d.s == "istype" && c.args[0] == d.args[0] && v {
		return -1
	}
	if c.op == OApp && d.op == OApp && c.s == "istype" && d.s == "nil" && c.args[0] == d.args[0] && v {
		return -1
	}
	return 0
}

// spine simplifies the top of t under the literal (c, v).
func spine(t, c *T, v bool, depth int) *T {
	switch t.op {
	case OIte:
	case OLin:
		if !t.ites {
			return t
		}
	default:
		if isBoolT(t) {
			switch litImplies(c, v, t) {
			case 1:
				return tTrue
			case -1:
				return tFalse
			}
		}
		return t
	}
	return (&spiner{c, v, map[int]*T{}}).run(t, depth)
}

type spiner struct {
	c    *T
	v    bool
	memo map[int]*T
}

func (s *spiner) run(t *T, depth int) *T {
	if depth == 0 {
		return t
	}
	switch t.op {
	case OIte:
	case OLin:
		if !t.ites {
			return t
		}
	default:
		if isBoolT(t) {
			switch litImplies(s.c, s.v, t) {
			case 1:
				return tTrue
			case -1:
				return tFalse
			}
		}
		return t
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	var r *T
	if t.op == OLin {
		r = t
		for i, a := range t.args {
			if a.op == OIte {
				if b := s.run(a, depth-1); b != a {
					r = addMul(r, t.coefs[i], sub(b, a))
				}
			}
		}
	} else {
		switch litImplies(s.c, s.v, t.args[0]) {
		case 1:
			r = s.run(t.args[1], depth-1)
		case -1:
			r = s.run(t.args[2], depth-1)
		default:
			a, b := s.run(t.args[1], depth-1), s.run(t.args[2], depth-1)
			if a == t.args[1] && b == t.args[2] {
				r = t
			} else {
				r = mkIte(t.args[0], a, b)
			}
		}
	}
	s.memo[t.id] = r
	return r
}

func mkIte(c, a, b *T) *T {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	r := mkIte1(c, a, b)
	iteMemo[k] = r
	return r
}

var iteMemo = map[[3]int]*T{}

func mkIte1(c, a, b *T) *T {
	if c.op == OIte {
		if c.args[1] == tFalse && c.args[2] == tTrue {
			return mkIte(c.args[0], b, a)
		}
		return mkIte(c.args[0], mkIte(c.args[1], a, b), mkIte(c.args[2], a, b))
	}
	a = spine(a, c, true, 24)
	b = spine(b, c, false, 24)
	if a == b {
		return a
	}
	switch {
	case a.op == OBool && b.op == OBool:
		if a == tTrue {
			return c
		}
		return rawIte(c, a, b)
	case isBoolT(a) || isBoolT(b):
		// merge In-atoms over the same linear form: c ∨ d, c ∧ d
		if a == tTrue && c.op == OIn && b.op == OIn && b.args[0] == c.args[0] {
			return mkIn(c.args[0], normSet(append(append([]ival{}, c.set...), b.set...)))
		}
		if b == tFalse && c.op == OIn && a.op == OIn && a.args[0] == c.args[0] {
			return mkIn(c.args[0], intersect(c.set, a.set))
		}
		if a == tFalse && c.op == OIn && b.op == OIn && b.args[0] == c.args[0] {
			return mkIn(c.args[0], intersect(complement(c.set), b.set))
		}
		if a == tFalse && c.op == OIn {
			if d := negated(b); d != nil && d.op == OIn && d.args[0] == c.args[0] {
				return not(mkIn(c.args[0], normSet(append(append([]ival{}, c.set...), d.set...))))
			}
		}
		if b == tFalse && c.op == OIn {
			if d := negated(a); d != nil && d.op == OIn && d.args[0] == c.args[0] {
				return mkIn(c.args[0], intersect(c.set, complement(d.set)))
			}
		}
		if b == tTrue && c.op == OIn && a.op == OIn && a.args[0] == c.args[0] {
			return mkIn(c.args[0], normSet(append(complement(c.set), a.set...)))
		}
		return rawIte(c, a, b)
	case isIntT(a) && isIntT(b):
		// y xor k or y: y xor (k or 0)
		if x := xorMask(a, b); x != nil {
			return bitop("xor", b, mkIte(c, x, tZero), a.typ)
		}
		if x := xorMask(b, a); x != nil {
			return bitop("xor", a, mkIte(c, tZero, x), b.typ)
		}
		d := sub(a, b)
		if d.op == OInt {
			return addMul(b, d.z, rawIte(c, tOne, tZero))
		}
		l := toLin(d)
		g := new(big.Int).Abs(l.c)
		for _, k := range l.cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if l.cs[0].Sign() < 0 {
			g.Neg(g)
		}
		r := lin{c: new(big.Int).Quo(l.c, g), as: l.as}
		for _, k := range l.cs {
			r.cs = append(r.cs, new(big.Int).Quo(k, g))
		}
		e := fromLin(r)
		if c.op == OIn {
			// both branches agree where e is zero: leave that point out
			if k := sub(c.args[0], e); k.op == OInt {
				if mkIn(c.args[0], append(point(k.z), c.set...)) == tTrue {
					return addMul(b, g, e)
				}
				n := mkIn(c.args[0], intersect(c.set, complement(point(k.z))))
				if n == tFalse {
					return b
				}
				if n != c && (n.op != OIn || len(n.set) <= len(c.set)) {
					return addMul(b, g, mkIte(n, e, tZero))
				}
			}
		}
		return addMul(b, g, rawIte(c, e, tZero))
	case a.op == OStruct && b.op == OStruct && a.s == b.s:
		args := make([]*T, len(a.args))
		for i := range args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkStruct(a.typ, args)
	case a.op == OStruct && !isSeqT(b) && b.op != OStruct && structOf(b) != nil:
		return mkIte(c, a, expandAll(b, a.typ))
	case b.op == OStruct && !isSeqT(a) && a.op != OStruct && structOf(a) != nil:
		return mkIte(c, expandAll(a, b.typ), b)
	case a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args):
		args := make([]*T, len(a.args))
		for i := range args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		return intern(&T{op: OTuple, args: args})
	case a.op == OSliceV && b.op == OSliceV:
		return mkSliceV(mkIte(c, a.args[0], b.args[0]), mkIte(c, a.args[1], b.args[1]))
	case a.op == OSlice && b.op == OSlice && a.args[0] == b.args[0]:
		return intern(&T{op: OSlice, args: []*T{a.args[0], mkIte(c, a.args[1], b.args[1]), mkIte(c, a.args[2], b.args[2])}, typ: a.typ})
	case a.op == OBox && b.op == OBox && sameShape(a.args[0], b.args[0]):
		return mkBox(mkIte(c, a.args[0], b.args[0]))
	case isSeqT(a) || isSeqT(b):
		x, y := parts(a), parts(b)
		var pre, post []*T
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			pre = append(pre, x[0])
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			post = append([]*T{x[len(x)-1]}, post...)
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		if len(pre)+len(post) > 0 {
			mid := mkIte(c, cat(x...), cat(y...))
			return cat(append(append(pre, mid), post...)...)
		}
		return rawIte(c, a, b)
	}
	return rawIte(c, a, b)
}

func xorMask(a, b *T) *T {
	if a.op == OApp && a.s == "xor" {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return nil
}

func sameShape(a, b *T) bool { return a.op == OStruct && b.op == OStruct && a.s == b.s }

func negated(t *T) *T {
	if t.op == OIte && t.args[1] == tFalse && t.args[2] == tTrue {
		return t.args[0]
	}
	return nil
}

// ---- structs ----

func structOf(t *T) *types.Struct {
	if t.typ == nil {
		return nil
	}
	s, _ := t.typ.Underlying().(*types.Struct)
	return s
}

func mkStruct(typ types.Type, args []*T) *T {
	// eta: all fields projected from the same atom
	if len(args) > 0 && args[0].op == OApp && args[0].s == ".0" {
		x := args[0].args[0]
		same := x.typ != nil && types.Identical(x.typ, typ)
		for i, a := range args {
			if a.op != OApp || a.s != fmt.Sprintf(".%d", i) || a.args[0] != x {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	return intern(&T{op: OStruct, s: typeKey(typ), typ: typ, args: args})
}

// modelled describes library structs the analysis represents itself.
var modelled = map[string]int{
	"github.com/bamiaux/iobit.Reader": 2, // src slice, idx
	"github.com/bamiaux/iobit.Writer": 2, // dst slice, bits written
	"strings.Builder":                 1,
	"bytes.Buffer":                    1,
}

func numFields(typ types.Type) int {
	if n, ok := modelled[typeKey(typ)]; ok {
		return n
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		return s.NumFields()
	}
	return -1
}

func expand(t *T, typ types.Type) *T {
	if t.op == OStruct {
		return t
	}
	n := numFields(typ)
	if n < 0 {
		giveUp("expand %s", t)
	}
	if t.op == OIte {
		return mkIte(t.args[0], expand(t.args[1], typ), expand(t.args[2], typ))
	}
	args := make([]*T, n)
	for i := range args {
		args[i] = field(t, i, typ)
	}
	return intern(&T{op: OStruct, s: typeKey(typ), typ: typ, args: args})
}

func field(t *T, i int, typ types.Type) *T {
	switch t.op {
	case OStruct:
		return t.args[i]
	case OIte:
		return mkIte(t.args[0], field(t.args[1], i, typ), field(t.args[2], i, typ))
	}
	var ft types.Type
	if _, ok := modelled[typeKey(typ)]; !ok {
		if s, ok := typ.Underlying().(*types.Struct); ok {
			ft = s.Field(i).Type()
		}
	}
	if t.typ != nil && !types.Identical(t.typ.Underlying(), typ.Underlying()) {
		panic(fmt.Sprintf("field %d of %s : %v as %v", i, t, t.typ, typ))
	}
	return mkApp(fmt.Sprintf(".%d", i), ft, t)
}

func withField(t *T, i int, v *T, typ types.Type) *T {
	e := expandAll(t, typ)
	args := append([]*T{}, e.args...)
	args[i] = v
	return mkStruct(typ, args)
}

func mkTuple(args ...*T) *T { return intern(&T{op: OTuple, args: args}) }

func proj(t *T, i int, typ types.Type) *T {
	switch t.op {
	case OTuple:
		return t.args[i]
	case OIte:
		return mkIte(t.args[0], proj(t.args[1], i, typ), proj(t.args[2], i, typ))
	}
	return mkApp(fmt.Sprintf("proj%d", i), typ, t)
}

func mkSliceV(isnil, seq *T) *T { return intern(&T{op: OSliceV, args: []*T{isnil, seq}}) }
func mkBox(c *T) *T {
	if c.op == OApp && c.s == "deref" {
		return c.args[0]
	}
	return intern(&T{op: OBox, args: []*T{c}})
}
func mkIface(typ types.Type, v *T) *T {
	if v.op == OIte {
		return mkIte(v.args[0], mkIface(typ, v.args[1]), mkIface(typ, v.args[2]))
	}
	return intern(&T{op: OIface, typ: typ, args: []*T{v}})
}

// ---- printing ----

func (t *T) String() string {
	return t.show(6, 1500)
}

func (t *T) deep() string { return t.show(40, 1<<16) }

func (t *T) show(d, n int) string {
	var b strings.Builder
	printMax = n + 100
	t.print(&b, d)
	s := b.String()
	if len(s) > n {
		s = s[:n] + "…"
	}
	return s
}

var printMax int

func (t *T) print(b *strings.Builder, d int) {
	if b.Len() > printMax {
		return
	}
	if d == 0 {
		fmt.Fprintf(b, "…")
		return
	}
	name := ""
	switch t.op {
	case OInt:
		b.WriteString(t.z.String())
		return
	case OBool:
		fmt.Fprintf(b, "%v", t.k == 1)
		return
	case OSym:
		b.WriteString(strings.SplitN(t.s, "\x00", 2)[0])
		return
	case OBV:
		fmt.Fprintf(b, "@%d.%d", t.k, t.n)
		return
	case OLin:
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" + ")
			}
			if t.coefs[i].Cmp(bigOne) != 0 {
				fmt.Fprintf(b, "%s*", t.coefs[i])
			}
			a.print(b, d-1)
		}
		if t.z.Sign() != 0 {
			fmt.Fprintf(b, " + %s", t.z)
		}
		b.WriteByte(')')
		return
	case OIn:
		t.args[0].print(b, d-1)
		b.WriteString("∈")
		for _, v := range t.set {
			if zeq(v.lo, v.hi) && v.lo != nil {
				fmt.Fprintf(b, "{%s}", v.lo)
			} else {
				fmt.Fprintf(b, "[%v,%v]", v.lo, v.hi)
			}
		}
		return
	case OBits:
		if len(t.s)%8 == 0 {
			fmt.Fprintf(b, "%q", bitsToBytes(t.s))
		} else {
			fmt.Fprintf(b, "'%s'", t.s)
		}
		return
	case OIte:
		if n := negated(t); n != nil {
			b.WriteString("!")
			n.print(b, d)
			return
		}
		name = "if"
	case OApp:
		name = t.s
		if strings.HasPrefix(name, ".") && t.args[0].typ != nil {
			if s := structOf(t.args[0]); s != nil {
				var i int
				fmt.Sscanf(name, ".%d", &i)
				t.args[0].print(b, d)
				if i < s.NumFields() {
					b.WriteString("." + s.Field(i).Name())
				}
				return
			}
		}
		if name == "deref" {
			t.args[0].print(b, d)
			return
		}
		if name == "elem" {
			t.args[0].print(b, d-1)
			b.WriteString("[")
			t.args[1].print(b, d-1)
			b.WriteString("]")
			return
		}
	case OStruct:
		name = t.s[strings.LastIndexByte(t.s, '.')+1:]
	case OWrap:
		name = fmt.Sprintf("%s%d", t.s, t.n)
	case ODiv:
		name = fmt.Sprintf("div%s", t.z)
	case OBitF:
		name = fmt.Sprintf("bits%d", t.n)
	case OPtr:
		name = fmt.Sprintf("&c%d", t.n)
	case OIface:
		name = "iface<" + typeKey(t.typ) + ">"
	default:
		name = map[Op]string{OTuple: "tuple", OUnit: "unit", OSub: "sub", OZero: "zero", OCat: "cat", OMap: "map", OSum: "sum", OAny: "any", OFirst: "first", ORec: "rec", OSlice: "slice", OSliceV: "slicev", OBox: "box", ONil: "nil", OClosure: "closure", OMapV: "mapv"}[t.op]
	}
	b.WriteString(name)
	b.WriteByte('(')
	for i, a := range t.args {
		if i > 0 {
			b.WriteString(", ")
		}
		a.print(b, d-1)
	}
	b.WriteByte(')')
}

func bitsToBytes(s string) string {
	b := make([]byte, len(s)/8)
	for i := range b {
		for j := 0; j < 8; j++ {
			b[i] = b[i]<<1 | (s[i*8+j] - '0')
		}
	}
	return string(b)
}
func bytesToBits(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "%08b", s[i])
	}
	return b.String()
}
