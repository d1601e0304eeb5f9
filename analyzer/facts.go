package main

// Facts known on a region of the value graph, simplification of terms under
// facts, and the equality decision used by every comparison.

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

type flit struct {
	atom *T
	val  bool
}

type Facts struct {
	lits []flit
	val  map[int]bool
	lins map[int][]ival
	keys []*T
	sub  map[int]*T // eliminated atoms
	elim []*T
	memo map[int]*T
	rmem map[int][2]*big.Int
	dead bool
}

func newFacts() *Facts {
	return &Facts{val: map[int]bool{}, lins: map[int][]ival{}, sub: map[int]*T{}, memo: map[int]*T{}, rmem: map[int][2]*big.Int{}}
}

func (K *Facts) clone() *Facts {
	n := newFacts()
	if K == nil {
		return n
	}
	n.lits = append(n.lits, K.lits...)
	for k, v := range K.val {
		n.val[k] = v
	}
	for k, v := range K.lins {
		n.lins[k] = v
	}
	n.keys = append(n.keys, K.keys...)
	for k, v := range K.sub {
		n.sub[k] = v
	}
	n.elim = append(n.elim, K.elim...)
	n.dead = K.dead
	return n
}

// with adds the fact t == v.
func (K *Facts) with(t *T, v bool) *Facts {
	n := K.clone()
	n.add(t, v)
	return n
}

func (n *Facts) add(t *T, v bool) {
	t = restrict(t, n)
	n.add1(t, v)
}

func (n *Facts) add1(t *T, v bool) {
	if n.dead {
		return
	}
	switch t.op {
	case OBool:
		if (t.k == 1) != v {
			n.dead = true
		}
		return
	case OIte:
		c, a, b := t.args[0], t.args[1], t.args[2]
		switch {
		case v && b == tFalse || !v && b == tTrue: // c ∧ a
			n.add(c, true)
			n.add(a, v)
			return
		case v && a == tFalse || !v && a == tTrue: // ¬c ∧ b
			n.add(c, false)
			n.add(b, v)
			return
		}
		n.memo = map[int]*T{}
		n.val[t.id] = v
		n.lits = append(n.lits, flit{t, v})
		return
	}
	n.memo, n.rmem = map[int]*T{}, map[int][2]*big.Int{}
	n.val[t.id] = v
	n.lits = append(n.lits, flit{t, v})
	if t.op == OAny && v {
		// something matches: the first match does
		i := newIdx()
		body := subst1(t.args[1], bvar(t.k, 0, nil), i)
		f := mkFirst(t.args[0], body, i)
		if f.op == OFirst && !f.args[0].ites {
			n.add(subst1(body, i, f), true)
		}
		return
	}
	if t.op != OIn {
		return
	}
	p := t.args[0]
	s := t.set
	if !v {
		s = complement(s)
	}
	lo, hi := rng(p)
	s = intersect(s, []ival{{lo, hi}})
	if o, ok := n.lins[p.id]; ok {
		s = intersect(o, s)
	} else {
		n.keys = append(n.keys, p)
	}
	n.lins[p.id] = s
	if len(s) == 0 {
		n.dead = true
		return
	}
	for _, f := range toLin(p).as {
		// a search that stopped short stopped at a match
		if f.op == OFirst && f.args[0] != inf() {
			if lo, _ := rangeK(sub(f.args[0], f), n); lo != nil && lo.Sign() > 0 {
				n.add(subst1(f.args[1], bvar(f.k, 0, nil), f), true)
			}
		}
	}
	if n.dead {
		return
	}
	if len(s) == 1 && zeq(s[0].lo, s[0].hi) && s[0].lo != nil {
		n.eliminate(p, s[0].lo)
	}
}

// eliminate uses p == c to remove an atom with a unit coefficient.
func (n *Facts) eliminate(p *T, c *big.Int) {
	l := toLin(p)
	best := -1
	for i, a := range l.as {
		if new(big.Int).Abs(l.cs[i]).Cmp(bigOne) != 0 || a.op == OIte || isDef(a) {
			continue
		}
		rest := addMul(p, new(big.Int).Neg(l.cs[i]), a)
		if mentions(rest, a) || occursInAtoms(rest, a) {
			continue
		}
		if best < 0 || rank(a) > rank(l.as[best]) || rank(a) == rank(l.as[best]) && a.id > l.as[best].id {
			best = i
		}
	}
	if best < 0 {
		return
	}
	a := l.as[best]
	// cs*a + rest = c  =>  a = cs*(c - rest)
	rest := addMul(p, new(big.Int).Neg(l.cs[best]), a)
	v := mulZ(sub(mkZ(c), rest), l.cs[best])
	n.sub[a.id] = v
	n.elim = append(n.elim, a)
	n.memo, n.rmem = map[int]*T{}, map[int][2]*big.Int{}
	// rewrite what is already known
	for id, t := range n.sub {
		if id != a.id {
			n.sub[id] = subst1(t, a, v)
		}
	}
	old := n.lits
	n.lits, n.val, n.lins, n.keys = nil, map[int]bool{}, map[int][]ival{}, nil
	for _, f := range old {
		t := subst1(f.atom, a, v)
		if t.op == OBool {
			if (t.k == 1) != f.val {
				n.dead = true
				return
			}
			continue
		}
		n.add(t, f.val)
	}
}

func occursInAtoms(t, a *T) bool { return mentions(t, a) }

func rank(a *T) int {
	if a.op == OApp && a.s == "len" {
		return 3
	}
	if a.op == OApp && (a.s == "rd" || a.s == "elem") {
		return 2
	}
	return 1
}

// rangeK bounds an integer term under facts.
func rangeK(t *T, K *Facts) (lo, hi *big.Int) {
	if K == nil {
		return rng(t)
	}
	return K.rangeD(t, 3)
}

func (K *Facts) rangeD(t *T, depth int) (lo, hi *big.Int) {
	if t.op == OInt {
		return t.z, t.z
	}
	if r, ok := K.rmem[t.id*4+depth]; ok {
		return r[0], r[1]
	}
	lo, hi = rng(t)
	if depth > 0 {
		l, h := rng1(t, func(x *T) (*big.Int, *big.Int) { return K.rangeD(x, depth-1) }, false)
		lo, hi = tighten(lo, hi, l, h)
		if s, ok := K.sub[t.id]; ok {
			l, h = K.rangeD(s, depth-1)
			lo, hi = tighten(lo, hi, l, h)
		}
	}
	p, g, c := primitive(t)
	if p != nil {
		scale := func(l, h *big.Int) {
			if g.Sign() < 0 {
				l, h = h, l
			}
			if l != nil {
				l = new(big.Int).Add(c, new(big.Int).Mul(g, l))
			}
			if h != nil {
				h = new(big.Int).Add(c, new(big.Int).Mul(g, h))
			}
			lo, hi = tighten(lo, hi, l, h)
		}
		if s, ok := K.lins[p.id]; ok && len(s) > 0 {
			scale(s[0].lo, s[len(s)-1].hi)
		}
		if depth > 1 && t.op == OLin || depth == 3 {
			// one elimination step against every known linear fact
			for _, q := range K.keys {
				if q == p {
					continue
				}
				s := K.lins[q.id]
				if len(s) == 0 {
					continue
				}
				ql := toLin(q)
				for i, a := range ql.as {
					ct := coefOf(t, a)
					if ct.Sign() == 0 {
						continue
					}
					k, m := new(big.Int).QuoRem(ct, ql.cs[i], new(big.Int))
					if m.Sign() != 0 {
						continue
					}
					rest := addMul(t, new(big.Int).Neg(k), q)
					l, h := rng1(rest, func(x *T) (*big.Int, *big.Int) { return K.rangeD(x, 0) }, false)
					ql, qh := s[0].lo, s[len(s)-1].hi
					if k.Sign() < 0 {
						ql, qh = qh, ql
					}
					if l != nil && ql != nil {
						l = new(big.Int).Add(l, new(big.Int).Mul(k, ql))
					} else {
						l = nil
					}
					if h != nil && qh != nil {
						h = new(big.Int).Add(h, new(big.Int).Mul(k, qh))
					} else {
						h = nil
					}
					lo, hi = tighten(lo, hi, l, h)
					break
				}
			}
		}
	}
	K.rmem[t.id*4+depth] = [2]*big.Int{lo, hi}
	return
}

func coefOf(t, a *T) *big.Int {
	l := toLin(t)
	for i, x := range l.as {
		if x == a {
			return l.cs[i]
		}
	}
	return bigZero
}

func tighten(lo, hi, l, h *big.Int) (*big.Int, *big.Int) {
	if l != nil && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h != nil && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	return lo, hi
}

// decide an atom: 1 true, -1 false, 0 unknown.
func (K *Facts) decide(a *T) int {
	if K == nil {
		return 0
	}
	if v, ok := K.val[a.id]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch a.op {
	case OIn:
		p := a.args[0]
		lo, hi := rangeK(p, K)
		s := []ival{{lo, hi}}
		if k, ok := K.lins[p.id]; ok {
			s = intersect(s, k)
		}
		i := intersect(s, a.set)
		if len(i) == 0 {
			return -1
		}
		if setEq(i, normSet(s)) {
			return 1
		}
	case OApp, OAny, OSym, ORec:
		if a.op == OAny && a.args[0] != inf() {
			// a search stops short exactly if something matches
			i := newIdx()
			f := mkFirst(a.args[0], subst1(a.args[1], bvar(a.k, 0, nil), i), i)
			if lo, hi := rangeK(sub(a.args[0], f), K); f.op == OFirst && lo != nil && lo.Sign() > 0 {
				return 1
			} else if f.op == OFirst && hi != nil && hi.Sign() <= 0 {
				return -1
			}
		}
		for _, l := range K.lits {
			if r := litImplies(l.atom, l.val, a); r != 0 {
				return r
			}
			if a.op == OAny && l.atom.op == OAny {
				if !l.val && instAny(l.atom, a) {
					return -1
				}
				if l.val && instAny(a, l.atom) {
					return 1
				}
			}
		}
	}
	return 0
}

// instAny tells that when no i < n satisfies P(i), none satisfies Q(i): Q(i) is
// false wherever P(i) is.
func instAny(p, q *T) bool {
	if p.args[0] != q.args[0] || p == q {
		return p == q
	}
	k := [2]int{p.id, q.id}
	if r, ok := anyMemo[k]; ok {
		return r
	}
	anyMemo[k] = false
	i := newIdx()
	x, y := subst1(p.args[1], bvar(p.k, 0, nil), i), subst1(q.args[1], bvar(q.k, 0, nil), i)
	n := 3000
	anyMemo[k] = refutes(x, y, newFacts(), &n)
	return anyMemo[k]
}

// refutes tells that y is false wherever x is, by cases on their conditions.
func refutes(x, y *T, K *Facts, n *int) bool {
	if *n--; *n < 0 {
		return false
	}
	x, y = restrict(x, K), restrict(y, K)
	if K.dead || x == tTrue || y == tFalse {
		return true
	}
	c := pickAtom(x, y)
	if c == nil {
		if x == tFalse {
			return false
		}
		K2 := K.with(x, false)
		return K2.dead || restrict(y, K2) == tFalse
	}
	for _, v := range []bool{true, false} {
		if K2 := K.with(c, v); !K2.dead && !refutes(x, y, K2, n) {
			return false
		}
	}
	return true
}

var anyMemo = map[[2]int]bool{}

// restrict simplifies t under K.
func restrict(t *T, K *Facts) *T {
	if K == nil || len(K.lits) == 0 && len(K.sub) == 0 {
		return t
	}
	if len(t.args) == 0 {
		if s, ok := K.sub[t.id]; ok {
			return s
		}
		if isBoolT(t) {
			switch K.decide(t) {
			case 1:
				return tTrue
			case -1:
				return tFalse
			}
		}
		return t
	}
	if r, ok := K.memo[t.id]; ok {
		return r
	}
	if s, ok := K.sub[t.id]; ok {
		r := restrict(s, K)
		K.memo[t.id] = r
		return r
	}
	if isDef(t) {
		r := restrict(t.args[0], K)
		if r.ites {
			r = mkDef(r)
		}
		K.memo[t.id] = r
		return r
	}
	r := t
	if isBoolT(t) && t.op != OIte {
		switch K.decide(t) {
		case 1:
			r = tTrue
		case -1:
			r = tFalse
		}
	}
	if r == t {
		if t.op == OIte {
			c := restrict(t.args[0], K)
			switch c {
			case tTrue:
				r = restrict(t.args[1], K)
			case tFalse:
				r = restrict(t.args[2], K)
			default:
				if v, ok := K.val[t.id]; ok {
					r = mkB(v)
				} else {
					r = mkIte(c, restrict(t.args[1], K), restrict(t.args[2], K))
				}
			}
		} else {
			r = rebuildK(t, func(x *T) *T { return restrict(x, K) }, K)
			if r == t && t.op == OApp && t.s == "elem" && t.args[0].op == OCat {
				// the facts may tell which part it is in
				if e := elemK(t.args[0], t.args[1], t.typ, K); e != t {
					r = restrict(e, K)
				}
			}
			if r.op == OSum || r.op == OMap {
				r = restrictEach(r, K)
			}
			if r == t && t.op == OSub && t.args[1] == tZero && t.args[0].op != OIte && restrict(slen(t.args[0]), K) == t.args[2] {
				// all of it
				r = restrict(t.args[0], K)
			}
			if r == t && t.op == OSub && t.args[0].op == OCat && K.none() {
				if s := subSeqK(t.args[0], t.args[1], t.args[2], K); s != t {
					r = restrict(s, K)
				}
			}
		}
		if r != t && isBoolT(r) && r.op != OIte && r.op != OBool {
			switch K.decide(r) {
			case 1:
				r = tTrue
			case -1:
				r = tFalse
			}
		}
	}
	K.memo[t.id] = r
	return r
}

// none tells whether something is known of every element of a sequence.
func (K *Facts) none() bool {
	for _, l := range K.lits {
		if l.atom.op == OAny && !l.val {
			return true
		}
	}
	return false
}

// restrictEach simplifies the body of a sum or sequence where the facts rule
// something out for every element.
func restrictEach(t *T, K *Facts) *T {
	var K2 *Facts
	var o opened
	for _, l := range K.lits {
		if l.atom.op != OAny || l.val || l.atom.args[0] != t.args[0] {
			continue
		}
		if K2 == nil {
			o = openB(t)
			K2 = K.with(ltI(o.sym, t.args[0]), true)
		}
		K2 = K2.with(subst1(l.atom.args[1], bvar(l.atom.k, 0, nil), o.sym), false)
	}
	if K2 == nil || K2.dead {
		return t
	}
	if b := restrict(o.body, K2); b != o.body {
		return rebind(t.op, t.args[0], b, o.sym)
	}
	return t
}

// deepRestrict simplifies gated terms path by path, re-evaluating gated facts
// on each path.
func deepRestrict(t *T, K *Facts, n *int) *T {
	if !t.ites || *n < 0 {
		return t
	}
	gated := false
	for _, l := range K.lits {
		if l.atom.op == OIte {
			gated = true
		}
	}
	if !gated {
		return t
	}
	switch t.op {
	case OIte:
		*n--
		c := t.args[0]
		b := [2]*T{}
		for i, v := range []bool{true, false} {
			k := K.with(c, v)
			for _, l := range K.lits {
				if l.atom.op == OIte && !k.dead {
					if a := restrict(assume1(l.atom, c, v), k); a != l.atom {
						k.add(a, l.val)
					}
				}
			}
			if !k.dead {
				b[i] = deepRestrict(restrict(t.args[1+i], k), k, n)
			}
		}
		if b[0] == nil {
			b[0] = b[1]
		}
		if b[1] == nil {
			b[1] = b[0]
		}
		if b[0] == nil {
			return t
		}
		return mkIte(c, b[0], b[1])
	case OCat:
		var ps []*T
		for _, a := range t.args {
			ps = append(ps, deepRestrict(a, K, n))
		}
		return cat(ps...)
	}
	return t
}

// ---- equality ----

type eqCtx struct {
	steps   int
	max     int
	cases   int
	closing bool // within closed
	diff    string
	memo    map[[2]int]bool
	idxK    []*T
}

func newEq() *eqCtx { return &eqCtx{max: 400000} }

func (e *eqCtx) fail(K *Facts, f string, a ...any) bool {
	if e.diff == "" {
		var c []string
		if K != nil {
			for _, l := range K.lits {
				s := l.atom.String()
				if len(s) > 160 {
					s = strings.ToValidUTF8(s[:160], "") + "…"
				}
				if !l.val {
					s = "!(" + s + ")"
				}
				c = append(c, s)
			}
			for id, t := range K.sub {
				_ = id
				_ = t
			}
		}
		if debugEq && K != nil {
			fmt.Fprintf(os.Stderr, "FAIL "+f+"\n", a...)
			for i, l := range K.lits {
				fmt.Fprintf(os.Stderr, "  LIT %v %s\n", l.val, l.atom.show(14, 2500))
				for _, m := range K.lits[:i] {
					if l.atom.defs && m.atom.op == l.atom.op && m.val != l.val {
						fmt.Fprintf(os.Stderr, "  DIFF %s\n", firstDiff(l.atom, m.atom))
					}
				}
			}
		}
		e.diff = fmt.Sprintf(f, a...)
		if len(c) > 0 {
			e.diff += "  when " + strings.Join(c, " and ")
		}
		if len(e.diff) > 3000 {
			e.diff = strings.ToValidUTF8(e.diff[:3000], "") + "…"
		}
	}
	return false
}

// pick chooses the atom to split on: an innermost one, earliest created.
func pickAtom(ts ...*T) *T {
	var best *T
	seen := map[int]bool{}
	var f func(t *T)
	f = func(t *T) {
		if !t.ites || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OIte {
			c := t.args[0]
			if c.ites {
				// its own conditions first; those under a binder cannot be split on
				old := best
				best = nil
				f(c)
				if best != nil {
					c = best
				}
				best = old
			}
			if best == nil || c.id < best.id {
				best = c
			}
		}
		for i, a := range t.args {
			switch t.op {
			case OMap, OSum, OAny, OFirst:
				if i == 1 {
					continue
				}
			case ORec:
				if i > t.n {
					continue
				}
			}
			f(a)
		}
	}
	for _, t := range ts {
		f(t)
	}
	return best
}

// pickBare finds a boolean term used as a value (not under an Ite).
func (e *eqCtx) eq(a, b *T, K *Facts) bool {
	if a == b || K != nil && K.dead {
		return true
	}
	e.steps++
	if e.steps > e.max {
		giveUp("equality budget exhausted comparing %s with %s", a, b)
	}
	a, b = restrict(a, K), restrict(b, K)
	if a == b {
		return true
	}
	// componentwise
	switch {
	case a.op == OStruct && b.op == OStruct && a.s == b.s:
		for i := range a.args {
			if !e.eq(a.args[i], b.args[i], K) {
				e.diff = fieldName(a, i) + ": " + strings.TrimPrefix(e.diff, ": ")
				return false
			}
		}
		return true
	case a.op == OStruct && structOf(b) != nil:
		return e.eq(a, expandAll(b, a.typ), K)
	case b.op == OStruct && structOf(a) != nil:
		return e.eq(expandAll(a, b.typ), b, K)
	case a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args):
		for i := range a.args {
			if !e.eq(a.args[i], b.args[i], K) {
				return false
			}
		}
		return true
	}
	seq := isSeqT(a) || isSeqT(b)
	if seq {
		x, y := parts(a), parts(b)
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		a, b = cat(x...), cat(y...)
		if a == b {
			return true
		}
	}
	if a.ites || b.ites {
		var c *T
		if seq {
			// split on the first part that differs
			x, y := parts(a), parts(b)
			if len(x) > 0 && len(y) > 0 {
				c = pickAtom(x[0], y[0])
			}
		}
		if c == nil {
			c = pickAtom(a, b)
		}
		if c != nil {
			e.cases++
			for _, v := range []bool{true, false} {
				K2 := K.with(c, v)
				if K2.dead {
					continue
				}
				if debugEq && e.steps < 4000 {
					fmt.Fprintf(os.Stderr, "%*ssplit %v #%d %s\n A=%s\n B=%s\n", len(K.lits), "", v, c.id, c, a.show(12, 2000), b.show(12, 2000))
				}
				if !e.eq(a, b, K2) {
					return false
				}
			}
			return true
		}
	}
	if isBoolT(a) || isBoolT(b) {
		// differing literals: split on each
		for _, l := range []*T{a, b} {
			if l.op != OBool {
				if l.op == OAny || a.op == OAny || b.op == OAny {
					return e.same(a, b, K)
				}
				for _, v := range []bool{true, false} {
					K2 := K.with(l, v)
					if !K2.dead && !e.eq(a, b, K2) {
						return false
					}
				}
				return true
			}
		}
		return e.open(a, b, K)
	}
	if seq {
		return e.try(func() bool { return e.eqSeq(parts(a), parts(b), K) }) || e.open(a, b, K)
	}
	if isIntT(a) || isIntT(b) {
		d := sub(a, b)
		if d.ites {
			return e.eq(d, tZero, K)
		}
		d = restrict(d, K)
		if d == tZero {
			return true
		}
		lo, hi := rangeK(d, K)
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return true
		}
		if a.op == b.op && a.op != OLin && a.op != OInt && e.try(func() bool { return e.same(a, b, K) }) {
			return true
		}
		if e.try(func() bool { return e.matchLin(d, K) }) {
			return true
		}
		return e.open(a, b, K)
	}
	if e.try(func() bool { return e.same(a, b, K) }) {
		return true
	}
	return e.open(a, b, K)
}

// open settles a comparison by cases on a condition behind a named value.
func (e *eqCtx) open(a, b *T, K *Facts) bool {
	ts := []*T{a, b}
	if K != nil {
		for _, l := range K.lits {
			ts = append(ts, l.atom)
		}
		for _, a := range K.elim {
			ts = append(ts, K.sub[a.id])
		}
	}
	c := pickDef(ts...)
	if c == nil {
		if !e.closing && K != nil {
			e.closing = true
			n := 200
			ok := e.closed(a, b, K, &n)
			e.closing = false
			if ok {
				return true
			}
		}
		if a.op != OLin { // there is nothing below a sum that eq has not compared
			e.same(a, b, K)
		}
		return e.fail(K, "%s differs from %s", a, b)
	}
	e.cases++
	for _, v := range []bool{true, false} {
		K2 := K.refine(c, v)
		if K2.dead {
			continue
		}
		if debugEq && e.steps < 1000 {
			fmt.Fprintf(os.Stderr, "%*sopen %v #%d %s\n A=%s\n B=%s\n", len(K.lits), "", v, c.id, c, a.show(12, 2000), b.show(12, 2000))
		}
		base := newFacts().with(c, v)
		if !e.eq(openUnder(a, base), openUnder(b, base), K2) {
			return false
		}
	}
	return true
}

// settle re-evaluates conditional facts under the plain ones: a conjunction
// that was assumed as a whole may have become impossible on this path.
func (K *Facts) settle() *Facts {
	n := newFacts()
	if K == nil {
		return n
	}
	var gated []flit
	for _, l := range K.lits {
		if l.atom.op == OIte {
			gated = append(gated, l)
		} else {
			n.add(l.atom, l.val)
		}
	}
	for _, a := range K.elim {
		if !n.dead {
			n.add(eqI(a, K.sub[a.id]), true)
		}
	}
	for again := true; again && !n.dead; {
		again = false
		for i, l := range gated {
			if r := restrict(l.atom, n); r != l.atom && !n.dead {
				gated[i].atom, again = r, true
				n.add(r, l.val)
			}
		}
	}
	for _, l := range gated {
		if l.atom.op == OIte && !n.dead {
			n.add(l.atom, l.val)
		}
	}
	return n
}

// closed decides a comparison by cases on the conditions of the facts that are
// conditional: on each of them the facts contradict each other or imply equality.
func (e *eqCtx) closed(a, b *T, K *Facts, budget *int) bool {
	n := K.settle()
	for _, l := range n.lits {
		if n.dead {
			break
		}
		if r := restrict(l.atom, n); l.atom.op != OIte && r != l.atom && r.op != OBool {
			n.add(r, l.val)
		} else if r.op == OBool && (r == tTrue) != l.val {
			return true
		}
	}
	// the first match is a match where something is known to match
	for _, f := range firstsIn(n.lits) {
		if n.dead {
			return true
		}
		b, i := bvar(f.k, 0, nil), newIdx()
		if any := mkAny(f.args[0], subst1(f.args[1], b, i), i); any == tTrue || any.op == OAny && n.decide(any) == 1 {
			if r := restrict(subst1(f.args[1], b, f), n); r != tTrue {
				n.add(r, true)
			}
		}
	}
	if n.dead {
		return true
	}
	if e.try(func() bool { return e.eq(a, b, n) }) {
		return true
	}
	if *budget--; *budget < 0 {
		return false
	}
	for _, l := range n.lits {
		if l.atom.op != OIte {
			continue
		}
		c := pickAtom(l.atom)
		if c == nil {
			continue
		}
		return e.closed(a, b, n.with(c, true), budget) && e.closed(a, b, n.with(c, false), budget)
	}
	return false
}

// firstsIn lists the bounded searches that the facts mention.
func firstsIn(lits []flit) []*T {
	var out []*T
	seen := map[int]bool{}
	var f func(t *T)
	f = func(t *T) {
		if seen[t.id] || t.op == ORec {
			return
		}
		seen[t.id] = true
		if t.op == OFirst && t.args[0] != inf() && !t.args[0].ites {
			out = append(out, t)
		}
		switch t.op {
		case OMap, OSum, OAny, OFirst:
			f(t.args[0])
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, l := range lits {
		f(l.atom)
	}
	return out
}

// refine adds a fact and re-evaluates the others under it.
func (K *Facts) refine(c *T, v bool) *Facts {
	base := newFacts().with(c, v)
	n := newFacts()
	if K != nil {
		for _, l := range K.lits {
			if !l.atom.defs {
				n.add(l.atom, l.val)
			}
		}
	}
	n.add(c, v)
	if n.dead || K == nil {
		return n
	}
	for _, a := range K.elim {
		w := K.sub[a.id]
		if w.defs {
			w = openUnder(w, base)
		}
		n.add(eqI(a, w), true)
		if n.dead {
			return n
		}
	}
	for _, l := range K.lits {
		if l.atom.defs {
			n.add(restrict(openUnder(l.atom, base), n), l.val)
			if n.dead {
				return n
			}
		}
	}
	return n
}

// openUnder simplifies the definitions within t under K.
func openUnder(t *T, K *Facts) *T {
	memo := map[int]*T{}
	var f func(*T) *T
	f = func(t *T) *T {
		if !t.defs {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *T
		if isDef(t) {
			r = mkDef(restrict(f(t.args[0]), K))
		} else {
			r = rebuild(t, f)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

// try runs a comparison whose failure is not yet final.
func (e *eqCtx) try(f func() bool) bool {
	old := e.diff
	if f() {
		return true
	}
	e.diff = old
	return false
}

// matchLin proves a linear form zero by pairing off equal atoms.
func (e *eqCtx) matchLin(d *T, K *Facts) bool {
	if d.op != OLin || d.z.Sign() != 0 || len(d.args)%2 != 0 || len(d.args) > 12 {
		return false
	}
	used := make([]bool, len(d.args))
	for i := range d.args {
		if used[i] {
			continue
		}
		ok := false
		for j := i + 1; j < len(d.args); j++ {
			if used[j] || new(big.Int).Add(d.coefs[i], d.coefs[j]).Sign() != 0 || d.args[i].op != d.args[j].op {
				continue
			}
			if e.try(func() bool { return e.same(d.args[i], d.args[j], K) }) {
				used[i], used[j], ok = true, true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func fieldName(t *T, i int) string {
	if s := structOf(t); s != nil && i < s.NumFields() {
		return "." + s.Field(i).Name()
	}
	return fmt.Sprintf(".%d", i)
}

func (e *eqCtx) same(a, b *T, K *Facts) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.s != b.s || a.n != b.n || len(a.args) != len(b.args) {
		return e.fail(K, "%s differs from %s", a, b)
	}
	switch a.op {
	case OInt, OBool, OSym, OBV, OBits, OClosure:
		return e.fail(K, "%s differs from %s", a, b)
	case OIn:
		if !setEq(a.set, b.set) {
			return e.fail(K, "%s differs from %s", a, b)
		}
	case OPtr:
		return e.fail(K, "%s differs from %s", a, b)
	case OIface:
		if typeKey(a.typ) != typeKey(b.typ) {
			return e.fail(K, "dynamic type %s differs from %s", typeKey(a.typ), typeKey(b.typ))
		}
	case OMap, OSum, OAny, OFirst:
		if !e.eq(a.args[0], b.args[0], K) {
			return false
		}
		sym := newIdx()
		x := subst1(a.args[1], bvar(a.k, 0, nil), sym)
		y := subst1(b.args[1], bvar(b.k, 0, nil), sym)
		K2 := K.clone()
		if a.args[0] != inf() {
			K2.add(ltI(sym, a.args[0]), true)
		}
		if K != nil {
			// what no element does, this one does not
			for _, l := range K.lits {
				if l.atom.op == OAny && !l.val && l.atom.args[0] == a.args[0] && a.op != OAny {
					K2.add(subst1(l.atom.args[1], bvar(l.atom.k, 0, nil), sym), false)
				}
			}
			if K2.dead {
				return true
			}
		}
		return e.eq(x, y, K2)
	case ORec:
		if !e.eq(a.args[0], b.args[0], K) {
			return false
		}
		d, d2 := openRec(a), openRec(b)
		m := map[*T]*T{d2.idx: d.idx}
		for j := range d.vars {
			m[d2.vars[j]] = d.vars[j]
		}
		for j := range d.vars {
			if !e.eq(d.inits[j], d2.inits[j], K) {
				return false
			}
		}
		for j := range d.vars {
			if !e.eq(d.steps[j], substN(d2.steps[j], m), K) {
				return false
			}
		}
		return true
	case ODiv:
		if a.z.Cmp(b.z) != 0 {
			return e.fail(K, "%s differs from %s", a, b)
		}
	case OLin:
		return e.eq(a, b, K)
	}
	for i := range a.args {
		if !e.eq(a.args[i], b.args[i], K) {
			return false
		}
	}
	return true
}

func (e *eqCtx) eqSeq(x, y []*T, K *Facts) bool {
	for {
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		if len(x) == 0 && len(y) == 0 {
			return true
		}
		if len(x) == 0 || len(y) == 0 {
			r := cat(append(append([]*T{}, x...), y...)...)
			n := restrict(slen(r), K)
			if n == tZero {
				return true
			}
			lo, hi := rangeK(n, K)
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return true
			}
			if n.ites {
				return e.eq(n, tZero, K)
			}
			return e.fail(K, "only one side has %s", r)
		}
		a, b := x[0], y[0]
		if a.ites || b.ites {
			return e.eq(cat(x...), cat(y...), K)
		}
		wa, wb := bitWidth(a), bitWidth(b)
		switch {
		case a.op == OBits && b.op == OBits:
			n := min(len(a.s), len(b.s))
			if a.s[:n] != b.s[:n] {
				return e.fail(K, "constant %s differs from %s", a, b)
			}
			x = splitHead(x, n)
			y = splitHead(y, n)
			x, y = x[1:], y[1:]
		case wa > 0 && wb > 0:
			n := min(wa, wb)
			x, y = splitHead(x, n), splitHead(y, n)
			va, vb := fieldVal(x[0]), fieldVal(y[0])
			if !e.eq(mkWrap(va, n, false), mkWrap(vb, n, false), K) {
				return false
			}
			x, y = x[1:], y[1:]
		case wa > 0 && b.op == OSub && b.args[2].op == OInt:
			y = expandSub(y)
		case wb > 0 && a.op == OSub && a.args[2].op == OInt:
			x = expandSub(x)
		case a.op == OSub && b.op == OSub:
			if !e.eq(a.args[0], b.args[0], K) || !e.eq(a.args[1], b.args[1], K) || !e.eq(a.args[2], b.args[2], K) {
				return false
			}
			x, y = x[1:], y[1:]
		case a.op == OSub && slenZero(a, K):
			x = x[1:]
		case b.op == OSub && slenZero(b, K):
			y = y[1:]
		case a.op == OSub && e.whole(a, K):
			x = append(append([]*T{}, parts(a.args[0])...), x[1:]...)
		case b.op == OSub && e.whole(b, K):
			y = append(append([]*T{}, parts(b.args[0])...), y[1:]...)
		default:
			if slenZero(a, K) {
				x = x[1:]
				continue
			}
			if slenZero(b, K) {
				y = y[1:]
				continue
			}
			if !e.same(a, b, K) {
				return false
			}
			x, y = x[1:], y[1:]
		}
	}
}

// whole tells that a subsequence is all of its sequence.
func (e *eqCtx) whole(t *T, K *Facts) bool {
	return restrict(t.args[1], K) == tZero && e.try(func() bool { return e.eq(t.args[2], slen(t.args[0]), K) })
}

func slenZero(t *T, K *Facts) bool {
	if t.op == OBits || t.op == OBitF || t.op == OUnit {
		return false
	}
	n := restrict(slen(t), K)
	if n == tZero {
		return true
	}
	_, hi := rangeK(n, K)
	return hi != nil && hi.Sign() <= 0
}

func bitWidth(t *T) int {
	switch t.op {
	case OBits:
		return len(t.s)
	case OBitF:
		return t.n
	}
	return 0
}

func splitHead(x []*T, n int) []*T {
	h := x[0]
	w := bitWidth(h)
	if w == n {
		return x
	}
	var a, b *T
	if h.op == OBits {
		a, b = bits(h.s[:n]), bits(h.s[n:])
	} else {
		a = bitF(mkDiv(h.args[0], new(big.Int).Lsh(bigOne, uint(w-n))), n)
		b = bitF(h.args[0], w-n)
	}
	return append([]*T{a, b}, x[1:]...)
}

func fieldVal(t *T) *T {
	if t.op == OBits {
		z, _ := new(big.Int).SetString(t.s, 2)
		return mkZ(z)
	}
	return t.args[0]
}

func expandSub(x []*T) []*T {
	h := x[0]
	var o []*T
	for i := int64(0); i < h.args[2].i64(); i++ {
		e := elem(h, mkI(i), nil)
		if h.bytes {
			o = append(o, bitF(e, 8))
		} else {
			o = append(o, unit(e, nil))
		}
	}
	return append(o, x[1:]...)
}

var debugEq = os.Getenv("DEBUGEQ") != ""
