package main

// Sequences (strings, byte buffers, bit streams, slices of values), bounded
// quantifier terms over loop indices, and substitution.

import (
	"go/types"
	"math/big"
	"strings"
)

func parts(t *T) []*T {
	switch t.op {
	case OCat:
		return t.args
	case OBits:
		if t.s == "" {
			return nil
		}
	}
	return []*T{t}
}

func bits(s string) *T     { return intern(&T{op: OBits, s: s}) }
func constStr(s string) *T { return bits(bytesToBits(s)) }

func bitF(v *T, w int) *T {
	if w == 0 {
		return tEmpty
	}
	v = lowBits(v, w)
	if v.op == OInt {
		z := new(big.Int).Mod(v.z, new(big.Int).Lsh(bigOne, uint(w)))
		s := z.Text(2)
		return bits(strings.Repeat("0", w-len(s)) + s)
	}
	return intern(&T{op: OBitF, n: w, args: []*T{v}})
}

// lowBits picks the canonical representative of v modulo 2^w.
func lowBits(v *T, w int) *T {
	r := mkWrap(v, w, false)
	for r.op == OWrap && r.n >= w {
		r = r.args[0]
	}
	return r
}

func cat(ps ...*T) *T {
	var o []*T
	for _, p := range ps {
		for _, q := range parts(p) {
			if n := len(o); n > 0 {
				l := o[n-1]
				if l.op == OBits && q.op == OBits {
					o[n-1] = bits(l.s + q.s)
					continue
				}
				if l.op == OSub && q.op == OSub && l.args[0] == q.args[0] && add(l.args[1], l.args[2]) == q.args[1] {
					m := subSeq(l.args[0], l.args[1], add(l.args[2], q.args[2]))
					o = append(o[:n-1], parts(m)...)
					continue
				}
			}
			o = append(o, q)
		}
	}
	switch len(o) {
	case 0:
		return tEmpty
	case 1:
		return o[0]
	}
	return intern(&T{op: OCat, args: o})
}

func unit(v *T, elem types.Type) *T {
	if elem != nil {
		if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return bitF(v, 8)
		}
	}
	return intern(&T{op: OUnit, args: []*T{v}})
}

// slen is the number of elements (bytes for byte sequences).
func slen(t *T) *T {
	if t.bytes || t == tEmpty {
		return mkDiv(blen(t), big.NewInt(8))
	}
	switch t.op {
	case OUnit:
		return tOne
	case OSub:
		return t.args[2]
	case OZero:
		return t.args[0]
	case OCat:
		n := tZero
		for _, p := range t.args {
			n = add(n, slen(p))
		}
		return n
	case OMap:
		s := openB(t)
		return mkSum(t.args[0], slen(s.body), s.sym)
	case OIte:
		return mkIte(t.args[0], slen(t.args[1]), slen(t.args[2]))
	}
	return seqAtomLen(t)
}

func seqAtomLen(t *T) *T {
	if l := symLen[t.id]; l != nil {
		return l
	}
	// lemma decided by C08: an encoding is exactly as long as declared
	if t.op == OApp && t.s == "seq" {
		x := t.args[0]
		if x.op == OApp && x.s == "proj0" && x.args[0].op == OApp {
			if l := encodeLen(x.args[0]); l != nil {
				return l
			}
		}
	}
	if t.op == OApp && lenOf[t.s] != nil {
		if l := lenOf[t.s](t); l != nil {
			return l
		}
	}
	return mkApp("len", nil, t)
}

var lenOf = map[string]func(*T) *T{}
var encodeLen = func(*T) *T { return nil }

// blen is the length in bits of a byte or bit sequence.
func blen(t *T) *T {
	switch t.op {
	case OBits:
		return mkI(int64(len(t.s)))
	case OBitF:
		return mkI(int64(t.n))
	case OSub:
		return mulC(t.args[2], 8)
	case OZero:
		return mulC(t.args[0], 8)
	case OCat:
		n := tZero
		for _, p := range t.args {
			n = add(n, blen(p))
		}
		return n
	case OMap:
		s := openB(t)
		return mkSum(t.args[0], blen(s.body), s.sym)
	case OIte:
		return mkIte(t.args[0], blen(t.args[1]), blen(t.args[2]))
	}
	return mulC(seqAtomLen(t), 8)
}

func zeroSeq(n, elem *T, isBytes bool) *T {
	if n == tZero {
		return tEmpty
	}
	if isBytes {
		if n.op == OInt && n.z.IsInt64() && n.z.Int64() >= 0 && n.z.Int64() <= 4096 {
			return bits(strings.Repeat("0", int(n.z.Int64())*8))
		}
		return intern(&T{op: OZero, n: 8, args: []*T{n, tZero}})
	}
	return intern(&T{op: OZero, args: []*T{n, elem}})
}

// signOf compares a lin with zero under facts: -1, 0, 1 or 2 (unknown).
// ge0: 3, le0: 4.
func isZero(t *T) bool { return t == tZero }

// subSeq is seq[off : off+n].
func subSeq(s, off, n *T) *T { return subSeqK(s, off, n, nil) }

func subSeqK(s, off, n *T, K *Facts) *T {
	if n == tZero {
		return tEmpty
	}
	if off == tZero && slen(s) == n {
		return s
	}
	if off == tZero && K != nil && s.op == OCat && restrict(slen(s), K) == n {
		return s
	}
	switch s.op {
	case OSub:
		return subSeqK(s.args[0], add(s.args[1], off), n, K)
	case OZero:
		return zeroSeq(n, s.args[1], s.bytes)
	case OBits:
		if off.op == OInt && n.op == OInt {
			a, b := off.i64()*8, n.i64()*8
			if a >= 0 && b >= 0 && a+b <= int64(len(s.s)) {
				return bits(s.s[a : a+b])
			}
		}
	case OMap:
		if K != nil || true {
			// unit bodies: shift the index
			o := openB(s)
			if slen(o.body) == tOne {
				if off == tZero {
					return mkMap(n, o.body, o.sym)
				}
				return mkMap(n, subst1(o.body, o.sym, add(o.sym, off)), o.sym)
			}
		}
	case OCat:
		// positions are in bits for bytes: parts need not be byte-aligned
		ps := s.args
		at, length, unit := tZero, slen, int64(1)
		if s.bytes {
			length, unit = blen, 8
		}
		if K != nil && len(K.lits) > 0 {
			plain := length
			length = func(t *T) *T { return restrict(plain(t), K) }
		}
		// in is a position within a part that can be cut, in elements
		in := func(p, d *T) *T {
			if p.op != OSub && p.op != OZero && p.op != OBits || !nonneg(d, K) || !nonneg(sub(length(p), d), K) {
				return nil
			}
			if r, ok := modOf(d, unit); !ok || r.Sign() != 0 {
				return nil
			}
			return exactDiv(d, unit)
		}
		start, end := mulC(off, unit), mulC(add(off, n), unit)
		for i := 0; i <= len(ps); i++ {
			if at == start {
				x := at
				for j := i; j <= len(ps); j++ {
					if x == end {
						return cat(ps[i:j]...)
					}
					if j == len(ps) {
						break
					}
					if rest := in(ps[j], sub(end, x)); rest != nil {
						return cat(append(append([]*T{}, ps[i:j]...), subSeqK(ps[j], tZero, rest, K))...)
					}
					x = add(x, length(ps[j]))
				}
				break
			}
			if i == len(ps) {
				break
			}
			l := length(ps[i])
			if d := in(ps[i], sub(start, at)); d != nil {
				if lp, ok := modOf(l, unit); ok && lp.Sign() == 0 {
					head := sub(exactDiv(l, unit), d)
					if nonneg(sub(head, n), K) {
						return subSeqK(ps[i], d, n, K)
					}
					if nonneg(sub(n, head), K) {
						return cat(subSeqK(ps[i], d, head, K), subSeqK(cat(ps[i+1:]...), tZero, sub(n, head), K))
					}
				}
			}
			at = add(at, l)
		}
	case OIte:
		return mkIte(s.args[0], subSeqK(s.args[1], off, n, K), subSeqK(s.args[2], off, n, K))
	}
	return intern(&T{op: OSub, args: []*T{s, off, n}, typ: s.typ})
}

func nonneg(t *T, K *Facts) bool {
	lo, _ := rangeK(t, K)
	return lo != nil && lo.Sign() >= 0
}

// elem is seq[i].
func elem(s, i *T, typ types.Type) *T { return elemK(s, i, typ, nil) }

func elemK(s, i *T, typ types.Type, K *Facts) *T {
	switch s.op {
	case OSub:
		return elemK(s.args[0], add(s.args[1], i), typ, K)
	case OUnit:
		if i == tZero {
			return s.args[0]
		}
	case OBitF:
		if i == tZero && s.n == 8 {
			return mkWrap(s.args[0], 8, false)
		}
	case OZero:
		return s.args[1]
	case OBits:
		if i.op == OInt && i.z.IsInt64() {
			k := i.i64() * 8
			if k >= 0 && k+8 <= int64(len(s.s)) {
				z, _ := new(big.Int).SetString(s.s[k:k+8], 2)
				return mkZ(z)
			}
		}
	case OMap:
		o := openB(s)
		if slen(o.body) == tOne {
			return elemK(subst1(o.body, o.sym, i), tZero, typ, K)
		}
	case OCat:
		at := tZero
		for j, p := range s.args {
			if p.bytes && (p.op == OBits || p.op == OBitF) {
				if w := blen(p).i64(); w%8 != 0 {
					break
				}
			}
			d := sub(i, at)
			l := slen(p)
			// an index past all the others is one of the last part
			if nonneg(d, K) && (j == len(s.args)-1 && p.op != OBits && p.op != OBitF || nonneg(sub(sub(l, d), tOne), K)) {
				if p.op == OBitF && p.n > 8 {
					k := int(d.i64())
					return mkWrap(mkDiv(p.args[0], new(big.Int).Lsh(bigOne, uint(p.n-8*k-8))), 8, false)
				}
				return elemK(p, d, typ, K)
			}
			if !nonneg(sub(d, l), K) {
				break
			}
			at = add(at, l)
		}
	case OIte:
		return mkIte(s.args[0], elemK(s.args[1], i, typ, K), elemK(s.args[2], i, typ, K))
	}
	if s.bytes {
		if r := bitsAt(s, mulC(i, 8), 8, K); r != nil {
			return r
		}
		typ = types.Typ[types.Uint8]
	}
	if s.op == OApp && s.s == "store" {
		if d := sub(i, s.args[1]); d == tZero {
			return s.args[2]
		} else if d.op == OInt {
			return elemK(s.args[0], i, typ, K)
		}
	}
	return mkApp("elem", typ, s, i)
}

// bitsAt reads w bits at a bit position that falls into bit fields.
func bitsAt(s, pos *T, w int, K *Facts) *T {
	if s.op != OCat {
		return nil
	}
	at := tZero
	for k, p := range s.args {
		d := sub(pos, at)
		l := blen(p)
		if d.op == OInt && d.z.Sign() >= 0 {
			r := tZero
			o := int(d.i64())
			for _, p := range s.args[k:] {
				n := bitWidth(p)
				if n == 0 {
					return nil
				}
				if o >= n {
					o -= n
					continue
				}
				take := min(n-o, w)
				v := mkWrap(mkDiv(fieldVal(p), new(big.Int).Lsh(bigOne, uint(n-o-take))), take, false)
				w -= take
				o = 0
				r = addMul(r, new(big.Int).Lsh(bigOne, uint(w)), v)
				if w == 0 {
					return r
				}
			}
			return nil
		}
		if !nonneg(sub(d, l), K) {
			return nil
		}
		at = add(at, l)
	}
	return nil
}

// storeSeq is seq with element i replaced.
func storeSeqK(s, i, v *T, et types.Type, K *Facts) *T {
	u := unit(v, et)
	n := slen(s)
	if s.op == OApp && s.s == "store" && s.args[1] == i {
		return storeSeqK(s.args[0], i, v, et, K)
	}
	switch s.op {
	case OIte:
		return mkIte(s.args[0], storeSeqK(s.args[1], i, v, et, K), storeSeqK(s.args[2], i, v, et, K))
	case OUnit:
		if i == tZero {
			return u
		}
	case OCat:
		at := tZero
		for k, p := range s.args {
			d := sub(i, at)
			l := slen(p)
			if nonneg(d, K) && nonneg(sub(sub(l, d), tOne), K) {
				o := append([]*T{}, s.args[:k]...)
				o = append(o, storeSeqK(p, d, v, et, K))
				return cat(append(o, s.args[k+1:]...)...)
			}
			if !nonneg(sub(d, l), K) {
				break
			}
			at = add(at, l)
		}
	}
	if n.op == OInt && i.op == OInt || nonneg(i, K) && nonneg(sub(sub(n, i), tOne), K) {
		return cat(subSeqK(s, tZero, i, K), u, subSeqK(s, add(i, tOne), sub(sub(n, i), tOne), K))
	}
	return intern(&T{op: OApp, s: "store", typ: s.typ, args: []*T{s, i, v}})
}

// mkRd reads w bits at bit position pos.
func mkRd(src, pos *T, w int) *T {
	if w <= 0 {
		return tZero
	}
	for src.op == OSub {
		pos = add(pos, mulC(src.args[1], 8))
		src = src.args[0]
	}
	if r := bitsAt(src, pos, w, nil); r != nil {
		return r
	}
	l := toLin(pos)
	m := int64(-1)
	eight := big.NewInt(8)
	ok := true
	for _, c := range l.cs {
		if new(big.Int).Mod(c, eight).Sign() != 0 {
			ok = false
		}
	}
	if ok {
		m = new(big.Int).Mod(l.c, eight).Int64()
	}
	if m < 0 {
		if src.op == OIte {
			return mkIte(src.args[0], mkRd(src.args[1], pos, w), mkRd(src.args[2], pos, w))
		}
		return mkApp("rdx", nil, src, pos, mkI(int64(w)))
	}
	if src.op == OIte {
		return mkIte(src.args[0], mkRd(src.args[1], pos, w), mkRd(src.args[2], pos, w))
	}
	r := tZero
	for w > 0 {
		k := 8 - int(m)
		if k > w {
			k = w
		}
		var v *T
		bytePos := mkDiv(sub(pos, mkI(m)), eight)
		if k == 8 {
			v = elem(src, bytePos, nil)
		} else if src.op == OBits {
			e := elem(src, bytePos, nil)
			v = mkWrap(mkDiv(e, big.NewInt(1<<(8-int(m)-k))), k, false)
		} else {
			v = mkApp("rd", nil, src, pos, mkI(int64(k)))
		}
		r = addMul(r, new(big.Int).Lsh(bigOne, uint(w-k)), v)
		pos = add(pos, mkI(int64(k)))
		w -= k
		m = 0
	}
	return r
}

// ---- binders ----

type opened struct {
	body *T
	sym  *T
}

func bvar(level, slot int, like *T) *T {
	if like == nil {
		return intern(&T{op: OBV, k: level, n: slot, s: "idx#"})
	}
	s := typeKey(like.typ)
	if isSeqT(like) {
		s = "seq|" + s
	}
	return intern(&T{op: OBV, k: level, n: slot, s: s, typ: like.typ})
}

func newIdx() *T {
	symSeq++
	return mkSym("idx#"+itoa(symSeq), nil)
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

func openB(t *T) opened {
	s := newIdx()
	return opened{subst1(t.args[1], bvar(t.k, 0, nil), s), s}
}

func closeB(op Op, n, body, sym *T) *T {
	level := body.h + 1
	b := subst1(body, sym, bvar(level, 0, nil))
	t := &T{op: op, k: level, args: []*T{n, b}, typ: body.typ}
	t.h = level
	return intern(t)
}

func mentions(t, sym *T) bool {
	seen := map[int]bool{}
	var f func(*T) bool
	f = func(t *T) bool {
		if t == sym {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func mkMap(n, body, sym *T) *T {
	if n == tZero || body == tEmpty {
		return tEmpty
	}
	if n == tOne {
		return subst1(body, sym, tZero)
	}
	if body.op == OIte && !mentions(body.args[0], sym) {
		return mkIte(body.args[0], mkMap(n, body.args[1], sym), mkMap(n, body.args[2], sym))
	}
	if n.op == OIte {
		return mkIte(n.args[0], mkMap(n.args[1], body, sym), mkMap(n.args[2], body, sym))
	}
	// identity: elements of S in order
	var e *T
	if body.op == OUnit || body.op == OBitF && body.n == 8 {
		e = body.args[0]
	}
	if e != nil && e.op == OApp && e.s == "elem" && !mentions(e.args[0], sym) {
		off := sub(e.args[1], sym)
		if !mentions(off, sym) {
			return subSeq(e.args[0], off, n)
		}
	}
	// contiguous pieces of S: S[a+c*i : a+c*i+c]
	if body.op == OSub && !mentions(body.args[0], sym) && body.args[2].op == OInt {
		off := sub(body.args[1], mulZ(sym, body.args[2].z))
		if !mentions(off, sym) {
			return subSeq(body.args[0], off, mulZ(n, body.args[2].z))
		}
	}
	if body.op == OBits && n.op == OInt && n.z.IsInt64() && n.z.Int64() > 0 && n.z.Int64()*int64(len(body.s)) < 1<<16 {
		return bits(strings.Repeat(body.s, int(n.z.Int64())))
	}
	if n.op == OInt && n.z.IsInt64() && n.z.Int64() > 0 && n.z.Int64() <= 16 {
		var o []*T
		for i := int64(0); i < n.z.Int64(); i++ {
			o = append(o, subst1(body, sym, mkI(i)))
		}
		return cat(o...)
	}
	return closeB(OMap, n, body, sym)
}

func mkSum(n, body, sym *T) *T {
	if n == tZero {
		return tZero
	}
	l := toLin(body)
	r := mulZ(n, l.c)
	for i, a := range l.as {
		var s *T
		switch {
		case !mentions(a, sym):
			s = mul(n, a)
		case a.op == OIte && !mentions(a.args[0], sym):
			s = mkIte(a.args[0], mkSum(n, a.args[1], sym), mkSum(n, a.args[2], sym))
		case n.op == OInt && n.z.IsInt64() && n.z.Int64() <= 16:
			s = tZero
			for k := int64(0); k < n.z.Int64(); k++ {
				s = add(s, subst1(a, sym, mkI(k)))
			}
		case n.op == OIte:
			s = mkIte(n.args[0], mkSum(n.args[1], a, sym), mkSum(n.args[2], a, sym))
		default:
			s = closeB(OSum, n, a, sym)
		}
		r = addMul(r, l.cs[i], s)
	}
	return r
}

var tInf *T

func inf() *T {
	if tInf == nil {
		tInf = mkSym("unbounded", nil)
	}
	return tInf
}

func mkAny(n, body, sym *T) *T {
	if body == tFalse || n == tZero {
		return tFalse
	}
	if !mentions(body, sym) {
		if n == inf() {
			return body
		}
		return and(body, leI(tOne, n))
	}
	if body.op == OIte && !mentions(body.args[0], sym) {
		return mkIte(body.args[0], mkAny(n, body.args[1], sym), mkAny(n, body.args[2], sym))
	}
	return closeB(OAny, n, body, sym)
}

// mkFirst is the least i < n satisfying body, or n.
func mkFirst(n, body, sym *T) *T {
	if body == tFalse {
		return n
	}
	if body == tTrue {
		return tZero
	}
	if body.op == OIte && !mentions(body.args[0], sym) {
		return mkIte(body.args[0], mkFirst(n, body.args[1], sym), mkFirst(n, body.args[2], sym))
	}
	if m, rest, ok := trip(body, sym); ok {
		if n != inf() {
			m = mkIte(leI(n, m), n, m)
		}
		return mkFirst(m, rest, sym)
	}
	return closeB(OFirst, n, body, sym)
}

// trip splits off a disjunct of body that becomes true at a known index and
// stays true: the first index satisfying body is the first i < m satisfying
// rest, or m.
func trip(body, sym *T) (m, rest *T, ok bool) {
	for _, lit := range literals(body) {
		if lit.op != OIn || !mentions(lit, sym) {
			continue
		}
		for _, v := range []bool{true, false} {
			set := lit.set
			if !v {
				set = complement(set)
			}
			n := firstIn(lit.args[0], set, sym)
			if n == nil {
				continue
			}
			if assume1(body, lit, v) != tTrue {
				continue
			}
			return n, assume1(body, lit, !v), true
		}
	}
	return nil, nil, false
}

// firstIn: p is linear in sym and set is unbounded in the direction of growth.
func firstIn(p *T, set []ival, sym *T) *T {
	c := coefOf(p, sym)
	if c.Sign() == 0 {
		return nil
	}
	rest := addMul(p, new(big.Int).Neg(c), sym)
	if mentions(rest, sym) {
		return nil
	}
	if len(set) == 2 {
		// the index is not negative: parts of the set p cannot reach
		lo, hi := rng(rest)
		if c.Sign() < 0 && hi != nil && set[1].lo.Cmp(hi) > 0 {
			set = set[:1]
		} else if c.Sign() > 0 && lo != nil && set[0].hi.Cmp(lo) < 0 {
			set = set[1:]
		}
	}
	if len(set) != 1 {
		return nil
	}
	// bounds that p cannot exceed are none
	if lo, hi := rng(p); true {
		l, h := set[0].lo, set[0].hi
		if l != nil && lo != nil && l.Cmp(lo) <= 0 && h != nil {
			l = nil
		}
		if h != nil && hi != nil && h.Cmp(hi) >= 0 && l != nil {
			h = nil
		}
		set = []ival{{l, h}}
	}
	var d, k *big.Int
	var num *T
	switch {
	case c.Sign() > 0 && set[0].hi == nil && set[0].lo != nil:
		// c*i + rest >= lo  =>  i >= ceil((lo-rest)/c)
		k, d = set[0].lo, c
		num = sub(mkZ(k), rest)
	case c.Sign() < 0 && set[0].lo == nil && set[0].hi != nil:
		k, d = set[0].hi, new(big.Int).Neg(c)
		num = sub(rest, mkZ(k))
	default:
		return nil
	}
	q := mkDiv(add(num, mkZ(new(big.Int).Sub(d, bigOne))), d)
	return mkIte(leI(tZero, q), q, tZero)
}

// literals lists the atoms of a boolean term.
func literals(t *T) []*T {
	seen := map[int]bool{}
	var out []*T
	var f func(*T)
	f = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OIte {
			for _, a := range t.args {
				f(a)
			}
			return
		}
		if t.op != OBool {
			out = append(out, t)
		}
	}
	f(t)
	return out
}

// rec builds a vector recurrence: vars' = steps(idx, vars), from inits.
type recDef struct {
	idx   *T
	vars  []*T
	inits []*T
	steps []*T
}

func recLevel(t *T) int { return int(t.z.Int64()) }

// at returns the value of variable k after i iterations.
func (d *recDef) at(k int, i *T) *T {
	// restrict to the dependency cone of k, in discovery order
	order := []int{k}
	in := map[int]int{k: 0}
	for p := 0; p < len(order); p++ {
		var dep []int
		for j, v := range d.vars {
			if _, ok := in[j]; !ok && mentions(d.steps[order[p]], v) {
				dep = append(dep, j)
			}
		}
		// order of appearance in the step term
		for _, j := range appearance(d.steps[order[p]], d.vars, dep) {
			if _, ok := in[j]; !ok {
				in[j] = len(order)
				order = append(order, j)
			}
		}
	}
	level := 0
	for _, j := range order {
		if d.steps[j].h > level {
			level = d.steps[j].h
		}
	}
	level++
	m := map[*T]*T{d.idx: bvar(level, 0, nil)}
	for q, j := range order {
		m[d.vars[j]] = bvar(level, 1+q, d.vars[j])
	}
	args := []*T{i}
	for _, j := range order {
		args = append(args, d.inits[j])
	}
	for _, j := range order {
		args = append(args, substN(d.steps[j], m))
	}
	return intern(&T{op: ORec, n: len(order), k: 0, z: big.NewInt(int64(level)), args: args, typ: d.vars[k].typ, h: level})
}

func appearance(t *T, vars []*T, cand []int) []int {
	var out []int
	seen := map[int]bool{}
	want := map[*T]int{}
	for _, j := range cand {
		want[vars[j]] = j
	}
	var f func(*T)
	f = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if j, ok := want[t]; ok {
			out = append(out, j)
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return out
}

// openRec opens a recurrence; vars are fresh symbols.
func openRec(t *T) *recDef {
	level := recLevel(t)
	d := &recDef{idx: newIdx()}
	m := map[*T]*T{bvar(level, 0, nil): d.idx}
	for j := 0; j < t.n; j++ {
		bv := findBV(t, level, 1+j)
		if bv == nil {
			bv = bvar(level, 1+j, t.args[1+j])
		}
		name := "phi"
		if strings.HasPrefix(bv.s, "seq|") {
			name = "seq"
		}
		v := freshSym(name, bv.typ)
		d.vars = append(d.vars, v)
		m[bv] = v
	}
	d.inits = t.args[1 : 1+t.n]
	for j := 0; j < t.n; j++ {
		d.steps = append(d.steps, substN(t.args[1+t.n+j], m))
	}
	return d
}

func findBV(t *T, level, slot int) *T {
	seen := map[int]bool{}
	var r *T
	var f func(*T)
	f = func(t *T) {
		if r != nil || seen[t.id] || !t.bvs {
			return
		}
		seen[t.id] = true
		if t.op == OBV && t.k == level && t.n == slot {
			r = t
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return r
}

// ---- rebuilding ----

func subst1(t, from, to *T) *T { return substN(t, map[*T]*T{from: to}) }

func substN(t *T, m map[*T]*T) *T {
	memo := map[int]*T{}
	var f func(*T) *T
	f = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := rebuild(t, f)
		memo[t.id] = r
		return r
	}
	return f(t)
}

// rebuild maps the children of t with f and re-applies the smart constructors.
func rebuild(t *T, f func(*T) *T) *T { return rebuildK(t, f, nil) }

func rebuildK(t *T, f func(*T) *T, K *Facts) *T {
	switch t.op {
	case OMap, OSum, OAny, OFirst:
		n := f(t.args[0])
		// is the body affected at all?
		nb := f(t.args[1])
		if nb == t.args[1] && n == t.args[0] {
			return t
		}
		if nb != t.args[1] {
			o := openB(t)
			nb = f(o.body)
			return rebind(t.op, n, nb, o.sym)
		}
		o := openB(t)
		return rebind(t.op, n, o.body, o.sym)
	case ORec:
		same := true
		for _, a := range t.args {
			if f(a) != a {
				same = false
			}
		}
		if same {
			return t
		}
		d := openRec(t)
		nd := &recDef{idx: d.idx, vars: d.vars}
		for j := range d.vars {
			nd.inits = append(nd.inits, f(d.inits[j]))
			nd.steps = append(nd.steps, f(d.steps[j]))
		}
		return solveRec(nd, f(t.args[0]))
	}
	same := true
	na := make([]*T, len(t.args))
	for i, a := range t.args {
		na[i] = f(a)
		if na[i] != a {
			same = false
		}
	}
	if same {
		if t.op == OWrap && K != nil {
			if r := wrapK(na[0], t.n, t.s == "i", K); r == na[0] {
				return r
			}
		}
		return t
	}
	return remake(t, na, K)
}

func rebind(op Op, n, body, sym *T) *T {
	switch op {
	case OMap:
		return mkMap(n, body, sym)
	case OSum:
		return mkSum(n, body, sym)
	case OAny:
		return mkAny(n, body, sym)
	}
	return mkFirst(n, body, sym)
}

func remake(t *T, a []*T, K *Facts) *T {
	switch t.op {
	case OLin:
		r := mkZ(t.z)
		for i := range a {
			r = addMul(r, t.coefs[i], a[i])
		}
		return r
	case OWrap:
		if K != nil {
			return wrapK(a[0], t.n, t.s == "i", K)
		}
		return mkWrap(a[0], t.n, t.s == "i")
	case ODiv:
		return mkDiv(a[0], t.z)
	case OIn:
		return mkIn(a[0], t.set)
	case OIte:
		return mkIte(a[0], a[1], a[2])
	case OStruct:
		return mkStruct(t.typ, a)
	case OBitF:
		return bitF(a[0], t.n)
	case OSub:
		return subSeqK(a[0], a[1], a[2], K)
	case OZero:
		return zeroSeq(a[0], a[1], t.bytes)
	case OCat:
		return cat(a...)
	case OSliceV:
		return mkSliceV(a[0], a[1])
	case OBox:
		return mkBox(a[0])
	case OIface:
		return mkIface(t.typ, a[0])
	case OApp:
		return reApp(t, a, K)
	}
	return intern(&T{op: t.op, s: t.s, n: t.n, k: t.k, z: t.z, args: a, typ: t.typ})
}

func reApp(t *T, a []*T, K *Facts) *T {
	switch t.s {
	case "def":
		return mkDef(a[0])
	case "elem":
		return elemK(a[0], a[1], t.typ, K)
	case "rd", "rdx":
		return mkRd(a[0], a[1], int(a[2].i64()))
	case "len":
		return slen(a[0])
	case "mul":
		return mul(a[0], a[1])
	case "xor", "and", "or":
		return bitop(t.s, a[0], a[1], t.typ)
	case "nil":
		return isNil(a[0])
	case "istype":
		return isType(a[0], t.typ, t)
	case "seq=":
		return seqEq(a[0], a[1])
	case "eq":
		return valEq(a[0], a[1])
	case "seq":
		return seqOf(a[0])
	case "deref":
		if a[0].op == OBox {
			return a[0].args[0]
		}
		if a[0].op == OIte {
			return mkIte(a[0].args[0], reApp(t, []*T{a[0].args[1]}, K), reApp(t, []*T{a[0].args[2]}, K))
		}
	case "assert":
		if a[0].op == OIface && types.Identical(a[0].typ, t.typ) {
			return a[0].args[0]
		}
		if a[0].op == OIte {
			return mkIte(a[0].args[0], reApp(t, []*T{a[0].args[1]}, K), reApp(t, []*T{a[0].args[2]}, K))
		}
	}
	if strings.HasPrefix(t.s, ".") && a[0].typ != nil {
		var i int
		for _, c := range t.s[1:] {
			i = i*10 + int(c-'0')
		}
		return field(a[0], i, a[0].typ)
	}
	if strings.HasPrefix(t.s, ".") && a[0].op == OIte {
		var i int
		for _, c := range t.s[1:] {
			i = i*10 + int(c-'0')
		}
		return field(a[0], i, nil2(t.args[0].typ))
	}
	if strings.HasPrefix(t.s, "proj") {
		return proj(a[0], int(t.s[4]-'0'), t.typ)
	}
	if g := appSimp[t.s]; g != nil {
		return g(a)
	}
	if strings.HasPrefix(t.s, "fmt:") && len(a) == 1 && isIntT(a[0]) {
		return numText(t.s[4:], a[0])
	}
	return mkApp(t.s, t.typ, a...)
}

func nil2(t types.Type) types.Type { return t }

// appSimp are re-evaluators of library functions with algebraic rules.
var appSimp = map[string]func([]*T) *T{}

func bitop(op string, a, b *T, typ types.Type) *T {
	if a.op == OInt && b.op == OInt {
		z := new(big.Int)
		switch op {
		case "xor":
			z.Xor(a.z, b.z)
		case "and":
			z.And(a.z, b.z)
		case "or":
			z.Or(a.z, b.z)
		}
		return mkZ(z)
	}
	if a.op == OInt || b.op != OInt && a.id > b.id {
		a, b = b, a
	}
	if b.op == OInt {
		if b.z.Sign() == 0 {
			if op == "and" {
				return tZero
			}
			return a
		}
		if op == "and" && b.z.Sign() > 0 {
			// contiguous masks
			tz := int(b.z.TrailingZeroBits())
			m := new(big.Int).Rsh(b.z, uint(tz))
			if k := log2(new(big.Int).Add(m, bigOne)); k > 0 {
				return mulZ(mkWrap(mkDiv(a, new(big.Int).Lsh(bigOne, uint(tz))), k, false), new(big.Int).Lsh(bigOne, uint(tz)))
			}
		}
		if a.op == OIte {
			return mkIte(a.args[0], bitop(op, a.args[1], b, typ), bitop(op, a.args[2], b, typ))
		}
	}
	if a == b {
		if op == "xor" {
			return tZero
		}
		return a
	}
	if op != "and" && disjoint(a, b) {
		return add(a, b)
	}
	return mkApp(op, typ, a, b)
}

// disjoint: one operand is a multiple of 2^k and the other is in [0,2^k).
func disjoint(a, b *T) bool {
	d := func(a, b *T) bool {
		_, hi := rng(b)
		lo, _ := rng(b)
		if hi == nil || lo == nil || lo.Sign() < 0 {
			return false
		}
		la, _ := rng(a)
		if la == nil || la.Sign() < 0 {
			return false
		}
		k := hi.BitLen()
		l := toLin(a)
		m := new(big.Int).Lsh(bigOne, uint(k))
		if new(big.Int).Mod(l.c, m).Sign() != 0 {
			return false
		}
		for _, c := range l.cs {
			if new(big.Int).Mod(c, m).Sign() != 0 {
				return false
			}
		}
		return true
	}
	return d(a, b) || d(b, a)
}

// ---- references ----

func isNil(x *T) *T {
	switch x.op {
	case ONil:
		return tTrue
	case OPtr, OBox, OIface, OSlice, OClosure, OMapV:
		return tFalse
	case OSliceV:
		return x.args[0]
	case OIte:
		return mkIte(x.args[0], isNil(x.args[1]), isNil(x.args[2]))
	case OApp:
		if nonNilApps[x.s] || strings.HasPrefix(x.s, "err:") {
			return tFalse
		}
		if f := nilOf[x.s]; f != nil {
			if r := f(x); r != nil {
				return r
			}
		}
	case OSym:
		if strings.HasPrefix(x.s, "global:") || strings.HasPrefix(x.s, "nonnil:") {
			return tFalse
		}
	case ORec:
		if r := lastNil(x); r != nil {
			return r
		}
	}
	return mkApp("nil", nil, x)
}

var nonNilApps = map[string]bool{}
var nilOf = map[string]func(*T) *T{}

// lastNil decides nilness of a variable that is only ever overwritten by
// non-nil values: nil iff it was nil and never overwritten.
func lastNil(x *T) *T {
	if x.n != 1 {
		return nil
	}
	d := openRec(x)
	v := d.vars[0]
	st := d.steps[0]
	// nil(step) as a function of nil(v)
	p := isNil(st)
	nv := isNil(v)
	whenNil := assume1(p, nv, true)
	whenNot := assume1(p, nv, false)
	if mentions(whenNil, v) || whenNot != tFalse {
		return nil
	}
	return and(isNil(d.inits[0]), not(mkAny(x.args[0], not(whenNil), d.idx)))
}

func assume1(t, lit *T, v bool) *T {
	memo := map[int]*T{}
	var f func(*T) *T
	f = func(t *T) *T {
		if t == lit {
			return mkB(v)
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := rebuild(t, f)
		memo[t.id] = r
		return r
	}
	return f(t)
}

func isType(x *T, typ types.Type, like *T) *T {
	switch x.op {
	case ONil:
		return tFalse
	case OIface:
		return mkB(types.Identical(x.typ, typ))
	case OIte:
		return mkIte(x.args[0], isType(x.args[1], typ, like), isType(x.args[2], typ, like))
	}
	return intern(&T{op: OApp, s: "istype", n: 0, typ: typ, args: []*T{x, mkSym("type:"+typeKey(typ), nil)}})
}

func seqOf(s *T) *T {
	switch s.op {
	case OSliceV:
		return s.args[1]
	case ONil:
		return tEmpty
	case OIte:
		return mkIte(s.args[0], seqOf(s.args[1]), seqOf(s.args[2]))
	}
	if isSeqT(s) {
		return s
	}
	return mkApp("seq", s.typ, s)
}

func seqEq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.op == OIte {
		return mkIte(a.args[0], seqEq(a.args[1], b), seqEq(a.args[2], b))
	}
	if b.op == OIte {
		return mkIte(b.args[0], seqEq(a, b.args[1]), seqEq(a, b.args[2]))
	}
	if a.op == OBits && b.op == OBits {
		return mkB(a.s == b.s)
	}
	if a.op == OBits || b.op != OBits && a.id > b.id {
		a, b = b, a
	}
	// an empty sequence has no elements
	if b == tEmpty {
		return eqI(slen(a), tZero)
	}
	// single bytes and fixed-width fields
	if b.op == OBits && a.op == OBitF && len(b.s) == a.n {
		z, _ := new(big.Int).SetString(b.s, 2)
		return eqI(mkWrap(a.args[0], a.n, false), mkZ(z))
	}
	la, lb := slen(a), slen(b)
	d := sub(la, lb)
	if d.op == OInt && d.z.Sign() != 0 {
		return tFalse
	}
	if b.op == OBits && a.op == OSub && a.args[2].op == OInt && len(b.s)%8 == 0 {
		r := tTrue
		for i := 0; i < len(b.s)/8; i++ {
			z, _ := new(big.Int).SetString(b.s[i*8:i*8+8], 2)
			r = and(r, eqI(elem(a, mkI(int64(i)), nil), mkZ(z)))
		}
		return r
	}
	return mkApp("seq=", nil, a, b)
}

// valEq compares two Go values of reference or opaque kind.
func valEq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.op == ONil {
		return isNil(b)
	}
	if b.op == ONil {
		return isNil(a)
	}
	if isBoolT(a) && isBoolT(b) {
		return iff(a, b)
	}
	if isIntT(a) && isIntT(b) {
		return eqI(a, b)
	}
	if isSeqT(a) || isSeqT(b) {
		return seqEq(a, b)
	}
	if a.op == OIte {
		return mkIte(a.args[0], valEq(a.args[1], b), valEq(a.args[2], b))
	}
	if b.op == OIte {
		return mkIte(b.args[0], valEq(a, b.args[1]), valEq(a, b.args[2]))
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return valEq(a.args[0], b.args[0])
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		r := tTrue
		for i := range a.args {
			r = and(r, valEq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == OSym && b.op == OSym && strings.HasPrefix(a.s, "global:") && strings.HasPrefix(b.s, "global:") {
		return tFalse // distinct error values
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("eq", nil, a, b)
}
