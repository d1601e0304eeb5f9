package main

// Recognition of the MPEG-2 CRC by GF(2) affine analysis of a recurrence step.

import (
	"go/types"
	"math/big"
)

// affine bit vector: each bit is a set of input bits plus a constant.
type abit struct {
	in [2]uint64 // bits 0-31: register, 32-39: input byte
	c  bool
}

func (a abit) xor(b abit) abit {
	return abit{[2]uint64{a.in[0] ^ b.in[0], a.in[1] ^ b.in[1]}, a.c != b.c}
}
func (a abit) isConst() bool { return a.in[0] == 0 && a.in[1] == 0 }

type avec []abit // least significant first, 64 bits

func constVec(z *big.Int) avec {
	m := new(big.Int).Mod(z, new(big.Int).Lsh(bigOne, 64))
	v := make(avec, 64)
	for i := range v {
		v[i].c = m.Bit(i) == 1
	}
	return v
}

type affine struct {
	reg, byt *T
	memo     map[int]avec
	mod      map[[2]int]avec
	steps    int
}

func (a *affine) eval(t *T) avec {
	if v, ok := a.memo[t.id]; ok {
		return v
	}
	v := a.eval1(t)
	a.memo[t.id] = v
	return v
}

// choose is x when c holds and y otherwise.
func (a *affine) choose(cond *T, x, y avec) avec {
	c, ok := a.cond(cond)
	if x == nil || y == nil || !ok {
		return nil
	}
	r := make(avec, 64)
	for i := range r {
		d := x[i].xor(y[i])
		if !d.isConst() {
			return nil
		}
		r[i] = y[i]
		if d.c {
			r[i] = r[i].xor(c)
		}
	}
	return r
}

// disjointSum adds vectors whose non-zero bits do not overlap.
func disjointSum(x, y avec) avec {
	if x == nil || y == nil {
		return nil
	}
	r := make(avec, 64)
	zero := abit{}
	for i := range r {
		switch {
		case x[i] == zero:
			r[i] = y[i]
		case y[i] == zero:
			r[i] = x[i]
		default:
			return nil
		}
	}
	return r
}

func (a *affine) eval1(t *T) avec {
	switch {
	case t == a.reg:
		v := make(avec, 64)
		_, s, _ := intType(t.typ)
		for i := range v {
			if i < 32 {
				v[i].in[0] = 1 << uint(i)
			} else if s {
				v[i].in[0] = 1 << 31
			}
		}
		return v
	case t == a.byt:
		v := make(avec, 64)
		for i := 0; i < 8; i++ {
			v[i].in[0] = 1 << uint(32+i)
		}
		return v
	}
	switch t.op {
	case OInt:
		return constVec(t.z)
	case OLin:
		if it := findIte(t); it != nil {
			return a.choose(it.args[0], a.eval(replaceAtom(t, it, it.args[1])), a.eval(replaceAtom(t, it, it.args[2])))
		}
		r := constVec(t.z)
		for i, x := range t.args {
			v := a.eval(x)
			if v == nil {
				return nil
			}
			k := t.coefs[i]
			if k.Sign() < 0 {
				// two's complement negation of a bit range is not affine
				// except for whole sign terms, handled by OWrap
				return nil
			}
			s := log2(k)
			if s < 0 {
				return nil
			}
			v = shiftL(v, s)
			if r = disjointSum(r, v); r == nil {
				return nil
			}
		}
		return r
	case OWrap:
		v := a.evalMod(t.args[0], t.n)
		if v == nil {
			return nil
		}
		r := make(avec, 64)
		for i := range r {
			if i < t.n {
				r[i] = v[i]
			} else if t.s == "i" {
				r[i] = v[t.n-1]
			}
		}
		return r
	case ODiv:
		s := log2(t.z)
		v := a.eval(t.args[0])
		if s < 0 || v == nil {
			return nil
		}
		r := make(avec, 64)
		for i := range r {
			if i+s < 64 {
				r[i] = v[i+s]
			} else {
				r[i] = v[63]
			}
		}
		return r
	case OIte:
		return a.choose(t.args[0], a.eval(t.args[1]), a.eval(t.args[2]))
	case OApp:
		switch t.s {
		case "xor":
			x, y := a.eval(t.args[0]), a.eval(t.args[1])
			if x == nil || y == nil {
				return nil
			}
			r := make(avec, 64)
			for i := range r {
				r[i] = x[i].xor(y[i])
			}
			return r
		case "and":
			x, y := a.eval(t.args[0]), a.eval(t.args[1])
			if x == nil || y == nil {
				return nil
			}
			r := make(avec, 64)
			for i := range r {
				switch {
				case x[i].isConst():
					if x[i].c {
						r[i] = y[i]
					}
				case y[i].isConst():
					if y[i].c {
						r[i] = x[i]
					}
				default:
					return nil
				}
			}
			return r
		case "or":
			x, y := a.eval(t.args[0]), a.eval(t.args[1])
			if x == nil || y == nil {
				return nil
			}
			r := make(avec, 64)
			one := abit{c: true}
			for i := range r {
				switch {
				case x[i] == abit{} || y[i] == one:
					r[i] = y[i]
				case y[i] == abit{} || x[i] == one:
					r[i] = x[i]
				default:
					return nil
				}
			}
			return r
		case "elem":
			return a.table(t.args[0], t.args[1])
		}
	}
	return nil
}

// evalMod evaluates modulo 2^n; multiplication by 2^k and sign terms wrap.
func (a *affine) evalMod(t *T, n int) avec {
	k := [2]int{t.id, n}
	if v, ok := a.mod[k]; ok {
		return v
	}
	if a.steps++; a.steps > 20000 {
		return nil
	}
	v := a.evalMod1(t, n)
	a.mod[k] = v
	return v
}

func (a *affine) evalMod1(t *T, n int) avec {
	if t.op != OLin {
		return a.eval(t)
	}
	if it := findIte(t); it != nil {
		part := func(x *T) avec {
			w := mkWrap(replaceAtom(t, it, x), n, false)
			if w.op == OWrap && w.n == n && w.s == "u" {
				return a.evalMod(w.args[0], n)
			}
			return a.eval(w)
		}
		return a.choose(it.args[0], part(it.args[1]), part(it.args[2]))
	}
	r := constVec(t.z)
	for i, x := range t.args {
		v := a.eval(x)
		if v == nil {
			return nil
		}
		k := new(big.Int).Mod(t.coefs[i], new(big.Int).Lsh(bigOne, uint(n)))
		s := log2(k)
		if s < 0 {
			return nil
		}
		v = shiftL(v, s)
		for j := n; j < 64; j++ {
			v[j] = abit{}
		}
		for j := n; j < 64; j++ {
			r[j] = abit{}
		}
		if r = disjointSum(r, v); r == nil {
			return nil
		}
	}
	return r
}

func shiftL(v avec, s int) avec {
	r := make(avec, 64)
	for i := range r {
		if i >= s {
			r[i] = v[i-s]
		}
	}
	return r
}

// cond evaluates a one-bit test.
func (a *affine) cond(c *T) (abit, bool) {
	if c.op != OIn || len(c.set) == 0 {
		return abit{}, false
	}
	v := a.eval(c.args[0])
	if v == nil {
		return abit{}, false
	}
	// only one varying bit
	var vary *abit
	base := new(big.Int)
	vb := -1
	for i := 0; i < 63; i++ {
		if v[i].isConst() {
			if v[i].c {
				base.SetBit(base, i, 1)
			}
			continue
		}
		if vb >= 0 {
			// sign tests of a 32-bit register: only the top bit matters
			vb = -2
			break
		}
		vb = i
		b := v[i]
		vary = &b
	}
	if vb == -2 {
		return a.signTest(c, v)
	}
	if vary == nil {
		return abit{c: inSet(base, c.set)}, true
	}
	zero := inSet(base, c.set)
	one := inSet(new(big.Int).SetBit(base, vb, 1), c.set)
	if zero == one {
		return abit{c: zero}, true
	}
	if one {
		return *vary, true
	}
	r := *vary
	r.c = !r.c
	return r, true
}

// signTest handles x >= 2^k (unsigned, k the top bit) and x < 0.
func (a *affine) signTest(c *T, v avec) (abit, bool) {
	set := c.set
	if len(set) != 1 {
		return abit{}, false
	}
	neg := func(b abit) abit { b.c = !b.c; return b }
	if v[63] == v[31] && !v[63].isConst() { // sign-extended
		if set[0].lo == nil && set[0].hi != nil && set[0].hi.Cmp(big.NewInt(-1)) == 0 {
			return v[63], true
		}
		if set[0].hi == nil && set[0].lo != nil && set[0].lo.Sign() == 0 {
			return neg(v[63]), true
		}
	}
	top := -1
	for i := 63; i >= 0; i-- {
		if v[i] != (abit{}) {
			top = i
			break
		}
	}
	if top < 0 || top > 62 {
		return abit{}, false
	}
	half := new(big.Int).Lsh(bigOne, uint(top))
	full := new(big.Int).Sub(new(big.Int).Lsh(half, 1), bigOne)
	if set[0].lo != nil && set[0].lo.Cmp(half) == 0 && (set[0].hi == nil || set[0].hi.Cmp(full) >= 0) {
		return v[top], true
	}
	if set[0].hi != nil && new(big.Int).Add(set[0].hi, bigOne).Cmp(half) == 0 && (set[0].lo == nil || set[0].lo.Sign() <= 0) {
		return neg(v[top]), true
	}
	return abit{}, false
}

func inSet(z *big.Int, s []ival) bool {
	for _, iv := range s {
		if (iv.lo == nil || iv.lo.Cmp(z) <= 0) && (iv.hi == nil || iv.hi.Cmp(z) >= 0) {
			return true
		}
	}
	return false
}

// table evaluates a lookup in a constant 256-entry table that is GF(2)-linear.
func (a *affine) table(seq, i *T) avec {
	ent := tableEntries(seq)
	if len(ent) != 256 {
		return nil
	}
	x := a.eval(i)
	if x == nil {
		return nil
	}
	for j := 8; j < 64; j++ {
		if x[j] != (abit{}) {
			return nil
		}
	}
	for k := range ent {
		w := new(big.Int).Set(ent[0])
		for b := 0; b < 8; b++ {
			if k>>uint(b)&1 == 1 {
				w.Xor(w, new(big.Int).Xor(ent[1<<uint(b)], ent[0]))
			}
		}
		if w.Cmp(ent[k]) != 0 {
			return nil
		}
	}
	r := constVec(ent[0])
	for b := 0; b < 8; b++ {
		d := new(big.Int).Xor(ent[1<<uint(b)], ent[0])
		for j := 0; j < 64; j++ {
			if d.Bit(j) == 1 {
				r[j] = r[j].xor(x[b])
			}
		}
	}
	return r
}

func tableEntries(seq *T) []*big.Int {
	ps := parts(seq)
	var out []*big.Int
	for _, p := range ps {
		switch p.op {
		case OUnit:
			if p.args[0].op != OInt {
				return nil
			}
			out = append(out, p.args[0].z)
		default:
			return nil
		}
	}
	return out
}

const crcPoly = 0x04C11DB7

// crcReference is the affine step of CRC-32/MPEG-2 on one byte.
func crcReference() [32]abit {
	var r [32]abit
	for i := range r {
		r[i].in[0] = 1 << uint(i)
	}
	for i := 0; i < 8; i++ {
		r[24+i] = r[24+i].xor(abit{in: [2]uint64{1 << uint(32+i), 0}})
	}
	for k := 0; k < 8; k++ {
		top := r[31]
		for i := 31; i > 0; i-- {
			r[i] = r[i-1]
		}
		r[0] = abit{}
		for i := 0; i < 32; i++ {
			if uint32(crcPoly)>>uint(i)&1 == 1 {
				r[i] = r[i].xor(top)
			}
		}
	}
	return r
}

// recogniseCRC turns a recurrence over the bytes of a sequence into
// crc32mpeg2(sequence).
func recogniseCRC(t *T) *T {
	if t.op != ORec || t.n != 1 {
		return nil
	}
	w, s, ok := intType(nilBasic(t.typ))
	if !ok || w != 32 && w != 64 {
		return nil
	}
	d := openRec(t)
	if d.inits[0].op != OInt {
		return nil
	}
	if new(big.Int).Mod(d.inits[0].z, new(big.Int).Lsh(bigOne, 32)).Int64() != 0xFFFFFFFF {
		return nil
	}
	if w == 64 && (d.inits[0].z.Sign() < 0 || !stays32(d)) {
		return nil
	}
	byt := findByte(d.steps[0], d.idx)
	if byt == nil {
		return nil
	}
	off := sub(byt.args[1], d.idx)
	if mentions(off, d.idx) || mentions(byt.args[0], d.idx) || mentions(byt.args[0], d.vars[0]) {
		return nil
	}
	a := &affine{reg: d.vars[0], byt: byt, memo: map[int]avec{}, mod: map[[2]int]avec{}}
	v := a.eval(d.steps[0])
	if v == nil {
		return nil
	}
	ref := crcReference()
	for i := range ref {
		if v[i] != ref[i] {
			return nil
		}
	}
	seq := subSeq(byt.args[0], off, t.args[0])
	r := mkApp("crc32mpeg2", types.Typ[types.Uint32], seq)

	if s && w == 32 {
		return mkWrap(r, 32, true)
	}
	return r
}

func stays32(d *recDef) bool {
	lo, hi := rng(d.steps[0])
	return lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= 32
}

func nilBasic(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Bool]
	}
	return t
}

func findByte(t, idx *T) *T {
	seen := map[int]bool{}
	var r *T
	var f func(*T)
	f = func(t *T) {
		if r != nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp && t.s == "elem" && t.args[0].bytes && mentions(t.args[1], idx) {
			r = t
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return r
}
