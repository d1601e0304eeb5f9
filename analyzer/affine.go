package main

// Affine forms: a number is a linear combination of the input and of noise
// symbols, one for each rounding, with known ranges. The same rounding is the
// same symbol wherever its value is used, so roundings cancel.

import (
	"go/types"
	"math/big"
	"strings"
)

type aform struct {
	c  *big.Rat
	co map[*T]*big.Rat
}

type arange struct{ lo, hi *big.Rat }

type affEnv struct {
	rng map[*T]arange // ranges of the input and noise symbols
}

func (a *affEnv) clone() *affEnv {
	b := &affEnv{map[*T]arange{}}
	for k, v := range a.rng {
		b.rng[k] = v
	}
	return b
}

func ratI(i *big.Int) *big.Rat    { return new(big.Rat).SetInt(i) }
func ratF(n, d int64) *big.Rat    { return big.NewRat(n, d) }
func constForm(r *big.Rat) *aform { return &aform{r, map[*T]*big.Rat{}} }

// plus is f + k*g.
func (f *aform) plus(k *big.Rat, g *aform) *aform {
	o := constForm(new(big.Rat).Add(f.c, new(big.Rat).Mul(k, g.c)))
	for t, v := range f.co {
		o.co[t] = v
	}
	for t, v := range g.co {
		w := new(big.Rat).Mul(k, v)
		if old := o.co[t]; old != nil {
			w.Add(w, old)
		}
		if w.Sign() == 0 {
			delete(o.co, t)
		} else {
			o.co[t] = w
		}
	}
	return o
}

func (a *affEnv) noise(f *aform, t *T, k, lo, hi *big.Rat) *aform {
	if _, ok := a.rng[t]; !ok {
		a.rng[t] = arange{lo, hi}
	}
	return f.plus(k, &aform{new(big.Rat), map[*T]*big.Rat{t: ratF(1, 1)}})
}

func (a *affEnv) bounds(f *aform) (lo, hi *big.Rat) {
	lo, hi = new(big.Rat).Set(f.c), new(big.Rat).Set(f.c)
	for t, k := range f.co {
		r := a.rng[t]
		x, y := new(big.Rat).Mul(k, r.lo), new(big.Rat).Mul(k, r.hi)
		if k.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}

func (a *affEnv) maxAbs(f *aform) *big.Rat {
	lo, hi := a.bounds(f)
	lo.Abs(lo)
	hi.Abs(hi)
	if lo.Cmp(hi) > 0 {
		return lo
	}
	return hi
}

var (
	ratOne    = ratF(1, 1)
	ratNeg    = ratF(-1, 1)
	floatInts = ratI(new(big.Int).Lsh(bigOne, 53))
)

// rounded is f as a float64.
func (a *affEnv) rounded(f *aform, t *T) *aform {
	m := a.maxAbs(f)
	if floatInt(t) && m.Cmp(floatInts) <= 0 || len(f.co) == 0 && isFloat64(f.c) {
		return f
	}
	m.Quo(m, floatInts)
	return a.noise(f, t, ratOne, new(big.Rat).Neg(m), m)
}

func floatConst(t *T) (*big.Rat, bool) {
	v, _, _ := strings.Cut(t.s[2:], "\x00")
	return new(big.Rat).SetString(v)
}

func isFloat64(r *big.Rat) bool {
	_, exact := r.Float64()
	return exact
}

// floatInt reports that a floating-point term has an integer value if no
// operation rounds.
func floatInt(t *T) bool {
	switch t.s {
	case "i2f", "lib:math.Ceil", "lib:math.Floor", "lib:math.Trunc", "lib:math.Round":
		return true
	case "f*", "f+", "f-":
		return floatInt(t.args[0]) && floatInt(t.args[1])
	}
	if strings.HasPrefix(t.s, "f:") {
		r, ok := floatConst(t)
		return ok && r.IsInt()
	}
	return false
}

func (a *affEnv) form(t *T) *aform {
	switch t.op {
	case OInt:
		return constForm(ratI(t.z))
	case OSym:
		if _, ok := a.rng[t]; ok {
			return &aform{new(big.Rat), map[*T]*big.Rat{t: ratOne}}
		}
		if strings.HasPrefix(t.s, "f:") {
			return a.constant(t)
		}
	case OLin:
		f := constForm(ratI(t.z))
		for i, x := range t.args {
			f = f.plus(ratI(t.coefs[i]), a.form(x))
		}
		return f
	case OWrap:
		f := a.form(centred(t.args[0], uint(t.n)))
		lo, hi := a.bounds(f)
		min, max := new(big.Int), new(big.Int).Lsh(bigOne, uint(t.n))
		if t.s == "i" {
			max.Rsh(max, 1)
			min.Neg(max)
		}
		// integers within the range lie between its rounded ends
		if lo.Cmp(new(big.Rat).Sub(ratI(min), ratOne)) <= 0 || hi.Cmp(ratI(max)) >= 0 {
			giveUp("a value between %s and %s may not fit %d bits", lo.FloatString(2), hi.FloatString(2), t.n)
		}
		return f
	case ODiv:
		d := ratI(t.z)
		f := constForm(new(big.Rat)).plus(new(big.Rat).Inv(d), a.form(t.args[0]))
		return a.noise(f, t, ratNeg, new(big.Rat), new(big.Rat).Sub(ratOne, new(big.Rat).Inv(d)))
	case OApp:
		return a.app(t)
	}
	giveUp("no affine form of %s", t.show(3, 60))
	return nil
}

// centred replaces the coefficients of a sum that is taken modulo 2^n by those
// nearest to zero.
func centred(t *T, n uint) *T {
	if t.op != OLin {
		return t
	}
	mod := new(big.Int).Lsh(bigOne, n)
	near := func(z *big.Int) *big.Int {
		r := new(big.Int).Mod(z, mod)
		if r.Bit(int(n)-1) == 1 {
			r.Sub(r, mod)
		}
		return r
	}
	out := mkZ(near(t.z))
	for i, x := range t.args {
		out = addMul(out, near(t.coefs[i]), x)
	}
	return out
}

func (a *affEnv) constant(t *T) *aform {
	r, ok := floatConst(t)
	if !ok {
		giveUp("constant %s", t.s)
	}
	return a.rounded(constForm(r), t)
}

func (a *affEnv) app(t *T) *aform {
	switch t.s {
	case "i2f":
		return a.rounded(a.form(t.args[0]), t)
	case "f+", "f-":
		k := ratOne
		if t.s == "f-" {
			k = ratNeg
		}
		return a.rounded(a.form(t.args[0]).plus(k, a.form(t.args[1])), t)
	case "f*", "f/":
		x, y := a.form(t.args[0]), a.form(t.args[1])
		if t.s == "f*" && len(x.co) == 0 {
			x, y = y, x
		}
		if len(y.co) > 0 || t.s == "f/" && y.c.Sign() == 0 {
			giveUp("product or quotient of two variables")
		}
		k := y.c
		if t.s == "f/" {
			k = new(big.Rat).Inv(k)
		}
		return a.rounded(constForm(new(big.Rat)).plus(k, x), t)
	case "f2i", "lib:math.Trunc", "lib:math.Floor":
		f := a.form(t.args[0])
		if lo, _ := a.bounds(f); lo.Sign() < 0 && t.s != "lib:math.Floor" {
			return a.noise(f, t, ratOne, ratNeg, ratOne)
		}
		if floatInt(t.args[0]) {
			return f
		}
		return a.noise(f, t, ratNeg, new(big.Rat), ratOne)
	case "lib:math.Ceil":
		return a.noise(a.form(t.args[0]), t, ratOne, new(big.Rat), ratOne)
	case "lib:math.Round":
		return a.noise(a.form(t.args[0]), t, ratOne, ratF(-1, 2), ratF(1, 2))
	}
	giveUp("no affine form of %s", t.show(3, 60))
	return nil
}

// innerIte is a condition in t that does not itself contain one.
func innerIte(t *T, seen map[*T]bool) *T {
	if seen[t] {
		return nil
	}
	seen[t] = true
	for _, x := range t.args {
		if c := innerIte(x, seen); c != nil {
			return c
		}
	}
	if t.op == OIte {
		return t.args[0]
	}
	return nil
}

// assume narrows the ranges by condition c being b; it returns nil if that
// cannot be.
func (a *affEnv) assume(c *T, b bool) *affEnv {
	if c.op != OIn {
		return a
	}
	f := a.form(c.args[0])
	lo, hi := a.bounds(f)
	set := c.set
	if !b {
		set = complement(set)
	}
	// the hull of what the range and the set have in common
	var l, h *big.Rat
	for _, iv := range set {
		x, y := lo, hi
		if iv.lo != nil && ratI(iv.lo).Cmp(x) > 0 {
			x = ratI(iv.lo)
		}
		if iv.hi != nil && ratI(iv.hi).Cmp(y) < 0 {
			y = ratI(iv.hi)
		}
		if x.Cmp(y) > 0 {
			continue
		}
		if l == nil || x.Cmp(l) < 0 {
			l = x
		}
		if h == nil || y.Cmp(h) > 0 {
			h = y
		}
	}
	if l == nil {
		return nil
	}
	if len(f.co) != 1 {
		return a
	}
	n := a.clone()
	for t, k := range f.co {
		x := new(big.Rat).Quo(new(big.Rat).Sub(l, f.c), k)
		y := new(big.Rat).Quo(new(big.Rat).Sub(h, f.c), k)
		if k.Sign() < 0 {
			x, y = y, x
		}
		n.rng[t] = arange{x, y}
	}
	return n
}

// spread is the range of t - k*x over all cases of the conditions in t.
func (a *affEnv) spread(t, x *T, k *big.Rat) (lo, hi *big.Rat) {
	c := innerIte(t, map[*T]bool{})
	if c == nil {
		f := a.form(t).plus(new(big.Rat).Neg(k), &aform{new(big.Rat), map[*T]*big.Rat{x: ratOne}})
		return a.bounds(f)
	}
	for _, b := range []bool{true, false} {
		n := a.assume(c, b)
		if n == nil {
			continue
		}
		l, h := n.spread(restrict(t, newFacts().with(c, b)), x, k)
		if l == nil {
			continue
		}
		if lo == nil || l.Cmp(lo) < 0 {
			lo = l
		}
		if hi == nil || h.Cmp(hi) > 0 {
			hi = h
		}
	}
	return
}

const ticksBits = 33

// ticks decides the conversions between ticks and durations.
func (c *ctx) ticks(rule string) {
	to, from := c.function("TicksToDuration"), c.function("DurationToTicks")
	maxTicks := new(big.Int).Sub(new(big.Int).Lsh(bigOne, ticksBits), bigOne)
	maxDur := new(big.Int).Div(new(big.Int).Mul(maxTicks, big.NewInt(100000)), big.NewInt(9))
	in := newInterp(c.p)
	in.noStrict = true
	st := newState()
	input := func(f *types.Func, max *big.Int) (*T, *affEnv) {
		x := mkSym("x", f.Type().(*types.Signature).Params().At(0).Type())
		st.K = st.K.with(mkIn(x, []ival{{bigZero, max}}), true)
		return x, &affEnv{map[*T]arange{x: {new(big.Rat), ratI(max)}}}
	}
	decide := func(name string, f *types.Func, t, x *T, a *affEnv, k, min, max *big.Rat, open string) {
		lo, hi := a.spread(t, x, k)
		if lo == nil {
			giveUp("no case of %s is possible", name)
		}
		ok := lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0 && (open == "low" || hi.Cmp(max) < 0) && (open == "high" || lo.Cmp(min) > 0)
		c.test(ok, rule, name, c.p.pos(f.Pos()), "the result differs from the exact value by between %s and %s", lo.FloatString(9), hi.FloatString(9))
		c.count("functions_analysed", 1)
	}
	switch rule {
	case "ticks-to-duration":
		x, a := input(to, maxTicks)
		r := c.runFn(in, st, to, nil, x)
		// exact value rounded down: -1 < error <= 0
		decide("TicksToDuration", to, restrict(r.val(0), st.K), x, a, ratF(100000, 9), ratNeg, new(big.Rat), "low")
	case "duration-to-ticks":
		x, a := input(from, maxDur)
		r := c.runFn(in, st, from, nil, x)
		// rounded up: 0 <= error < 1
		decide("DurationToTicks", from, restrict(r.val(0), st.K), x, a, ratF(9, 100000), new(big.Rat), ratOne, "high")
	case "round-trip":
		x, a := input(to, maxTicks)
		r := c.runFn(in, st, to, nil, x)
		s := c.runFn(in, r.st, from, nil, r.val(0))
		decide("DurationToTicks(TicksToDuration)", from, restrict(s.val(0), st.K), x, a, ratOne, ratNeg, ratOne, "")
	}
}

func init() {
	register(&check{id: "C32", level: "proof",
		rule: "TicksToDuration, DurationToTicks and their composition are evaluated abstractly on an arbitrary count of 33 bits and an arbitrary duration of that range; the affine form of the result (one noise symbol for each rounding) must stay above -1 and at most 0, at least 0 and below 1, and between -1 and 1 away from the exact value.",
		units: func(c *ctx) []aunit {
			var us []aunit
			for _, r := range []string{"ticks-to-duration", "duration-to-ticks", "round-trip"} {
				us = append(us, aunit{r, func(c *ctx) { c.ticks(r) }})
			}
			return us
		},
		minimum: map[string]int{"ticks-to-duration": 1, "duration-to-ticks": 1, "round-trip": 1}})
}
