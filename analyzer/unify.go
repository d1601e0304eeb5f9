package main

import (
	"os"
	"sort"
)

// Two loops that compute the same value by differently arranged conditions are
// different terms. Where a comparison fails, the closed summaries of loops on
// either side are compared with each other, and equal ones made one, before it
// is tried again.

// eqUnify compares a and b under K, identifying equal loop summaries on demand.
func (e *eqCtx) eqUnify(a, b *T, K *Facts, depth int) bool {
	if e.eq(a, b, K) {
		return true
	}
	if depth <= 0 {
		return false
	}
	a2, b2, K2, changed := unify(a, b, K, depth)
	if !changed {
		return false
	}
	old := e.diff
	e.diff = ""
	if e.eq(a2, b2, K2) {
		return true
	}
	if e.diff == "" {
		e.diff = old
	}
	return false
}

func unify(a, b *T, K *Facts, depth int) (*T, *T, *Facts, bool) {
	in := map[*T]int{}
	var order []*T
	side := func(t *T, m int) {
		for _, x := range closedBinders(t) {
			if in[x] == 0 {
				order = append(order, x)
			}
			in[x] |= m
		}
	}
	side(a, 1)
	side(b, 2)
	if K != nil {
		for _, l := range K.lits {
			side(l.atom, 4)
		}
	}
	sort.SliceStable(order, func(i, j int) bool {
		if order[i].h != order[j].h {
			return order[i].h < order[j].h
		}
		return order[i].size < order[j].size
	})
	if os.Getenv("DEBUGUNIFY") != "" {
		for _, x := range order {
			println("binder", in[x], x.String())
		}
	}
	m := map[*T]*T{}
	n := 0
	for j, y := range order {
		for i, x := range order[:j] {
			_ = i
			if m[x] != nil || in[x] == in[y] && in[x] != 4 || in[x] == 3 && in[y] == 3 {
				continue
			}
			if x.op != y.op || x.n != y.n || x.s != y.s || len(x.args) != len(y.args) {
				continue
			}
			if n++; n > 300 {
				break
			}
			x2, y2 := substInner(x, m), substInner(y, m)
			if x2 == y2 || x2.op == y2.op && sameBinder(x2, y2, depth-1) {
				m[y] = x
				break
			}
		}
	}
	if os.Getenv("DEBUGUNIFY") != "" {
		println("unified", len(m), "of", len(order), "pairs", n)
	}
	if len(m) == 0 {
		return a, b, K, false
	}
	for y := range m {
		for m[m[y]] != nil {
			m[y] = m[m[y]]
		}
	}
	full := map[*T]*T{}
	for y, x := range m {
		full[y] = substInner(x, m)
	}
	if K != nil {
		K2 := K
		for _, l := range K.lits {
			if t := substN(l.atom, full); t != l.atom {
				K2 = K2.with(t, l.val)
			}
		}
		K = K2
	}
	return substN(a, full), substN(b, full), K, true
}

// substInner rewrites the parts of t, but not t itself.
func substInner(t *T, m map[*T]*T) *T {
	if m[t] == nil {
		return substN(t, m)
	}
	m2 := map[*T]*T{}
	for a, b := range m {
		if a != t {
			m2[a] = b
		}
	}
	return substN(t, m2)
}

var binderMemo = map[[3]int]bool{}

func sameBinder(x, y *T, depth int) bool {
	k := [3]int{x.id, y.id, depth}
	if r, ok := binderMemo[k]; ok {
		return r
	}
	binderMemo[k] = false
	binderMemo[k] = func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(undecided); !is {
					panic(r)
				}
				ok = false
			}
		}()
		e := newEq()
		e.max = 20000
		if x.op != y.op || x.n != y.n || x.s != y.s || len(x.args) != len(y.args) || !e.eqUnify(x.args[0], y.args[0], newFacts(), depth) {
			return false
		}
		if x.op == ORec {
			d, d2 := openRec(x), openRec(y)
			m := map[*T]*T{d2.idx: d.idx}
			for j := range d.vars {
				m[d2.vars[j]] = d.vars[j]
			}
			for j := range d.vars {
				if !e.eqUnify(d.inits[j], d2.inits[j], newFacts(), depth) {
					return false
				}
			}
			for j := range d.vars {
				if !e.eqUnify(d.steps[j], substN(d2.steps[j], m), newFacts(), depth) {
					return false
				}
			}
			return true
		}
		sym := newIdx()
		p, q := subst1(x.args[1], bvar(x.k, 0, nil), sym), subst1(y.args[1], bvar(y.k, 0, nil), sym)
		K := newFacts()
		if x.args[0] != inf() {
			K.add(ltI(sym, x.args[0]), true)
		}
		return e.eqUnify(p, q, K, depth)
	}()
	return binderMemo[k]
}

// closedBinders returns the loop summaries within t that stand on their own.
func closedBinders(t *T) []*T {
	var out []*T
	free := map[int]map[int]bool{}
	var f func(t *T) map[int]bool
	f = func(t *T) map[int]bool {
		if r, ok := free[t.id]; ok {
			return r
		}
		var r map[int]bool
		if t.op == OBV {
			r = map[int]bool{t.k: true}
		}
		for _, a := range t.args {
			for l := range f(a) {
				if r == nil {
					r = map[int]bool{}
				}
				r[l] = true
			}
		}
		switch t.op {
		case OMap, OSum, OAny, OFirst, ORec:
			l := t.k
			if t.op == ORec {
				l = recLevel(t)
			}
			if r[l] {
				n := map[int]bool{}
				for x := range r {
					if x != l {
						n[x] = true
					}
				}
				r = n
			}
			if len(r) == 0 {
				out = append(out, t)
			}
		}
		free[t.id] = r
		return r
	}
	f(t)
	return out
}
