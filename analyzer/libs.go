package main

// Further models of library functions.

import (
	"go/ast"
	"go/types"
	"math/big"
	"strings"
	"time"
)

func init() {
	lib := func(name string, f libFn) { libModels[name] = f }
	u8 := types.Typ[types.Uint8]
	boolT := types.Typ[types.Bool]
	byteSl := types.NewSlice(u8)

	room := func(l *libCall, d, n *T) {
		l.in.oblige(l.st, l.fr, "bounds", l.c.Pos(), leI(n, l.in.sliceLen(l.st, d)))
	}
	appendSeq := func(l *libCall, dst, s *T) *T { return l.in.appendTo(l.fr, l.st, dst, s, byteSl) }

	// ---- encoding/hex ----
	lib("encoding/hex.Encode", func(l *libCall) []*T {
		s := hexEnc(l.seq(1))
		room(l, l.arg(0), slen(s))
		l.in.copyTo(l.fr, l.st, l.arg(0), s, nil)
		return []*T{slen(s)}
	})
	lib("encoding/hex.AppendEncode", func(l *libCall) []*T { return []*T{appendSeq(l, l.arg(0), hexEnc(l.seq(1)))} })
	lib("encoding/hex.DecodedLen", func(l *libCall) []*T { return []*T{mkDiv(l.arg(0), big.NewInt(2))} })
	hexErr := func(l *libCall, i int, s, ok *T) *T { return mkIte(ok, tNil, mkApp("err:hex", l.res(i), s)) }
	lib("encoding/hex.Decode", func(l *libCall) []*T {
		s := l.seq(1)
		d, ok := hexDec(s)
		room(l, l.arg(0), mkDiv(slen(s), big.NewInt(2)))
		l.in.copyTo(l.fr, l.st, l.arg(0), d, nil)
		return []*T{slen(d), hexErr(l, 1, s, ok)}
	})
	lib("encoding/hex.AppendDecode", func(l *libCall) []*T {
		s := l.seq(1)
		d, ok := hexDec(s)
		return []*T{appendSeq(l, l.arg(0), d), hexErr(l, 1, s, ok)}
	})

	// ---- encoding/base64 ----
	const b64T = "(*encoding/base64.Encoding)."
	encLen := func(e string, n *T) *T {
		if strings.HasPrefix(e, "Raw") {
			return add(mulC(mkDiv(n, big.NewInt(3)), 4), mkDiv(add(mulC(modC(n, 3), 8), mkI(5)), big.NewInt(6)))
		}
		return mulC(mkDiv(add(n, mkI(2)), big.NewInt(3)), 4)
	}
	for _, e := range []string{"StdEncoding", "URLEncoding", "RawStdEncoding", "RawURLEncoding"} {
		e := e
		lenOf["b64enc:"+e] = func(t *T) *T { return encLen(e, slen(t.args[0])) }
	}
	b64Err := func(l *libCall, i int, s, ok *T) *T { return mkIte(ok, tNil, mkApp("err:b64", l.res(i), s)) }
	lib(b64T+"EncodedLen", func(l *libCall) []*T { return []*T{encLen(b64Name(l), l.arg(0))} })
	lib(b64T+"DecodedLen", func(l *libCall) []*T {
		if strings.HasPrefix(b64Name(l), "Raw") {
			return []*T{mkDiv(mulC(l.arg(0), 6), big.NewInt(8))}
		}
		return []*T{mulC(mkDiv(l.arg(0), big.NewInt(4)), 3)}
	})
	lib(b64T+"Encode", func(l *libCall) []*T {
		s := b64Enc(b64Name(l), l.seq(1))
		room(l, l.arg(0), slen(s))
		l.in.copyTo(l.fr, l.st, l.arg(0), s, nil)
		return nil
	})
	lib(b64T+"AppendEncode", func(l *libCall) []*T {
		return []*T{appendSeq(l, l.arg(0), b64Enc(b64Name(l), l.seq(1)))}
	})
	lib(b64T+"Decode", func(l *libCall) []*T {
		s := l.seq(1)
		d, ok := b64Dec(b64Name(l), s)
		room(l, l.arg(0), slen(d))
		l.in.copyTo(l.fr, l.st, l.arg(0), d, nil)
		return []*T{slen(d), b64Err(l, 1, s, ok)}
	})
	lib(b64T+"AppendDecode", func(l *libCall) []*T {
		s := l.seq(1)
		d, ok := b64Dec(b64Name(l), s)
		return []*T{appendSeq(l, l.arg(0), d), b64Err(l, 1, s, ok)}
	})

	// ---- suffixes, cuts, trims ----
	for _, pk := range []string{"strings", "bytes"} {
		pk := pk
		ret := func(l *libCall, s *T) *T {
			if pk == "bytes" {
				return l.bytes(s)
			}
			return s
		}
		suff := func(l *libCall) *T {
			return restrict(hasSuffix(l.seq(0), l.seq(1), l.st.K), l.st.K)
		}
		cutSuf := func(l *libCall) (*T, *T) {
			s, p := l.seq(0), l.seq(1)
			c := suff(l)
			K := l.st.K.with(c, true)
			if K.dead {
				return s, tFalse
			}
			return restrict(mkIte(c, subSeqK(s, tZero, sub(slen(s), slen(p)), K), s), l.st.K), c
		}
		lib(pk+".HasSuffix", func(l *libCall) []*T { return []*T{suff(l)} })
		lib(pk+".TrimSuffix", func(l *libCall) []*T { r, _ := cutSuf(l); return []*T{ret(l, r)} })
		lib(pk+".CutSuffix", func(l *libCall) []*T { r, c := cutSuf(l); return []*T{ret(l, r), c} })
		cutPre := func(l *libCall) (*T, *T) {
			s, p := l.seq(0), l.seq(1)
			c := restrict(hasPrefix(s, p, l.st.K), l.st.K)
			K := l.st.K.with(c, true)
			if K.dead {
				return s, tFalse
			}
			return restrict(mkIte(c, subSeqK(s, slen(p), sub(slen(s), slen(p)), K), s), l.st.K), c
		}
		lib(pk+".TrimPrefix", func(l *libCall) []*T { r, _ := cutPre(l); return []*T{ret(l, r)} })
		lib(pk+".CutPrefix", func(l *libCall) []*T { r, c := cutPre(l); return []*T{ret(l, r), c} })
		lib(pk+".Cut", func(l *libCall) []*T {
			s, p := l.seq(0), l.seq(1)
			if p.op != OBits || len(p.s) != 8 {
				return l.pure()
			}
			i := newIdx()
			f := mkFirst(slen(s), eqI(elem(s, i, u8), elem(p, tZero, u8)), i)
			c := restrict(ltI(f, slen(s)), l.st.K)
			K := l.st.K.with(c, true)
			if K.dead {
				return []*T{ret(l, s), ret(l, tEmpty), tFalse}
			}
			a := mkIte(c, subSeqK(s, tZero, f, K), s)
			b := mkIte(c, subSeqK(s, add(f, mkI(1)), sub(slen(s), add(f, mkI(1))), K), tEmpty)
			return []*T{ret(l, restrict(a, l.st.K)), ret(l, restrict(b, l.st.K)), c}
		})
		list := func(l *libCall) types.Type {
			if pk == "bytes" {
				return byteSl
			}
			return tString
		}
		// functions producing a list of strings
		for _, n := range []string{"SplitN", "SplitAfter", "SplitAfterN", "Fields"} {
			n := n
			if pk == "bytes" {
				continue
			}
			lib(pk+"."+n, func(l *libCall) []*T {
				as := []*T{}
				for i := range l.args {
					as = append(as, l.value(l.arg(i), l.sig.Params().At(i).Type()))
				}
				if n == "SplitN" && as[2].op == OInt && as[2].z.Sign() < 0 {
					return []*T{l.in.newSlice(l.st, list(l), seqOf(mkApp("split", types.NewSlice(tString), as[0], as[1])))}
				}
				return []*T{l.in.newSlice(l.st, list(l), seqOf(mkApp(strings.ToLower(n), types.NewSlice(tString), as...)))}
			})
		}
		lib(pk+".Map", func(l *libCall) []*T {
			return []*T{ret(l, mkApp("mapped", tString, l.seq(1), mkSym("runemap:"+l.in.runeMap(l.fr, l.st, l.arg(0), l.c), nil)))}
		})
		for _, n := range []string{"TrimFunc", "TrimLeftFunc", "TrimRightFunc"} {
			n := n
			lib(pk+"."+n, func(l *libCall) []*T {
				return []*T{ret(l, mkApp("trimfunc:"+n, tString, l.seq(0), mkSym("runes:"+l.in.runePredicate(l.fr, l.st, l.arg(1), l.c), nil)))}
			})
		}
		for _, n := range []string{"IndexFunc", "LastIndexFunc"} {
			n := n
			lib(pk+"."+n, func(l *libCall) []*T {
				return []*T{mkApp("indexfunc:"+n, types.Typ[types.Int], l.seq(0), mkSym("runes:"+l.in.runePredicate(l.fr, l.st, l.arg(1), l.c), nil))}
			})
		}
		lib(pk+".ContainsFunc", func(l *libCall) []*T {
			return []*T{leI(tZero, mkApp("indexfunc:IndexFunc", types.Typ[types.Int], l.seq(0), mkSym("runes:"+l.in.runePredicate(l.fr, l.st, l.arg(1), l.c), nil)))}
		})
	}
	lib("bytes.ReplaceAll", func(l *libCall) []*T {
		return []*T{l.bytes(mkApp("replace", tString, l.seq(0), l.seq(1), l.seq(2)))}
	})
	lib("bytes.Repeat", func(l *libCall) []*T {
		l.in.oblige(l.st, l.fr, "bounds", l.c.Pos(), leI(tZero, l.arg(1)))
		return []*T{l.bytes(mkMap(l.arg(1), l.seq(0), newIdx()))}
	})
	lib("bytes.NewBuffer", func(l *libCall) []*T {
		t := l.res(0).Underlying().(*types.Pointer).Elem()
		s := l.seq(0)
		return []*T{mkPtr(l.in.newCell(l.st, t, withField(l.in.zero(t), 0, s, t)))}
	})
	libModels["bytes.NewBufferString"] = libModels["bytes.NewBuffer"]
	// a concatenation of pieces known one by one
	join := libModels["strings.Join"]
	lib("strings.Join", func(l *libCall) []*T {
		s := l.seq(0)
		var out []*T
		for i, p := range parts(s) {
			if p.op != OUnit {
				return join(l)
			}
			if i > 0 {
				out = append(out, l.seq(1))
			}
			out = append(out, p.args[0])
		}
		return []*T{cat(out...)}
	})
	lib("strings.NewReplacer", func(l *libCall) []*T {
		return []*T{mkApp("nonnil:replacer", l.res(0), l.in.variadicElems(l.st, l.arg(0))...)}
	})
	nonNilApps["nonnil:replacer"] = true
	lib("(*strings.Replacer).Replace", func(l *libCall) []*T {
		r := l.recv
		if r.op == OApp && r.s == "nonnil:replacer" && len(r.args) == 2 {
			return []*T{mkApp("replace", tString, l.seq(0), r.args[0], r.args[1])}
		}
		return []*T{mkApp("replacer", tString, l.seq(0), r)}
	})

	// ---- slices ----
	oneOf := func(l *libCall) (*T, *T) {
		s := l.seq(0)
		x := l.arg(1)
		if !isIntT(x) && !isSeqT(x) {
			giveUp("search for %s", l.f.Name())
		}
		r, at := tFalse, mkI(-1)
		ps := parts(s)
		if s.op == OBits && len(s.s)%8 == 0 && len(s.s) < 8*64 {
			ps = nil
			for i := 0; i < len(s.s); i += 8 {
				ps = append(ps, unit(elem(s, mkI(int64(i/8)), u8), u8))
			}
		}
		for i := len(ps) - 1; i >= 0; i-- {
			if ps[i].op != OUnit {
				giveUp("%s in a list of unknown length", l.f.Name())
			}
			var e *T
			if isSeqT(x) {
				e = seqEq(ps[i].args[0], x)
			} else {
				e = eqI(ps[i].args[0], x)
			}
			r = or(e, r)
			at = mkIte(e, mkI(int64(i)), at)
		}
		return r, at
	}
	lib("slices.Contains", func(l *libCall) []*T { r, _ := oneOf(l); return []*T{restrict(r, l.st.K)} })
	lib("slices.Index", func(l *libCall) []*T { _, at := oneOf(l); return []*T{restrict(at, l.st.K)} })
	lib("slices.Grow", func(l *libCall) []*T {
		l.in.oblige(l.st, l.fr, "bounds", l.c.Pos(), leI(tZero, l.arg(1)))
		return []*T{l.arg(0)}
	})
	lib("slices.Clip", func(l *libCall) []*T { return []*T{l.arg(0)} })
	lib("slices.Concat", func(l *libCall) []*T {
		var all []*T
		for _, e := range l.in.variadicElems(l.st, l.arg(0)) {
			all = append(all, l.in.seqIn(l.st, e))
		}
		s := cat(all...)
		sl, ok := l.res(0).Underlying().(*types.Slice)
		if !ok {
			giveUp("slices.Concat of a named slice type")
		}
		v := l.in.newSlice(l.st, sl.Elem(), s)
		e := restrict(eqI(slen(s), tZero), l.st.K)
		switch e {
		case tFalse:
			return []*T{v}
		case tTrue:
			return []*T{tNil}
		}
		return []*T{mkSliceV(e, s)}
	})

	// ---- fmt, io ----
	lib("fmt.Appendf", func(l *libCall) []*T {
		s, _ := l.in.sprint(l.fr, l.st, l.arg(1), l.arg(2), l.c)
		return []*T{appendSeq(l, l.arg(0), s)}
	})
	lib("fmt.Append", func(l *libCall) []*T { return []*T{appendSeq(l, l.arg(0), l.sprintAll(l.arg(1)))} })
	lib("fmt.Appendln", func(l *libCall) []*T { return []*T{appendSeq(l, l.arg(0), l.sprintln(l.arg(1)))} })
	lib("io.WriteString", func(l *libCall) []*T {
		w := l.arg(0)
		s := l.seq(1)
		if w.op == OIface {
			if g := libWriters[w.typ.String()]; g != nil {
				m := *l
				m.recv = w.args[0]
				obj, _, _ := types.LookupFieldOrMethod(w.typ, true, nil, "WriteString")
				m.sig = obj.Type().(*types.Signature)
				g(&m, s)
				return []*T{slen(s), tNil}
			}
		}
		l.in.output(l.st, w, s)
		return []*T{slen(s), tNil}
	})
	lib("strconv.AppendQuote", func(l *libCall) []*T {
		return []*T{appendSeq(l, l.arg(0), mkApp("fmt:%q", tString, l.arg(1)))}
	})
	lib("unicode/utf8.AppendRune", func(l *libCall) []*T {
		r := l.arg(1)
		s := runeText(r)
		return []*T{appendSeq(l, l.arg(0), s)}
	})

	// ---- time ----
	lib("time.UnixMilli", func(l *libCall) []*T {
		return []*T{mkApp("time:unix", l.res(0), mkDiv(l.arg(0), big.NewInt(1000)), mulC(modC(l.arg(0), 1000), 1000000))}
	})
	isUTC := func(t *T) bool {
		for t.op == OPtr && len(t.args) == 1 || t.op == OIface || t.op == OBox {
			t = t.args[0]
		}
		return t.op == OSym && strings.HasPrefix(t.s, "global:time.UTC")
	}
	lib("time.Date", func(l *libCall) []*T {
		if !isUTC(l.arg(7)) {
			giveUp("time.Date in a location other than UTC: %s", l.arg(7))
		}
		var n [7]int
		for i := range n {
			if a := l.arg(i); a.op != OInt || !a.z.IsInt64() {
				giveUp("time.Date of %s", a)
			} else {
				n[i] = int(a.z.Int64())
			}
		}
		t := time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], time.UTC)
		return []*T{mkApp("time:utc", l.res(0), mkApp("time:unix", l.res(0), mkI(t.Unix()), mkI(int64(t.Nanosecond()))))}
	})
	lib("(time.Time).In", func(l *libCall) []*T {
		if !isUTC(l.arg(0)) {
			giveUp("time in a location other than UTC: %s", l.arg(0))
		}
		return libModels["(time.Time).UTC"](l)
	})
	lib("(time.Time).Add", func(l *libCall) []*T {
		// whole seconds
		r, utc := l.recv, false
		if r.op == OApp && r.s == "time:utc" {
			r, utc = r.args[0], true
		}
		d := l.arg(0)
		if m, ok := modOf(d, 1000000000); !ok || m.Sign() != 0 || r.op != OApp || r.s != "time:unix" {
			return []*T{mkApp("time:add", l.res(0), l.recv, d)}
		}
		t := mkApp("time:unix", l.res(0), add(r.args[0], exactDiv(d, 1000000000)), r.args[1])
		if utc {
			t = mkApp("time:utc", l.res(0), t)
		}
		return []*T{t}
	})
	lib("(time.Time).AppendFormat", func(l *libCall) []*T {
		return []*T{appendSeq(l, l.arg(0), mkApp("time:fmt", tString, l.recv, l.arg(1)))}
	})
	boolApps["hassuffix"] = true
	_ = boolT
}

func b64Name(l *libCall) string {
	r := l.recv
	if r.op == OSym {
		s, _, _ := strings.Cut(r.s, "\x00")
		return s[strings.LastIndexByte(s, '.')+1:]
	}
	giveUp("base64 encoding value")
	return ""
}

// hasSuffix compares a constant suffix element by element.
func hasSuffix(s, p *T, K *Facts) *T {
	if s.op == OIte {
		return mkIte(s.args[0], hasSuffix(s.args[1], p, K), hasSuffix(s.args[2], p, K))
	}
	n := slen(p)
	if n.op != OInt || n.i64() > 16 {
		return mkApp("hassuffix", types.Typ[types.Bool], s, p)
	}
	r := leI(n, slen(s))
	if r == tFalse {
		return r
	}
	K2 := K.with(r, true)
	if K2.dead {
		return tFalse
	}
	u8 := types.Typ[types.Uint8]
	from := sub(slen(s), n)
	for i := int64(0); i < n.i64(); i++ {
		r = and(r, eqI(elemK(s, add(from, mkI(i)), u8, K2), elemK(p, mkI(i), u8, K2)))
	}
	return r
}

// runeMap tabulates a mapping of runes that leaves the runes outside ASCII
// alone.
func (in *interp) runeMap(fr *frame, st *state, f *T, c *ast.CallExpr) string {
	var b strings.Builder
	in.rec++
	defer func() { in.rec-- }()
	for r := 0; r < 128; r++ {
		v := in.callValue(fr, st.clone(), f, []*T{mkI(int64(r))}, c)[0]
		if v.op != OInt {
			giveUp("rune mapping")
		}
		if v.i64() != int64(r) {
			b.WriteString(itoa(r) + ">" + itoa(int(v.i64())) + ",")
		}
	}
	x := freshSym("rune", types.Typ[types.Int32])
	s2 := st.clone()
	s2.K = s2.K.with(leI(mkI(128), x), true)
	if v := restrict(in.callValue(fr, s2, f, []*T{x}, c)[0], s2.K); v != x {
		giveUp("rune mapping of non-ASCII runes")
	}
	return b.String()
}

// modC is the remainder of a non-negative n.
func modC(n *T, k int64) *T { return sub(n, mulC(mkDiv(n, big.NewInt(k)), k)) }

func init() {
	// text of a single rune: one byte below 128
	appSimp["runestr"] = func(a []*T) *T { return runeText(a[0]) }
}

func runeText(v *T) *T {
	switch v.op {
	case OInt:
		if v.z.IsInt64() {
			return constStr(string(rune(v.i64())))
		}
	case OIte:
		return mkIte(v.args[0], runeText(v.args[1]), runeText(v.args[2]))
	}
	if lo, hi := rng(v); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(128)) < 0 {
		return bitF(v, 8)
	}
	return mkApp("runestr", tString, v)
}
