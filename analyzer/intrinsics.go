package main

// Models of the library functions reachable from the module. A function
// without a model is an undecided obligation, never assumed harmless.

import (
	"encoding/base64"
	"encoding/hex"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

type libCall struct {
	in   *interp
	fr   *frame
	st   *state
	f    *types.Func
	sig  *types.Signature
	recv *T
	args []*T
	c    *ast.CallExpr
}

func (l *libCall) res(i int) types.Type { return l.sig.Results().At(i).Type() }

func (l *libCall) arg(i int) *T { return restrict(l.args[i], l.st.K) }

// seq is the byte or string content of argument i.
func (l *libCall) seq(i int) *T { return l.in.seqIn(l.st, l.arg(i)) }

func (l *libCall) bytes(s *T) *T { return l.in.newSlice(l.st, types.Typ[types.Uint8], s) }

type libFn func(*libCall) []*T

var libModels = map[string]libFn{}

func (in *interp) library(fr *frame, st *state, f *types.Func, recv *T, args []*T, c *ast.CallExpr) []*T {
	name := f.FullName()
	m := libModels[name]
	if x := in.models[name]; x != nil {
		m = x
	}
	l := &libCall{in, fr, st, f, f.Type().(*types.Signature), recv, args, c}
	if recv != nil {
		if _, ok := l.sig.Recv().Type().Underlying().(*types.Pointer); ok {
			in.notNil(st, fr, "nil", c.Pos(), recv)
			l.recv = restrict(recv, st.K)
		}
	}
	if m == nil {
		if pureLib(f) {
			return l.pure()
		}
		giveUp("no model of library function %s", name)
	}
	return m(l)
}

// pureLib: value-in value-out functions of packages without state.
func pureLib(f *types.Func) bool {
	if f.Pkg() == nil {
		return false
	}
	switch f.Pkg().Path() {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "bytes", "time", "encoding/hex", "encoding/base64", "unicode/utf16", "path", "path/filepath", "cmp":
	default:
		return false
	}
	sig := f.Type().(*types.Signature)
	val := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Slice:
			return isByteSeq(u) && f.Pkg().Path() != "encoding/hex"
		case *types.Struct:
			return t.String() == "time.Time"
		}
		return isError(t)
	}
	if sig.Recv() != nil && !val(sig.Recv().Type()) {
		return false
	}
	if strings.HasPrefix(f.Name(), "Append") || strings.HasPrefix(f.Name(), "Now") || strings.HasPrefix(f.Name(), "Put") {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !val(sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !val(sig.Results().At(i).Type()) {
			return false
		}
	}
	return sig.Results().Len() > 0
}

func (l *libCall) value(v *T, t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return l.in.seqIn(l.st, v)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return v
		}
	}
	return v
}

func (l *libCall) pure() []*T {
	var as []*T
	if l.recv != nil {
		as = append(as, l.value(l.recv, l.sig.Recv().Type()))
	}
	for i := range l.args {
		as = append(as, l.value(l.arg(i), l.sig.Params().At(i).Type()))
	}
	var out []*T
	for i := 0; i < l.sig.Results().Len(); i++ {
		n := "lib:" + l.f.FullName()
		if i > 0 {
			n += "#" + itoa(i)
		}
		t := l.res(i)
		v := mkApp(n, t, as...)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			v = l.in.newSlice(l.st, sl.Elem(), seqOf(v))
		}
		out = append(out, v)
	}
	return out
}

// ---- iobit ----

const (
	rdT = "github.com/bamiaux/iobit.Reader"
	wrT = "github.com/bamiaux/iobit.Writer"
)

func libGlobal(path, name string) *T {
	return mkSym("global:"+path+"."+name, types.Universe.Lookup("error").Type())
}

func iobitErr(name string) *T { return libGlobal("github.com/bamiaux/iobit", name) }

func (l *libCall) reader() (obj, src, idx, size *T) {
	obj = l.in.load(l.st, l.recv)
	t := l.sig.Recv().Type().Underlying().(*types.Pointer).Elem()
	src, idx = field(obj, 0, t), field(obj, 1, t)
	return obj, src, idx, l.in.sliceLen(l.st, src)
}

func (l *libCall) setIdx(idx *T) {
	t := l.sig.Recv().Type().Underlying().(*types.Pointer).Elem()
	obj := l.in.load(l.st, l.recv)
	l.in.store(l.st, l.recv, withField(obj, 1, restrict(idx, l.st.K), t))
}

func (l *libCall) readBits(bits *T) *T {
	_, src, idx, _ := l.reader()
	bits = restrict(bits, l.st.K)
	var v *T
	s := l.in.seqIn(l.st, src)
	if bits.op == OInt && bits.i64() >= 1 && bits.i64() <= 64 {
		v = mkRd(s, idx, int(bits.i64()))
	} else if bits.op == OIte {
		return mkIte(bits.args[0], l.readBitsAt(s, idx, bits.args[1]), l.readBitsAt(s, idx, bits.args[2]))
	} else {
		v = mkApp("rdvar", types.Typ[types.Uint64], s, idx, bits)
	}
	l.setIdx(add(idx, bits))
	return v
}

func (l *libCall) readBitsAt(s, idx, bits *T) *T {
	if bits.op == OInt && bits.i64() >= 1 && bits.i64() <= 64 {
		l.setIdx(add(idx, bits))
		return mkRd(s, idx, int(bits.i64()))
	}
	giveUp("variable-width read")
	return nil
}

// leftBits is max(0, 8·size − idx).
func leftBits(idx, size *T, K *Facts) *T {
	d := sub(mulC(size, 8), idx)
	return restrict(mkIte(leI(tZero, d), d, tZero), K)
}

func (l *libCall) leftBytes() (v, n *T) {
	_, src, idx, size := l.reader()
	skip := mkDiv(idx, big.NewInt(8))
	over := restrict(leI(size, skip), l.st.K)
	n = restrict(mkIte(over, tZero, sub(size, skip)), l.st.K)
	t := types.NewSlice(types.Typ[types.Uint8])
	if over == tTrue {
		return mkSliceV(tFalse, tEmpty), tZero
	}
	a := l.in.reslice(l.st, src, skip, size, t)
	if over == tFalse {
		return a, n
	}
	// out of range: an empty slice
	return mkIte(over, l.in.reslice(l.st, src, tZero, tZero, t), a), n
}

func (l *libCall) takeBytes(n *T) *T {
	v, left := l.leftBytes()
	l.in.oblige(l.st, l.fr, "bounds", l.c.Pos(), leI(tZero, n))
	n = restrict(n, l.st.K)
	// at most the remaining bytes
	_, _, idx, size := l.reader()
	k := restrict(mkIte(leI(n, left), n, left), l.st.K)
	if k.ites || k == left && left != n {
		skip := mkDiv(idx, big.NewInt(8))
		all := mkIte(leI(size, skip), tZero, sub(size, skip))
		k = mkDef(mkIte(leI(n, all), n, all))
	}
	l.setIdx(add(idx, mulC(k, 8)))
	t := types.NewSlice(types.Typ[types.Uint8])
	return l.in.reslice(l.st, restrict(v, l.st.K), tZero, k, t)
}

func (l *libCall) writer() (dst, bits *T) {
	obj := l.in.load(l.st, l.recv)
	t := l.sig.Recv().Type().Underlying().(*types.Pointer).Elem()
	return field(obj, 0, t), field(obj, 1, t)
}

func (l *libCall) setBits(b *T) {
	t := l.sig.Recv().Type().Underlying().(*types.Pointer).Elem()
	obj := l.in.load(l.st, l.recv)
	l.in.store(l.st, l.recv, withField(obj, 1, b, t))
}

func (l *libCall) put(v *T, w *T) []*T {
	w = restrict(w, l.st.K)
	_, b := l.writer()
	switch w.op {
	case OInt:
		n := w.i64()
		if n == 0 {
			return nil
		}
		if n < 0 || n > 64 {
			giveUp("write of %d bits", n)
		}
		l.setBits(cat(b, bitF(v, int(n))))
	case OIte:
		if w.args[1].op == OInt && w.args[2].op == OInt {
			l.setBits(cat(b, mkIte(w.args[0], bitF(v, int(w.args[1].i64())), bitF(v, int(w.args[2].i64())))))
			return nil
		}
		giveUp("write of variable width")
	default:
		l.setBits(cat(b, mkApp("bitsvar", types.NewSlice(types.Typ[types.Uint8]), v, w)))
		giveUp("write of variable width")
	}
	return nil
}

// clipped are the bytes that reach a destination of the given size the bits do
// not fit into. Bytes are written as far as there is room for them, it is less
// clear for bit fields.
func clipped(b, size *T, K *Facts) *T {
	at := tZero
	ps := parts(b)
	for i, p := range ps {
		if i == len(ps)-1 && p.op != OBits && p.op != OBitF &&
			restrict(eqI(mkWrap(at, 3, false), tZero), K) == tTrue && restrict(leI(at, mulC(size, 8)), K) == tTrue {
			return subSeqK(b, tZero, size, K)
		}
		at = add(at, blen(p))
	}
	return mkApp("clippedbits", types.NewSlice(types.Typ[types.Uint8]), b, size)
}

// flush stores the written bits into the destination.
func (l *libCall) flush() *T {
	dst, b := l.writer()
	in, st := l.in, l.st
	b = restrict(b, st.K)
	n := blen(b)
	size := in.sliceLen(st, dst)
	fit := restrict(leI(n, mulC(size, 8)), st.K)
	if fit.op != OBool && in.assumeFit(fitWriter{l.recv, l.sig.Recv().Type().Underlying().(*types.Pointer).Elem()}) {
		fit = tTrue
	}
	aligned := restrict(eqI(mkWrap(n, 3, false), tZero), st.K)
	// store
	full := restrict(eqI(n, mulC(size, 8)), st.K)
	whole := func(K *Facts) *T {
		if aligned == tTrue || full == tTrue {
			return b
		}
		return mkIte(aligned, b, mkApp("partialbits", types.NewSlice(types.Typ[types.Uint8]), b))
	}
	var store func(d *T)
	store = func(d *T) {
		switch d.op {
		case OSlice:
			ptr, off := d.args[0], d.args[1]
			base := in.load(st, ptr)
			var nb *T
			if off == tZero && full == tTrue && slen(base) == size {
				nb = b
			} else {
				bl := mkDiv(n, big.NewInt(8))
				part := func(K *Facts) *T {
					k := restrict(bl, K)
					return cat(subSeqK(base, tZero, off, K), whole(K), subSeqK(base, add(off, k), sub(slen(base), add(off, k)), K))
				}
				over := func(K *Facts) *T {
					return cat(subSeqK(base, tZero, off, K), clipped(b, size, K), subSeqK(base, add(off, size), sub(slen(base), add(off, size)), K))
				}
				switch fit {
				case tTrue:
					nb = part(st.K)
				case tFalse:
					nb = over(st.K)
				default:
					Kf := st.K.with(fit, true)
					eq := restrict(full, Kf)
					if off == tZero && slen(base) == size && eq != tFalse {
						nb = mkIte(fit, mkIte(eq, b, part(Kf.with(eq, false))), over(st.K.with(fit, false)))
					} else {
						nb = mkIte(fit, part(Kf), over(st.K.with(fit, false)))
					}
				}
			}
			in.store(st, ptr, nb)
		case OIte:
			giveUp("writer over one of several buffers")
		case OSliceV, ONil:
			if restrict(eqI(size, tZero), st.K) == tTrue {
				return
			}
			giveUp("writer over a frozen buffer")
		default:
			store(mkSlice(mkPtr(in.symCell(st, d)), tZero, in.sliceLen(st, d), d.typ))
		}
	}
	store(dst)
	tail := leI(add(mkDiv(n, big.NewInt(8)), mkWrap(n, 3, false)), size)
	return restrict(mkIte(fit, mkIte(aligned, tNil, mkIte(tail, iobitErr("ErrUnderflow"), iobitErr("ErrOverflow"))), iobitErr("ErrOverflow")), st.K)
}

func init() {
	u64 := types.Typ[types.Uint64]
	_ = u64
	lib := func(name string, f libFn) { libModels[name] = f }
	rd := func(name string, f libFn) { lib("(*"+rdT+")."+name, f) }
	wr := func(name string, f libFn) { lib("(*"+wrT+")."+name, f) }

	lib("github.com/bamiaux/iobit.NewReader", func(l *libCall) []*T {
		return []*T{intern(&T{op: OStruct, s: typeKey(l.res(0)), typ: l.res(0), args: []*T{l.arg(0), tZero}})}
	})
	lib("github.com/bamiaux/iobit.NewWriter", func(l *libCall) []*T {
		return []*T{intern(&T{op: OStruct, s: typeKey(l.res(0)), typ: l.res(0), args: []*T{l.arg(0), tEmpty}})}
	})
	rd("Bit", func(l *libCall) []*T { return []*T{not(eqI(l.readBits(tOne), tZero))} })
	for _, n := range []string{"Uint8", "Uint16", "Uint32", "Uint64"} {
		n := n
		rd(n, func(l *libCall) []*T {
			w, s, _ := intType(l.res(0))
			return []*T{mkWrap(l.readBits(l.arg(0)), w, s)}
		})
	}
	for n, w := range map[string]int64{"Byte": 8, "Be16": 16, "Be32": 32, "Be64": 64} {
		w := w
		rd(n, func(l *libCall) []*T { return []*T{l.readBits(mkI(w))} })
	}
	for n, w := range map[string]int{"Le16": 16, "Le32": 32, "Le64": 64} {
		w := w
		rd(n, func(l *libCall) []*T {
			r := tZero
			for i := 0; i < w; i += 8 {
				r = addMul(r, new(big.Int).Lsh(bigOne, uint(i)), l.readBits(mkI(8)))
			}
			return []*T{r}
		})
	}
	for _, n := range []string{"Int8", "Int16", "Int32", "Int64"} {
		rd(n, func(l *libCall) []*T {
			b := l.arg(0)
			if b.op != OInt {
				giveUp("variable-width read")
			}
			return []*T{mkWrap(l.readBits(b), int(b.i64()), true)}
		})
	}
	rd("Skip", func(l *libCall) []*T {
		_, _, idx, _ := l.reader()
		l.setIdx(add(idx, l.arg(0)))
		return nil
	})
	rd("At", func(l *libCall) []*T { _, _, idx, _ := l.reader(); return []*T{idx} })
	rd("Reset", func(l *libCall) []*T { l.setIdx(tZero); return nil })
	rd("LeftBits", func(l *libCall) []*T {
		_, _, idx, size := l.reader()
		return []*T{leftBits(idx, size, l.st.K)}
	})
	rd("LeftBytes", func(l *libCall) []*T { v, _ := l.leftBytes(); return []*T{v} })
	rd("Bytes", func(l *libCall) []*T { return []*T{l.takeBytes(l.arg(0))} })
	rd("String", func(l *libCall) []*T { return []*T{l.in.seqIn(l.st, l.takeBytes(l.arg(0)))} })
	rd("Peek", func(l *libCall) []*T {
		return []*T{mkPtr(l.in.newCell(l.st, l.sig.Recv().Type().Underlying().(*types.Pointer).Elem(), l.in.load(l.st, l.recv)))}
	})
	rd("Error", func(l *libCall) []*T {
		_, _, idx, size := l.reader()
		return []*T{restrict(mkIte(leI(idx, mulC(size, 8)), tNil, iobitErr("ErrOverflow")), l.st.K)}
	})

	for _, n := range []string{"PutUint8", "PutUint16", "PutUint32", "PutUint64", "PutInt8", "PutInt16", "PutInt32", "PutInt64"} {
		wr(n, func(l *libCall) []*T { return l.put(l.arg(1), l.arg(0)) })
	}
	wr("PutBit", func(l *libCall) []*T { return l.put(mkIte(l.arg(0), tOne, tZero), tOne) })
	for n, w := range map[string]int64{"PutByte": 8, "PutBe16": 16, "PutBe32": 32, "PutBe64": 64} {
		w := w
		wr(n, func(l *libCall) []*T { return l.put(l.arg(0), mkI(w)) })
	}
	for n, w := range map[string]int{"PutLe16": 16, "PutLe32": 32, "PutLe64": 64} {
		w := w
		wr(n, func(l *libCall) []*T {
			for i := 0; i < w; i += 8 {
				l.put(mkDiv(l.arg(0), new(big.Int).Lsh(bigOne, uint(i))), mkI(8))
			}
			return nil
		})
	}
	wr("Flush", func(l *libCall) []*T { return []*T{l.flush()} })
	wr("Write", func(l *libCall) []*T {
		err := l.flush()
		p := l.seq(0)
		return l.in.forkEv(l.st, isNil(err), func(s *state) []*T {
			m := *l
			m.st = s
			_, b := m.writer()
			m.setBits(cat(b, p))
			e := m.flush()
			n := mkIte(isNil(e), slen(p), mkApp("written", types.Typ[types.Int], p))
			return []*T{n, e}
		}, func(s *state) []*T { return []*T{tZero, restrict(err, s.K)} })
	})
	wr("Index", func(l *libCall) []*T { _, b := l.writer(); return []*T{blen(b)} })
	wr("Bits", func(l *libCall) []*T {
		d, b := l.writer()
		return []*T{leftBits(blen(b), l.in.sliceLen(l.st, d), l.st.K)}
	})
	wr("Reset", func(l *libCall) []*T { l.setBits(tEmpty); return nil })

	// ---- builders ----
	bld := func(typ string) {
		get := func(l *libCall) (*T, types.Type) {
			t := l.sig.Recv().Type().Underlying().(*types.Pointer).Elem()
			return field(l.in.load(l.st, l.recv), 0, t), t
		}
		addTo := func(l *libCall, s *T) {
			b, t := get(l)
			l.in.store(l.st, l.recv, withField(l.in.load(l.st, l.recv), 0, cat(b, s), t))
		}
		p := "(*" + typ + ")."
		lib(p+"WriteString", func(l *libCall) []*T { addTo(l, l.seq(0)); return []*T{slen(l.seq(0)), tNil} })
		lib(p+"Write", func(l *libCall) []*T { addTo(l, l.seq(0)); return []*T{slen(l.seq(0)), tNil} })
		lib(p+"WriteByte", func(l *libCall) []*T { addTo(l, bitF(l.arg(0), 8)); return []*T{tNil} })
		lib(p+"WriteRune", func(l *libCall) []*T {
			r := l.arg(0)
			s := runeText(r)
			addTo(l, s)
			return []*T{slen(s), tNil}
		})
		lib(p+"String", func(l *libCall) []*T { b, _ := get(l); return []*T{b} })
		lib(p+"Len", func(l *libCall) []*T { b, _ := get(l); return []*T{slen(b)} })
		lib(p+"Grow", func(l *libCall) []*T { return nil })
		lib(p+"Bytes", func(l *libCall) []*T { b, _ := get(l); return []*T{l.bytes(b)} })
		lib(p+"Reset", func(l *libCall) []*T {
			_, t := get(l)
			l.in.store(l.st, l.recv, withField(l.in.load(l.st, l.recv), 0, tEmpty, t))
			return nil
		})
		libWriters["*"+typ] = addTo
	}
	bld("strings.Builder")
	bld("bytes.Buffer")
	fprint := func(f func(l *libCall, packed *T) *T) libFn {
		return func(l *libCall) []*T {
			w := l.arg(0)
			if w.op == OIface {
				if g := libWriters[w.typ.String()]; g != nil {
					s := f(l, l.arg(len(l.args)-1))
					m := *l
					m.recv = w.args[0]
					obj, _, _ := types.LookupFieldOrMethod(w.typ, true, nil, "WriteString")
					m.sig = obj.Type().(*types.Signature)
					g(&m, s)
					return []*T{slen(s), tNil}
				}
			}
			s := f(l, l.arg(len(l.args)-1))
			l.in.output(l.st, w, s)
			return []*T{slen(s), tNil}
		}
	}
	lib("fmt.Fprintf", fprint(func(l *libCall, p *T) *T { s, _ := l.in.sprint(l.fr, l.st, l.arg(1), p, l.c); return s }))
	lib("fmt.Fprintln", fprint(func(l *libCall, p *T) *T { return l.sprintln(p) }))
	lib("fmt.Fprint", fprint(func(l *libCall, p *T) *T { return l.sprintAll(p) }))
	stdout := func(f func(l *libCall, packed *T) *T) libFn {
		return func(l *libCall) []*T {
			s := f(l, l.arg(len(l.args)-1))
			l.in.output(l.st, mkIface(types.Typ[types.Int], mkSym("global:os.Stdout", nil)), s)
			return []*T{slen(s), tNil}
		}
	}
	lib("fmt.Printf", stdout(func(l *libCall, p *T) *T { s, _ := l.in.sprint(l.fr, l.st, l.arg(0), p, l.c); return s }))
	lib("fmt.Println", stdout(func(l *libCall, p *T) *T { return l.sprintln(p) }))
	lib("fmt.Print", stdout(func(l *libCall, p *T) *T { return l.sprintAll(p) }))
	lib("fmt.Sprintf", func(l *libCall) []*T {
		s, _ := l.in.sprint(l.fr, l.st, l.arg(0), l.arg(1), l.c)
		return []*T{s}
	})
	lib("fmt.Sprint", func(l *libCall) []*T { return []*T{l.sprintAll(l.arg(0))} })
	lib("fmt.Sprintln", func(l *libCall) []*T { return []*T{l.sprintln(l.arg(0))} })
	lib("fmt.Errorf", func(l *libCall) []*T {
		// the text of an error is not observed, its chain is
		f := l.arg(0)
		if f.op == OBits {
			s := bitsToBytes(f.s)
			if strings.Count(s, "%w") == 0 {
				return []*T{mkErr()}
			}
			var ws []*T
			k := 0
			es := l.in.variadicElems(l.st, l.arg(1))
			for i := 0; i < len(s); i++ {
				if s[i] != '%' {
					continue
				}
				i++
				for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
					i++
				}
				if i >= len(s) || s[i] == '%' {
					continue
				}
				if s[i] == 'w' {
					if k >= len(es) {
						giveUp("missing %%w argument")
					}
					ws = append(ws, es[k])
				}
				k++
			}
			return []*T{mkErr(ws...)}
		}
		_, w := l.in.sprint(l.fr, l.st, f, l.arg(1), l.c)
		return []*T{mkErr(w...)}
	})
	lib("errors.New", func(l *libCall) []*T { return []*T{mkErr()} })
	lib("errors.Is", func(l *libCall) []*T { return []*T{restrict(l.in.errorIs(l.st, l.arg(0), l.arg(1)), l.st.K)} })
	lib("errors.Join", func(l *libCall) []*T {
		es := l.in.variadicElems(l.st, l.arg(0))
		all := tTrue
		for _, e := range es {
			all = and(all, isNil(e))
		}
		return []*T{mkIte(all, tNil, mkErr(es...))}
	})
	lib("errors.Unwrap", func(l *libCall) []*T {
		e := l.arg(0)
		if e.op == OApp && e.s == "err:wrap" && len(e.args) == 1 {
			return []*T{e.args[0]}
		}
		giveUp("errors.Unwrap")
		return nil
	})

	// ---- strconv ----
	lib("strconv.Itoa", func(l *libCall) []*T { return []*T{decText(l.arg(0))} })
	fmtBase := func(l *libCall) []*T {
		b := l.arg(1)
		if b.op == OInt {
			switch b.i64() {
			case 10:
				return []*T{decText(l.arg(0))}
			case 16:
				return []*T{numText("%x", l.arg(0))}
			case 2:
				return []*T{numText("%b", l.arg(0))}
			case 8:
				return []*T{numText("%o", l.arg(0))}
			}
		}
		return l.pure()
	}
	lib("strconv.FormatInt", fmtBase)
	lib("strconv.FormatUint", fmtBase)
	lib("strconv.FormatBool", func(l *libCall) []*T { return []*T{boolText(l.arg(0))} })
	lib("strings.ToUpper", func(l *libCall) []*T {
		if u := upperText(l.seq(0)); u != nil {
			return []*T{u}
		}
		return []*T{mkApp("lib:strings.ToUpper", tString, l.seq(0))}
	})
	lib("strconv.Quote", func(l *libCall) []*T { return []*T{mkApp("fmt:%q", tString, l.arg(0))} })
	app := func(base func(l *libCall) *T) libFn {
		return func(l *libCall) []*T {
			return []*T{l.in.appendTo(l.fr, l.st, l.arg(0), base(l), types.NewSlice(types.Typ[types.Uint8]))}
		}
	}
	shift := func(l *libCall) *libCall { m := *l; m.args = l.args[1:]; return &m }
	lib("strconv.AppendInt", app(func(l *libCall) *T { return fmtBase(shift(l))[0] }))
	lib("strconv.AppendUint", app(func(l *libCall) *T { return fmtBase(shift(l))[0] }))
	lib("strconv.AppendBool", app(func(l *libCall) *T { return boolText(l.arg(1)) }))

	// ---- encodings ----
	lib("encoding/hex.EncodeToString", func(l *libCall) []*T { return []*T{hexEnc(l.seq(0))} })
	lib("encoding/hex.DecodeString", func(l *libCall) []*T {
		s := l.seq(0)
		d, ok := hexDec(s)
		return []*T{l.bytes(d), mkIte(ok, tNil, mkApp("err:hex", l.res(1), s))}
	})
	lib("encoding/hex.EncodedLen", func(l *libCall) []*T { return []*T{mulC(l.arg(0), 2)} })
	b64 := func(l *libCall) string {
		r := l.recv
		if r.op == OSym {
			s, _, _ := strings.Cut(r.s, "\x00")
			return s[strings.LastIndexByte(s, '.')+1:]
		}
		giveUp("base64 encoding value")
		return ""
	}
	lib("(*encoding/base64.Encoding).EncodeToString", func(l *libCall) []*T { return []*T{b64Enc(b64(l), l.seq(0))} })
	lib("(*encoding/base64.Encoding).DecodeString", func(l *libCall) []*T {
		e := b64(l)
		s := l.seq(0)
		d, ok := b64Dec(e, s)
		return []*T{l.bytes(d), mkIte(ok, tNil, mkApp("err:b64", l.res(1), s))}
	})
	putBe := func(w int, le bool) libFn {
		return func(l *libCall) []*T {
			d := l.arg(0)
			n := l.in.sliceLen(l.st, d)
			l.in.oblige(l.st, l.fr, "bounds", l.c.Pos(), leI(mkI(int64(w/8)), n))
			v := bitF(l.arg(1), w)
			if le {
				v = leBytes(l.arg(1), w)
			}
			l.in.copyTo(l.fr, l.st, d, v, nil)
			return nil
		}
	}
	getBe := func(w int, le bool) libFn {
		return func(l *libCall) []*T {
			d := l.arg(0)
			l.in.oblige(l.st, l.fr, "bounds", l.c.Pos(), leI(mkI(int64(w/8)), l.in.sliceLen(l.st, d)))
			s := l.in.seqIn(l.st, d)
			r := tZero
			for i := 0; i < w/8; i++ {
				sh := uint(w - 8 - 8*i)
				if le {
					sh = uint(8 * i)
				}
				r = addMul(r, new(big.Int).Lsh(bigOne, sh), elemK(s, mkI(int64(i)), types.Typ[types.Uint8], l.st.K))
			}
			return []*T{r}
		}
	}
	for _, w := range []int{16, 32, 64} {
		n := itoa(w)
		w := w
		lib("(encoding/binary.bigEndian).PutUint"+n, putBe(w, false))
		lib("(encoding/binary.littleEndian).PutUint"+n, putBe(w, true))
		lib("(encoding/binary.bigEndian).Uint"+n, getBe(w, false))
		lib("(encoding/binary.littleEndian).Uint"+n, getBe(w, true))
		lib("(encoding/binary.bigEndian).AppendUint"+n, app(func(l *libCall) *T { return bitF(l.arg(1), w) }))
		lib("(encoding/binary.littleEndian).AppendUint"+n, app(func(l *libCall) *T { return leBytes(l.arg(1), w) }))
	}

	// ---- bytes / strings / slices ----
	clone := func(l *libCall) []*T {
		v := l.arg(0)
		s := l.in.seqIn(l.st, v)
		n := restrict(isNil(v), l.st.K)
		if n == tFalse {
			return []*T{l.bytes(s)}
		}
		return []*T{mkSliceV(n, s)}
	}
	lib("bytes.Clone", clone)
	lib("slices.Clone", func(l *libCall) []*T {
		v := l.arg(0)
		return []*T{mkSliceV(isNil(v), l.in.seqIn(l.st, v))}
	})
	lib("bytes.Equal", func(l *libCall) []*T { return []*T{restrict(seqEq(l.seq(0), l.seq(1)), l.st.K)} })
	lib("slices.Equal", func(l *libCall) []*T { return []*T{restrict(seqEq(l.seq(0), l.seq(1)), l.st.K)} })
	lib("slices.Concat", nil)
	delete(libModels, "slices.Concat")
	lib("strings.Clone", func(l *libCall) []*T { return []*T{l.arg(0)} })
	lib("strings.Repeat", func(l *libCall) []*T {
		l.in.oblige(l.st, l.fr, "bounds", l.c.Pos(), leI(tZero, l.arg(1)))
		i := newIdx()
		return []*T{mkMap(l.arg(1), l.seq(0), i)}
	})
	pref := func(l *libCall) *T {
		s, p := l.seq(0), l.seq(1)
		return restrict(hasPrefix(s, p, l.st.K), l.st.K)
	}
	lib("strings.HasPrefix", func(l *libCall) []*T { return []*T{pref(l)} })
	lib("bytes.HasPrefix", func(l *libCall) []*T { return []*T{pref(l)} })
	cut := func(l *libCall) (*T, *T) {
		s, p := l.seq(0), l.seq(1)
		c := pref(l)
		K := l.st.K.with(c, true)
		if K.dead {
			return s, tFalse
		}
		return restrict(mkIte(c, subSeqK(s, slen(p), sub(slen(s), slen(p)), K), s), l.st.K), c
	}
	lib("strings.TrimPrefix", func(l *libCall) []*T { r, _ := cut(l); return []*T{r} })
	lib("strings.CutPrefix", func(l *libCall) []*T { r, c := cut(l); return []*T{r, c} })
	// the first position holding a given byte
	find := func(s, b *T) *T {
		i := newIdx()
		return mkFirst(slen(s), eqI(elem(s, i, types.Typ[types.Uint8]), b), i)
	}
	holds := func(s, f *T) *T { return ltI(f, slen(s)) }
	cont := func(l *libCall) []*T {
		s, p := l.seq(0), l.seq(1)
		if p.op == OBits && len(p.s) == 8 {
			return []*T{holds(s, find(s, elem(p, tZero, types.Typ[types.Uint8])))}
		}
		return []*T{mkApp("contains", types.Typ[types.Bool], s, p)}
	}
	lib("bytes.Contains", cont)
	lib("strings.Contains", cont)
	index := func(l *libCall) []*T {
		s, b := l.seq(0), l.arg(1)
		if isSeqT(b) {
			b = l.seq(1)
			if b.op != OBits || len(b.s) != 8 {
				return l.pure()
			}
			b = elem(b, tZero, types.Typ[types.Uint8])
		}
		f := find(s, b)
		return []*T{mkIte(holds(s, f), f, mkI(-1))}
	}
	lib("bytes.IndexByte", index)
	lib("strings.IndexByte", index)
	lib("bytes.Index", func(l *libCall) []*T {
		s, p := l.seq(0), l.seq(1)
		if p.op != OBits || len(p.s) != 8 {
			return l.pure()
		}
		f := find(s, elem(p, tZero, types.Typ[types.Uint8]))
		return []*T{mkIte(holds(s, f), f, mkI(-1))}
	})
	lib("strings.Index", index)
	runeIn := func(l *libCall) *T {
		r := l.arg(1)
		if r.op == OInt && r.i64() >= 0 && r.i64() < 128 {
			return find(l.seq(0), r)
		}
		return nil
	}
	for _, pk := range []string{"strings", "bytes"} {
		lib(pk+".ContainsRune", func(l *libCall) []*T {
			if f := runeIn(l); f != nil {
				return []*T{holds(l.seq(0), f)}
			}
			return l.pure()
		})
		lib(pk+".IndexRune", func(l *libCall) []*T {
			if f := runeIn(l); f != nil {
				return []*T{mkIte(holds(l.seq(0), f), f, mkI(-1))}
			}
			return l.pure()
		})
	}
	lib("strings.ReplaceAll", func(l *libCall) []*T { return []*T{mkApp("replace", tString, l.seq(0), l.seq(1), l.seq(2))} })
	lib("strings.Replace", func(l *libCall) []*T {
		if n := l.arg(3); n.op == OInt && n.z.Sign() < 0 {
			return []*T{mkApp("replace", tString, l.seq(0), l.seq(1), l.seq(2))}
		}
		return l.pure()
	})
	lib("strings.TrimSpace", func(l *libCall) []*T { return []*T{mkApp("trimspace", tString, l.seq(0))} })
	lib("bytes.TrimSpace", func(l *libCall) []*T { return []*T{l.bytes(mkApp("trimspace", tString, l.seq(0)))} })
	fieldsFunc := func(l *libCall) []*T {
		// the predicate is described by the bytes it accepts
		set := l.in.runePredicate(l.fr, l.st, l.arg(1), l.c)
		v := mkApp("fields", types.NewSlice(tString), l.seq(0), mkSym("runes:"+set, nil))
		return []*T{l.in.newSlice(l.st, tString, seqOf(v))}
	}
	lib("strings.FieldsFunc", fieldsFunc)
	lib("strings.Join", func(l *libCall) []*T { return []*T{mkApp("join", tString, l.seq(0), l.seq(1))} })
	lib("strings.Split", func(l *libCall) []*T {
		return []*T{l.in.newSlice(l.st, tString, seqOf(mkApp("split", types.NewSlice(tString), l.seq(0), l.seq(1))))}
	})

	// ---- time ----
	lib("time.Unix", func(l *libCall) []*T { return []*T{mkApp("time:unix", l.res(0), l.arg(0), l.arg(1))} })
	lib("(time.Time).UTC", func(l *libCall) []*T {
		if r := l.recv; r.op == OApp && r.s == "time:utc" {
			return []*T{r}
		}
		return []*T{mkApp("time:utc", l.res(0), l.recv)}
	})
	lib("(time.Time).Unix", func(l *libCall) []*T {
		r := l.recv
		for r.op == OApp && r.s == "time:utc" {
			r = r.args[0]
		}
		if r.op == OApp && r.s == "time:unix" && r.args[1] == tZero {
			return []*T{r.args[0]}
		}
		return []*T{mkApp("time:secs", types.Typ[types.Int64], r)}
	})
	lib("(time.Time).Format", func(l *libCall) []*T { return []*T{mkApp("time:fmt", tString, l.recv, l.arg(0))} })
	lib("(time.Time).String", func(l *libCall) []*T { return []*T{mkApp("time:fmt", tString, l.recv, constStr("String"))} })
	lib("(time.Duration).String", func(l *libCall) []*T { return []*T{mkApp("dur:text", tString, l.recv)} })
	lib("(time.Time).IsZero", func(l *libCall) []*T { return []*T{mkApp("time:zero", types.Typ[types.Bool], l.recv)} })
	boolApps["time:zero"] = true
	boolApps["contains"] = true

	// ---- logging ----
	for _, n := range []string{"Printf", "Print", "Println"} {
		lib("(*log.Logger)."+n, func(l *libCall) []*T {
			l.in.event(l.st, mkApp("log", tString, l.recv))
			return nil
		})
	}
	lib("log.Default", func(l *libCall) []*T { return []*T{mkSym("nonnil:log.Default", l.res(0))} })

	// ---- charmap ----
	for _, n := range []string{"NewDecoder", "NewEncoder"} {
		n := n
		lib("(*golang.org/x/text/encoding/charmap.Charmap)."+n, func(l *libCall) []*T {
			return []*T{mkApp("nonnil:charmap."+n, l.res(0), l.recv)}
		})
		nonNilApps["nonnil:charmap."+n] = true
	}
	lib("(*golang.org/x/text/encoding.Decoder).Bytes", func(l *libCall) []*T {
		s := l.seq(0)
		return []*T{l.bytes(mkApp("charset:dec", tString, l.recv, s)), mkApp("err?charset:dec", l.res(1), l.recv, s)}
	})
	lib("(*golang.org/x/text/encoding.Encoder).Bytes", func(l *libCall) []*T {
		s := l.seq(0)
		return []*T{l.bytes(mkApp("charset:enc", tString, l.recv, s)), mkApp("err?charset:enc", l.res(1), l.recv, s)}
	})
	lib("(*golang.org/x/text/encoding.Decoder).String", func(l *libCall) []*T {
		s := l.seq(0)
		return []*T{mkApp("charset:dec", tString, l.recv, s), mkApp("err?charset:dec", l.res(1), l.recv, s)}
	})
	lib("(*golang.org/x/text/encoding.Encoder).String", func(l *libCall) []*T {
		s := l.seq(0)
		return []*T{mkApp("charset:enc", tString, l.recv, s), mkApp("err?charset:enc", l.res(1), l.recv, s)}
	})

	// ---- bits ----
	appSimp["hexenc"] = func(a []*T) *T { return hexEnc(a[0]) }
	appSimp["hexupper"] = func(a []*T) *T { return hexUpper(a[0]) }
	lenOf["hexupper"] = func(t *T) *T { return mulC(slen(t.args[0]), 2) }
	appSimp["time:utc"] = nil
	delete(appSimp, "time:utc")
	lenOf["hexenc"] = func(t *T) *T { return mulC(slen(t.args[0]), 2) }
	seqLib()
}

var libWriters = map[string]func(l *libCall, s *T){}

// event appends to the output trace, when one is kept.
func (in *interp) event(st *state, e *T) {
	if in.events == 0 {
		return
	}
	st.mem[in.events] = cat(in.content(st, in.events), unit(e, nil))
}

// output is text written to something outside the program.
func (in *interp) output(st *state, w, s *T) {
	if in.onOutput != nil {
		in.onOutput(st, w, s)
		return
	}
	in.event(st, mkApp("output", tString, w, s))
}

// intrinsic is a function value with the given behaviour.
func (in *interp) intrinsic(f func(in *interp, fr *frame, st *state, args []*T, call *ast.CallExpr) []*T) *T {
	in.closures = append(in.closures, &closure{intr: f})
	return intern(&T{op: OClosure, n: len(in.closures) - 1})
}

func (l *libCall) sprintAll(packed *T) *T {
	es := l.in.variadicElems(l.st, packed)
	var out []*T
	prevStr := true
	for i, e := range es {
		isStr := e.op == OIface && isStringType(e.typ)
		if i > 0 && !isStr && !prevStr {
			out = append(out, constStr(" "))
		}
		out = append(out, l.in.textOf(l.fr, l.st, e, types.NewInterfaceType(nil, nil), "%v", l.c))
		prevStr = isStr
	}
	return cat(out...)
}

func (l *libCall) sprintln(packed *T) *T {
	es := l.in.variadicElems(l.st, packed)
	var out []*T
	for i, e := range es {
		if i > 0 {
			out = append(out, constStr(" "))
		}
		out = append(out, l.in.textOf(l.fr, l.st, e, types.NewInterfaceType(nil, nil), "%v", l.c))
	}
	return cat(append(out, constStr("\n"))...)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func leBytes(v *T, w int) *T {
	var o []*T
	for i := 0; i < w; i += 8 {
		o = append(o, bitF(mkDiv(v, new(big.Int).Lsh(bigOne, uint(i))), 8))
	}
	return cat(o...)
}

func hexEnc(s *T) *T {
	switch s.op {
	case OBits:
		if len(s.s)%8 == 0 {
			return constStr(hex.EncodeToString([]byte(bitsToBytes(s.s))))
		}
	case OIte:
		return mkIte(s.args[0], hexEnc(s.args[1]), hexEnc(s.args[2]))
	case OApp:
	}
	return mkApp("hexenc", tString, s)
}

// hexUpper is the upper case hexadecimal text of a sequence.
func hexUpper(s *T) *T {
	switch s.op {
	case OBits:
		if len(s.s)%8 == 0 {
			return constStr(strings.ToUpper(hex.EncodeToString([]byte(bitsToBytes(s.s)))))
		}
	case OIte:
		return mkIte(s.args[0], hexUpper(s.args[1]), hexUpper(s.args[2]))
	}
	return mkApp("hexupper", tString, s)
}

// upperText is strings.ToUpper of text made of constants and hexadecimal
// digits.
func upperText(s *T) *T {
	switch {
	case s.op == OIte:
		a, b := upperText(s.args[1]), upperText(s.args[2])
		if a != nil && b != nil {
			return mkIte(s.args[0], a, b)
		}
		return nil
	case s.op == OBits && len(s.s)%8 == 0:
		return constStr(strings.ToUpper(bitsToBytes(s.s)))
	case s.op == OApp && s.s == "hexenc":
		return hexUpper(s.args[0])
	case s.op == OApp && (s.s == "hexupper" || s.s == "dec"):
		return s
	}
	ps := parts(s)
	if len(ps) < 2 {
		return nil
	}
	var out []*T
	for _, p := range ps {
		u := upperText(p)
		if u == nil {
			return nil
		}
		out = append(out, u)
	}
	return cat(out...)
}

// hexDec returns the decoded bytes and whether decoding succeeds.
func hexDec(s *T) (*T, *T) {
	switch s.op {
	case OBits:
		b, err := hex.DecodeString(bitsToBytes(s.s))
		return constStr(string(b)), mkB(err == nil)
	case OIte:
		a, x := hexDec(s.args[1])
		b, y := hexDec(s.args[2])
		return mkIte(s.args[0], a, b), mkIte(s.args[0], x, y)
	case OApp:
		if s.s == "hexenc" {
			return s.args[0], tTrue
		}
	}
	ok := mkApp("hexok", types.Typ[types.Bool], s)
	return mkIte(ok, mkApp("hexdec", tString, s), mkApp("hexpart", tString, s)), ok
}

func b64Enc(e string, s *T) *T {
	if s.op == OBits && e == "StdEncoding" && len(s.s)%8 == 0 {
		return constStr(base64.StdEncoding.EncodeToString([]byte(bitsToBytes(s.s))))
	}
	if s.op == OIte {
		return mkIte(s.args[0], b64Enc(e, s.args[1]), b64Enc(e, s.args[2]))
	}
	return mkApp("b64enc:"+e, tString, s)
}

func b64Dec(e string, s *T) (*T, *T) {
	switch s.op {
	case OIte:
		a, x := b64Dec(e, s.args[1])
		b, y := b64Dec(e, s.args[2])
		return mkIte(s.args[0], a, b), mkIte(s.args[0], x, y)
	case OApp:
		if s.s == "b64enc:"+e {
			return s.args[0], tTrue
		}
	}
	return mkApp("b64dec:"+e, tString, s), mkApp("b64ok:"+e, types.Typ[types.Bool], s)
}

func seqLib() {
	for _, e := range []string{"StdEncoding", "URLEncoding", "RawStdEncoding", "RawURLEncoding"} {
		e := e
		boolApps["b64ok:"+e] = true
		appSimp["b64enc:"+e] = func(a []*T) *T { return b64Enc(e, a[0]) }
		appSimp["b64dec:"+e] = func(a []*T) *T { d, _ := b64Dec(e, a[0]); return d }
		appSimp["b64ok:"+e] = func(a []*T) *T { _, ok := b64Dec(e, a[0]); return ok }
	}
	boolApps["hexok"] = true
	// hexdec: what well-formed text stands for; hexpart: what is decoded before
	// the first error
	part := func(op string) {
		appSimp[op] = func(a []*T) *T {
			switch d, valid := hexDec(a[0]); {
			case d.op == OIte && valid.op == OApp:
				return mkApp(op, tString, a[0])
			default:
				return d
			}
		}
	}
	part("hexdec")
	part("hexpart")
	lenOf["hexdec"] = func(t *T) *T { return mkDiv(slen(t.args[0]), big.NewInt(2)) }
	appSimp["hexok"] = func(a []*T) *T { _, ok := hexDec(a[0]); return ok }
}

// hasPrefix compares a constant prefix element by element.
func hasPrefix(s, p *T, K *Facts) *T {
	if s.op == OIte {
		return mkIte(s.args[0], hasPrefix(s.args[1], p, K), hasPrefix(s.args[2], p, K))
	}
	n := slen(p)
	if n.op != OInt || n.i64() > 16 {
		return mkApp("hasprefix", types.Typ[types.Bool], s, p)
	}
	r := leI(n, slen(s))
	if r == tFalse {
		return r
	}
	K2 := K.with(r, true)
	if K2.dead {
		return tFalse
	}
	u8 := types.Typ[types.Uint8]
	for i := int64(0); i < n.i64(); i++ {
		r = and(r, eqI(elemK(s, mkI(i), u8, K2), elemK(p, mkI(i), u8, K2)))
	}
	return r
}

// runePredicate tabulates a predicate on runes by analysing its body for each
// ASCII rune and for a symbolic rune outside ASCII.
func (in *interp) runePredicate(fr *frame, st *state, f *T, c *ast.CallExpr) string {
	var b strings.Builder
	in.rec++
	defer func() { in.rec-- }()
	for r := 0; r < 128; r++ {
		v := in.callValue(fr, st.clone(), f, []*T{mkI(int64(r))}, c)[0]
		switch v {
		case tTrue:
			b.WriteString(hex.EncodeToString([]byte{byte(r)}))
		case tFalse:
		default:
			giveUp("rune predicate")
		}
	}
	x := freshSym("rune", types.Typ[types.Int32])
	s2 := st.clone()
	s2.K = s2.K.with(leI(mkI(128), x), true)
	if v := restrict(in.callValue(fr, s2, f, []*T{x}, c)[0], s2.K); v != tFalse {
		giveUp("rune predicate accepts non-ASCII runes")
	}
	return b.String()
}

// errorIs handles custom error types with an Unwrap method.
func (in *interp) errorIs(st *state, e, target *T) *T {
	switch e.op {
	case OIface:
		if types.Identical(e.typ, target.typ) && target.op == OIface {
			giveUp("comparison of custom errors")
		}
		for _, n := range []string{"Is", "Unwrap"} {
			obj, _, _ := types.LookupFieldOrMethod(e.typ, true, nil, n)
			if f, ok := obj.(*types.Func); ok {
				fr := &frame{pi: in.p.lib, sig: types.NewSignatureType(nil, nil, nil, nil, nil, false), name: "errors.Is"}
				call := &ast.CallExpr{Fun: ast.NewIdent(n)}
				ff, recv := in.resolve(fr, st, e, f, call)
				if n == "Is" {
					return or(in.callFunc(fr, st, ff, nil, recv, []*T{target}, call)[0], tFalse)
				}
				u := in.callFunc(fr, st, ff, nil, recv, nil, call)[0]
				if _, ok := u.typ, u.op == OSlice; ok {
					r := tFalse
					for _, w := range in.variadicElems(st, u) {
						r = or(r, in.errorIs(st, w, target))
					}
					return r
				}
				return mkIte(isNil(u), tFalse, in.errorIs(st, u, target))
			}
		}
		return tFalse
	case OIte:
		return mkIte(e.args[0], in.errorIs(st, e.args[1], target), in.errorIs(st, e.args[2], target))
	case OApp:
		if e.s == "err:wrap" {
			r := tFalse
			for _, w := range e.args {
				r = or(r, mkIte(isNil(w), tFalse, in.errorIs(st, w, target)))
			}
			return r
		}
	}
	return errIs(e, target)
}
