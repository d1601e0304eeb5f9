package main

// The command line tool. The command tree is built abstractly; then the Args
// and Run functions of each command are evaluated on arbitrary arguments and
// flag values, and the text written to each stream is compared with that of
// the reference.

import (
	"go/ast"
	"go/types"
	"strings"
)

type cli struct {
	out, err int // cells: text written to each stream
	kids     map[int][]*T
	flags    map[string]string // default of each flag
	runs     int
}

func (l *libCall) constArg(i int) string {
	a := l.arg(i)
	s, ok := litStr(a)
	if !ok {
		giveUp("a flag whose name is not constant")
	}
	return s
}

func litStr(t *T) (string, bool) {
	s := seqOf(t)
	if s.op != OBits || len(s.s)%8 != 0 {
		return "", false
	}
	var b []byte
	for i := 0; i < len(s.s); i += 8 {
		var x byte
		for _, c := range s.s[i : i+8] {
			x = x<<1 | byte(c-'0')
		}
		b = append(b, x)
	}
	return string(b), true
}

func flagValue(name string, def *T) *T {
	return mkIte(mkApp("flaggiven", types.Typ[types.Bool], nm(name)), mkApp("flag", types.Typ[types.String], nm(name)), def)
}

// cliModels adds what the tool uses and the library does not.
func (in *interp) cliModels(c *ctx, st *state) *cli {
	k := &cli{out: in.newCell(st, nil, tEmpty), err: in.newCell(st, nil, tEmpty), kids: map[int][]*T{}, flags: map[string]string{}}
	in.models = map[string]func(l *libCall) []*T{}
	in.onOutput = func(st *state, w, s *T) {
		t := w
		for t.op == OIface {
			t = t.args[0]
		}
		cell := 0
		switch {
		case t.op == OSym && strings.HasPrefix(t.s, "global:os.Stdout"):
			cell = k.out
		case t.op == OSym && strings.HasPrefix(t.s, "global:os.Stderr"):
			cell = k.err
		default:
			giveUp("output to %s", w.show(3, 60))
		}
		st.mem[cell] = cat(in.content(st, cell), s)
	}
	m := in.models
	stream := func(n string) func(l *libCall) []*T {
		return func(l *libCall) []*T {
			return []*T{mkIface(types.Typ[types.Int], mkSym("global:os."+n, nil))}
		}
	}
	const cobra = "(*github.com/spf13/cobra.Command)."
	const pflag = "(*github.com/spf13/pflag.FlagSet)."
	m[cobra+"OutOrStdout"] = stream("Stdout")
	m[cobra+"OutOrStderr"] = stream("Stderr")
	m[cobra+"ErrOrStderr"] = stream("Stderr")
	m[cobra+"AddCommand"] = func(l *libCall) []*T {
		if l.recv.op != OPtr {
			giveUp("command of unknown identity")
		}
		k.kids[l.recv.n] = append(k.kids[l.recv.n], l.in.variadicElems(l.st, l.arg(0))...)
		return nil
	}
	for _, n := range []string{"Flags", "PersistentFlags", "LocalFlags"} {
		m[cobra+n] = func(l *libCall) []*T {
			return []*T{mkApp("nonnil:flags", l.res(0), l.recv)}
		}
	}
	for _, n := range []string{"StringVar", "StringVarP"} {
		m[pflag+n] = func(l *libCall) []*T {
			d := 2
			if n == "StringVarP" {
				d = 3
			}
			k.flags[l.constArg(1)] = l.constArg(d)
			l.in.store(l.st, l.arg(0), flagValue(l.constArg(1), l.arg(d)))
			return nil
		}
	}
	for _, n := range []string{"String", "StringP"} {
		m[pflag+n] = func(l *libCall) []*T {
			d := 1
			if n == "StringP" {
				d = 2
			}
			k.flags[l.constArg(0)] = l.constArg(d)
			return []*T{mkPtr(l.in.newCell(l.st, types.Typ[types.String], flagValue(l.constArg(0), l.arg(d))))}
		}
	}
	m[pflag+"GetString"] = func(l *libCall) []*T {
		n := l.constArg(0)
		def, ok := k.flags[n]
		if !ok {
			giveUp("value of unknown flag %q", n)
		}
		return []*T{flagValue(n, constStr(def)), tNil}
	}
	m[cobra+"Execute"] = func(l *libCall) []*T {
		k.runs++
		return []*T{tNil}
	}
	for _, n := range []string{"ExactArgs", "MaximumNArgs", "MinimumNArgs", "RangeArgs"} {
		m["github.com/spf13/cobra."+n] = func(l *libCall) []*T {
			lims := append([]*T{}, l.args...)
			return []*T{l.in.intrinsic(func(in *interp, fr *frame, st *state, args []*T, call *ast.CallExpr) []*T {
				cnt := slen(in.seqIn(st, restrict(args[1], st.K)))
				var ok *T
				switch n {
				case "ExactArgs":
					ok = eqI(cnt, lims[0])
				case "MaximumNArgs":
					ok = leI(cnt, lims[0])
				case "MinimumNArgs":
					ok = leI(lims[0], cnt)
				default:
					ok = and(leI(lims[0], cnt), leI(cnt, lims[1]))
				}
				return []*T{mkIte(ok, tNil, mkApp("err:args", errorT))}
			})}
		}
	}
	m["io.ReadAll"] = func(l *libCall) []*T {
		w := l.arg(0)
		for w.op == OIface {
			w = w.args[0]
		}
		if w.op != OSym || !strings.HasPrefix(w.s, "global:os.Stdin") {
			giveUp("reading from %s", w.show(3, 60))
		}
		ok := mkSym("stdin readable", types.Typ[types.Bool])
		s := byteApp("stdin")
		return []*T{l.bytes(s), mkIte(ok, tNil, mkApp("err:stdin", errorT))}
	}
	for _, f := range []string{"json", "xml"} {
		m["encoding/"+f+".MarshalIndent"] = func(l *libCall) []*T {
			v := l.arg(0)
			for v.op == OIface {
				v = v.args[0]
			}
			ok := mkApp(f+"able", types.Typ[types.Bool], l.in.freeze(l.st, v))
			return []*T{l.bytes(byteApp(f+"text", l.in.freeze(l.st, v), l.seq(1), l.seq(2))), mkIte(ok, tNil, mkApp("err:"+f, errorT))}
		}
	}
	m["encoding/xml.Unmarshal"] = func(l *libCall) []*T {
		return []*T{l.xmlUnmarshal(mkApp("xdoc", nil, l.seq(0)), l.arg(1))}
	}
	// the library, decided by its own checks
	sis := c.typeNamed("SpliceInfoSection")
	prev := in.opaque
	in.opaque = func(in *interp, fr *frame, st *state, f *types.Func, recv *T, args []*T, ce *ast.CallExpr) ([]*T, bool) {
		if f.Pkg() == c.p.lib.tpkg && f.Exported() && !c.p.isSpec(f) {
			var as []*T
			if recv != nil {
				as = append(as, in.freeze(st, in.load(st, restrict(recv, st.K))))
			}
			for _, a := range args {
				as = append(as, in.freeze(st, a))
			}
			rs := f.Type().(*types.Signature).Results()
			var out []*T
			for i := 0; i < rs.Len(); i++ {
				t := rs.At(i).Type()
				n := "lib:" + f.Name()
				switch {
				case isError(t):
					ok := mkApp("ok:"+f.Name(), types.Typ[types.Bool], as...)
					out = append(out, mkIte(ok, tNil, mkApp("err:"+f.Name(), t, as...)))
				case isStringType(t):
					out = append(out, mkApp(n, t, as...))
				default:
					p, isp := t.(*types.Pointer)
					if !isp || !types.Identical(p.Elem(), sis) {
						return nil, false
					}
					out = append(out, mkPtr(in.newCell(st, sis, mkApp(n, sis, as...))))
				}
			}
			return out, true
		}
		if prev != nil {
			return prev(in, fr, st, f, recv, args, ce)
		}
		return nil, false
	}
	return k
}

// command finds a subcommand of the tool by its name.
func (c *ctx) cliCommand(name string) (*interp, *state, *cli, *T, types.Type, *types.Func) {
	if c.p.cmd == nil {
		giveUp("package cmd not found")
	}
	in := newInterp(c.p)
	in.noStrict = true
	st := newState()
	k := in.cliModels(c, st)
	in.textInput = true
	root, _ := c.p.cmd.tpkg.Scope().Lookup("SCTE35").(*types.Func)
	if root == nil {
		giveUp("function cmd.SCTE35 not found")
	}
	r := c.runFn(in, st, root, nil)
	if r.vals[0].op != OPtr {
		giveUp("the root command is not known")
	}
	t := pointee(root.Type().(*types.Signature).Results().At(0).Type())
	for _, kid := range k.kids[r.vals[0].n] {
		v := in.load(r.st, kid)
		use, ok := litStr(field(v, fieldIndex(t.(*types.Named), "Use"), t))
		if ok && strings.Split(use, " ")[0] == name {
			return in, r.st, k, kid, t, root
		}
	}
	giveUp("the tool has no command %s", name)
	return nil, nil, nil, nil, nil, nil
}

func (c *ctx) cliRun(name, spec string, nargs int) {
	in, st0, k, cmd, t, root := c.cliCommand(name)
	f := func(n string) *T {
		return restrict(field(in.load(st0, cmd), fieldIndex(t.(*types.Named), n), t), st0.K)
	}
	for _, n := range []string{"PreRun", "PreRunE", "PersistentPreRun", "PersistentPreRunE", "PostRun", "PostRunE", "PersistentPostRun", "PersistentPostRunE", "RunE"} {
		if f(n) != tNil {
			giveUp("command %s has a %s function", name, n)
		}
	}
	run := f("Run")
	where := c.p.pos(root.Pos())
	if run.op == OClosure {
		if cl := in.closures[run.n]; cl.lit != nil {
			where = c.p.pos(cl.lit.Pos())
		} else if cl.fn != nil {
			where = c.p.pos(cl.fn.Pos())
		}
	}
	str := types.Typ[types.String]
	var us []*T
	arg := mkSym("arg", str)
	for i := 0; i < nargs; i++ {
		us = append(us, unit(arg, str))
	}
	call := &ast.CallExpr{Fun: &ast.Ident{Name: name, NamePos: root.Pos()}, Lparen: root.Pos(), Rparen: root.Pos()}
	fr := &frame{pi: c.p.cmd, vars: map[types.Object]int{}, name: name}
	a := st0.clone()
	in.callValue(fr, a, run, []*T{cmd, in.newSlice(a, str, cat(us...))}, call)
	b := st0.clone()
	var sargs []*T
	if nargs == 1 {
		sargs = append(sargs, arg)
	}
	if name == "decode" {
		sargs = append(sargs, flagValue("out", constStr("text")))
	}
	s := c.runFn(in, b, c.function(spec), nil, sargs...)
	label := name + " with " + map[int]string{0: "standard input", 1: "an argument"}[nargs]
	c.same("standard-output", label, where, in.freeze(a, in.content(a, k.out)), in.freeze(s.st, in.content(s.st, k.out)), nil, newFacts())
	c.same("standard-error", label, where, in.freeze(a, in.content(a, k.err)), in.freeze(s.st, in.content(s.st, k.err)), nil, newFacts())
	c.count("functions_compared", 1)
}

func (c *ctx) cliArgs(name string, min, max int64) {
	in, st, _, cmd, t, root := c.cliCommand(name)
	fv := restrict(field(in.load(st, cmd), fieldIndex(t.(*types.Named), "Args"), t), st.K)
	args := mkSym("args", types.NewSlice(types.Typ[types.String]))
	call := &ast.CallExpr{Fun: &ast.Ident{Name: name, NamePos: root.Pos()}, Lparen: root.Pos(), Rparen: root.Pos()}
	fr := &frame{pi: c.p.cmd, vars: map[types.Object]int{}, name: name}
	var got *T
	if fv == tNil {
		got = tTrue
	} else {
		r := in.callValue(fr, st, fv, []*T{cmd, args}, call)
		got = isNil(restrict(r[0], st.K))
	}
	n := slen(seqOf(args))
	c.same("arguments", name, c.p.pos(root.Pos()), got, and(leI(mkI(min), n), leI(n, mkI(max))), nil, newFacts())
}

func (c *ctx) cliMain() {
	in := newInterp(c.p)
	in.noStrict = true
	st := newState()
	k := in.cliModels(c, st)
	in.textInput = true
	var fn *types.Func
	if c.p.main != nil {
		fn, _ = c.p.main.tpkg.Scope().Lookup("main").(*types.Func)
	}
	if fn == nil {
		giveUp("function main not found")
	}
	c.runFn(in, st, fn, nil)
	c.test(k.runs == 1, "executed", "main", c.p.pos(fn.Pos()), "main does not execute the root command exactly once")
}

func init() {
	register(&check{id: "C27", spec: true, level: "translation_validation",
		rule: "The command tree is built by abstract evaluation of SCTE35; the Run function of each command and its reference are evaluated on an arbitrary argument, standard input and flag value with the library uninterpreted, and the text written to standard output and to standard error must be the same value graph; the Args functions must accept exactly the documented number of arguments.",
		units: func(c *ctx) []aunit {
			return []aunit{
				{"decode", func(c *ctx) { c.cliRun("decode", "specCLIDecode", 1) }},
				{"encode argument", func(c *ctx) { c.cliRun("encode", "specCLIEncodeArgument", 1) }},
				{"encode input", func(c *ctx) { c.cliRun("encode", "specCLIEncodeInput", 0) }},
				{"decode arguments", func(c *ctx) { c.cliArgs("decode", 1, 1) }},
				{"encode arguments", func(c *ctx) { c.cliArgs("encode", 0, 1) }},
				{"main", func(c *ctx) { c.cliMain() }},
			}
		},
		minimum: map[string]int{"standard-output": 3, "standard-error": 3, "arguments": 2, "executed": 1}})
}
