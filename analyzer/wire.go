package main

// Models of encoding/json and encoding/xml. A document is an uninterpreted
// term; what a call reads from it or writes to it is named by the struct tags
// of the Go type involved, so two functions that use different Go types for
// the same document still agree. Values of the library's exported types are
// left to the schema of that type, which is decided by itself (see schema).

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

type wireField struct {
	name  string // key, attribute or element name
	space string // XML name space
	kind  string // "", attr, element, chardata, any, other
	omit  bool
	path  []int
	typ   types.Type
	goN   string
	depth int
}

func tagOpts(s string) (string, map[string]bool) {
	ps := strings.Split(s, ",")
	o := map[string]bool{}
	for _, p := range ps[1:] {
		o[p] = true
	}
	return ps[0], o
}

// jsonFields are the fields that encoding/json sees, in order of name.
func jsonFields(t types.Type) []wireField {
	var all []wireField
	var walk func(t types.Type, path []int, depth int)
	walk = func(t types.Type, path []int, depth int) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opt := tagOpts(tag)
			p := append(append([]int{}, path...), i)
			if f.Embedded() && name == "" {
				if _, ok := f.Type().Underlying().(*types.Struct); ok && !hasMethod(f.Type(), "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText") {
					walk(f.Type(), p, depth+1)
					continue
				}
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					giveUp("embedded pointer in a JSON struct")
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			w := wireField{name: name, path: p, typ: f.Type(), goN: f.Name(), depth: depth}
			for o := range opt {
				switch o {
				case "omitempty":
					w.omit = true
				default:
					w.kind = o
				}
			}
			if w.omit {
				switch f.Type().Underlying().(type) {
				case *types.Struct, *types.Array:
					w.omit = false // never empty
				}
			}
			all = append(all, w)
		}
	}
	walk(t, nil, 0)
	var out []wireField
	for _, f := range all {
		keep := true
		for _, g := range all {
			if g.name == f.name && g.depth < f.depth {
				keep = false
			} else if g.name == f.name && g.depth == f.depth && g.goN != f.goN {
				keep = false
			}
		}
		if keep {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// xmlFields are the fields that encoding/xml sees.
func xmlFields(t types.Type) []wireField {
	var out []wireField
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("xml")
		if tag == "-" || !f.Exported() && !f.Embedded() {
			continue
		}
		if f.Embedded() {
			giveUp("embedded field in an XML struct")
		}
		w := wireField{path: []int{i}, typ: f.Type(), goN: f.Name(), kind: "element"}
		if j := strings.Index(tag, " "); j >= 0 {
			w.space, tag = tag[:j], tag[j+1:]
		}
		name, opt := tagOpts(tag)
		for o := range opt {
			switch o {
			case "attr", "chardata", "any":
				w.kind = o
			case "omitempty":
				w.omit = true
			default:
				w.kind = "other"
			}
		}
		if opt["any"] && opt["attr"] {
			w.kind = "other"
		}
		if strings.Contains(name, ">") {
			w.kind = "other"
		}
		w.name = name
		if f.Name() == "XMLName" {
			w.kind = "xmlname"
		} else if name == "" && (w.kind == "element" || w.kind == "attr") {
			w.name = f.Name()
		}
		if w.omit {
			switch f.Type().Underlying().(type) {
			case *types.Struct, *types.Pointer, *types.Interface:
				w.omit = false // a nil pointer is never written, a struct never empty
			case *types.Slice:
				w.omit = w.kind == "chardata" || w.kind == "attr"
			}
		}
		out = append(out, w)
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].kind != out[j].kind {
			return out[i].kind < out[j].kind
		}
		return out[i].name < out[j].name
	})
	return out
}

func hasMethod(t types.Type, names ...string) bool {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		if _, ok := t.Underlying().(*types.Interface); ok && u != t {
			continue
		}
		ms := types.NewMethodSet(u)
		for _, n := range names {
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == n {
					return true
				}
			}
		}
	}
	return false
}

// ownSchema: the type's encoding is decided by its own schema entry, or by its
// own methods.
func ownSchema(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if !inModule(n.Obj().Pkg()) {
		return true
	}
	return n.Obj().Exported() && n.Obj().Parent() == n.Obj().Pkg().Scope() || hasMethod(t, "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "MarshalXML", "UnmarshalXML", "UnmarshalXMLAttr", "MarshalXMLAttr")
}

func wireType(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

// isRaw: json.RawMessage, under any of the names it has had.
func isRaw(t types.Type) bool {
	switch wireType(t) {
	case "json.RawMessage", "jsontext.Value":
		return true
	}
	return false
}

func (l *libCall) ready(t types.Type, method string) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return
	}
	for _, f := range l.in.stack {
		if f.Name() == method {
			if r := f.Type().(*types.Signature).Recv(); r != nil && types.Identical(pointee(r.Type()), n) {
				giveUp("%s of %s calls itself", method, n.Obj().Name())
			}
		}
	}
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- writing JSON ----

var wireAbsent = mkApp("absent", nil)

// docOf is the JSON form of a value of type t.
func (l *libCall) docOf(t types.Type, v *T) *T {
	in, st := l.in, l.st
	v = restrict(v, st.K)
	if isInterface(t) {
		switch v.op {
		case ONil:
			return mkApp("json:null", nil)
		case OIface:
			return l.docOf(v.typ, v.args[0])
		case OIte:
			return mkIte(v.args[0], l.docOf(t, v.args[1]), l.docOf(t, v.args[2]))
		}
		return mkApp("json", nil, in.freeze(st, v))
	}
	if isRaw(t) {
		return mkApp("json:raw", nil, in.seqIn(st, v))
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		c := isNil(v)
		if c == tTrue {
			return mkApp("json:null", nil)
		}
		return mkIte(c, mkApp("json:null", nil), l.docOf(p.Elem(), in.load(st, v)))
	}
	if ownSchema(t) {
		l.ready(t, "MarshalJSON")
		return mkApp("json:"+wireType(t), nil, in.freeze(st, v))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkApp("json:int", nil, v)
		case u.Info()&types.IsBoolean != 0:
			return mkApp("json:bool", nil, v)
		case u.Info()&types.IsString != 0:
			return mkApp("json:string", nil, v)
		}
	case *types.Slice:
		e := wireType(u.Elem())
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && !ownSchema(u.Elem()) {
			e = b.Name()
		}
		return mkApp("json:list:"+e, nil, in.freeze(st, v))
	case *types.Map:
		m := v
		if m.op == OPtr {
			m = in.load(st, m)
		}
		return l.mapDoc(u.Elem(), m)
	case *types.Struct:
		var keys []string
		var vals []*T
		for _, f := range jsonFields(t) {
			if f.kind != "" {
				giveUp("JSON option %s", f.kind)
			}
			x, ft := v, t
			for _, i := range f.path {
				x = field(x, i, ft)
				ft = ft.Underlying().(*types.Struct).Field(i).Type()
			}
			d := l.docOf(f.typ, x)
			if f.omit {
				d = mkIte(l.empty(f.typ, x), wireAbsent, d)
			}
			keys, vals = append(keys, f.name), append(vals, d)
		}
		return object(keys, vals)
	}
	giveUp("JSON form of %s", t)
	return nil
}

func (l *libCall) empty(t types.Type, v *T) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return not(v)
		case u.Info()&types.IsString != 0:
			return eqI(slen(v), tZero)
		}
		return eqI(v, tZero)
	case *types.Pointer, *types.Interface:
		return isNil(v)
	case *types.Slice:
		return eqI(l.in.sliceLen(l.st, v), tZero)
	}
	giveUp("emptiness of %s", t)
	return nil
}

func object(keys []string, vals []*T) *T {
	var ks []string
	var vs []*T
	for i, k := range keys {
		if vals[i] == wireAbsent {
			continue
		}
		ks, vs = append(ks, k), append(vs, vals[i])
	}
	return mkApp("json:{"+strings.Join(ks, ",")+"}", nil, vs...)
}

func (l *libCall) mapDoc(et types.Type, m *T) *T {
	if m.op == ONil {
		return mkApp("json:null", nil)
	}
	var keys []string
	seen := map[string]bool{}
	var collect func(m *T)
	collect = func(m *T) {
		switch m.op {
		case OIte:
			collect(m.args[1])
			collect(m.args[2])
		case OMapV:
			for i := 0; i < len(m.args); i += 2 {
				k := m.args[i]
				if k.op != OBits {
					giveUp("JSON object with a variable key")
				}
				s := constText(k)
				if !seen[s] {
					seen[s] = true
					keys = append(keys, s)
				}
			}
		default:
			giveUp("JSON form of map %s", m)
		}
	}
	collect(m)
	sort.Strings(keys)
	var vals []*T
	for _, k := range keys {
		var get func(m *T) *T
		get = func(m *T) *T {
			if m.op == OIte {
				return mkIte(m.args[0], get(m.args[1]), get(m.args[2]))
			}
			for i := 0; i < len(m.args); i += 2 {
				if constText(m.args[i]) == k {
					return l.docOf(et, m.args[i+1])
				}
			}
			return wireAbsent
		}
		vals = append(vals, get(m))
	}
	return object(keys, vals)
}

func constText(t *T) string {
	if t.op != OBits {
		return ""
	}
	b := make([]byte, len(t.s)/8)
	for i := range t.s {
		if t.s[i] == '1' {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return string(b)
}

// ---- reading JSON ----

var errorT = types.Universe.Lookup("error").Type()

// target finds the variable that a pointer argument designates.
func (l *libCall) target(v *T, f func(t types.Type, p *T) *T) *T {
	v = restrict(v, l.st.K)
	switch v.op {
	case ONil:
		// refused by the decoders
		return mkApp("err:target", errorT)
	case OIte:
		a := l.st
		return l.in.forkEv(l.st, v.args[0], func(s *state) []*T { l.st = s; return []*T{l.target(v.args[1], f)} },
			func(s *state) []*T { l.st = s; return []*T{l.target(v.args[2], f)} })[l.back(a)]
	case OIface:
		p, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			giveUp("unmarshalling into %s", v.typ)
		}
		l.in.notNil(l.st, l.fr, "nil", l.c.Pos(), v.args[0])
		ptr := restrict(v.args[0], l.st.K)
		if ptr.op == OIte {
			a := l.st
			g := func(i int) func(s *state) []*T {
				return func(s *state) []*T { l.st = s; return []*T{l.target(mkIface(v.typ, ptr.args[i]), f)} }
			}
			return l.in.forkEv(l.st, ptr.args[0], g(1), g(2))[l.back(a)]
		}
		if isInterface(p.Elem()) {
			e := restrict(l.in.load(l.st, ptr), l.st.K)
			if !proves(not(isNil(e)), l.st.K) {
				giveUp("unmarshalling into an interface that may be nil")
			}
			return l.target(e, f)
		}
		return f(p.Elem(), ptr)
	}
	giveUp("unmarshalling into %s", v)
	return nil
}

// back restores the state a fork started from, which forkEv has updated.
func (l *libCall) back(s *state) int { l.st = s; return 0 }

// isOf marks a reader value as one of the bytes of a document.
func byteApp(name string, args ...*T) *T {
	b := mkApp(name, types.NewSlice(types.Typ[types.Uint8]), args...)
	b.bytes = true
	return b
}

func nm(s string) *T { return constStr(s) }

// jsonInto is the value of a variable of type t that holds old after document
// d, which is present, has been read into it, and the condition under which
// that works.
func (l *libCall) jsonInto(d *T, t types.Type, old *T) (*T, *T) {
	in, st := l.in, l.st
	if isRaw(t) {
		return l.bytes(d), tTrue
	}
	if ownSchema(t) {
		l.ready(t, "UnmarshalJSON")
		o := in.freeze(st, old)
		return mkApp("jdec:"+wireType(t), t, d, o), mkApp("jok:"+wireType(t), types.Typ[types.Bool], d)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		null := l.jnull(d)
		v := mkApp("jval:"+u.Name(), t, d)
		return mkIte(null, old, v), or(null, mkApp("jis:"+u.Name(), types.Typ[types.Bool], d))
	case *types.Pointer:
		if !pointeeReplaced(old, u) {
			giveUp("unmarshalling into a pointer that may be set")
		}
		null := l.jnull(d)
		v, ok := l.jsonInto(d, u.Elem(), in.zero(u.Elem()))
		K := newFacts().with(null, false)
		p := mkPtr(in.newCell(st, u.Elem(), restrict(v, K)))
		return mkIte(null, tNil, p), or(null, restrict(ok, K))
	case *types.Struct:
		ok := mkApp("jobject", types.Typ[types.Bool], d)
		v := old
		for _, f := range jsonFields(t) {
			if f.kind != "" {
				giveUp("JSON option %s", f.kind)
			}
			has := mkApp("jhas", types.Typ[types.Bool], d, nm(f.name))
			raw := byteApp("jraw", d, nm(f.name))
			if len(f.path) != 1 {
				giveUp("embedded field in a JSON target")
			}
			o := field(v, f.path[0], t)
			x, xok := l.jsonInto(raw, f.typ, o)
			v = withField(v, f.path[0], mkIte(has, x, o), t)
			ok = and(ok, fieldOK(has, xok, d, nm(f.name)))
		}
		return v, ok
	case *types.Slice:
		if !isRaw(u.Elem()) {
			e := wireType(u.Elem())
			o := in.freeze(st, old)
			return mkApp("jdec:[]"+e, t, d, o), mkApp("jok:[]"+e, types.Typ[types.Bool], d)
		}
		n := mkApp("jlen", types.Typ[types.Int], d)
		i := freshSym("i", types.Typ[types.Int])
		seq := closeB(OMap, n, unit(in.frozenBytes(byteApp("jitem", d, i)), u.Elem()), i)
		return in.newSlice(st, u.Elem(), seq), mkApp("jarray", types.Typ[types.Bool], d)
	}
	giveUp("unmarshalling JSON into %s", t)
	return nil, nil
}

// fieldOK: a field is absent, or read without error. When what is needed of it
// is a single condition, so is this.
func fieldOK(has, ok, d, name *T) *T {
	bt := types.Typ[types.Bool]
	switch {
	case ok == tTrue:
		return tTrue
	case ok.op == OApp:
		return mkApp("field:"+ok.s, bt, d, name)
	case ok.op == OIte && ok.args[0].op == OApp && ok.args[0].s == "jnull" && ok.args[1] == tTrue && ok.args[2].op == OApp:
		return mkApp("field:"+ok.args[2].s, bt, d, name)
	}
	return or(not(has), ok)
}

func (in *interp) frozenBytes(b *T) *T { return mkSliceV(tFalse, b) }

func (l *libCall) jsonUnmarshal(d, v *T) *T {
	return l.target(v, func(t types.Type, p *T) *T {
		st := l.st
		old := l.in.load(st, p)
		n, ok := l.jsonInto(d, t, old)
		if _, own := map[string]bool{"jraw": true, "jitem": true}[d.s]; !own || d.op != OApp {
			ok = and(mkApp("jvalid", types.Typ[types.Bool], d), ok)
		}
		l.in.store(st, p, n)
		return mkIte(ok, tNil, mkApp("err:json", errorT, d))
	})
}

// jnull holds if document d is null. The text of a whole document is then null
// and white space, so that its first other character is an n.
func (l *libCall) jnull(d *T) *T {
	null := mkApp("jnull", types.Typ[types.Bool], d)
	if !l.in.textInput {
		return null
	}
	t := mkApp("trimspace", types.Typ[types.String], seqOf(d))
	return and(eqI(slen(t), mkI(4)), and(eqI(elem(t, mkI(0), types.Typ[types.Uint8]), mkI('n')), null))
}

// pointeeReplaced reports that what a pointer points to after it has been read
// into does not depend on what it pointed to before.
func pointeeReplaced(old *T, p *types.Pointer) bool {
	_, basic := p.Elem().Underlying().(*types.Basic)
	return old == tNil || basic && !ownSchema(p.Elem())
}

// ---- reading XML ----

func (l *libCall) xmlInto(x *T, t types.Type, old *T, start *T, startT types.Type) (*T, *T) {
	in, st := l.in, l.st
	bt := types.Typ[types.Bool]
	if ownSchema(t) {
		l.ready(t, "UnmarshalXML")
		return mkApp("xdec:"+wireType(t), t, x, in.freeze(st, old)), mkApp("xok:"+wireType(t), bt, x)
	}
	_, isS := t.Underlying().(*types.Struct)
	if !isS {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return l.xmlText(mkApp("xchars", types.Typ[types.String], x), t, old)
		case *types.Slice:
			e := wireType(u.Elem())
			return mkApp("xdec:[]"+e, t, x, in.freeze(st, old)), mkApp("xok:[]"+e, bt, x)
		case *types.Pointer:
			if !pointeeReplaced(old, u) {
				giveUp("unmarshalling into a pointer that may be set")
			}
			v, ok := l.xmlInto(x, u.Elem(), in.zero(u.Elem()), nil, nil)
			return mkPtr(in.newCell(st, u.Elem(), v)), ok
		}
		giveUp("unmarshalling XML into %s", t)
	}
	fs := xmlFields(t)
	var named []string
	for _, f := range fs {
		if f.kind == "element" {
			named = append(named, f.space+" "+f.name)
		}
	}
	v, ok := old, mkApp("xwell", bt, x)
	for _, f := range fs {
		i := f.path[0]
		o := field(v, i, t)
		switch f.kind {
		case "xmlname":
			if start == nil {
				giveUp("XMLName of a nested element")
			}
			n := field(start, fieldIndex(startT, "Name"), startT)
			if f.name != "" {
				ok = and(ok, mkApp("xname", bt, nm(f.space+" "+f.name), n))
			}
			v = withField(v, i, n, t)
		case "attr":
			if f.space != "" {
				giveUp("XML attribute in a name space")
			}
			has := mkApp("xhasattr", bt, x, nm(f.name))
			raw := mkApp("xattr", types.Typ[types.String], x, nm(f.name))
			et, ptr := f.typ, false
			if p, isp := f.typ.Underlying().(*types.Pointer); isp {
				et, ptr = p.Elem(), true
				if !pointeeReplaced(o, p) {
					giveUp("unmarshalling into a pointer that may be set")
				}
			}
			zo := o
			if ptr {
				zo = in.zero(et)
			}
			nv, nok := l.xmlText(raw, et, zo)
			if ptr {
				nv = mkPtr(in.newCell(st, et, nv))
			}
			v = withField(v, i, mkIte(has, nv, o), t)
			ok = and(ok, fieldOK(has, nok, x, nm("@"+f.name)))
		case "chardata":
			nv, nok := l.xmlText(mkApp("xchars", types.Typ[types.String], x), f.typ, o)
			v = withField(v, i, nv, t)
			ok = and(ok, nok)
		case "element":
			has := mkApp("xhas", bt, x, nm(f.space+" "+f.name))
			sub := mkApp("xsub", nil, x, nm(f.space+" "+f.name))
			nv, nok := l.xmlInto(sub, f.typ, o, nil, nil)
			v = withField(v, i, mkIte(has, nv, o), t)
			ok = and(ok, fieldOK(has, nok, x, nm(f.space+" "+f.name)))
		case "any":
			sort.Strings(named)
			has := mkApp("xhasany", bt, x, nm(strings.Join(named, "|")))
			sub := mkApp("xsubany", nil, x, nm(strings.Join(named, "|")))
			nv, nok := l.xmlInto(sub, f.typ, o, nil, nil)
			v = withField(v, i, mkIte(has, nv, o), t)
			ok = and(ok, fieldOK(has, nok, x, nm("any "+strings.Join(named, "|"))))
		default:
			giveUp("XML option of field %s", f.goN)
		}
	}
	return v, ok
}

// xmlText is the value that the text s gives to a variable.
func (l *libCall) xmlText(s *T, t types.Type, old *T) (*T, *T) {
	bt := types.Typ[types.Bool]
	if ownSchema(t) {
		return mkApp("xtext:"+wireType(t), t, s, l.in.freeze(l.st, old)), mkApp("xtextok:"+wireType(t), bt, s)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		giveUp("XML text as %s", t)
	}
	if b.Info()&types.IsString != 0 {
		return s, tTrue
	}
	return mkApp("xval:"+b.Name(), t, s), mkApp("xis:"+b.Name(), bt, s)
}

func init() {
	libModels["encoding/json.Marshal"] = func(l *libCall) []*T {
		d := l.docOf(types.NewInterfaceType(nil, nil), l.arg(0))
		args := []*T{d}
		for _, g := range l.in.ghosts {
			args = append(args, l.in.content(l.st, g))
		}
		b := byteApp("jsontext", args...)
		ok := mkApp("jsonable", types.Typ[types.Bool], d)
		return []*T{mkIte(ok, l.bytes(b), mkSliceV(tTrue, tEmpty)), mkIte(ok, tNil, mkApp("err:jsonmarshal", errorT, d))}
	}
	libModels["encoding/json.Unmarshal"] = func(l *libCall) []*T {
		return []*T{l.jsonUnmarshal(l.seq(0), l.arg(1))}
	}
	libModels["encoding/json.Valid"] = func(l *libCall) []*T {
		return []*T{mkApp("jvalid", types.Typ[types.Bool], l.seq(0))}
	}
	libModels["(*encoding/xml.Decoder).DecodeElement"] = func(l *libCall) []*T {
		sp := l.arg(1)
		l.in.notNil(l.st, l.fr, "nil", l.c.Pos(), sp)
		start := l.in.freeze(l.st, l.in.load(l.st, restrict(sp, l.st.K)))
		startT := pointee(l.sig.Params().At(1).Type())
		if l.in.xmlReads == 0 {
			giveUp("XML decoder outside its checks")
		}
		n := l.in.content(l.st, l.in.xmlReads)
		x := mkApp("xelem", nil, l.recv, start, n)
		l.st.mem[l.in.xmlReads] = add(n, mkI(1))
		return []*T{l.target(l.arg(0), func(t types.Type, p *T) *T {
			old := l.in.load(l.st, p)
			v, ok := l.xmlInto(x, t, old, start, startT)
			l.in.store(l.st, p, v)
			return mkIte(ok, tNil, mkApp("err:xml", errorT, x))
		})}
	}
}

// xmlUnmarshal reads document x into what v points to.
func (l *libCall) xmlUnmarshal(x, v *T) *T {
	return l.target(v, func(t types.Type, p *T) *T {
		old := l.in.load(l.st, p)
		n, ok := l.xmlInto(x, t, old, nil, nil)
		l.in.store(l.st, p, n)
		return mkIte(ok, tNil, mkApp("err:xml", errorT, x))
	})
}
