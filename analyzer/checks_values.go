package main

// Tables, names, text encodings, histories and aliasing.

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

// rowsAsSpec lets the reference mention the rows of an uninterpreted value.
func (in *interp) rowsAsSpec() {
	prev := in.opaque
	in.opaque = func(in *interp, fr *frame, st *state, f *types.Func, recv *T, args []*T, ce *ast.CallExpr) ([]*T, bool) {
		if f.Name() == "specRows" && in.p.isSpec(f) {
			v := in.freeze(st, args[0])
			return []*T{rowsApp(v, []*T{args[1], args[2]})}, true
		}
		if prev != nil {
			return prev(in, fr, st, f, recv, args, ce)
		}
		return nil, false
	}
}

// rowsApp is the text that a command or descriptor contributes to a table with
// the given options; constants among them carry no information.
func rowsApp(v *T, opts []*T) *T {
	var o []*T
	for _, x := range opts {
		if x.op != OInt && x.op != OBool && x.op != OBits && x.op != ONil {
			o = append(o, x)
		}
	}
	sort.Slice(o, func(i, j int) bool { return o[i].id < o[j].id })
	return mkApp("rows", types.Typ[types.String], append([]*T{v}, o...)...)
}

// table compares the table of an arbitrary section, or of a section that holds
// nothing but a value of one type.
func (c *ctx) table(t *types.Named, cmd bool) {
	sis := c.typeNamed("SpliceInfoSection")
	st := newState()
	var in *interp
	var recv *T
	name := "section"
	if t == nil {
		in = c.opaqueInterp()
		recv = in.symReceiver(st, sis, "v")
	} else {
		name = t.Obj().Name()
		in = newInterp(c.p)
		in.noStrict = true
		v := mkIface(types.NewPointer(t), in.symReceiver(st, t, "x"))
		z := in.zero(sis)
		if cmd {
			z = withField(z, fieldIndex(sis, "SpliceCommand"), v, sis)
		} else {
			et := sis.Underlying().(*types.Struct).Field(fieldIndex(sis, "SpliceDescriptors")).Type().Underlying().(*types.Slice).Elem()
			z = withField(z, fieldIndex(sis, "SpliceDescriptors"), in.newSlice(st, et, unit(v, et)), sis)
		}
		recv = mkPtr(in.newCell(st, sis, z))
	}
	in.rowsAsSpec()
	prefix, indent := mkSym("prefix", types.Typ[types.String]), mkSym("indent", types.Typ[types.String])
	a := c.runFn(in, st, c.method(sis, "Table"), recv, prefix, indent)
	s := c.runFn(in, st, c.function("specTable"), nil, recv, prefix, indent, mkB(t == nil))
	c.same("table", name, c.p.pos(a.fn.Pos()), a.val(0), s.val(0), nil, newFacts())
	c.count("functions_compared", 1)
}

func (c *ctx) tables() []aunit {
	us := []aunit{{"section", func(c *ctx) { c.table(nil, false) }}}
	for _, t := range c.r.cmdTypes {
		us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.table(t, true) }})
	}
	for _, t := range c.r.descTypes {
		us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.table(t, false) }})
	}
	return us
}

// equal compares a library function or method with a reference that takes the
// receiver as its first argument.
func (c *ctx) equal(rule, construct string, fn *types.Func, spec string, opaque ...string) (a, s *side) {
	in := newInterp(c.p)
	if len(opaque) > 0 {
		in.setOpaque(c.r, opaque...)
	}
	in.noStrict = true
	st := newState()
	var recv *T
	var args, sargs []*T
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		if pt, ok := r.Type().Underlying().(*types.Pointer); ok {
			recv = in.symReceiver(st, pt.Elem().(*types.Named), "v")
		} else {
			recv = mkSym("v", r.Type())
		}
		sargs = append(sargs, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, mkSym("a"+itoa(i), sig.Params().At(i).Type()))
	}
	sargs = append(sargs, args...)
	a = c.runFn(in, st, fn, recv, args...)
	s = c.runFn(in, st, c.function(spec), nil, sargs...)
	c.results(rule, construct, a, s)
	return
}

// results compares all results; errors by nil-ness.
func (c *ctx) results(rule, construct string, a, s *side) {
	where := c.p.pos(a.fn.Pos())
	rs := a.fn.Type().(*types.Signature).Results()
	when := tTrue
	for i := 0; i < rs.Len(); i++ {
		if isError(rs.At(i).Type()) {
			c.same(rule, construct+" error", where, a.errNil(i), s.errNil(i), nil, newFacts())
			when = s.errNil(i)
		}
	}
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isError(t) {
			continue
		}
		x, y := a.val(i), s.val(i)
		if _, ok := t.Underlying().(*types.Slice); ok {
			x, y = seqOf(x), seqOf(y)
		}
		c.same(rule, construct, where, x, y, when, newFacts())
	}
	c.count("functions_compared", 1)
}

// stringMethod is the method of t without parameters that returns a string.
func (c *ctx) stringMethod(t *types.Named, prefer string) *types.Func {
	var found []*types.Func
	for i := 0; i < t.NumMethods(); i++ {
		m := t.Method(i)
		if m.Name() == prefer {
			return m
		}
		s := m.Type().(*types.Signature)
		if s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.String]) {
			found = append(found, m)
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

// nameInTable compares a name where it is printed, everything else being zero.
func (c *ctx) nameInTable(construct string, build func(in *interp, st *state, sis *types.Named) *T) {
	sis := c.typeNamed("SpliceInfoSection")
	st := newState()
	in := newInterp(c.p)
	in.noStrict = true
	recv := mkPtr(in.newCell(st, sis, build(in, st, sis)))
	prefix, indent := constStr(""), constStr("")
	a := c.runFn(in, st, c.method(sis, "Table"), recv, prefix, indent)
	s := c.runFn(in, st, c.function("specTable"), nil, recv, prefix, indent, tFalse)
	c.same("name", construct, c.p.pos(a.fn.Pos()), a.val(0), s.val(0), nil, newFacts())
}

func (c *ctx) names() []aunit {
	u32 := types.Typ[types.Uint32]
	return []aunit{
		{"segmentation type", func(c *ctx) {
			c.equal("name", "segmentation_type_id", c.method(c.typeNamed("SegmentationDescriptor"), "Name"), "specSegmentationNameOf")
		}},
		{"upid type", func(c *ctx) {
			c.equal("name", "segmentation_upid_type", c.method(c.typeNamed("SegmentationUPID"), "Name"), "specUPIDNameOf")
		}},
		{"sap type", func(c *ctx) {
			c.equal("name", "sap_type", c.method(c.typeNamed("SpliceInfoSection"), "SAPTypeName"), "specSAPNameOf")
		}},
		{"encryption algorithm", func(c *ctx) {
			c.nameInTable("encryption_algorithm", func(in *interp, st *state, sis *types.Named) *T {
				i := fieldIndex(sis, "EncryptedPacket")
				et := sis.Underlying().(*types.Struct).Field(i).Type()
				z := in.zero(sis)
				e := withField(field(z, i, sis), fieldIndex(et, "EncryptionAlgorithm"), mkSym("algorithm", u32), et)
				return withField(z, i, e, sis)
			})
		}},
		{"device restrictions", func(c *ctx) {
			c.nameInTable("device_restrictions", func(in *interp, st *state, sis *types.Named) *T {
				dr, sd := c.typeNamed("DeliveryRestrictions"), c.typeNamed("SegmentationDescriptor")
				d := withField(in.zero(dr), fieldIndex(dr, "DeviceRestrictions"), mkSym("restrictions", u32), dr)
				v := withField(in.zero(sd), fieldIndex(sd, "DeliveryRestrictions"), mkPtr(in.newCell(st, dr, d)), sd)
				x := mkIface(types.NewPointer(sd), mkPtr(in.newCell(st, sd, v)))
				i := fieldIndex(sis, "SpliceDescriptors")
				et := sis.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice).Elem()
				return withField(in.zero(sis), i, in.newSlice(st, et, unit(x, et)), sis)
			})
		}},
	}
}

// textEntry compares an entry point that decodes text.
// opaqueDecode leaves the section decoder uninterpreted.
func (in *interp) opaqueDecode(sis *types.Named, dec *types.Func) {
	prev := in.opaque
	errT := types.Universe.Lookup("error").Type()
	in.opaque = func(in *interp, fr *frame, st *state, f *types.Func, recv *T, args []*T, ce *ast.CallExpr) ([]*T, bool) {
		if f != dec {
			if prev != nil {
				return prev(in, fr, st, f, recv, args, ce)
			}
			return nil, false
		}
		in.notNil(st, fr, "nil", ce.Pos(), restrict(recv, st.K))
		b := in.seqIn(st, restrict(args[0], st.K))
		v := in.freeze(st, in.load(st, recv))
		in.store(st, recv, mkApp("decoded:section", sis, b, v))
		return []*T{mkApp("decodeErr:section", errT, b, v)}, true
	}
}

func (c *ctx) textEntry(name, spec string) {
	in := newInterp(c.p)
	in.noStrict = true
	sis := c.typeNamed("SpliceInfoSection")
	dec := c.method(sis, "Decode")
	in.opaqueDecode(sis, dec)
	fn := c.function(name)
	st := newState()
	arg := mkSym("s", types.Typ[types.String])
	a := c.runFn(in, st, fn, nil, arg)
	s := c.runFn(in, st, c.function(spec), nil, arg)
	where := c.p.pos(fn.Pos())
	c.same("section", name, where, a.val(0), s.val(0), nil, newFacts())
	c.same("section-present", name, where, not(isNil(restrict(a.vals[0], a.st.K))), tTrue, nil, newFacts())
	c.sameErr(name, a, 1, s, 1, sentinels)
	c.count("functions_compared", 1)
}

// history compares decoding into a used and into a new section.
func (c *ctx) history() {
	t := c.typeNamed("SpliceInfoSection")
	in := c.opaqueInterp()
	st := newState()
	b := in.newSliceSym(st, "b")
	fn := c.method(t, "Decode")
	used := c.runFn(in, st, fn, in.symReceiver(st, t, "earlier"), b)
	st2 := st.clone()
	fresh := c.runFn(in, st2, fn, mkPtr(in.newCell(st2, t, in.zero(t))), b)
	where := c.p.pos(fn.Pos())
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Name() == "XMLName" || f.Name() == "PreRollMilliSeconds" {
			continue // not part of the binary section
		}
		x, y := field(used.recvVal(), i, t), field(fresh.recvVal(), i, t)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			x, y = seqOf(x), seqOf(y)
		}
		c.same("field-forgotten", f.Name(), where, x, y, nil, newFacts())
	}
	c.sameErr("SpliceInfoSection.Decode", used, 0, fresh, 0, sentinels)
	c.count("functions_compared", 1)
}

// historyWire shows that what is unmarshalled without error does not depend on
// what the section held before.
func (c *ctx) historyWire(method string, skip map[string]bool) {
	t := c.typeNamed("SpliceInfoSection")
	st := newState()
	in := c.wireInterp(st)
	var args []*T
	if method == "UnmarshalJSON" {
		args = []*T{in.newSliceSym(st, "doc")}
	} else {
		d, start := c.xmlArgs()
		args = []*T{d, start}
	}
	fn := c.method(t, method)
	used := c.runFn(in, st, fn, in.symReceiver(st, t, "earlier"), args...)
	st2 := st.clone()
	fresh := c.runFn(in, st2, fn, mkPtr(in.newCell(st2, t, in.zero(t))), args...)
	where := c.p.pos(fn.Pos())
	c.same("error-nil", method, where, used.errNil(0), fresh.errNil(0), nil, newFacts())
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if skip[f.Name()] {
			continue
		}
		x, y := field(used.recvVal(), i, t), field(fresh.recvVal(), i, t)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			x, y = seqOf(x), seqOf(y)
		}
		c.same("field-forgotten", method+" "+f.Name(), where, x, y, fresh.errNil(0), newFacts())
	}
	c.count("functions_compared", 1)
}

// retains shows that a decoder neither writes its argument nor keeps it.
func (c *ctx) retains(fn *types.Func, t *types.Named, opaque bool) {
	var in *interp
	if opaque {
		in = c.opaqueInterp()
	} else {
		in = newInterp(c.p)
		in.noStrict = true
	}
	st := newState()
	b := in.newSliceSym(st, "b")
	cell := in.symCell(st, b)
	before := st.mem[cell]
	recv := in.symReceiver(st, t, "earlier")
	a := c.runFn(in, st, fn, recv, b)
	name := shortName(fn)
	where := c.p.pos(fn.Pos())
	c.same("argument-unchanged", name, where, in.freeze(a.st, in.content(a.st, cell)), before, nil, newFacts())
	u := t.Underlying().(*types.Struct)
	later := a.st.clone()
	later.mem[cell] = mkApp("overwritten", types.NewSlice(types.Typ[types.Uint8]), before)
	later.mem[cell].bytes = true
	lr := &side{in, later, a.vals, recv, fn}
	for i := 0; i < u.NumFields(); i++ {
		x, y := field(a.recvVal(), i, t), field(lr.recvVal(), i, t)
		if c.test(x == y, "not-retained", name+" "+u.Field(i).Name(), where, "the field changes when the caller overwrites the buffer after %s returned", name) {
		}
	}
	c.count("functions_analysed", 1)
}

// readOnly shows that fn leaves everything reachable from its receiver as it was,
// the recorded type code excepted.
func (c *ctx) readOnly(e entry, opaque bool) {
	sig := e.fn.Type().(*types.Signature)
	pt, ok := sig.Recv().Type().Underlying().(*types.Pointer)
	var in *interp
	if opaque {
		in = c.opaqueInterp()
	} else {
		in = newInterp(c.p)
		in.noStrict = true
	}
	st := newState()
	if strings.HasPrefix(e.fn.Name(), "Marshal") {
		c.asWire(in, st)
	}
	var recv *T
	t := sig.Recv().Type()
	if ok {
		t = pt.Elem()
		recv = in.symReceiver(st, t.(*types.Named), "v")
	} else {
		recv = mkSym("v", t)
	}
	var args []*T
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i).Type()
		a := mkSym("a"+itoa(i), p)
		if q, ok := p.(*types.Pointer); ok && e.role == "writeTo" {
			a = in.tableArg(st, q.Elem().(*types.Named))
		}
		args = append(args, a)
	}
	a := c.runFn(in, st, e.fn, recv, args...)
	where := c.p.pos(e.fn.Pos())
	// what the receiver's pointers, slices and interfaces lead to
	for cell, now := range a.st.mem {
		atom := in.symAtoms[cell]
		if atom == nil || now == in.symContent(atom) {
			continue
		}
		own := false
		for _, x := range args {
			own = own || mentions(atom, x) || x.op == OPtr && mentions(atom, in.content(st, x.n))
		}
		if own {
			continue
		}
		if onlyCode(atom, now, in.symContent(atom)) {
			continue
		}
		c.same("reached-unchanged", e.name+" "+atom.show(4, 60), where, now, in.symContent(atom), nil, newFacts())
	}
	c.ok("reached-unchanged", e.name, where)
	get := func(st *state) *T {
		if ok {
			return in.freeze(st, in.load(st, recv))
		}
		return in.freeze(st, recv)
	}
	x, y := get(a.st), get(st)
	u, isS := t.Underlying().(*types.Struct)
	if !isS {
		c.same("receiver-unchanged", e.name, where, x, y, nil, newFacts())
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Name() == "JSONType" {
			continue
		}
		p, q := field(x, i, t), field(y, i, t)
		if p == q {
			c.ok("receiver-unchanged", e.name+" "+f.Name(), where)
			continue
		}
		c.same("receiver-unchanged", e.name+" "+f.Name(), where, p, q, nil, newFacts())
	}
	c.count("functions_analysed", 1)
}

// onlyCode reports that two values of what p points to differ in nothing but the
// recorded type code.
func onlyCode(p, a, b *T) bool {
	if p.typ == nil {
		return a == b
	}
	ptr, ok := p.typ.Underlying().(*types.Pointer)
	if !ok {
		return a == b
	}
	t := ptr.Elem()
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return a == b
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != "JSONType" && field(a, i, t) != field(b, i, t) {
			return false
		}
	}
	return true
}

func (c *ctx) readers() []aunit {
	var us []aunit
	for _, e := range c.roleEntries("encode", "length", "writeTo", "id") {
		us = append(us, aunit{e.name, func(c *ctx) { c.readOnly(e, false) }})
	}
	for _, e := range c.exported() {
		if isDecodeEntry(e) || strings.HasPrefix(e.fn.Name(), "Unmarshal") || e.fn.Type().(*types.Signature).Recv() == nil {
			continue
		}
		if role, _, _ := c.r.roleFor(e.fn); role != "" {
			continue
		}
		us = append(us, aunit{e.name, func(c *ctx) { c.readOnly(e, true) }})
	}
	return us
}

func init() {
	register(&check{id: "C20", spec: true, level: "translation_validation",
		rule:  "Table and the reference are evaluated abstractly on an arbitrary section with uninterpreted rows for command and descriptors, and on sections holding an arbitrary value of each command and descriptor type, for arbitrary prefix and indent; the text must be the same value graph on every path.",
		units: func(c *ctx) []aunit { return c.tables() }, minimum: map[string]int{"table": 13}})
	register(&check{id: "C21", spec: true, level: "translation_validation",
		rule:  "Each naming function (or the table row that shows the name) and the reference table of SCTE 35 names are evaluated abstractly on an arbitrary code; the text must be the same value graph for every code.",
		units: func(c *ctx) []aunit { return c.names() }, minimum: map[string]int{"name": 5}})
	register(&check{id: "C14", spec: true, level: "translation_validation",
		rule: "DecodeBase64 and DecodeHex and the reference are evaluated abstractly on an arbitrary string with Decode uninterpreted; the section, its presence and the error class must be the same value graph on every path.",
		units: func(c *ctx) []aunit {
			return []aunit{{"base64", func(c *ctx) { c.textEntry("DecodeBase64", "specDecodeBase64") }},
				{"hex", func(c *ctx) { c.textEntry("DecodeHex", "specDecodeHex") }}}
		},
		minimum: map[string]int{"section": 2, "section-present": 2, "error-nil": 2, "error-is": 8}})
	register(&check{id: "C24", spec: true, level: "translation_validation",
		rule: "Decode is evaluated abstractly on the same arbitrary bytes into a section with arbitrary earlier contents and into a new one, and so are UnmarshalJSON and UnmarshalXML on an arbitrary document; every field and the error class must be the same value graph on every path.",
		units: func(c *ctx) []aunit {
			return []aunit{{"section", func(c *ctx) { c.history() }},
				{"json", func(c *ctx) {
					c.historyWire("UnmarshalJSON", map[string]bool{"XMLName": true, "PreRollMilliSeconds": true})
				}},
				{"xml", func(c *ctx) { c.historyWire("UnmarshalXML", map[string]bool{"XMLName": true}) }}}
		},
		minimum: map[string]int{"field-forgotten": 24, "error-nil": 3, "error-is": 4}})
	register(&check{id: "C23", level: "proof",
		rule: "Decode and the decode method of every type are evaluated abstractly on an arbitrary buffer; afterwards the buffer's content must be what it was, and no field of the receiver may change when the buffer's memory is overwritten.",
		units: func(c *ctx) []aunit {
			sis := c.typeNamed("SpliceInfoSection")
			us := []aunit{{"section", func(c *ctx) { c.retains(c.method(sis, "Decode"), sis, true) }}}
			for _, t := range c.r.cmdTypes {
				us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.retains(c.method(t, c.r.name["decode"]), t, false) }})
			}
			for _, t := range c.r.descTypes {
				us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.retains(c.method(t, c.r.dname["decode"]), t, false) }})
			}
			return us
		},
		minimum: map[string]int{"argument-unchanged": 13, "not-retained": 50}})
	register(&check{id: "C25", level: "proof",
		rule:  "Every exported method other than the decoders and unmarshallers, and the encode, length, table and type methods of every command and descriptor type, is evaluated abstractly on an arbitrary receiver; every field reachable from the receiver must afterwards hold the value graph it held before.",
		units: func(c *ctx) []aunit { return c.readers() }, minimum: map[string]int{"receiver-unchanged": 150}})
	register(&check{id: "C29", spec: true, level: "translation_validation",
		rule: "NewUTCSpliceTime and GPSSeconds and their references are evaluated abstractly on arbitrary arguments, and so is their composition against the identity; the results must be the same value graph.",
		units: func(c *ctx) []aunit {
			return []aunit{{"to time", func(c *ctx) { c.equal("conversion", "NewUTCSpliceTime", c.function("NewUTCSpliceTime"), "specUTC") }},
				{"from time", func(c *ctx) {
					c.equal("conversion", "GPSSeconds", c.method(c.typeNamed("UTCSpliceTime"), "GPSSeconds"), "specGPSOf")
				}},
				{"there and back", func(c *ctx) { c.equal("round-trip", "seconds", c.function("specThereAndBack"), "specSame") }}}
		},
		minimum: map[string]int{"conversion": 2, "round-trip": 1}})
	register(&check{id: "C30", spec: true, level: "translation_validation",
		rule: "Duration and the reference are evaluated abstractly on an arbitrary section; the result must be the same value graph on every path.",
		units: func(c *ctx) []aunit {
			return []aunit{{"section", func(c *ctx) {
				c.equal("duration", "SpliceInfoSection", c.method(c.typeNamed("SpliceInfoSection"), "Duration"), "specDuration")
			}}}
		},
		minimum: map[string]int{"duration": 1}})
	register(&check{id: "C31", spec: true, level: "translation_validation",
		rule: "Base64 and Hex are evaluated abstractly and must be the standard encodings of Encode's bytes, or empty when Encode fails; whenever Encode returns no error, no encode method of a command or descriptor may have returned one.",
		units: func(c *ctx) []aunit {
			all := []string{"decode", "encode", "length", "writeTo"}
			sis := c.typeNamed("SpliceInfoSection")
			return []aunit{{"base64", func(c *ctx) { c.equal("text", "Base64", c.method(sis, "Base64"), "specBase64", all...) }},
				{"hex", func(c *ctx) { c.equal("text", "Hex", c.method(sis, "Hex"), "specHex", all...) }},
				{"failures", func(c *ctx) {
					in := c.opaqueInterp()
					st := newState()
					recv := in.symReceiver(st, sis, "v")
					a := c.runFn(in, st, c.method(sis, "Encode"), recv)
					s := c.runFn(in, st, c.function("specFailures"), nil, recv)
					c.same("failure-reported", "Encode", c.p.pos(a.fn.Pos()), s.errNil(0), tTrue, a.errNil(1), newFacts())
					c.count("functions_compared", 1)
				}}}
		},
		minimum: map[string]int{"text": 2, "failure-reported": 1}})
	register(&check{id: "C33", spec: true, level: "translation_validation",
		rule: "MarshalText and UnmarshalText of Bytes and their references are evaluated abstractly on arbitrary bytes and text; text, bytes, error and the value kept on error must be the same value graph on every path.",
		units: func(c *ctx) []aunit {
			bt := c.typeNamed("Bytes")
			return []aunit{{"marshal", func(c *ctx) { c.equal("text", "MarshalText", c.method(bt, "MarshalText"), "specBytesText") }},
				{"unmarshal", func(c *ctx) {
					in := newInterp(c.p)
					in.noStrict = true
					st := newState()
					recv := in.symReceiver(st, bt, "old")
					old := in.load(st, recv)
					text := in.newSliceSym(st, "text")
					fn := c.method(bt, "UnmarshalText")
					a := c.runFn(in, st, fn, recv, text)
					s := c.runFn(in, st, c.function("specBytesFromText"), nil, old, text)
					where := c.p.pos(fn.Pos())
					c.same("text", "UnmarshalText error", where, a.errNil(0), s.errNil(1), nil, newFacts())
					c.same("text", "UnmarshalText", where, seqOf(a.recvVal()), seqOf(s.val(0)), nil, newFacts())
					c.count("functions_compared", 1)
				}}}
		},
		minimum: map[string]int{"text": 3}})
}

// declared compares the lengths written into an encoded section with the number
// of bytes emitted.
func (c *ctx) declared() {
	a, _, _ := c.sectionEncode()
	where := c.p.pos(a.fn.Pos())
	K := a.st.K.with(a.errNil(1), true)
	out := seqOf(restrict(a.val(0), K))
	in := a.in
	run := func(spec string) *side {
		st := a.st.clone()
		st.K = K
		return c.runFn(in, st, c.function(spec), nil, a.recv, in.newSlice(st, types.Typ[types.Uint8], out))
	}
	d, e := run("specDeclared"), run("specEmitted")
	for i, n := range []string{"section_length", "splice_command_length", "descriptor_loop_length"} {
		c.same("written-length", n, where, restrict(d.val(i), K), restrict(e.val(i), K), nil, K)
	}
	c.count("functions_compared", 1)
}

// descriptorLength compares the length byte of a descriptor with what follows.
func (c *ctx) descriptorLength(tn string) {
	a, s, _, in, _ := c.encodeSides(tn, c.r.dname["encode"])
	where := c.p.pos(a.fn.Pos())
	n := slen(seqOf(s.val(0)))
	K := newFacts().with(and(and(a.errNil(1), s.errNil(1)), leI(n, mkI(257))), true)
	out := seqOf(restrict(a.val(0), K))
	st := a.st.clone()
	st.K = K
	r := c.runFn(in, st, c.function("specDescriptorLength"), nil, in.newSlice(st, types.Typ[types.Uint8], out))
	c.same("written-length", tn, where, restrict(r.val(0), K), restrict(sub(n, mkI(2)), K), nil, K)
	c.count("functions_compared", 1)
}

// counted compares the counts written into an encoded value with the number of
// entries it has.
func (c *ctx) counted(tn, enc string) {
	a, s, recv, in, _ := c.encodeSides(tn, enc)
	where := c.p.pos(a.fn.Pos())
	n := slen(seqOf(s.val(0)))
	K := newFacts().with(and(and(a.errNil(1), s.errNil(1)), leI(n, mkI(4096))), true)
	out := seqOf(restrict(a.val(0), K))
	st := a.st.clone()
	st.K = K
	r := c.runFn(in, st, c.function("specCounts"+tn), nil, recv, in.newSlice(st, types.Typ[types.Uint8], out))
	for i := 0; i+1 < len(r.vals); i += 2 {
		c.same("written-count", tn, where, restrict(r.val(i), K), restrict(r.val(i+1), K), nil, K)
	}
	c.count("functions_compared", 1)
}

// countedEvent does so for the components of a lone event.
func (c *ctx) countedEvent() {
	t := c.typeNamed("SpliceSchedule")
	i := fieldIndex(t, "Events")
	et := t.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice).Elem()
	in := newInterp(c.p)
	in.noStrict = true
	st := newState()
	ev := in.newSlice(st, et, unit(mkSym("event", et), et))
	recv := mkPtr(in.newCell(st, t, withField(mkSym("v", t), i, ev, t)))
	a := c.runFn(in, st, c.method(t, c.r.name["encode"]), recv)
	K := newFacts().with(a.errNil(1), true)
	st2 := a.st.clone()
	st2.K = K
	r := c.runFn(in, st2, c.function("specCountsEvent"), nil, recv, in.newSlice(st2, types.Typ[types.Uint8], seqOf(restrict(a.val(0), K))))
	c.same("written-count", "Event", c.p.pos(a.fn.Pos()), restrict(r.val(0), K), restrict(r.val(1), K), nil, K)
	c.count("functions_compared", 1)
}

func (c *ctx) declaredLengths() []aunit {
	us := []aunit{{"section", func(c *ctx) { c.declared() }}}
	for _, t := range c.r.descTypes {
		us = append(us, aunit{t.Obj().Name() + " written", func(c *ctx) { c.descriptorLength(t.Obj().Name()) }})
	}
	all := append(c.encoders(true), c.encoders(false)...)
	return append(us, just(all, ruleIn("declared-length"))...)
}

// upidsAlone encodes a segmentation descriptor with arbitrary UPIDs and nothing
// else, and decodes one around an arbitrary UPID.
func (c *ctx) upidBytes() {
	sd := c.typeNamed("SegmentationDescriptor")
	in := newInterp(c.p)
	in.noStrict = true
	st := newState()
	i := fieldIndex(sd, "SegmentationUPIDs")
	ut := sd.Underlying().(*types.Struct).Field(i).Type()
	v := withField(in.zero(sd), i, mkSym("upids", ut), sd)
	recv := mkPtr(in.newCell(st, sd, v))
	a := c.runFn(in, st, c.method(sd, c.r.dname["encode"]), recv)
	s := c.runFn(in, st, c.function("specEncodeSegmentationDescriptor"), nil, recv)
	out := seqOf(s.val(0))
	fits := and(s.errNil(1), leI(slen(out), mkI(257)))
	c.same("upid-bytes", "SegmentationDescriptor.encode", c.p.pos(a.fn.Pos()), seqOf(a.val(0)), out, fits, newFacts())
	c.same("upid-bytes", "SegmentationDescriptor.encode refusal", c.p.pos(a.fn.Pos()), a.errNil(1), s.errNil(1), fits, newFacts())
	c.count("functions_compared", 1)
}

func (c *ctx) upidsDecoded() {
	sd := c.typeNamed("SegmentationDescriptor")
	in := newInterp(c.p)
	in.noStrict = true
	st := newState()
	head := bits("00000010")
	rest := mkSym("rest", types.NewSlice(types.Typ[types.Uint8]))
	length := bitF(mkSym("length", types.Typ[types.Uint8]), 8)
	event := bitF(mkSym("event", types.Typ[types.Uint32]), 32)
	b := in.newSlice(st, types.Typ[types.Uint8], cat(head, length, bits("01000011010101010100010101001001"), event, bits("0111111110111111"), seqOf(rest)))
	a := c.runFn(in, st, c.method(sd, c.r.dname["decode"]), mkPtr(in.newCell(st, sd, in.zero(sd))), b)
	s := c.runFn(in, st, c.function("specDecodeSegmentationDescriptor"), nil, b)
	i := fieldIndex(sd, "SegmentationUPIDs")
	c.same("upid-fields", "SegmentationDescriptor.decode", c.p.pos(a.fn.Pos()), seqOf(field(a.recvVal(), i, sd)), seqOf(field(s.val(0), i, sd)), s.errNil(1), newFacts())
	c.count("functions_compared", 1)
}

func init() {
	register(&check{id: "C08", spec: true, level: "translation_validation",
		rule:    "The length method of every command and descriptor type must be the value graph of the number of bytes the reference emits for the same value; the lengths that an independent reader finds in the abstractly encoded section and descriptors must be the value graphs of the number of bytes that follow.",
		units:   func(c *ctx) []aunit { return c.declaredLengths() },
		minimum: map[string]int{"written-length": 9, "declared-length": 12}})
	register(&check{id: "C15", spec: true, level: "translation_validation",
		rule: "NewSegmentationUPID, ASCIIValue, and the encoder and decoder of a segmentation descriptor that carries nothing but arbitrary UPIDs, and their references, are evaluated abstractly; UPID fields and bytes must be the same value graph on every path.",
		units: func(c *ctx) []aunit {
			return []aunit{{"from bytes", func(c *ctx) {
				c.equal("upid-fields", "NewSegmentationUPID", c.function("NewSegmentationUPID"), "specUPID")
			}},
				{"ascii", func(c *ctx) {
					c.equal("upid-text", "ASCIIValue", c.method(c.typeNamed("SegmentationUPID"), "ASCIIValue"), "specASCIIValue")
				}},
				{"to bytes", func(c *ctx) { c.upidBytes() }}, {"decoded", func(c *ctx) { c.upidsDecoded() }}}
		},
		minimum: map[string]int{"upid-fields": 2, "upid-text": 1, "upid-bytes": 2}})
	register(&check{id: "C17", spec: true, level: "translation_validation",
		rule: "The section encoder, the encode method of every command and descriptor type and their references are evaluated abstractly on the same arbitrary value; the condition under which encoding is refused must be the same value graph on every path; where encoding succeeds, the lengths and counts that an independent reader finds in the bytes must be the value graphs of the number of bytes and entries.",
		units: func(c *ctx) []aunit {
			all := append(c.encoders(true), c.encoders(false)...)
			all = append(all, aunit{"section", func(c *ctx) { c.encodedSection() }})
			us := just(append(all, c.declaredLengths()...), ruleIn("encode-error", "written-length"))
			for _, tn := range []string{"SpliceSchedule", "SpliceInsert", "AudioDescriptor", "DTMFDescriptor"} {
				us = append(us, aunit{tn + " counts", func(c *ctx) {
					enc := c.r.dname["encode"]
					if !strings.HasSuffix(tn, "Descriptor") {
						enc = c.r.name["encode"]
					}
					c.counted(tn, enc)
				}})
			}
			return append(us, aunit{"event counts", func(c *ctx) { c.countedEvent() }})
		},
		minimum: map[string]int{"encode-error": 13, "written-length": 9, "written-count": 5}})
}

// recorded shows that the type code kept for JSON and XML is the one reported.
func (c *ctx) recorded(t *types.Named, id string) {
	in := newInterp(c.p)
	in.noStrict = true
	st := newState()
	recv := in.symReceiver(st, t, "v")
	a := c.runFn(in, st, c.method(t, id), recv)
	where := c.p.pos(a.fn.Pos())
	c.same("code-recorded", t.Obj().Name(), where, field(a.recvVal(), fieldIndex(t, "JSONType"), t), a.val(0), nil, newFacts())
	c.count("functions_analysed", 1)
}

func (c *ctx) codes() []aunit {
	pair := func(rule, name, fn, spec string) aunit {
		return aunit{name, func(c *ctx) {
			in := newInterp(c.p)
			in.noStrict = true
			st := newState()
			f := c.function(fn)
			sig := f.Type().(*types.Signature)
			var args []*T
			for i := 0; i < sig.Params().Len(); i++ {
				args = append(args, mkSym(sig.Params().At(i).Name(), sig.Params().At(i).Type()))
			}
			a := c.runFn(in, st, f, nil, args...)
			s := c.runFn(in, st, c.function(spec), nil, args...)
			c.results(rule, name, a, s)
		}}
	}
	us := []aunit{
		pair("type-of-code", "command type", "NewSpliceCommand", "specNewCommand"),
		pair("type-of-code", "descriptor type", "NewSpliceDescriptor", "specNewDescriptor"),
		pair("code-of-type", "command code", "specCommandIdentity", "specCommandCode"),
		pair("code-of-type", "descriptor code", "specDescriptorIdentity", "specDescriptorCode"),
	}
	for _, t := range c.r.cmdTypes {
		us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.recorded(t, c.r.name["id"]) }})
	}
	for _, t := range c.r.descTypes {
		us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.recorded(t, c.r.dname["id"]) }})
	}
	docs := []aunit{{"JSON command", func(c *ctx) { c.unmarshalJSON() }}, {"JSON descriptors", func(c *ctx) { c.unmarshalDescriptorsJSON() }},
		{"XML command", func(c *ctx) { c.unmarshalXML() }}, {"XML descriptors", func(c *ctx) { c.unmarshalDescriptorXML() }}}
	return append(us, just(docs, func(rule, construct string) bool {
		return (rule == "json-read" || rule == "xml-read") && (strings.HasSuffix(construct, " SpliceCommand") || construct == "SpliceDescriptors")
	})...)
}

func init() {
	register(&check{id: "C16", spec: true, level: "translation_validation",
		rule:    "The factories and the reference tables of SCTE 35 codes are evaluated abstractly on arbitrary codes and must yield the same value graph, and so must the code that the created value reports; the commands and descriptors that the JSON and XML unmarshallers create for an arbitrary document must be those of the references; every type's reported code must be the one it records for JSON and XML.",
		units:   func(c *ctx) []aunit { return c.codes() },
		minimum: map[string]int{"type-of-code": 2, "code-of-type": 2, "code-recorded": 12, "json-read": 2, "xml-read": 2}})
}
