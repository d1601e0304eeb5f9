package main

// Encoding: bytes, declared lengths and refusals.

import "go/types"

// encodeSides evaluates encode and its reference on an arbitrary value.
func (c *ctx) encodeSides(tn, method string) (a, s *side, recv *T, in *interp, st *state) {
	t := c.typeNamed(tn)
	in = newInterp(c.p)
	in.noStrict = true
	st = newState()
	recv = in.symReceiver(st, t, "v")
	spec := c.p.fn(c.p.lib, "specEncode"+tn)
	if spec == nil {
		giveUp("no reference for %s", tn)
	}
	a = c.runFn(in, st, c.method(t, method), recv)
	s = c.runFn(in, st, spec, nil, recv)
	return
}

func (c *ctx) compareEncode(tn string, cmd bool) {
	names := c.r.dname
	if cmd {
		names = c.r.name
	}
	a, s, recv, in, st := c.encodeSides(tn, names["encode"])
	where := c.p.pos(a.fn.Pos())
	out := seqOf(s.val(0))
	n := slen(out)
	body := n
	fits := tTrue
	if !cmd {
		body = sub(n, mkI(2))
		fits = leI(body, mkI(255))
	}
	okS := s.errNil(1)
	c.same("encode-error", tn, where, a.errNil(1), okS, or(fits, not(okS)), newFacts())
	c.same("encode-bytes", tn, where, seqOf(a.val(0)), out, and(okS, fits), newFacts())
	l := c.runFn(in, st, c.method(c.typeNamed(tn), names["length"]), lengthRecv(c, in, st, tn, names["length"], recv))
	c.same("declared-length", tn, c.p.pos(l.fn.Pos()), l.val(0), body, okS, newFacts())
	c.count("functions_compared", 2)
}

func lengthRecv(c *ctx, in *interp, st *state, tn, m string, recv *T) *T {
	f := c.method(c.typeNamed(tn), m)
	if _, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); !ptr {
		return in.load(st, recv)
	}
	return recv
}

func (c *ctx) encoders(cmd bool) []aunit {
	ts := c.r.descTypes
	if cmd {
		ts = c.r.cmdTypes
	}
	var us []aunit
	for _, t := range ts {
		us = append(us, aunit{t.Obj().Name(), func(c *ctx) { c.compareEncode(t.Obj().Name(), cmd) }})
	}
	return us
}

func init() {
	register(&check{id: "C06", spec: true, level: "translation_validation",
		rule:  "For every type implementing SpliceCommand, the encode and length methods and the reference encoder are evaluated abstractly on the same arbitrary value: refusal, emitted bytes and declared length must be the same value graph on every path.",
		units: func(c *ctx) []aunit { return c.encoders(true) }, minimum: map[string]int{"encode-bytes": 6, "declared-length": 6, "encode-error": 6}})
	register(&check{id: "C07", spec: true, level: "translation_validation",
		rule:  "For every type implementing SpliceDescriptor, the encode and length methods and the reference encoder are evaluated abstractly on the same arbitrary value: refusal, emitted bytes and declared length must be the same value graph on every path.",
		units: func(c *ctx) []aunit { return c.encoders(false) }, minimum: map[string]int{"encode-bytes": 6, "declared-length": 6, "encode-error": 6}})
}

// sectionEncode evaluates Encode and its reference on an arbitrary section
// whose command is present; commands and descriptors are uninterpreted.
func (c *ctx) sectionEncode() (a, s *side, t *types.Named) {
	t = c.typeNamed("SpliceInfoSection")
	in := c.opaqueInterp()
	st := newState()
	recv := in.symReceiver(st, t, "v")
	v := in.load(st, recv)
	st.K = st.K.with(isNil(field(v, fieldIndex(t, "SpliceCommand"), t)), false)
	a = c.runFn(in, st, c.method(t, "Encode"), recv)
	s = c.runFn(in, st, c.function("specEncodeSection"), nil, recv)
	return
}

func (c *ctx) encodedSection() {
	a, s, _ := c.sectionEncode()
	where := c.p.pos(a.fn.Pos())
	c.same("encode-error", "SpliceInfoSection", where, a.errNil(1), s.errNil(1), nil, a.st.K)
	c.same("encode-bytes", "SpliceInfoSection", where, seqOf(a.val(0)), seqOf(s.val(0)), s.errNil(1), a.st.K)
	c.count("functions_compared", 1)
}

func init() {
	register(&check{id: "C05", spec: true, level: "translation_validation",
		rule:    "The section encoder and the reference transcribed from SCTE 35 are evaluated abstractly on the same arbitrary section with uninterpreted commands and descriptors; refusal and every emitted bit, both checksums included, must be the same value graph on every path.",
		units:   func(c *ctx) []aunit { return []aunit{{"section", func(c *ctx) { c.encodedSection() }}} },
		minimum: map[string]int{"encode-bytes": 1, "encode-error": 1}})
}
