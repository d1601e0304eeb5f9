package main

// The section level: framing, trailer, dispatch and history, with the methods
// of commands and descriptors uninterpreted (each is decided on its own).

import (
	"go/types"
)

var wireSkip = map[string]bool{"JSONType": true, "XMLName": true}

func (c *ctx) opaqueInterp(which ...string) *interp {
	in := newInterp(c.p)
	if len(which) == 0 {
		which = []string{"decode", "encode", "length", "writeTo"}
	}
	in.setOpaque(c.r, which...)
	in.noStrict = true
	return in
}

// symReceiver is a receiver with arbitrary earlier contents.
func (in *interp) symReceiver(st *state, t *types.Named, name string) *T {
	return mkPtr(in.newCell(st, t, mkSym(name, t)))
}

// sectionDecode evaluates Decode and its reference on the same bytes.
func (c *ctx) sectionDecode() (a, s *side, t *types.Named) {
	t = c.typeNamed("SpliceInfoSection")
	in := c.opaqueInterp()
	st := newState()
	b := in.newSliceSym(st, "b")
	recv := in.symReceiver(st, t, "earlier")
	a = c.runFn(in, st, c.method(t, "Decode"), recv, b)
	s = c.runFn(in, st, c.function("specDecodeSection"), nil, b)
	return a, s, t
}

// decoded compares the fields of a decoded section, when decoding succeeded or
// only the checksum was wrong.
func (c *ctx) decoded(fields ...string) {
	a, s, t := c.sectionDecode()
	where := c.p.pos(a.fn.Pos())
	when := or(s.errNil(1), s.errorIs(1, c.sentinel(s.in, s.st, "ErrCRC32Invalid")))
	u := t.Underlying().(*types.Struct)
	want := map[string]bool{}
	for _, f := range fields {
		want[f] = true
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if len(fields) > 0 && !want[f.Name()] || len(fields) == 0 && (wireSkip[f.Name()] || f.Name() == "PreRollMilliSeconds") {
			continue
		}
		if !f.Exported() && f.Name() != stuffingField(c) {
			continue
		}
		x, y := field(a.recvVal(), i, t), field(s.val(0), i, t)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			x, y = seqOf(x), seqOf(y)
		}
		c.same("section-field", f.Name(), where, x, y, when, newFacts())
	}
	c.sameErr("SpliceInfoSection.Decode", a, 0, s, 1, sentinels)
	c.count("functions_compared", 1)
}

func init() {
	register(&check{id: "C01", spec: true, level: "translation_validation",
		rule:    "The section decoder and the reference transcribed from SCTE 35 are evaluated abstractly on the same arbitrary bytes and an arbitrary earlier receiver; every header and trailer field and the error class must be the same value graph on every path.",
		units:   func(c *ctx) []aunit { return []aunit{{"section", func(c *ctx) { c.decoded() }}} },
		minimum: map[string]int{"section-field": 7, "error-is": 4, "error-nil": 1}})
}
