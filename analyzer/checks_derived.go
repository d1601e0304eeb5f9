package main

// Checks that look at one aspect of the evaluated codec.

import (
	"go/types"
	"strings"
)

// just evaluates units and decides only the obligations that keep selects.
func just(units []aunit, keep func(rule, construct string) bool) []aunit {
	var out []aunit
	for _, u := range units {
		out = append(out, aunit{u.name, func(c *ctx) {
			c.keep = keep
			u.run(c)
		}})
	}
	return out
}

func ruleIn(names ...string) func(r, k string) bool {
	return func(r, k string) bool {
		for _, n := range names {
			if r == n {
				return true
			}
		}
		return false
	}
}

// trailer: the last bytes of an encoded section are checksums of what precedes them.
func (c *ctx) encodedCRC() {
	t := c.typeNamed("SpliceInfoSection")
	in := c.opaqueInterp()
	st := newState()
	recv := in.symReceiver(st, t, "v")
	a := c.runFn(in, st, c.method(t, "Encode"), recv)
	where := c.p.pos(a.fn.Pos())
	K := a.st.K.with(a.errNil(1), true)
	out := seqOf(restrict(a.val(0), K))
	n := slen(out)
	crc := func(end *T) *T {
		st := a.st.clone()
		st.K = K
		s := in.newSlice(st, types.Typ[types.Uint8], subSeqK(out, tZero, end, K))
		r := c.runFn(in, st, c.function("specCRC"), nil, s)
		return bitF(restrict(r.val(0), K), 32)
	}
	end := sub(n, mkI(4))
	c.same("crc-32", "SpliceInfoSection", where, subSeqK(out, end, mkI(4), K), crc(end), nil, K)
	ep := field(in.freeze(st, in.load(st, recv)), fieldIndex(t, "EncryptedPacket"), t)
	ept := t.Underlying().(*types.Struct).Field(fieldIndex(t, "EncryptedPacket")).Type()
	enc := not(eqI(field(ep, fieldIndex(ept, "EncryptionAlgorithm"), ept), tZero))
	K2 := K.with(enc, true)
	K = K2
	out = restrict(out, K)
	end = sub(n, mkI(8))
	c.same("e-crc-32", "SpliceInfoSection", where, subSeqK(out, end, mkI(4), K), crc(end), nil, K)
	c.count("functions_compared", 1)
}

func init() {
	register(&check{id: "C04", spec: true, level: "translation_validation",
		rule: "Decode and the reference are evaluated abstractly on the same arbitrary bytes; the list of descriptors (count, order, type and the bytes each is decoded from) and the error class must be the same value graph on every path.",
		units: func(c *ctx) []aunit {
			return just([]aunit{{"section", func(c *ctx) { c.decoded("SpliceDescriptors") }}}, func(r, k string) bool { return true })
		},
		minimum: map[string]int{"section-field": 1, "error-is": 4, "error-nil": 1}})

	register(&check{id: "C09", spec: true, level: "translation_validation",
		rule: "For Decode and the decode method of every command and descriptor type, the condition under which it returns nil, and under which errors.Is reports underflow or overflow, must be the same value graph as the reference's on every path.",
		units: func(c *ctx) []aunit {
			us := []aunit{{"section", func(c *ctx) { c.decoded("SAPType") }}}
			us = append(us, c.decoders(true)...)
			us = append(us, c.decoders(false)...)
			return just(us, func(r, k string) bool {
				return r == "error-nil" || r == "error-is" && strings.Contains(k, "ErrBuffer")
			})
		},
		minimum: map[string]int{"error-nil": 13, "error-is": 26}})

	register(&check{id: "C11", spec: true, level: "translation_validation",
		rule: "Decode and the reference are evaluated abstractly on the same arbitrary bytes; errors.Is(err, ErrCRC32Invalid) must be the same value graph on every path, and so must every field whenever that is the error.",
		units: func(c *ctx) []aunit {
			return just([]aunit{{"section", func(c *ctx) { c.decoded() }}}, func(r, k string) bool {
				return r == "section-field" || r == "error-is" && strings.Contains(k, "CRC32")
			})
		},
		minimum: map[string]int{"section-field": 7, "error-is": 1}})

	register(&check{id: "C10", spec: true, level: "translation_validation",
		rule:    "Encode is evaluated abstractly on an arbitrary section; the last four bytes of its result must be the value graph of the MPEG-2 CRC-32 of the other bytes, and with encryption the four before them that of the bytes before those.",
		units:   func(c *ctx) []aunit { return []aunit{{"section", func(c *ctx) { c.encodedCRC() }}} },
		minimum: map[string]int{"crc-32": 1, "e-crc-32": 1}})
}
