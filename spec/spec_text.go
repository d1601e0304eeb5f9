package scte35

// Reference for the text encodings.

import (
	"encoding/base64"
	"encoding/hex"
	"strings"

	"github.com/bamiaux/iobit"
)

func specDecodeBase64(s string) (*SpliceInfoSection, error) {
	v := &SpliceInfoSection{}
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return v, ErrUnsupportedEncoding
	}
	return v, v.Decode(b)
}

func specDecodeHex(s string) (*SpliceInfoSection, error) {
	v := &SpliceInfoSection{}
	if strings.HasPrefix(s, "0x") {
		s = s[2:]
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return v, ErrUnsupportedEncoding
	}
	return v, v.Decode(b)
}

func specBase64(v *SpliceInfoSection) string {
	b, err := v.Encode()
	if err != nil {
		return ""
	}
	return base64.StdEncoding.EncodeToString(b)
}

func specHex(v *SpliceInfoSection) string {
	b, err := v.Encode()
	if err != nil {
		return ""
	}
	return hex.EncodeToString(b)
}

// specFailures is the first failure of a command or descriptor.
func specFailures(v *SpliceInfoSection) error {
	if v.SpliceCommand == nil {
		return nil
	}
	if _, err := v.SpliceCommand.CMD_encode(); err != nil {
		return err
	}
	for i := 0; i < len(v.SpliceDescriptors); i++ {
		if _, err := v.SpliceDescriptors[i].DESC_encode(); err != nil {
			return err
		}
	}
	return nil
}

func specBytesText(b Bytes) ([]byte, error) { return []byte(hex.EncodeToString(b)), nil }

func specBytesFromText(old Bytes, text []byte) (Bytes, error) {
	b, err := hex.DecodeString(string(text))
	if err != nil {
		return old, err
	}
	return b, nil
}

// ---- type codes ----

func specCommandIdentity(t uint32) uint32 { return NewSpliceCommand(t).CMD_id() }

func specCommandCode(t uint32) uint32 {
	switch t {
	case 0x00, 0x04, 0x05, 0x06, 0x07:
		return t
	}
	return 0xFF
}

func specDescriptorIdentity(identifier, tag uint32) uint32 {
	return NewSpliceDescriptor(identifier, tag).DESC_id()
}

func specDescriptorCode(identifier, tag uint32) uint32 {
	if identifier == 0x43554549 && tag <= 4 {
		return tag
	}
	return 0
}

// ---- lengths ----

// specDeclared reads the lengths written into an encoded section.
func specDeclared(v *SpliceInfoSection, out []byte) (section, command, loop uint32) {
	r := iobit.NewReader(out)
	r.Skip(12)
	section = r.Uint32(12)
	r.Skip(68)
	command = r.Uint32(12)
	r.Skip(uint(8 + 8*v.SpliceCommand.CMD_length()))
	loop = r.Uint32(16)
	return
}

// specEmitted counts the bytes of an encoded section.
func specEmitted(v *SpliceInfoSection, out []byte) (section, command, loop uint32) {
	n := 0
	for i := 0; i < len(v.SpliceDescriptors); i++ {
		n += 2 + v.SpliceDescriptors[i].DESC_length()
	}
	return uint32(len(out) - 3), uint32(v.SpliceCommand.CMD_length()), uint32(n)
}

func specDescriptorLength(out []byte) int { return int(out[1]) }

// specASCIIValue shows the bytes of a UPID, unprintable ones as dots.
func specASCIIValue(u *SegmentationUPID) string {
	b := specUPIDBytes(*u)
	s := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		s[i] = '.'
		if b[i] >= 0x20 && b[i] <= 0x7E {
			s[i] = b[i]
		}
	}
	return string(s)
}
