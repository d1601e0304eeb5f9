package scte35

// Reference for the binary decoder, written from SCTE 35 2022b.
// Type-checked together with the library by the analyser; never compiled or run.

import (
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"strconv"
	"time"

	"github.com/bamiaux/iobit"
	"golang.org/x/text/encoding/charmap"
)

// specEnd: decoding succeeds exactly when every bit was consumed and none was missing.
func specEnd(r iobit.Reader) error {
	if r.LeftBits() > 0 {
		return ErrBufferUnderflow
	}
	if r.Error() != nil {
		return ErrBufferOverflow
	}
	return nil
}

// specTake reads n bytes, or the rest when fewer are left; the reader moves by n either way.
func specTake(r *iobit.Reader, n int) []byte {
	b := r.Bytes(n)
	r.Skip(uint(8 * (n - len(b))))
	return b
}

func specUTC(sec uint32) UTCSpliceTime {
	return UTCSpliceTime{time.Unix(int64(sec)+315964800, 0).UTC()}
}

func specSpliceTime(r *iobit.Reader) (pts uint64, ok bool) {
	if r.Bit() {
		r.Skip(6)
		return r.Uint64(33), true
	}
	r.Skip(7)
	return 0, false
}

func specBreakDuration(r *iobit.Reader) *BreakDuration {
	bd := &BreakDuration{}
	bd.AutoReturn = r.Bit()
	r.Skip(6)
	bd.Duration = r.Uint64(33)
	return bd
}

func specDecodeSpliceNull(b []byte) (v SpliceNull, err error) {
	r := iobit.NewReader(b)
	return v, specEnd(r)
}

func specDecodeBandwidthReservation(b []byte) (v BandwidthReservation, err error) {
	r := iobit.NewReader(b)
	return v, specEnd(r)
}

func specDecodeTimeSignal(b []byte) (v TimeSignal, err error) {
	r := iobit.NewReader(b)
	if pts, ok := specSpliceTime(&r); ok {
		v.SpliceTime.PTSTime = &pts
	}
	return v, specEnd(r)
}

func specDecodePrivateCommand(b []byte) (v PrivateCommand, err error) {
	r := iobit.NewReader(b)
	v.Identifier = r.Uint32(32)
	v.PrivateBytes = specTake(&r, int(r.LeftBits()/8))
	return v, specEnd(r)
}

func specDecodeSpliceInsert(b []byte) (v SpliceInsert, err error) {
	r := iobit.NewReader(b)
	v.SpliceEventID = r.Uint32(32)
	v.SpliceEventCancelIndicator = r.Bit()
	r.Skip(7)
	if v.SpliceEventCancelIndicator {
		return v, specEnd(r)
	}
	v.OutOfNetworkIndicator = r.Bit()
	program := r.Bit()
	duration := r.Bit()
	v.SpliceImmediateFlag = r.Bit()
	r.Skip(4)
	if program {
		v.Program = &SpliceInsertProgram{}
		if !v.SpliceImmediateFlag {
			if pts, ok := specSpliceTime(&r); ok {
				v.Program.SpliceTime.PTSTime = &pts
			}
		}
	} else {
		n := int(r.Uint32(8))
		v.Components = make([]SpliceInsertComponent, n)
		for i := 0; i < n; i++ {
			v.Components[i].Tag = r.Uint32(8)
			if !v.SpliceImmediateFlag {
				if pts, ok := specSpliceTime(&r); ok {
					v.Components[i].SpliceTime = &SpliceTime{PTSTime: &pts}
				}
			}
		}
	}
	if duration {
		v.BreakDuration = specBreakDuration(&r)
	}
	v.UniqueProgramID = r.Uint32(16)
	v.AvailNum = r.Uint32(8)
	v.AvailsExpected = r.Uint32(8)
	return v, specEnd(r)
}

func specDecodeSpliceSchedule(b []byte) (v SpliceSchedule, err error) {
	r := iobit.NewReader(b)
	n := int(r.Uint32(8))
	v.Events = make([]Event, n)
	for i := 0; i < n; i++ {
		e := Event{}
		e.SpliceEventID = r.Uint32(32)
		e.SpliceEventCancelIndicator = r.Bit()
		e.EventIDComplianceFlag = !r.Bit()
		r.Skip(6)
		if !e.SpliceEventCancelIndicator {
			e.OutOfNetworkIndicator = r.Bit()
			program := r.Bit()
			duration := r.Bit()
			r.Skip(5)
			if program {
				e.Program = &EventProgram{UTCSpliceTime: specUTC(r.Uint32(32))}
			} else {
				m := int(r.Uint32(8))
				e.Components = make([]EventComponent, m)
				for j := 0; j < m; j++ {
					c := EventComponent{}
					c.Tag = r.Uint32(8)
					c.UTCSpliceTime = specUTC(r.Uint32(32))
					e.Components[j] = c
				}
			}
			if duration {
				e.BreakDuration = specBreakDuration(&r)
			}
			e.UniqueProgramID = r.Uint32(16)
			e.AvailNum = r.Uint32(8)
			e.AvailsExpected = r.Uint32(8)
		}
		v.Events[i] = e
	}
	return v, specEnd(r)
}

// specDescriptorHeader skips splice_descriptor_tag, descriptor_length and identifier.
func specDescriptorHeader(r *iobit.Reader) { r.Skip(48) }

func specDecodeAvailDescriptor(b []byte) (v AvailDescriptor, err error) {
	r := iobit.NewReader(b)
	specDescriptorHeader(&r)
	v.ProviderAvailID = r.Uint32(32)
	return v, specEnd(r)
}

func specDecodeDTMFDescriptor(b []byte) (v DTMFDescriptor, err error) {
	r := iobit.NewReader(b)
	specDescriptorHeader(&r)
	v.Preroll = r.Uint32(8)
	n := int(r.Uint32(3))
	r.Skip(5)
	v.DTMFChars = string(specTake(&r, n))
	return v, specEnd(r)
}

func specDecodeTimeDescriptor(b []byte) (v TimeDescriptor, err error) {
	r := iobit.NewReader(b)
	specDescriptorHeader(&r)
	v.TAISeconds = r.Uint64(48)
	v.TAINS = r.Uint32(32)
	v.UTCOffset = r.Uint32(16)
	return v, specEnd(r)
}

func specDecodeAudioDescriptor(b []byte) (v AudioDescriptor, err error) {
	r := iobit.NewReader(b)
	specDescriptorHeader(&r)
	n := int(r.Uint32(4))
	r.Skip(4)
	v.AudioChannels = make([]AudioChannel, n)
	for i := 0; i < n; i++ {
		a := AudioChannel{}
		a.ComponentTag = r.Uint32(8)
		a.ISOCode = r.String(3)
		a.BitStreamMode = r.Uint32(3)
		a.NumChannels = r.Uint32(4)
		a.FullSrvcAudio = r.Bit()
		v.AudioChannels[i] = a
	}
	return v, specEnd(r)
}

func specDecodePrivateDescriptor(b []byte) (v PrivateDescriptor, err error) {
	r := iobit.NewReader(b)
	v.PrivateTag = r.Uint32(8)
	r.Skip(8)
	v.Identifier = r.Uint32(32)
	v.PrivateBytes = specTake(&r, int(r.LeftBits()/8))
	return v, specEnd(r)
}

// specSubSegments: the segmentation types that may carry sub_segment_num.
func specSubSegments(id uint32) bool {
	return id == 0x30 || id == 0x32 || id == 0x34 || id == 0x36 || id == 0x38 || id == 0x3a || id == 0x44 || id == 0x46
}

func specDecodeSegmentationDescriptor(b []byte) (v SegmentationDescriptor, err error) {
	r := iobit.NewReader(b)
	specDescriptorHeader(&r)
	v.SegmentationEventID = r.Uint32(32)
	v.SegmentationEventCancelIndicator = r.Bit()
	v.SegmentationEventIDComplianceIndicator = !r.Bit()
	r.Skip(6)
	if v.SegmentationEventCancelIndicator {
		return v, specEnd(r)
	}
	program := r.Bit()
	duration := r.Bit()
	unrestricted := r.Bit()
	if unrestricted {
		r.Skip(5)
	} else {
		v.DeliveryRestrictions = &DeliveryRestrictions{}
		v.DeliveryRestrictions.WebDeliveryAllowedFlag = r.Bit()
		v.DeliveryRestrictions.NoRegionalBlackoutFlag = r.Bit()
		v.DeliveryRestrictions.ArchiveAllowedFlag = r.Bit()
		v.DeliveryRestrictions.DeviceRestrictions = r.Uint32(2)
	}
	if !program {
		n := int(r.Uint32(8))
		v.Components = make([]SegmentationDescriptorComponent, n)
		for i := 0; i < n; i++ {
			c := SegmentationDescriptorComponent{}
			c.Tag = r.Uint32(8)
			r.Skip(7)
			c.PTSOffset = r.Uint64(33)
			v.Components[i] = c
		}
	}
	if duration {
		d := r.Uint64(40)
		v.SegmentationDuration = &d
	}
	upidType := r.Uint32(8)
	upidLength := int(r.Uint32(8))
	upid := specTake(&r, upidLength)
	if upidLength > 0 {
		if upidType == 0x0d {
			u := iobit.NewReader(upid)
			v.SegmentationUPIDs = []SegmentationUPID{}
			for u.LeftBits() > 0 {
				t := u.Uint32(8)
				n := int(u.Uint32(8))
				v.SegmentationUPIDs = append(v.SegmentationUPIDs, specUPID(t, u.Bytes(n)))
			}
		} else {
			v.SegmentationUPIDs = []SegmentationUPID{specUPID(upidType, upid)}
		}
	}
	v.SegmentationTypeID = r.Uint32(8)
	v.SegmentNum = r.Uint32(8)
	v.SegmentsExpected = r.Uint32(8)
	if r.LeftBits() == 16 && specSubSegments(v.SegmentationTypeID) {
		n := r.Uint32(8)
		e := r.Uint32(8)
		v.SubSegmentNum = &n
		v.SubSegmentsExpected = &e
	}
	return v, specEnd(r)
}

// specUPID maps the bytes of a UPID to its presentation.
func specUPID(t uint32, b []byte) SegmentationUPID {
	u := SegmentationUPID{Type: t, Format: "text"}
	switch t {
	case 0x0a: // EIDR
		u.Value = specEIDR(b)
	case 0x05, 0x06: // ISAN
		u.Format = "base-64"
		u.Value = base64.StdEncoding.EncodeToString(b)
	case 0x0c: // MPU
		r := iobit.NewReader(b)
		id := r.Uint32(32)
		u.Format = "base-64"
		u.FormatIdentifier = &id
		u.Value = base64.StdEncoding.EncodeToString(r.LeftBytes())
	case 0x08: // TI
		r := iobit.NewReader(b)
		u.Value = strconv.FormatUint(r.Uint64(r.LeftBits()), 10)
	default:
		v, _ := charmap.ISO8859_1.NewDecoder().Bytes(b)
		u.Value = string(v)
	}
	return u
}

func specEIDR(b []byte) string {
	if len(b) == 12 {
		return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", binary.BigEndian.Uint16(b[0:2]), b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])
	}
	for i := 0; i < len(b); i++ {
		if b[i] == '/' {
			return string(b)
		}
	}
	return ""
}

func specNewCommand(t uint32) SpliceCommand {
	switch t {
	case 0x00:
		return &SpliceNull{}
	case 0x04:
		return &SpliceSchedule{}
	case 0x05:
		return &SpliceInsert{}
	case 0x06:
		return &TimeSignal{}
	case 0x07:
		return &BandwidthReservation{}
	}
	return &PrivateCommand{}
}

func specNewDescriptor(identifier, tag uint32) SpliceDescriptor {
	if identifier == 0x43554549 {
		switch tag {
		case 0x00:
			return &AvailDescriptor{}
		case 0x01:
			return &DTMFDescriptor{}
		case 0x02:
			return &SegmentationDescriptor{}
		case 0x03:
			return &TimeDescriptor{}
		case 0x04:
			return &AudioDescriptor{}
		}
	}
	return &PrivateDescriptor{Identifier: identifier}
}

// specDecodeDescriptors splits a descriptor loop. The last failing descriptor
// decides the error; every descriptor is kept.
func specDecodeDescriptors(b []byte) (sds []SpliceDescriptor, err error) {
	r := iobit.NewReader(b)
	for r.LeftBits() > 0 {
		head := r.Peek()
		tag := head.Uint32(8)
		n := int(head.Uint32(8))
		identifier := head.Uint32(32)
		sd := specNewDescriptor(identifier, tag)
		if e := sd.DESC_decode(specTake(&r, n+2)); e != nil {
			err = e
		}
		sds = append(sds, sd)
	}
	if err == nil {
		err = specEnd(r)
	}
	return sds, err
}

// specDecodeSection decodes into a section whose earlier contents are irrelevant.
func specDecodeSection(b []byte) (v SpliceInfoSection, err error) {
	r := iobit.NewReader(b)
	r.Skip(10)
	v.SAPType = r.Uint32(2)
	r.Skip(12)
	v.ProtocolVersion = r.Uint32(8)
	encrypted := r.Bit()
	v.EncryptedPacket.EncryptionAlgorithm = r.Uint32(6)
	v.PTSAdjustment = r.Uint64(33)
	v.EncryptedPacket.CWIndex = r.Uint32(8)
	v.Tier = r.Uint32(12)
	n := int(r.Uint32(12))
	v.SpliceCommand = specNewCommand(r.Uint32(8))
	if n == 0xFFF {
		rest := r.Peek()
		err = v.SpliceCommand.CMD_decode(rest.LeftBytes())
		if err != nil && !specIsUnderflow(err) {
			return v, err
		}
		r.Skip(uint(8 * v.SpliceCommand.CMD_length()))
	} else {
		err = v.SpliceCommand.CMD_decode(specTake(&r, n))
		if err != nil {
			return v, err
		}
	}
	n = int(r.Uint32(16))
	v.SpliceDescriptors, err = specDecodeDescriptors(specTake(&r, n))
	if err != nil {
		return v, err
	}
	trailer := 4
	if encrypted {
		trailer = 8
	}
	stuffing := int(r.LeftBits())/8 - trailer
	if stuffing > 0 {
		v.STUFFING = specTake(&r, stuffing)
	}
	r.Skip(uint(8 * trailer))
	err = specEnd(r)
	if err != nil {
		return v, err
	}
	if specCRC(b[:len(b)-4]) != binary.BigEndian.Uint32(b[len(b)-4:]) {
		return v, ErrCRC32Invalid
	}
	return v, nil
}

func specIsUnderflow(err error) bool { return errors.Is(err, ErrBufferUnderflow) }

// specCRC is CRC-32/MPEG-2, bit by bit.
func specCRC(b []byte) uint32 {
	crc := ^uint32(0)
	for i := 0; i < len(b); i++ {
		crc ^= uint32(b[i]) << 24
		for k := 0; k < 8; k++ {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04C11DB7
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}
