package scte35

// Reference for the binary encoder, written from SCTE 35 2022b. A reference
// encoder writes into a buffer larger than anything it can produce and cuts
// off what it wrote, so that it needs no length of its own.

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/bamiaux/iobit"
	"golang.org/x/text/encoding/charmap"
)

var errSpec = errors.New("cannot be represented")

const specRoom = 1 << 60

func specGPS(t time.Time) uint32 { return uint32(t.Unix() - 315964800) }

func specPutTime(w *iobit.Writer, pts *uint64) {
	w.PutBit(pts != nil)
	if pts != nil {
		w.PutUint32(6, 0x3F)
		w.PutUint64(33, *pts)
	} else {
		w.PutUint32(7, 0x7F)
	}
}

func specPutDuration(w *iobit.Writer, d *BreakDuration) {
	w.PutBit(d.AutoReturn)
	w.PutUint32(6, 0x3F)
	w.PutUint64(33, d.Duration)
}

func specEncodeSpliceNull(v *SpliceNull) ([]byte, error) { return nil, nil }

func specEncodeBandwidthReservation(v *BandwidthReservation) ([]byte, error) { return nil, nil }

func specEncodeTimeSignal(v *TimeSignal) ([]byte, error) {
	buf := make([]byte, specRoom)
	w := iobit.NewWriter(buf)
	specPutTime(&w, v.SpliceTime.PTSTime)
	w.Flush()
	return buf[:w.Index()/8], nil
}

func specEncodePrivateCommand(v *PrivateCommand) ([]byte, error) {
	buf := make([]byte, specRoom)
	w := iobit.NewWriter(buf)
	w.PutUint32(32, v.Identifier)
	w.Write(v.PrivateBytes)
	w.Flush()
	return buf[:w.Index()/8], nil
}

func specEncodeSpliceInsert(v *SpliceInsert) ([]byte, error) {
	buf := make([]byte, specRoom)
	w := iobit.NewWriter(buf)
	w.PutUint32(32, v.SpliceEventID)
	w.PutBit(v.SpliceEventCancelIndicator)
	w.PutUint32(7, 0x7F)
	if !v.SpliceEventCancelIndicator {
		w.PutBit(v.OutOfNetworkIndicator)
		w.PutBit(v.Program != nil)
		w.PutBit(v.BreakDuration != nil)
		w.PutBit(v.SpliceImmediateFlag)
		w.PutUint32(4, 0xF)
		if v.Program != nil {
			if !v.SpliceImmediateFlag {
				specPutTime(&w, v.Program.SpliceTime.PTSTime)
			}
		} else {
			if len(v.Components) > 255 {
				return nil, errSpec
			}
			w.PutUint32(8, uint32(len(v.Components)))
			for i := 0; i < len(v.Components); i++ {
				w.PutUint32(8, v.Components[i].Tag)
				if !v.SpliceImmediateFlag {
					var pts *uint64
					if v.Components[i].SpliceTime != nil {
						pts = v.Components[i].SpliceTime.PTSTime
					}
					specPutTime(&w, pts)
				}
			}
		}
		if v.BreakDuration != nil {
			specPutDuration(&w, v.BreakDuration)
		}
		w.PutUint32(16, v.UniqueProgramID)
		w.PutUint32(8, v.AvailNum)
		w.PutUint32(8, v.AvailsExpected)
	}
	w.Flush()
	return buf[:w.Index()/8], nil
}

func specEncodeSpliceSchedule(v *SpliceSchedule) ([]byte, error) {
	if len(v.Events) > 255 {
		return nil, errSpec
	}
	buf := make([]byte, specRoom)
	w := iobit.NewWriter(buf)
	w.PutUint32(8, uint32(len(v.Events)))
	for i := 0; i < len(v.Events); i++ {
		e := v.Events[i]
		w.PutUint32(32, e.SpliceEventID)
		w.PutBit(e.SpliceEventCancelIndicator)
		w.PutBit(!e.EventIDComplianceFlag)
		w.PutUint32(6, 0x3F)
		if e.SpliceEventCancelIndicator {
			continue
		}
		w.PutBit(e.OutOfNetworkIndicator)
		w.PutBit(e.Program != nil)
		w.PutBit(e.BreakDuration != nil)
		w.PutUint32(5, 0x1F)
		if e.Program != nil {
			w.PutUint32(32, specGPS(e.Program.UTCSpliceTime.Time))
		} else {
			if len(e.Components) > 255 {
				return nil, errSpec
			}
			w.PutUint32(8, uint32(len(e.Components)))
			for j := 0; j < len(e.Components); j++ {
				w.PutUint32(8, e.Components[j].Tag)
				w.PutUint32(32, specGPS(e.Components[j].UTCSpliceTime.Time))
			}
		}
		if e.BreakDuration != nil {
			specPutDuration(&w, e.BreakDuration)
		}
		w.PutUint32(16, e.UniqueProgramID)
		w.PutUint32(8, e.AvailNum)
		w.PutUint32(8, e.AvailsExpected)
	}
	w.Flush()
	return buf[:w.Index()/8], nil
}

// specDescriptor puts splice_descriptor_tag, descriptor_length and identifier
// in front of the rest of a descriptor. A body that does not fit the length
// byte has no encoding.
func specDescriptor(tag, identifier uint32, body []byte) []byte {
	buf := make([]byte, specRoom)
	w := iobit.NewWriter(buf)
	w.PutUint32(8, tag)
	w.PutUint32(8, uint32(len(body)+4))
	w.PutUint32(32, identifier)
	w.Write(body)
	w.Flush()
	return buf[:w.Index()/8]
}

func specEncodeAvailDescriptor(v *AvailDescriptor) ([]byte, error) {
	body := make([]byte, specRoom)
	w := iobit.NewWriter(body)
	w.PutUint32(32, v.ProviderAvailID)
	w.Flush()
	return specDescriptor(0x00, 0x43554549, body[:w.Index()/8]), nil
}

func specEncodeDTMFDescriptor(v *DTMFDescriptor) ([]byte, error) {
	if len(v.DTMFChars) > 7 {
		return nil, errSpec
	}
	body := make([]byte, specRoom)
	w := iobit.NewWriter(body)
	w.PutUint32(8, v.Preroll)
	w.PutUint32(3, uint32(len(v.DTMFChars)))
	w.PutUint32(5, 0x1F)
	w.Write([]byte(v.DTMFChars))
	w.Flush()
	return specDescriptor(0x01, 0x43554549, body[:w.Index()/8]), nil
}

func specEncodeTimeDescriptor(v *TimeDescriptor) ([]byte, error) {
	body := make([]byte, specRoom)
	w := iobit.NewWriter(body)
	w.PutUint64(48, v.TAISeconds)
	w.PutUint32(32, v.TAINS)
	w.PutUint32(16, v.UTCOffset)
	w.Flush()
	return specDescriptor(0x03, 0x43554549, body[:w.Index()/8]), nil
}

func specEncodeAudioDescriptor(v *AudioDescriptor) ([]byte, error) {
	if len(v.AudioChannels) > 15 {
		return nil, errSpec
	}
	body := make([]byte, specRoom)
	w := iobit.NewWriter(body)
	w.PutUint32(4, uint32(len(v.AudioChannels)))
	w.PutUint32(4, 0xF)
	for i := 0; i < len(v.AudioChannels); i++ {
		c := v.AudioChannels[i]
		if len(c.ISOCode) != 3 {
			return nil, errSpec
		}
		w.PutUint32(8, c.ComponentTag)
		w.Write([]byte(c.ISOCode))
		w.PutUint32(3, c.BitStreamMode)
		w.PutUint32(4, c.NumChannels)
		w.PutBit(c.FullSrvcAudio)
	}
	w.Flush()
	return specDescriptor(0x04, 0x43554549, body[:w.Index()/8]), nil
}

func specEncodePrivateDescriptor(v *PrivateDescriptor) ([]byte, error) {
	return specDescriptor(v.PrivateTag, v.Identifier, v.PrivateBytes), nil
}

func specEncodeSegmentationDescriptor(v *SegmentationDescriptor) ([]byte, error) {
	body := make([]byte, specRoom)
	w := iobit.NewWriter(body)
	w.PutUint32(32, v.SegmentationEventID)
	w.PutBit(v.SegmentationEventCancelIndicator)
	w.PutBit(!v.SegmentationEventIDComplianceIndicator)
	w.PutUint32(6, 0x3F)
	if !v.SegmentationEventCancelIndicator {
		w.PutBit(len(v.Components) == 0)
		w.PutBit(v.SegmentationDuration != nil)
		w.PutBit(v.DeliveryRestrictions == nil)
		if v.DeliveryRestrictions == nil {
			w.PutUint32(5, 0x1F)
		} else {
			w.PutBit(v.DeliveryRestrictions.WebDeliveryAllowedFlag)
			w.PutBit(v.DeliveryRestrictions.NoRegionalBlackoutFlag)
			w.PutBit(v.DeliveryRestrictions.ArchiveAllowedFlag)
			w.PutUint32(2, v.DeliveryRestrictions.DeviceRestrictions)
		}
		if len(v.Components) > 0 {
			w.PutUint32(8, uint32(len(v.Components)))
			for i := 0; i < len(v.Components); i++ {
				w.PutUint32(8, v.Components[i].Tag)
				w.PutUint32(7, 0x7F)
				w.PutUint64(33, v.Components[i].PTSOffset)
			}
		}
		if v.SegmentationDuration != nil {
			w.PutUint64(40, *v.SegmentationDuration)
		}
		t, upid := specUPIDs(v.SegmentationUPIDs)
		w.PutUint32(8, t)
		w.PutUint32(8, uint32(len(upid)))
		w.Write(upid)
		w.PutUint32(8, v.SegmentationTypeID)
		w.PutUint32(8, v.SegmentNum)
		w.PutUint32(8, v.SegmentsExpected)
		if specSubSegments(v.SegmentationTypeID) && (v.SubSegmentNum != nil || v.SubSegmentsExpected != nil) {
			var n, e uint32
			if v.SubSegmentNum != nil {
				n = *v.SubSegmentNum
			}
			if v.SubSegmentsExpected != nil {
				e = *v.SubSegmentsExpected
			}
			w.PutUint32(8, n)
			w.PutUint32(8, e)
		}
	}
	w.Flush()
	return specDescriptor(0x02, 0x43554549, body[:w.Index()/8]), nil
}

// specUPIDs is segmentation_upid_type and segmentation_upid(): none, one, or a
// MID() of several.
func specUPIDs(us []SegmentationUPID) (uint32, []byte) {
	if len(us) == 0 {
		return 0, nil
	}
	if len(us) == 1 {
		return us[0].Type, specUPIDBytes(us[0])
	}
	buf := make([]byte, specRoom)
	w := iobit.NewWriter(buf)
	for i := 0; i < len(us); i++ {
		b := specUPIDBytes(us[i])
		w.PutUint32(8, us[i].Type)
		w.PutUint32(8, uint32(len(b)))
		w.Write(b)
	}
	w.Flush()
	return 0x0d, buf[:w.Index()/8]
}

// specUPIDBytes maps the presentation of a UPID to its bytes.
func specUPIDBytes(u SegmentationUPID) []byte {
	value := strings.TrimSpace(u.Value)
	switch u.Type {
	case 0x0a: // EIDR
		return specCompactEIDR(value)
	case 0x05, 0x06: // ISAN
		b, _ := base64.StdEncoding.DecodeString(value)
		return b
	case 0x0c: // MPU
		b := make([]byte, 4)
		if u.FormatIdentifier != nil {
			binary.BigEndian.PutUint32(b, *u.FormatIdentifier)
		}
		v, err := base64.StdEncoding.DecodeString(value)
		if err != nil {
			return b
		}
		return append(b, v...)
	case 0x08: // TI
		b := make([]byte, 8)
		i, err := strconv.ParseUint(value, 10, 64)
		if err == nil {
			binary.BigEndian.PutUint64(b, i)
		}
		return b
	}
	b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(u.Value))
	return b
}

// specCompactEIDR is the compact binary form of a canonical EIDR
// "10.5240/XXXX-XXXX-XXXX-XXXX-XXXX-C", or the text itself for anything else.
func specCompactEIDR(s string) []byte {
	parts := strings.FieldsFunc(s, func(r rune) bool { return r == '.' || r == '/' })
	if len(parts) != 3 {
		return []byte(s)
	}
	prefix, err := strconv.Atoi(parts[1])
	if err != nil {
		return []byte(s)
	}
	h, err := hex.DecodeString(strings.ReplaceAll(parts[2], "-", ""))
	if err != nil {
		return []byte(s)
	}
	b := make([]byte, 12)
	w := iobit.NewWriter(b)
	w.PutUint32(16, uint32(prefix))
	w.Write(h)
	w.Flush()
	return b
}

// specEncodeSection: the section, or an error when a length field cannot hold
// its value or a command or descriptor cannot be encoded.
func specEncodeSection(v *SpliceInfoSection) ([]byte, error) {
	encrypted := v.EncryptedPacket.EncryptionAlgorithm != 0
	loop := 0
	for i := 0; i < len(v.SpliceDescriptors); i++ {
		loop += 2 + v.SpliceDescriptors[i].DESC_length()
	}
	trailer := 4
	if encrypted {
		trailer = 8
	}
	n := 11 + v.SpliceCommand.CMD_length() + 2 + loop + len(v.STUFFING) + trailer
	if n > 0xFFF {
		return nil, errSpec
	}
	buf := make([]byte, 3+n)
	w := iobit.NewWriter(buf)
	w.PutUint32(8, 0xFC)
	w.PutBit(false)
	w.PutBit(false)
	w.PutUint32(2, v.SAPType)
	w.PutUint32(12, uint32(n))
	w.PutUint32(8, v.ProtocolVersion)
	w.PutBit(encrypted)
	w.PutUint32(6, v.EncryptedPacket.EncryptionAlgorithm)
	w.PutUint64(33, v.PTSAdjustment)
	w.PutUint32(8, v.EncryptedPacket.CWIndex)
	w.PutUint32(12, v.Tier)
	w.PutUint32(12, uint32(v.SpliceCommand.CMD_length()))
	w.PutUint32(8, v.SpliceCommand.CMD_id())
	sc, err := v.SpliceCommand.CMD_encode()
	if err != nil {
		return nil, err
	}
	w.Write(sc)
	w.PutUint32(16, uint32(loop))
	for i := 0; i < len(v.SpliceDescriptors); i++ {
		if v.SpliceDescriptors[i].DESC_length() > 0xFF {
			return nil, errSpec
		}
		sd, err := v.SpliceDescriptors[i].DESC_encode()
		if err != nil {
			return nil, err
		}
		w.Write(sd)
	}
	w.Write(v.STUFFING)
	if encrypted {
		w.PutUint32(32, specCRC(buf[:w.Index()/8]))
		w.Flush()
	}
	w.PutUint32(32, specCRC(buf[:w.Index()/8]))
	w.Flush()
	return buf, nil
}
