package scte35

// JSON and XML documents: which name carries which field.

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"strings"
)

var specErrElement = errors.New("no such descriptor")

func specMarshalJSON(sis *SpliceInfoSection) ([]byte, error) {
	// the type code of a command or descriptor is recorded when it is asked for
	if sis.SpliceCommand != nil {
		sis.SpliceCommand.CMD_id()
	}
	for _, d := range sis.SpliceDescriptors {
		d.DESC_id()
	}
	doc := struct {
		ProtocolVersion   uint32            `json:"protocolVersion,omitempty"`
		EncryptedPacket   EncryptedPacket   `json:"encryptedPacket"`
		PTSAdjustment     uint64            `json:"ptsAdjustment,omitempty"`
		SAPType           uint32            `json:"sapType"`
		Tier              uint32            `json:"tier"`
		SpliceCommand     SpliceCommand     `json:"spliceCommand,omitempty"`
		SpliceDescriptors SpliceDescriptors `json:"spliceDescriptors,omitempty"`
	}{sis.ProtocolVersion, sis.EncryptedPacket, sis.PTSAdjustment, sis.SAPType, sis.Tier, sis.SpliceCommand, sis.SpliceDescriptors}
	return json.Marshal(doc)
}

func specUnmarshalJSON(b []byte) (out SpliceInfoSection, err error) {
	var doc struct {
		ProtocolVersion   uint32            `json:"protocolVersion"`
		EncryptedPacket   EncryptedPacket   `json:"encryptedPacket"`
		PTSAdjustment     uint64            `json:"ptsAdjustment"`
		SAPType           *uint32           `json:"sapType"`
		Tier              uint32            `json:"tier"`
		SpliceCommand     json.RawMessage   `json:"spliceCommand"`
		SpliceDescriptors SpliceDescriptors `json:"spliceDescriptors"`
	}
	if err = json.Unmarshal(b, &doc); err != nil {
		return out, err
	}
	out.ProtocolVersion = doc.ProtocolVersion
	out.EncryptedPacket = doc.EncryptedPacket
	out.PTSAdjustment = doc.PTSAdjustment
	out.Tier = doc.Tier
	out.SpliceDescriptors = doc.SpliceDescriptors
	out.SAPType = SAPTypeNotSpecified
	if doc.SAPType != nil {
		out.SAPType = *doc.SAPType
	}
	if doc.SpliceCommand != nil {
		var head struct {
			Type uint32 `json:"type"`
		}
		if err = json.Unmarshal(doc.SpliceCommand, &head); err != nil {
			return out, err
		}
		out.SpliceCommand = specNewCommand(head.Type)
		err = json.Unmarshal(doc.SpliceCommand, out.SpliceCommand)
	}
	return out, err
}

func specUnmarshalDescriptorsJSON(b []byte) (out SpliceDescriptors, err error) {
	var docs []json.RawMessage
	if err = json.Unmarshal(b, &docs); err != nil {
		return nil, err
	}
	for _, doc := range docs {
		var head struct {
			Type       uint32 `json:"type"`
			Identifier uint32 `json:"identifier"`
		}
		head.Identifier = CUEIdentifier
		if err = json.Unmarshal(doc, &head); err != nil {
			return nil, err
		}
		d := specNewDescriptor(head.Identifier, head.Type)
		if err = json.Unmarshal(doc, d); err != nil {
			return nil, err
		}
		out = append(out, d)
	}
	return out, nil
}

func specUnmarshalXML(d *xml.Decoder, start xml.StartElement) (out SpliceInfoSection, err error) {
	var doc struct {
		SAPType              *uint32               `xml:"sapType,attr"`
		PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr"`
		PTSAdjustment        uint64                `xml:"ptsAdjustment,attr"`
		ProtocolVersion      uint32                `xml:"protocolVersion,attr"`
		Tier                 uint32                `xml:"tier,attr"`
		EncryptedPacket      EncryptedPacket       `xml:"http://www.scte.org/schemas/35 EncryptedPacket"`
		SpliceNull           *SpliceNull           `xml:"http://www.scte.org/schemas/35 SpliceNull"`
		SpliceSchedule       *SpliceSchedule       `xml:"http://www.scte.org/schemas/35 SpliceSchedule"`
		SpliceInsert         *SpliceInsert         `xml:"http://www.scte.org/schemas/35 SpliceInsert"`
		TimeSignal           *TimeSignal           `xml:"http://www.scte.org/schemas/35 TimeSignal"`
		BandwidthReservation *BandwidthReservation `xml:"http://www.scte.org/schemas/35 BandwidthReservation"`
		PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand"`
		SpliceDescriptors    SpliceDescriptors     `xml:",any"`
	}
	if err = d.DecodeElement(&doc, &start); err != nil {
		return out, err
	}
	out.PreRollMilliSeconds = doc.PreRollMilliSeconds
	out.ProtocolVersion = doc.ProtocolVersion
	out.EncryptedPacket = doc.EncryptedPacket
	out.PTSAdjustment = doc.PTSAdjustment
	out.Tier = doc.Tier
	out.SpliceDescriptors = doc.SpliceDescriptors
	out.SAPType = SAPTypeNotSpecified
	if doc.SAPType != nil {
		out.SAPType = *doc.SAPType
	}
	switch {
	case doc.SpliceNull != nil:
		out.SpliceCommand = doc.SpliceNull
	case doc.SpliceSchedule != nil:
		out.SpliceCommand = doc.SpliceSchedule
	case doc.SpliceInsert != nil:
		out.SpliceCommand = doc.SpliceInsert
	case doc.TimeSignal != nil:
		out.SpliceCommand = doc.TimeSignal
	case doc.BandwidthReservation != nil:
		out.SpliceCommand = doc.BandwidthReservation
	case doc.PrivateCommand != nil:
		out.SpliceCommand = doc.PrivateCommand
	}
	return out, nil
}

func specUnmarshalDescriptorXML(old SpliceDescriptors, d *xml.Decoder, start xml.StartElement) (SpliceDescriptors, error) {
	var v SpliceDescriptor
	var err error
	switch n := start.Name.Local; {
	case n == "AvailDescriptor":
		var x AvailDescriptor
		err = d.DecodeElement(&x, &start)
		v = &x
	case n == "DTMFDescriptor":
		var x DTMFDescriptor
		err = d.DecodeElement(&x, &start)
		v = &x
	case n == "SegmentationDescriptor":
		var x SegmentationDescriptor
		err = d.DecodeElement(&x, &start)
		v = &x
	case n == "TimeDescriptor":
		var x TimeDescriptor
		err = d.DecodeElement(&x, &start)
		v = &x
	case n == "AudioDescriptor":
		var x AudioDescriptor
		err = d.DecodeElement(&x, &start)
		v = &x
	case n == "PrivateDescriptor":
		var x PrivateDescriptor
		err = d.DecodeElement(&x, &start)
		v = &x
	default:
		return nil, specErrElement
	}
	if err != nil {
		return nil, err
	}
	return append(old, v), nil
}

func specUnmarshalUPIDXML(old SegmentationUPID, d *xml.Decoder, start xml.StartElement) (SegmentationUPID, error) {
	doc := struct {
		Type             uint32  `xml:"segmentationUpidType,attr"`
		Format           string  `xml:"segmentationUpidFormat,attr"`
		FormatIdentifier *uint32 `xml:"formatIdentifier,attr"`
		Text             string  `xml:",chardata"`
	}{Type: old.Type, Format: old.Format}
	if err := d.DecodeElement(&doc, &start); err != nil {
		return old, err
	}
	return SegmentationUPID{Type: doc.Type, Format: doc.Format, FormatIdentifier: doc.FormatIdentifier, Value: strings.TrimSpace(doc.Text)}, nil
}
