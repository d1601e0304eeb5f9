package scte35

// Reference for the textual table and the names of codes, labels and names as
// in SCTE 35 2022b.

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

type specTab struct {
	prefix, indent string
	b              strings.Builder
}

func (t *specTab) line(level int, text string) {
	t.b.WriteString(t.prefix)
	for i := 0; i < level; i++ {
		t.b.WriteString(t.indent)
	}
	t.b.WriteString(text)
	t.b.WriteString("\n")
}

func (t *specTab) num(level int, key string, v uint64) {
	t.line(level, key+": "+strconv.FormatUint(v, 10))
}

func (t *specTab) flag(level int, key string, v bool) {
	if v {
		t.line(level, key+": true")
	} else {
		t.line(level, key+": false")
	}
}

func (t *specTab) text(level int, key, v string) { t.line(level, key+": "+v) }

// specRows stands for the rows of a command or descriptor.
func specRows(v any, prefix, indent string) string { return "" }

// specTable is the table of a section. With rows set, commands and descriptors
// contribute their rows as a whole.
func specTable(v *SpliceInfoSection, prefix, indent string, rows bool) string {
	t := &specTab{prefix: prefix, indent: indent}
	t.line(0, "splice_info_section() {")
	t.text(1, "table_id", "0xfc")
	t.flag(1, "section_syntax_indicator", false)
	t.flag(1, "private_indicator", false)
	t.text(1, "sap_type", strconv.FormatUint(uint64(v.SAPType), 10)+" ("+specSAPName(v.SAPType)+")")
	loop := 0
	for i := 0; i < len(v.SpliceDescriptors); i++ {
		loop += 2 + v.SpliceDescriptors[i].DESC_length()
	}
	n := 11 + 2 + loop + len(v.STUFFING) + 4
	if v.SpliceCommand != nil {
		n += v.SpliceCommand.CMD_length()
	}
	if v.EncryptedPacket.EncryptionAlgorithm != 0 {
		n += 4
	}
	t.text(1, "section_length", strconv.Itoa(n))
	t.line(0, "}")
	t.num(0, "protocol_version", uint64(v.ProtocolVersion))
	t.text(0, "encryption_algorithm", strconv.FormatUint(uint64(v.EncryptedPacket.EncryptionAlgorithm), 10)+" ("+specEncryptionName(v.EncryptedPacket.EncryptionAlgorithm)+")")
	t.num(0, "pts_adjustment", v.PTSAdjustment)
	t.num(0, "cw_index", uint64(v.EncryptedPacket.CWIndex))
	t.num(0, "tier", uint64(v.Tier))
	if v.SpliceCommand != nil {
		t.text(0, "splice_command_length", strconv.Itoa(v.SpliceCommand.CMD_length()))
		t.text(0, "splice_command_type", fmt.Sprintf("%#02x", v.SpliceCommand.CMD_id()))
		if rows {
			t.b.WriteString(specRows(v.SpliceCommand, prefix, indent))
		} else {
			specCommandRows(t, v.SpliceCommand)
		}
	}
	t.text(0, "descriptor_loop_length", strconv.Itoa(loop))
	for i := 0; i < len(v.SpliceDescriptors); i++ {
		if rows {
			t.b.WriteString(specRows(v.SpliceDescriptors[i], prefix, indent))
		} else {
			specDescriptorRows(t, v.SpliceDescriptors[i])
		}
	}
	return t.b.String()
}

func specFourCC(v uint32) string {
	return string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}

func specTimeRows(t *specTab, level int, pts *uint64) {
	t.flag(level, "time_specified_flag", pts != nil)
	if pts != nil {
		t.num(level, "pts_time", *pts)
	}
}

func specCommandRows(t *specTab, sc SpliceCommand) {
	switch c := sc.(type) {
	case *SpliceNull:
		t.line(0, "splice_null() {}")
	case *BandwidthReservation:
		t.line(0, "bandwidth_reservation() {}")
	case *TimeSignal:
		t.line(0, "time_signal() {")
		specTimeRows(t, 1, c.SpliceTime.PTSTime)
		t.line(0, "}")
	case *PrivateCommand:
		t.line(0, "private_command() {")
		t.text(1, "identifier", fmt.Sprintf("%#08x", c.Identifier)+", ("+specFourCC(c.Identifier)+")")
		t.text(1, "private_byte", fmt.Sprintf("%#0x", c.PrivateBytes))
		t.line(0, "}")
	case *SpliceInsert:
		t.line(0, "splice_insert() {")
		t.num(1, "splice_event_id", uint64(c.SpliceEventID))
		t.flag(1, "splice_event_cancel_indicator", c.SpliceEventCancelIndicator)
		if !c.SpliceEventCancelIndicator {
			t.flag(1, "out_of_network_indicator", c.OutOfNetworkIndicator)
			t.flag(1, "program_splice_flag", c.Program != nil)
			t.flag(1, "duration_flag", c.BreakDuration != nil)
			t.flag(1, "splice_immediate_flag", c.SpliceImmediateFlag)
			if c.Program != nil {
				if !c.SpliceImmediateFlag {
					specTimeRows(t, 1, c.Program.SpliceTime.PTSTime)
				}
			} else {
				t.text(1, "component_count", strconv.Itoa(len(c.Components)))
				for i := 0; i < len(c.Components); i++ {
					t.line(1, "component["+strconv.Itoa(i)+"]")
					t.num(2, "component_tag", uint64(c.Components[i].Tag))
					if !c.SpliceImmediateFlag {
						var pts *uint64
						if c.Components[i].SpliceTime != nil {
							pts = c.Components[i].SpliceTime.PTSTime
						}
						specTimeRows(t, 2, pts)
					}
					t.line(1, "}")
				}
			}
			if c.BreakDuration != nil {
				t.flag(1, "auto_return", c.BreakDuration.AutoReturn)
				t.num(1, "duration", c.BreakDuration.Duration)
			}
			t.num(1, "unique_program_id", uint64(c.UniqueProgramID))
			t.num(1, "avail_num", uint64(c.AvailNum))
			t.num(1, "avails_expected", uint64(c.AvailsExpected))
		}
		t.line(0, "}")
	case *SpliceSchedule:
		t.line(0, "splice_schedule() {")
		t.text(1, "splice_count", strconv.Itoa(len(c.Events)))
		for i := 0; i < len(c.Events); i++ {
			e := c.Events[i]
			t.line(1, "event["+strconv.Itoa(i)+"]")
			t.num(2, "splice_event_id", uint64(e.SpliceEventID))
			t.flag(2, "splice_event_cancel_indicator", e.SpliceEventCancelIndicator)
			t.flag(2, "event_id_compliance_flag", e.EventIDComplianceFlag)
			if !e.SpliceEventCancelIndicator {
				t.flag(2, "out_of_network_indicator", e.OutOfNetworkIndicator)
				t.flag(2, "program_splice_flag", e.Program != nil)
				t.flag(2, "duration_flag", e.BreakDuration != nil)
				if e.Program != nil {
					t.text(2, "utc_splice_time", e.Program.UTCSpliceTime.Time.String())
				} else {
					t.text(2, "component_count", strconv.Itoa(len(e.Components)))
					for j := 0; j < len(e.Components); j++ {
						t.line(2, "component["+strconv.Itoa(j)+"]")
						t.num(3, "component_tag", uint64(e.Components[j].Tag))
						t.text(3, "utc_splice_time", e.Components[j].UTCSpliceTime.Time.String())
						t.line(2, "}")
					}
				}
				if e.BreakDuration != nil {
					t.flag(2, "auto_return", e.BreakDuration.AutoReturn)
					t.num(2, "duration", e.BreakDuration.Duration)
				}
				t.num(2, "unique_program_id", uint64(e.UniqueProgramID))
				t.num(2, "avail_num", uint64(e.AvailNum))
				t.num(2, "avails_expected", uint64(e.AvailsExpected))
			}
			t.line(1, "}")
		}
		t.line(0, "}")
	}
}

func specDescriptorRows(t *specTab, sd SpliceDescriptor) {
	length := strconv.Itoa(sd.DESC_length())
	switch d := sd.(type) {
	case *AvailDescriptor:
		t.line(0, "avail_descriptor() {")
		t.text(1, "splice_descriptor_tag", "0x00")
		t.text(1, "descriptor_length", length)
		t.text(1, "identifier", "0x43554549, (CUEI)")
		t.num(1, "provider_avail_id", uint64(d.ProviderAvailID))
	case *DTMFDescriptor:
		t.line(0, "dtmf_descriptor() {")
		t.text(1, "splice_descriptor_tag", "0x01")
		t.text(1, "descriptor_length", length)
		t.text(1, "identifier", "0x43554549 (CUEI)")
		t.text(1, "preroll", fmt.Sprintf("%.2f", float32(d.Preroll)/10))
		t.text(1, "dtmf_count", strconv.Itoa(len(d.DTMFChars)))
		t.text(1, "dtmf_chars", d.DTMFChars)
	case *TimeDescriptor:
		t.line(0, "time_descriptor() {")
		t.text(1, "splice_descriptor_tag", "0x03")
		t.text(1, "descriptor_length", length)
		t.text(1, "identifier", "0x43554549, (CUEI)")
		t.num(1, "tai_seconds", d.TAISeconds)
		t.num(1, "tai_ns", uint64(d.TAINS))
		t.num(1, "utc_offset", uint64(d.UTCOffset))
	case *AudioDescriptor:
		t.line(0, "audio_descriptor() {")
		t.text(1, "splice_descriptor_tag", "0x04")
		t.text(1, "descriptor_length", length)
		t.text(1, "identifier", "0x43554549, (CUEI)")
		t.text(1, "audio_count", strconv.Itoa(len(d.AudioChannels)))
		for i := 0; i < len(d.AudioChannels); i++ {
			c := d.AudioChannels[i]
			t.line(1, "audio_channel["+strconv.Itoa(i)+"] {")
			t.num(2, "component_tag", uint64(c.ComponentTag))
			t.text(2, "iso_code", c.ISOCode)
			t.num(2, "bit_stream_mode", uint64(c.BitStreamMode))
			t.num(2, "num_channels", uint64(c.NumChannels))
			t.flag(2, "full_srvc_audio", c.FullSrvcAudio)
			t.line(1, "}")
		}
	case *PrivateDescriptor:
		t.line(0, "private_descriptor() {")
		t.text(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", d.PrivateTag))
		t.text(1, "descriptor_length", length)
		t.text(1, "identifier", fmt.Sprintf("%#08x", d.Identifier)+", ("+specFourCC(d.Identifier)+")")
		t.text(1, "private_bytes", fmt.Sprintf("%#0x", d.PrivateBytes))
	case *SegmentationDescriptor:
		t.line(0, "segmentation_descriptor() {")
		t.text(1, "splice_descriptor_tag", "0x02")
		t.text(1, "descriptor_length", length)
		t.text(1, "identifier", "0x43554549 (CUEI)")
		t.num(1, "segmentation_event_id", uint64(d.SegmentationEventID))
		t.flag(1, "segmentation_event_cancel_indicator", d.SegmentationEventCancelIndicator)
		t.flag(1, "segmentation_event_id_compliance_indicator", d.SegmentationEventIDComplianceIndicator)
		if !d.SegmentationEventCancelIndicator {
			t.flag(1, "program_segmentation_flag", len(d.Components) == 0)
			t.flag(1, "segmentation_duration_flag", d.SegmentationDuration != nil)
			t.flag(1, "delivery_not_restricted_flag", d.DeliveryRestrictions == nil)
			if r := d.DeliveryRestrictions; r != nil {
				t.flag(1, "web_delivery_allowed_flag", r.WebDeliveryAllowedFlag)
				t.flag(1, "no_regional_blackout_flag", r.NoRegionalBlackoutFlag)
				t.flag(1, "archive_allowed_flag", r.ArchiveAllowedFlag)
				t.text(1, "device_restrictions", strconv.FormatUint(uint64(r.DeviceRestrictions), 10)+" ("+specDeviceName(r.DeviceRestrictions)+")")
			}
			if len(d.Components) > 0 {
				t.text(1, "component_count", strconv.Itoa(len(d.Components)))
				for i := 0; i < len(d.Components); i++ {
					t.line(1, "component["+strconv.Itoa(i)+"] {")
					t.num(2, "component_tag", uint64(d.Components[i].Tag))
					t.num(2, "pts_offset", d.Components[i].PTSOffset)
					t.line(1, "}")
				}
			}
			if d.SegmentationDuration != nil {
				t.num(1, "segmentation_duration", *d.SegmentationDuration)
			}
			_, upid := specUPIDs(d.SegmentationUPIDs)
			t.text(1, "segmentation_upid_length", strconv.Itoa(len(upid)))
			for i := 0; i < len(d.SegmentationUPIDs); i++ {
				u := d.SegmentationUPIDs[i]
				t.line(1, "segmentation_upid["+strconv.Itoa(i)+"] {")
				t.text(2, "segmentation_upid_type", fmt.Sprintf("%#02x", u.Type)+" ("+specUPIDName(u.Type, u.Value)+")")
				if u.Type == 0x0c {
					if u.FormatIdentifier == nil {
						t.text(2, "format_identifier", "")
					} else {
						t.text(2, "format_identifier", specFourCC(*u.FormatIdentifier))
					}
				}
				t.text(2, "segmentation_upid", u.Value)
				t.line(1, "}")
			}
			t.text(1, "segmentation_type_id", fmt.Sprintf("%#02x", d.SegmentationTypeID)+" ("+specSegmentationName(d.SegmentationTypeID)+")")
			t.num(1, "segment_num", uint64(d.SegmentNum))
			t.num(1, "segments_expected", uint64(d.SegmentsExpected))
			if specSubSegments(d.SegmentationTypeID) {
				if d.SubSegmentNum != nil {
					t.num(1, "sub_segment_num", uint64(*d.SubSegmentNum))
				}
				if d.SubSegmentsExpected != nil {
					t.num(1, "sub_segments_expected", uint64(*d.SubSegmentsExpected))
				}
			}
		}
	}
	t.line(0, "}")
}

func specSAPName(v uint32) string {
	switch v {
	case 0:
		return "Type 1"
	case 1:
		return "Type 2"
	case 2:
		return "Type 3"
	}
	return "Not Specified"
}

func specEncryptionName(v uint32) string {
	switch v {
	case 0:
		return "No encryption"
	case 1:
		return "DES – ECB mode"
	case 2:
		return "DES – CBC mode"
	case 3:
		return "Triple DES EDE3 – ECB mode"
	}
	return "User private"
}

func specDeviceName(v uint32) string {
	switch v {
	case 0:
		return "Restrict Group 0"
	case 1:
		return "Restrict Group 1"
	case 2:
		return "Restrict Group 2"
	case 3:
		return "None"
	}
	return "Unknown"
}

func specUPIDName(t uint32, value string) string {
	switch t {
	case 0x00:
		return "Not Used"
	case 0x01:
		return "User Defined"
	case 0x02:
		return "ISCI"
	case 0x03:
		return "Ad-ID"
	case 0x04:
		return "UMID"
	case 0x05:
		return "ISAN (Deprecated)"
	case 0x06:
		return "ISAN"
	case 0x07:
		return "TID"
	case 0x08:
		return "TI"
	case 0x09:
		return "ADI"
	case 0x0a:
		kind := ""
		switch {
		case strings.HasPrefix(value, "10.5237"):
			kind = "Party ID"
		case strings.HasPrefix(value, "10.5238"):
			kind = "User ID"
		case strings.HasPrefix(value, "10.5239"):
			kind = "Service ID"
		case strings.HasPrefix(value, "10.5240"):
			kind = "Content ID"
		}
		return "EIDR: " + kind
	case 0x0b:
		return "ATSC Content Identifier"
	case 0x0c:
		return "MPU()"
	case 0x0d:
		return "MID()"
	case 0x0e:
		return "ADS Information"
	case 0x0f:
		return "URI"
	case 0x10:
		return "UUID"
	case 0x11:
		return "SCR"
	}
	return "Unknown"
}

func specUPIDNameOf(u *SegmentationUPID) string { return specUPIDName(u.Type, u.Value) }

func specSegmentationNameOf(v *SegmentationDescriptor) string {
	return specSegmentationName(v.SegmentationTypeID)
}

func specSAPNameOf(v *SpliceInfoSection) string { return specSAPName(v.SAPType) }

func specEncryptionNameOf(v *EncryptedPacket) string {
	return specEncryptionName(v.EncryptionAlgorithm)
}

func specDeviceNameOf(v *DeliveryRestrictions) string { return specDeviceName(v.DeviceRestrictions) }

func specSegmentationName(t uint32) string {
	switch t {
	case 0x00:
		return "Not Indicated"
	case 0x01:
		return "Content Identification"
	case 0x10:
		return "Program Start"
	case 0x11:
		return "Program End"
	case 0x12:
		return "Program Early Termination"
	case 0x13:
		return "Program Breakaway"
	case 0x14:
		return "Program Resumption"
	case 0x15:
		return "Program Runover Planned"
	case 0x16:
		return "Program Runover Unplanned"
	case 0x17:
		return "Program Overlap Start"
	case 0x18:
		return "Program Blackout Override"
	case 0x19:
		return "Program Start - In Progress"
	case 0x20:
		return "Chapter Start"
	case 0x21:
		return "Chapter End"
	case 0x22:
		return "Break Start"
	case 0x23:
		return "Break End"
	case 0x24:
		return "Opening Credit Start"
	case 0x25:
		return "Opening Credit End"
	case 0x26:
		return "Closing Credit Start"
	case 0x27:
		return "Closing Credit End"
	case 0x30:
		return "Provider Advertisement Start"
	case 0x31:
		return "Provider Advertisement End"
	case 0x32:
		return "Distributor Advertisement Start"
	case 0x33:
		return "Distributor Advertisement End"
	case 0x34:
		return "Provider Placement Opportunity Start"
	case 0x35:
		return "Provider Placement Opportunity End"
	case 0x36:
		return "Distributor Placement Opportunity Start"
	case 0x37:
		return "Distributor Placement Opportunity End"
	case 0x38:
		return "Provider Overlay Placement Opportunity Start"
	case 0x39:
		return "Provider Overlay Placement Opportunity End"
	case 0x3a:
		return "Distributor Overlay Placement Opportunity Start"
	case 0x3b:
		return "Distributor Overlay Placement Opportunity End"
	case 0x3c:
		return "Provider Promo Start"
	case 0x3d:
		return "Provider Promo End"
	case 0x3e:
		return "Distributor Promo Start"
	case 0x3f:
		return "Distributor Promo End"
	case 0x40:
		return "Unscheduled Event Start"
	case 0x41:
		return "Unscheduled Event End"
	case 0x42:
		return "Alternate Content Opportunity Start"
	case 0x43:
		return "Alternate Content Opportunity End"
	case 0x44:
		return "Provider Ad Block Start"
	case 0x45:
		return "Provider Ad Block End"
	case 0x46:
		return "Distributor Ad Block Start"
	case 0x47:
		return "Distributor Ad Block End"
	case 0x50:
		return "Network Start"
	case 0x51:
		return "Network End"
	}
	return "Unknown"
}

// ---- durations, times, text forms ----

func specDuration(v *SpliceInfoSection) time.Duration {
	si, ok := v.SpliceCommand.(*SpliceInsert)
	if ok && si.BreakDuration != nil {
		return TicksToDuration(si.BreakDuration.Duration)
	}
	var sum uint64
	for i := 0; i < len(v.SpliceDescriptors); i++ {
		sd, ok := v.SpliceDescriptors[i].(*SegmentationDescriptor)
		if ok && sd.SegmentationDuration != nil {
			sum += *sd.SegmentationDuration
		}
	}
	return TicksToDuration(sum)
}

func specGPSOf(t UTCSpliceTime) uint32 { return specGPS(t.Time) }

func specThereAndBack(sec uint32) uint32 { return NewUTCSpliceTime(sec).GPSSeconds() }

func specSame(sec uint32) uint32 { return sec }
