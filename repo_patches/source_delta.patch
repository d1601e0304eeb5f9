From d9b02961a3b33921d35aec5bfce5754a5eae695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 01/27] fix: encode audio_count as 4 bits and flush the
 audio_descriptor

---
 pkg/scte35/audio_descriptor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..61c167d 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,16 +81,20 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
-		_, _ = iow.Write([]byte(ad.ISOCode))
+		if _, err := iow.Write([]byte(ad.ISOCode)); err != nil {
+			return buf, err
+		}
 		iow.PutUint32(3, ad.BitStreamMode)
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From 2dc8ff00f98794eebd8ee6590d45d70de1e000d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 02/27] fix: decode cancelled splice_insert commands

---
 pkg/scte35/splice_insert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b101c2d 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -162,10 +162,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 			r.Skip(6) // reserved
 			cmd.BreakDuration.Duration = r.Uint64(33)
 		}
+		cmd.UniqueProgramID = r.Uint32(16)
+		cmd.AvailNum = r.Uint32(8)
+		cmd.AvailsExpected = r.Uint32(8)
 	}
-	cmd.UniqueProgramID = r.Uint32(16)
-	cmd.AvailNum = r.Uint32(8)
-	cmd.AvailsExpected = r.Uint32(8)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_insert: %w", err)
-- 
2.43.0


From fcf3f7c77efcd30007c3cceae350941a04d1d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 03/27] fix: decode and encode cancelled splice_schedule events

---
 pkg/scte35/splice_schedule.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..487a34a 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -81,10 +81,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 				r.Skip(6) // reserved
 				e.BreakDuration.Duration = r.Uint64(33)
 			}
+			e.UniqueProgramID = r.Uint32(16)
+			e.AvailNum = r.Uint32(8)
+			e.AvailsExpected = r.Uint32(8)
 		}
-		e.UniqueProgramID = r.Uint32(16)
-		e.AvailNum = r.Uint32(8)
-		e.AvailsExpected = r.Uint32(8)
 		cmd.Events[i] = e
 	}
 
@@ -124,10 +124,10 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 				iow.PutUint32(6, Reserved)
 				iow.PutUint64(33, e.BreakDuration.Duration)
 			}
+			iow.PutUint32(16, e.UniqueProgramID)
+			iow.PutUint32(8, e.AvailNum)
+			iow.PutUint32(8, e.AvailsExpected)
 		}
-		iow.PutUint32(16, e.UniqueProgramID)
-		iow.PutUint32(8, e.AvailNum)
-		iow.PutUint32(8, e.AvailsExpected)
 	}
 
 	err := iow.Flush()
-- 
2.43.0


From de97f79766064bfc9cd03cb9768d6039213a6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 04/27] fix: include E_CRC_32 when calculating CRC_32

---
 pkg/scte35/splice_info_section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..5929fda 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -212,6 +212,10 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
 		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		// flush E_CRC_32 to buf as it's included in the CRC_32 calculation
+		if err := iow.Flush(); err != nil {
+			return buf, err
+		}
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From d300e43ca6c1c6e4ec55656eb5f33b84851ebf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 05/27] fix: marshal sections without a splice_command to JSON

---
 pkg/scte35/splice_info_section.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 5929fda..653646a 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -290,17 +290,22 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
+	if sis.SpliceCommand != nil {
+		sis.SpliceCommand.Type()
+	}
 	for i := range sis.SpliceDescriptors {
 		sis.SpliceDescriptors[i].Tag()
 	}
 
 	m := map[string]interface{}{
 		"encryptedPacket": sis.EncryptedPacket,
-		"spliceCommand":   sis.SpliceCommand,
 		"sapType":         sis.SAPType,
 		"tier":            sis.Tier,
 	}
+	// decoding may fail before the splice_command is reached
+	if sis.SpliceCommand != nil {
+		m["spliceCommand"] = sis.SpliceCommand
+	}
 	if sis.ProtocolVersion > 0 {
 		m["protocolVersion"] = sis.ProtocolVersion
 	}
-- 
2.43.0


From b2d1b9bc75e9698822d1642495fab5894776574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 06/27] fix: prevent JSON null from producing a nil
 splice_descriptor

---
 pkg/scte35/splice_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..9068a2f 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -100,7 +100,7 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 		}
 
 		sd := NewSpliceDescriptor(sdt.Identifier, sdt.Type)
-		if err := json.Unmarshal(items[i], &sd); err != nil {
+		if err := json.Unmarshal(items[i], sd); err != nil {
 			return err
 		}
 
-- 
2.43.0


From 60af82e50846d1804b65c50df1611b65a0dc7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 07/27] fix: tolerate MPU UPIDs without a format identifier

---
 pkg/scte35/segmentation_upid.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..9e0defb 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -250,6 +250,9 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
+	if upid.FormatIdentifier == nil {
+		return ""
+	}
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
 	return string(b)
@@ -275,7 +278,9 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
 		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		if upid.FormatIdentifier != nil {
+			binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		}
 		v, err := base64.StdEncoding.DecodeString(upid.Value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From d31616c3be644ce8a0b3de3423882a663a74a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 08/27] fix: unmarshal private_command from XML

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 653646a..864d0be 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -445,6 +445,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From 43a216569d85ce2417af69d2a02b0fa15983eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 09/27] fix: unmarshal preRollMilliSeconds from XML

---
 pkg/scte35/splice_info_section.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 864d0be..d2dcb3c 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -353,6 +353,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -422,6 +423,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"-"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From 35411aaa2dd51ebfd6ab231bd7ee066bcac89617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 10/27] fix: report JSON splice_command errors to the caller

---
 pkg/scte35/splice_info_section.go | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index d2dcb3c..fced3b5 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -325,8 +325,13 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -345,8 +350,13 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -430,30 +440,30 @@ type iSIS struct {
 }
 
 // SpliceCommand returns the polymorphic splice_command.
-func (i *iSIS) SpliceCommand() SpliceCommand {
+func (i *iSIS) SpliceCommand() (SpliceCommand, error) {
 	// xml unmarshalls to the corresponding struct
 	if i.SpliceNull != nil {
-		return i.SpliceNull
+		return i.SpliceNull, nil
 	}
 	if i.SpliceSchedule != nil {
-		return i.SpliceSchedule
+		return i.SpliceSchedule, nil
 	}
 	if i.SpliceInsert != nil {
-		return i.SpliceInsert
+		return i.SpliceInsert, nil
 	}
 	if i.TimeSignal != nil {
-		return i.TimeSignal
+		return i.TimeSignal, nil
 	}
 	if i.BandwidthReservation != nil {
-		return i.BandwidthReservation
+		return i.BandwidthReservation, nil
 	}
 	if i.PrivateCommand != nil {
-		return i.PrivateCommand
+		return i.PrivateCommand, nil
 	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-		return nil
+		return nil, nil
 	}
 
 	// struct to determine the splice command's type
@@ -464,16 +474,14 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	// get the type
 	var st sctype
 	if err := json.Unmarshal(i.SpliceCommandRaw, &st); err != nil {
-		Logger.Printf("error unmarshalling splice command type: %s", err)
-		return nil
+		return nil, fmt.Errorf("error unmarshalling splice command type: %w", err)
 	}
 
 	// and decode it
 	sc := NewSpliceCommand(st.Type)
 	if err := json.Unmarshal(i.SpliceCommandRaw, sc); err != nil {
-		Logger.Printf("error unmarshalling splice command: %s", err)
-		return nil
+		return nil, fmt.Errorf("error unmarshalling splice command: %w", err)
 	}
 
-	return sc
+	return sc, nil
 }
-- 
2.43.0


From e49c06392171155bad253f46c93a4abe73506b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 11/27] fix: discard previous results when decoding into an
 existing section

---
 pkg/scte35/splice_info_section.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index fced3b5..74fcb03 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -80,6 +80,13 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	// discard the results of any previous decode
+	sis.SpliceCommand = nil
+	sis.SpliceDescriptors = nil
+	sis.alignmentStuffing = nil
+	sis.ecrc32 = nil
+	sis.crc32 = nil
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
-- 
2.43.0


From cd4e46887e979198f40d852627dc82b84821af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 12/27] fix: report truncated byte fields as a buffer overflow

---
 pkg/scte35/dtmf_descriptor.go     |  2 +-
 pkg/scte35/scte35.go              |  9 +++++++++
 pkg/scte35/splice_descriptor.go   |  7 ++++++-
 pkg/scte35/splice_info_section.go | 12 ++++++------
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..1351cb7 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -67,7 +67,7 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	sd.Preroll = r.Uint32(8)
 	dtmfCount := int(r.Uint32(3))
 	r.Skip(5) // reserved
-	sd.DTMFChars = r.String(dtmfCount)
+	sd.DTMFChars = string(readBytes(&r, dtmfCount))
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..9ce8874 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -139,6 +139,15 @@ func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
 }
 
+// readBytes returns the next n bytes. iobit.Reader.Bytes() returns fewer bytes
+// than requested once the end of the buffer is reached without reporting an
+// error, skip what is missing so the reader overflows.
+func readBytes(r *iobit.Reader, n int) []byte {
+	b := r.Bytes(n)
+	r.Skip(uint(n-len(b)) * 8)
+	return b
+}
+
 // readerError returns the readers error state, if any.
 func readerError(r iobit.Reader) error {
 	if r.LeftBits() > 0 {
diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 9068a2f..8a17cb8 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -168,12 +168,17 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
-		if derr := sd.decode(r.Bytes(descriptorLength + 2)); derr != nil {
+		if derr := sd.decode(readBytes(&r, descriptorLength+2)); derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
 		}
 		sds = append(sds, sd)
 	}
 
+	// the last splice_descriptor may extend beyond the descriptor_loop
+	if err == nil {
+		err = readerError(r)
+	}
+
 	return sds, err
 }
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 74fcb03..a85c6cf 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -114,14 +114,14 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 		r.Skip(uint(sis.SpliceCommand.length() * 8))
 	default:
 		// standard signal, decode as usual
-		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, r.Bytes(spliceCommandLength))
+		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, readBytes(&r, spliceCommandLength))
 		if err != nil {
 			return err
 		}
 	}
 
 	descriptorLoopLength := int(r.Uint32(16)) // bytes
-	sis.SpliceDescriptors, err = decodeSpliceDescriptors(r.Bytes(descriptorLoopLength))
+	sis.SpliceDescriptors, err = decodeSpliceDescriptors(readBytes(&r, descriptorLoopLength))
 	if err != nil {
 		return err
 	}
@@ -129,16 +129,16 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = readBytes(&r, stuffedBytes)
 		}
-		sis.ecrc32 = r.Bytes(4)
+		sis.ecrc32 = readBytes(&r, 4)
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = readBytes(&r, stuffedBytes)
 		}
 	}
-	sis.crc32 = r.Bytes(4)
+	sis.crc32 = readBytes(&r, 4)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 2b35473b00187b55ac0e2eacf6c19571152b932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 13/27] fix: copy byte fields rather than aliasing the decoded
 buffer

---
 pkg/scte35/private_command.go     | 4 +++-
 pkg/scte35/private_descriptor.go  | 4 +++-
 pkg/scte35/splice_info_section.go | 9 +++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index bb62457..ba5dd8c 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -60,7 +61,8 @@ func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
 
 	cmd.Identifier = r.Uint32(32)
-	cmd.PrivateBytes = r.LeftBytes()
+	// copy, the decoded value must not share memory with b
+	cmd.PrivateBytes = bytes.Clone(r.LeftBytes())
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(cmd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 7a3985c..68f8e64 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -54,7 +55,8 @@ func (sd *PrivateDescriptor) decode(b []byte) error {
 	sd.PrivateTag = r.Uint32(8)
 	r.Skip(8) // descriptor_length
 	sd.Identifier = r.Uint32(32)
-	sd.PrivateBytes = r.LeftBytes()
+	// copy, the decoded value must not share memory with b
+	sd.PrivateBytes = bytes.Clone(r.LeftBytes())
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(sd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a85c6cf..29fef0b 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
@@ -129,16 +130,16 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = readBytes(&r, stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(readBytes(&r, stuffedBytes))
 		}
-		sis.ecrc32 = readBytes(&r, 4)
+		sis.ecrc32 = bytes.Clone(readBytes(&r, 4))
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = readBytes(&r, stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(readBytes(&r, stuffedBytes))
 		}
 	}
-	sis.crc32 = readBytes(&r, 4)
+	sis.crc32 = bytes.Clone(readBytes(&r, 4))
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 276779391225367b7424d397c4258861ebabc655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 14/27] fix: utc_splice_time overflow and dependency on the
 local time zone

---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 9ce8874..80c3966 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -125,7 +125,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0).UTC(),
 	}
 }
 
-- 
2.43.0


From a350ab9cae35adab9d98a1ce62b798046ee13d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 15/27] fix: report unconsumed splice_null and
 bandwidth_reservation bytes as underflow

---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From 47a26f61dcdda3eef65231d7215dccd6c5e86479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 16/27] fix: fractional dtmf preroll in tables

---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 1351cb7..0ab8354 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -45,7 +45,7 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 	t.row(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", DTMFDescriptorTag))
 	t.row(1, "descriptor_length", sd.length())
 	t.row(1, "identifier", fmt.Sprintf("%#08x (%s)", CUEIdentifier, CUEIASCII))
-	t.row(1, "preroll", float32(sd.Preroll/10))
+	t.row(1, "preroll", float32(sd.Preroll)/10)
 	t.row(1, "dtmf_count", len(sd.DTMFChars))
 	t.row(1, "dtmf_chars", sd.DTMFChars)
 	t.row(0, "}", nil)
-- 
2.43.0


From a0991fadf61eaf7aa5d3ca853e0bb007eb577042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 17/27] fix: print sub_segment values rather than their address
 in tables

---
 pkg/scte35/table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/table.go b/pkg/scte35/table.go
index 702e16e..23feb3b 100644
--- a/pkg/scte35/table.go
+++ b/pkg/scte35/table.go
@@ -69,6 +69,11 @@ func valueString(value any) string {
 		return strconv.FormatUint(uint64(vt), 10)
 	case uint64:
 		return strconv.FormatUint(vt, 10)
+	case *uint32:
+		if vt == nil {
+			return ""
+		}
+		return strconv.FormatUint(uint64(*vt), 10)
 	case *uint64:
 		if vt == nil {
 			return ""
-- 
2.43.0


From 265a5d4d4cb22af7793dda45c251e68f43aafbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 18/27] fix: only encode sub_segments where they can be decoded

---
 pkg/scte35/segmentation_descriptor.go | 63 +++++++++++++++++----------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..21279bd 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -314,6 +314,30 @@ func (sd *SegmentationDescriptor) SegmentationDurationFlag() bool {
 	return sd.SegmentationDuration != nil
 }
 
+// subSegmentsSupported returns true if the segmentation_type_id may be followed
+// by sub_segment_num and sub_segments_expected.
+func (sd *SegmentationDescriptor) subSegmentsSupported() bool {
+	switch sd.SegmentationTypeID {
+	case SegmentationTypeProviderAdStart,
+		SegmentationTypeDistributorAdStart,
+		SegmentationTypeProviderPOStart,
+		SegmentationTypeDistributorPOStart,
+		SegmentationTypeProviderOverlayPOStart,
+		SegmentationTypeDistributorOverlayPOStart,
+		SegmentationTypeProviderAdBlockStart,
+		SegmentationTypeDistributorAdBlockStart:
+		return true
+	default:
+		return false
+	}
+}
+
+// subSegmentsFlag returns true if sub_segment_num and sub_segments_expected are
+// included in the descriptor. One is never included without the other.
+func (sd *SegmentationDescriptor) subSegmentsFlag() bool {
+	return sd.subSegmentsSupported() && (sd.SubSegmentNum != nil || sd.SubSegmentsExpected != nil)
+}
+
 // SegmentationUpidLength return the segmentation_upid_length
 func (sd *SegmentationDescriptor) SegmentationUpidLength() int {
 	length := 0
@@ -405,21 +429,11 @@ func (sd *SegmentationDescriptor) decode(b []byte) error {
 		sd.SegmentsExpected = r.Uint32(8)
 
 		// sub-segment indicators
-		if r.LeftBits() == 16 {
-			switch sd.SegmentationTypeID {
-			case SegmentationTypeProviderAdStart,
-				SegmentationTypeDistributorAdStart,
-				SegmentationTypeProviderPOStart,
-				SegmentationTypeDistributorPOStart,
-				SegmentationTypeProviderOverlayPOStart,
-				SegmentationTypeDistributorOverlayPOStart,
-				SegmentationTypeProviderAdBlockStart,
-				SegmentationTypeDistributorAdBlockStart:
-				n := r.Uint32(8)
-				e := r.Uint32(8)
-				sd.SubSegmentNum = &n
-				sd.SubSegmentsExpected = &e
-			}
+		if r.LeftBits() == 16 && sd.subSegmentsSupported() {
+			n := r.Uint32(8)
+			e := r.Uint32(8)
+			sd.SubSegmentNum = &n
+			sd.SubSegmentsExpected = &e
 		}
 	}
 
@@ -495,11 +509,16 @@ func (sd *SegmentationDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(8, sd.SegmentNum)
 		iow.PutUint32(8, sd.SegmentsExpected)
 
-		if sd.SubSegmentNum != nil {
-			iow.PutUint32(8, *sd.SubSegmentNum)
-		}
-		if sd.SubSegmentsExpected != nil {
-			iow.PutUint32(8, *sd.SubSegmentsExpected)
+		if sd.subSegmentsFlag() {
+			var n, e uint32
+			if sd.SubSegmentNum != nil {
+				n = *sd.SubSegmentNum
+			}
+			if sd.SubSegmentsExpected != nil {
+				e = *sd.SubSegmentsExpected
+			}
+			iow.PutUint32(8, n)
+			iow.PutUint32(8, e)
 		}
 	}
 
@@ -543,10 +562,8 @@ func (sd *SegmentationDescriptor) length() int {
 		length += 8                               // segment_num
 		length += 8                               // segments_expected
 
-		if sd.SubSegmentNum != nil {
+		if sd.subSegmentsFlag() {
 			length += 8 // sub_segment_num
-		}
-		if sd.SubSegmentsExpected != nil {
 			length += 8 // sub_segments_expected
 		}
 	}
-- 
2.43.0


From 37dd7b5ae38fe39e0f7307aa354c373c4582fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 19/27] fix: print segmentation_descriptor table rows
 consistently with its encoding

---
 pkg/scte35/segmentation_descriptor.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index 21279bd..512383e 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -613,21 +613,17 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 			t.row(2, "segmentation_upid", u.Value)
 			t.row(1, "}", nil)
 		}
-	}
 
-	t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
-	t.row(1, "segment_num", sd.SegmentNum)
-	t.row(1, "segments_expected", sd.SegmentsExpected)
-	switch sd.SegmentationTypeID {
-	case SegmentationTypeProviderPOStart,
-		SegmentationTypeDistributorPOStart,
-		SegmentationTypeProviderOverlayPOStart,
-		SegmentationTypeDistributorOverlayPOStart:
-		if sd.SubSegmentNum != nil {
-			t.row(1, "sub_segment_num", sd.SubSegmentNum)
-		}
-		if sd.SubSegmentsExpected != nil {
-			t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
+		t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
+		t.row(1, "segment_num", sd.SegmentNum)
+		t.row(1, "segments_expected", sd.SegmentsExpected)
+		if sd.subSegmentsSupported() {
+			if sd.SubSegmentNum != nil {
+				t.row(1, "sub_segment_num", sd.SubSegmentNum)
+			}
+			if sd.SubSegmentsExpected != nil {
+				t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
+			}
 		}
 	}
 	t.row(0, "}", nil)
-- 
2.43.0


From c0dca02d4c1c667bfcb7c794f261533ecfead82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 20/27] fix: report lengths and counts that cannot be encoded

---
 pkg/scte35/audio_descriptor.go    |  4 ++++
 pkg/scte35/dtmf_descriptor.go     |  4 ++++
 pkg/scte35/scte35.go              | 10 ++++++++++
 pkg/scte35/splice_info_section.go |  7 +++++++
 pkg/scte35/splice_insert.go       |  3 +++
 pkg/scte35/splice_schedule.go     |  7 +++++++
 6 files changed, 35 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 61c167d..db46bdc 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -73,6 +73,10 @@ func (sd *AudioDescriptor) decode(b []byte) error {
 
 // encode this SpliceDescriptor to binary.
 func (sd *AudioDescriptor) encode() ([]byte, error) {
+	if err := checkLimit("audio_count", len(sd.AudioChannels), 0xF); err != nil {
+		return nil, fmt.Errorf("audio_descriptor: %w", err)
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 0ab8354..c3a5974 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -77,6 +77,10 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 
 // encode this splice_descriptor to binary.
 func (sd *DTMFDescriptor) encode() ([]byte, error) {
+	if err := checkLimit("dtmf_count", len(sd.DTMFChars), 0x7); err != nil {
+		return nil, fmt.Errorf("dtmf_descriptor: %w", err)
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 80c3966..b15da0e 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -22,6 +22,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"log"
 	"math"
 	"strings"
@@ -139,6 +140,15 @@ func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
 }
 
+// checkLimit returns an error if the value of a length or count exceeds what its
+// binary field is able to carry.
+func checkLimit(field string, value, limit int) error {
+	if value > limit {
+		return fmt.Errorf("%s %d exceeds %d", field, value, limit)
+	}
+	return nil
+}
+
 // readBytes returns the next n bytes. iobit.Reader.Bytes() returns fewer bytes
 // than requested once the end of the buffer is reached without reporting an
 // error, skip what is missing so the reader overflows.
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 29fef0b..ff8298f 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -175,6 +175,10 @@ func (sis *SpliceInfoSection) Duration() time.Duration {
 // Encode returns the binary representation of this SpliceInfoSection as a
 // byte array.
 func (sis *SpliceInfoSection) Encode() ([]byte, error) {
+	if err := checkLimit("section_length", sis.sectionLength(), 0xFFF); err != nil {
+		return nil, fmt.Errorf("splice_info_section: %w", err)
+	}
+
 	buf := make([]byte, sis.length())
 
 	iow := iobit.NewWriter(buf)
@@ -205,6 +209,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 
 	iow.PutUint32(16, uint32(sis.descriptorLoopLength()))
 	for _, sd := range sis.SpliceDescriptors {
+		if err := checkLimit("descriptor_length", sd.length(), 0xFF); err != nil {
+			return buf, fmt.Errorf("splice_info_section: %w", err)
+		}
 		sde, err := sd.encode()
 		if err != nil {
 			return buf, err
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b101c2d..70de974 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -198,6 +198,9 @@ func (cmd *SpliceInsert) encode() ([]byte, error) {
 			}
 		}
 		if !cmd.ProgramSpliceFlag() {
+			if err := checkLimit("component_count", len(cmd.Components), 0xFF); err != nil {
+				return buf, fmt.Errorf("splice_insert: %w", err)
+			}
 			iow.PutUint32(8, uint32(len(cmd.Components)))
 			for _, c := range cmd.Components {
 				iow.PutUint32(8, c.Tag)
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 487a34a..e662af1 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -96,6 +96,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 
 // encode this splice_schedule to binary.
 func (cmd *SpliceSchedule) encode() ([]byte, error) {
+	if err := checkLimit("splice_count", len(cmd.Events), 0xFF); err != nil {
+		return nil, fmt.Errorf("splice_schedule: %w", err)
+	}
+
 	buf := make([]byte, cmd.length())
 	iow := iobit.NewWriter(buf)
 
@@ -113,6 +117,9 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 			if e.ProgramSpliceFlag() {
 				iow.PutUint32(32, e.Program.UTCSpliceTime.GPSSeconds())
 			} else {
+				if err := checkLimit("component_count", len(e.Components), 0xFF); err != nil {
+					return buf, fmt.Errorf("splice_schedule: %w", err)
+				}
 				iow.PutUint32(8, uint32(len(e.Components)))
 				for _, c := range e.Components {
 					iow.PutUint32(8, c.Tag)
-- 
2.43.0


From db594b18a47f28c49e4df744f1713f41942603c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 21/27] fix: report audio_descriptor ISO codes that are not 3
 bytes long

---
 pkg/scte35/audio_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index db46bdc..31386a5 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -88,6 +88,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
+		if len(ad.ISOCode) != 3 {
+			return buf, fmt.Errorf("audio_descriptor: iso_code %q is not 3 bytes long", ad.ISOCode)
+		}
 		iow.PutUint32(8, ad.ComponentTag)
 		if _, err := iow.Write([]byte(ad.ISOCode)); err != nil {
 			return buf, err
-- 
2.43.0


From 1ec204bee8ea98b77e0251f41ecaee5a263bd5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 22/27] fix: decode compact EIDRs containing a 0x2F byte

---
 pkg/scte35/segmentation_upid.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 9e0defb..02e8c42 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -308,13 +308,11 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
-	// already canonical
-	if bytes.Contains(b, []byte("/")) {
-		return string(b)
-	}
-
-	// dunno what this is
+	// dunno what this is unless it is already canonical
 	if len(b) != 12 {
+		if bytes.Contains(b, []byte("/")) {
+			return string(b)
+		}
 		Logger.Printf("Unexpected eidr value received: %s", b)
 		return ""
 	}
-- 
2.43.0


From 3471672457ddc67383664be365d7ec370f639841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 23/27] fix: retain whitespace within binary UPIDs when
 encoding

---
 pkg/scte35/segmentation_upid.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 02e8c42..96458ad 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -21,6 +21,7 @@ import (
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
+	"encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -139,6 +140,17 @@ type SegmentationUPID struct {
 	Value            string  `xml:",chardata" json:"value"`
 }
 
+// UnmarshalXML decodes a SegmentationUPID from XML, discarding any whitespace
+// surrounding its value.
+func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain SegmentationUPID
+	if err := d.DecodeElement((*plain)(upid), &start); err != nil {
+		return err
+	}
+	upid.Value = strings.TrimSpace(upid.Value)
+	return nil
+}
+
 // Name returns the name for the segmentation_upid_type.
 func (upid *SegmentationUPID) Name() string {
 	switch upid.Type {
@@ -260,16 +272,16 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
-	upid.Value = strings.TrimSpace(upid.Value)
+	value := strings.TrimSpace(upid.Value)
 
 	// this switch should align with the constructor above
 	switch upid.Type {
 	// EIDR - custom
 	case SegmentationUPIDTypeEIDR:
-		return upid.compressEIDR(upid.Value)
+		return upid.compressEIDR(value)
 	// ISAN - base64
 	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated:
-		b, err := base64.StdEncoding.DecodeString(upid.Value)
+		b, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -281,7 +293,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		if upid.FormatIdentifier != nil {
 			binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
 		}
-		v, err := base64.StdEncoding.DecodeString(upid.Value)
+		v, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -291,7 +303,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// TI - unsigned int
 	case SegmentationUPIDTypeTI:
 		b := make([]byte, 8)
-		i, err := strconv.ParseUint(strings.TrimSpace(upid.Value), 10, 64)
+		i, err := strconv.ParseUint(value, 10, 64)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -300,7 +312,8 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		return b
 	// everything else - plain text
 	default:
-		// encode UTF8 values as Latin1 (reversing the Decode above)
+		// encode UTF8 values as Latin1 (reversing the Decode above), these may
+		// be binary so any surrounding whitespace is significant
 		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
 		return b
 	}
-- 
2.43.0


From a24ee9aad7c6d71be12469cb891f503b1936cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 24/27] fix: indent all splice_schedule event rows below their
 event in tables

---
 pkg/scte35/splice_schedule.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index e662af1..f585abb 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -213,12 +213,12 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 				}
 			}
 			if e.DurationFlag() {
-				t.row(1, "auto_return", e.BreakDuration.AutoReturn)
-				t.row(1, "duration", e.BreakDuration.Duration)
+				t.row(2, "auto_return", e.BreakDuration.AutoReturn)
+				t.row(2, "duration", e.BreakDuration.Duration)
 			}
-			t.row(1, "unique_program_id", e.UniqueProgramID)
-			t.row(1, "avail_num", e.AvailNum)
-			t.row(1, "avails_expected", e.AvailsExpected)
+			t.row(2, "unique_program_id", e.UniqueProgramID)
+			t.row(2, "avail_num", e.AvailNum)
+			t.row(2, "avails_expected", e.AvailsExpected)
 		}
 		t.row(1, "}", nil)
 	}
-- 
2.43.0


From 926178039382bc91ea513fd2fdf31345d0c36531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 25/27] fix: convert between ticks and durations without
 rounding errors

float64 arithmetic made TicksToDuration fall short by a nanosecond for many
values (1413 ticks became 15.699999ms) and DurationToTicks return one tick too
many beyond 14 hours (4611686031).
---
 pkg/scte35/scte35.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index b15da0e..b7373be 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -24,7 +24,6 @@ import (
 	"errors"
 	"fmt"
 	"log"
-	"math"
 	"strings"
 	"time"
 
@@ -86,13 +85,18 @@ func DecodeHex(s string) (*SpliceInfoSection, error) {
 
 // DurationToTicks converts a duration to 90MhZ ticks.
 func DurationToTicks(d time.Duration) uint64 {
-	return uint64(math.Ceil(float64(d) * TicksPerSecond / float64(time.Second)))
+	sec, rem := d/time.Second, (d%time.Second)*TicksPerSecond
+	ticks := sec*TicksPerSecond + rem/time.Second
+	if rem%time.Second > 0 {
+		ticks++ // round up
+	}
+	return uint64(ticks)
 }
 
 // TicksToDuration converts 90MhZ ticks to a duration.
 func TicksToDuration(ticks uint64) time.Duration {
-	s := float64(ticks) / float64(TicksPerSecond)
-	return time.Duration(int64(s * float64(time.Second)))
+	sec, rem := ticks/TicksPerSecond, ticks%TicksPerSecond
+	return time.Duration(sec)*time.Second + time.Duration(rem)*time.Second/TicksPerSecond
 }
 
 // BreakDuration specifies the duration of the commercial break(s). It may be
-- 
2.43.0


From cc5982f81bf1c32146024159bcde973fefea6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 26/27] fix: keep line breaks in documents read from standard
 input

encode joined the lines it read, so a document whose attributes start a line
became malformed.
---
 cmd/encode.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..d63477f 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -17,10 +17,10 @@
 package cmd
 
 import (
-	"bufio"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,15 +47,13 @@ func encodeCommand() *cobra.Command {
 			if len(args) == 1 {
 				input = args[0]
 			} else {
-				scanner := bufio.NewScanner(os.Stdin)
-				for scanner.Scan() {
-					input += scanner.Text()
-				}
-				err = scanner.Err()
+				var b []byte
+				b, err = io.ReadAll(os.Stdin)
 				if err != nil {
 					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 					return
 				}
+				input = string(b)
 			}
 
 			switch {
-- 
2.43.0


From 1499bf9ffac27d21d5f439b9c756b65f05dc3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:55 +0000
Subject: [PATCH 27/27] fix: discard stuffing of an earlier decode when
 unmarshalling

A section that was decoded from binary and then unmarshalled from JSON or
XML kept the alignment stuffing of the earlier section and encoded it.
---
 pkg/scte35/splice_info_section.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index ff8298f..4173c8c 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -345,6 +345,11 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	// discard the results of any previous decode
+	sis.alignmentStuffing = nil
+	sis.ecrc32 = nil
+	sis.crc32 = nil
+
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -370,6 +375,11 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		return err
 	}
 
+	// discard the results of any previous decode
+	sis.alignmentStuffing = nil
+	sis.ecrc32 = nil
+	sis.crc32 = nil
+
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
-- 
2.43.0

