package scte35

// Each function returns pairs of a count found in an encoded value and the
// number of entries the value has.

func specCountsSpliceSchedule(v *SpliceSchedule, b []byte) (int, int) {
	return int(b[0]), len(v.Events)
}

func specCountsEvent(v *SpliceSchedule, b []byte) (int, int) {
	if v.Events[0].SpliceEventCancelIndicator || v.Events[0].Program != nil {
		return 0, 0
	}
	return int(b[7]), len(v.Events[0].Components)
}

func specCountsSpliceInsert(v *SpliceInsert, b []byte) (int, int) {
	if v.SpliceEventCancelIndicator || v.Program != nil {
		return 0, 0
	}
	return int(b[6]), len(v.Components)
}

func specCountsAudioDescriptor(v *AudioDescriptor, b []byte) (int, int) {
	return int(b[6] >> 4), len(v.AudioChannels)
}

func specCountsDTMFDescriptor(v *DTMFDescriptor, b []byte) (int, int) {
	return int(b[7] >> 5), len(v.DTMFChars)
}
