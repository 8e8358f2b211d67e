package transport

// T06: the compact state flags byte and the full 32-bit state flags. Each of
// the six groups of full flags is one bit of the byte.

func specFull(b byte) uint32 {
	var r uint32
	if b&0x01 != 0 {
		r |= 0x000000FC
	}
	if b&0x02 != 0 {
		r |= 0x0000EF03
	}
	if b&0x04 != 0 {
		r |= 0x00BF0000
	}
	if b&0x08 != 0 {
		r |= 0xE0000000
	}
	if b&0x10 != 0 {
		r |= 0x00001000
	}
	if b&0x20 != 0 {
		r |= 0x00400000
	}
	return r
}

func contract_T06_decode(b byte, old Measurement, index int32, using bool) {
	cm := CompactMeasurement{Measurement: old, timeIndex: index, usingBaseTimeOffset: using}
	cm.SetCompactStateFlags(b)
	vpEnsures("flags", uint32(cm.Flags) == specFull(b))
	vpEnsures("time index", cm.timeIndex == int32(b>>7))
	vpEnsures("base time offset", cm.usingBaseTimeOffset == (b&0x40 != 0))
	vpEnsures("nothing else", cm.SignalID == old.SignalID && cm.Timestamp == old.Timestamp)
}

func contract_T06_encode(f uint32, index bool, using bool) {
	cm := CompactMeasurement{usingBaseTimeOffset: using}
	cm.Flags = StateFlagsEnum(f)
	if index {
		cm.timeIndex = 1
	}
	b := cm.GetCompactStateFlags()
	vpEnsures("data range", (b&0x01 != 0) == (f&0x000000FC != 0))
	vpEnsures("data quality", (b&0x02 != 0) == (f&0x0000EF03 != 0))
	vpEnsures("time quality", (b&0x04 != 0) == (f&0x00BF0000 != 0))
	vpEnsures("system issue", (b&0x08 != 0) == (f&0xE0000000 != 0))
	vpEnsures("calculated", (b&0x10 != 0) == (f&0x00001000 != 0))
	vpEnsures("discarded", (b&0x20 != 0) == (f&0x00400000 != 0))
	vpEnsures("base time offset", (b&0x40 != 0) == using)
	vpEnsures("time index", (b&0x80 != 0) == index)
}

func contract_T06_roundTrip(b byte) {
	var cm CompactMeasurement
	cm.SetCompactStateFlags(b)
	vpEnsures("round trip", cm.GetCompactStateFlags() == b)
}
