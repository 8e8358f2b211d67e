package tssc

// vpTables is the code table part of the state kept per measurement ID.
type vpTables struct {
	Stats   [32]byte
	Since   int32
	Mode    byte
	M21     byte
	M31     byte
	M301    byte
	M41     byte
	M401    byte
	M4001   byte
	Startup int32
}

func (t vpTables) valid() bool {
	return t.Mode >= 1 && t.Mode <= 4 && t.M21 < 32 && t.M31 < 32 && t.M301 < 32 && t.M41 < 32 && t.M401 < 32 && t.M4001 < 32 &&
		t.Startup >= 0 && t.Startup <= 2 && t.Since >= 0 && t.Since <= 100
}

func (t vpTables) point() *pointMetadata {
	return &pointMetadata{commandStats: t.Stats, commandsSentSinceLastChange: t.Since, mode: t.Mode, mode21: t.M21,
		mode31: t.M31, mode301: t.M301, mode41: t.M41, mode401: t.M401, mode4001: t.M4001, startupMode: t.Startup}
}

func tablesOf(pm *pointMetadata) vpTables {
	return vpTables{pm.commandStats, pm.commandsSentSinceLastChange, pm.mode, pm.mode21, pm.mode31, pm.mode301,
		pm.mode41, pm.mode401, pm.mode4001, pm.startupMode}
}

// vpPrev is what the decoder remembers about the values of a measurement ID.
type vpPrev struct {
	NextID         int32
	Flags1, Flags2 uint32
	V1, V2, V3     uint32
}

func prevOf(pm *pointMetadata) vpPrev {
	return vpPrev{pm.PrevNextPointID1, pm.PrevStateFlags1, pm.PrevStateFlags2, pm.PrevValue1, pm.PrevValue2, pm.PrevValue3}
}

func (p vpPrev) into(pm *pointMetadata) *pointMetadata {
	pm.PrevNextPointID1, pm.PrevStateFlags1, pm.PrevStateFlags2 = p.NextID, p.Flags1, p.Flags2
	pm.PrevValue1, pm.PrevValue2, pm.PrevValue3 = p.V1, p.V2, p.V3
	return pm
}
