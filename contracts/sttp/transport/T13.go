package transport

//verif:with common_ds.go

import "github.com/sttp/goapi/sttp/ticks"

// T13: base times, start time and cipher keys are taken over exactly.

func b32(b []byte, i int) uint32 {
	return uint32(vpAt(b, i))<<24 | uint32(vpAt(b, i+1))<<16 | uint32(vpAt(b, i+2))<<8 | uint32(vpAt(b, i+3))
}

func b64(b []byte, i int) uint64 { return uint64(b32(b, i))<<32 | uint64(b32(b, i+4)) }

func contract_T13_baseTimes(data []byte, index bool, old [2]int64) {
	ds, _ := vpSubscriber()
	ds.baseTimeOffsets = old
	if index {
		ds.timeIndex = 1
	}
	was := ds.timeIndex
	ds.handleUpdateBaseTimes(data)
	if len(data) < 20 {
		vpEnsures("too short changes nothing", ds.timeIndex == was && ds.baseTimeOffsets == old)
		return
	}
	vpEnsures("time index", ds.timeIndex == int32(vpOne(b32(data, 0) != 0)))
	vpEnsures("base times", ds.baseTimeOffsets == [2]int64{int64(b64(data, 4)), int64(b64(data, 12))})
}

func vpOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func contract_T13_startTime(data []byte, set bool) {
	ds, _ := vpSubscriber()
	calls := 0
	var got ticks.Ticks
	if set {
		ds.DataStartTimeCallback = func(t ticks.Ticks) { calls++; got = t }
	}
	ds.handleDataStartTime(data)
	if set && len(data) >= 8 {
		vpEnsures("start time", calls == 1 && uint64(got) == b64(data, 0))
	} else {
		vpEnsures("no start time", calls == 0)
	}
}

// Four length-prefixed blocks after the index byte: even key and vector, odd
// key and vector.
func contract_T13_cipherKeys(data []byte, j uint32, had bool) {
	ds, _ := vpSubscriber()
	if had {
		ds.keyIVs = make([][][]byte, 2)
	}
	ds.handleUpdateCipherKeys(data)
	o := 1
	var at, size [4]int
	for k := 0; k < 4; k++ {
		if len(data)-o < 4 || uint64(len(data)-o-4) < uint64(b32(data, o)) {
			vpEnsures("truncated keys change nothing", had == (ds.keyIVs != nil))
			return
		}
		at[k], size[k] = o+4, int(b32(data, o))
		o += 4 + size[k]
	}
	vpEnsures("two keys", len(ds.keyIVs) == 2 && len(ds.keyIVs[0]) == 2 && len(ds.keyIVs[1]) == 2)
	for k := 0; k < 4; k++ {
		b := ds.keyIVs[k/2][k%2]
		vpEnsures("key size", len(b) == size[k])
		if int(j) < size[k] {
			vpEnsures("key bytes", b[j] == vpAt(data, at[k]+int(j)))
		}
	}
}
