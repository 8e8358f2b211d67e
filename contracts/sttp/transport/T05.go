package transport

import (
	"math"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
)

// T05: decoding of one compact measurement.

func be32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}

func be64(b []byte, i int) uint64 {
	return uint64(be32(b, i))<<32 | uint64(be32(b, i+4))
}

func specFlags(b byte) (r uint32) {
	masks := [6]uint32{0x000000FC, 0x0000EF03, 0x00BF0000, 0xE0000000, 0x00001000, 0x00400000}
	for i := 0; i < 6; i++ {
		if b>>i&1 != 0 {
			r |= masks[i]
		}
	}
	return r
}

func contract_T05_decode(buf []byte, ref map[int32]uint32, ids []guid.Guid, base [2]int64, includeTime, ms bool) {
	sic := &SignalIndexCache{reference: ref, signalIDList: ids}
	size := 9
	var id int32
	if len(buf) >= 9 {
		id = int32(be32(buf, 1))
		if i, ok := ref[id]; ok {
			vpRequires(int(i) < len(ids))
		}
		if includeTime {
			switch {
			case buf[0]&0x40 == 0:
				size = 17
			case ms:
				size = 11
			default:
				size = 13
			}
		}
	}
	offsets := base
	cm := NewCompactMeasurement(sic, includeTime, ms, &offsets)
	n, err := cm.Decode(buf)
	vpEnsures("too short is an error", (err != nil) == (len(buf) < size))
	vpEnsures("base times unchanged", offsets == base)
	if err != nil {
		return
	}
	vpEnsures("bytes used", n == size)
	vpEnsures("flags", uint32(cm.Flags) == specFlags(buf[0]))
	vpEnsures("value", math.Float64bits(cm.Value) == math.Float64bits(float64(math.Float32frombits(be32(buf, 5)))))
	want := guid.Guid{}
	if i, ok := ref[id]; ok {
		want = ids[i]
	}
	vpEnsures("signal ID", cm.SignalID == want)
	var t ticks.Ticks
	b := base[buf[0]>>7]
	switch {
	case size == 17:
		t = ticks.Ticks(be64(buf, 9))
	case size == 13 && b > 0:
		t = ticks.Ticks(b + int64(be32(buf, 9)))
	case size == 11 && b > 0:
		t = ticks.Ticks(b + (int64(buf[9])<<8|int64(buf[10]))*10000)
	}
	vpEnsures("timestamp", cm.Timestamp == t)
}

// The publishing side chooses a representation that decodes to the same time.
func contract_T05_encodeTime(t ticks.Ticks, base [2]int64, second, includeTime, ms bool) {
	offsets := base
	cm := NewCompactMeasurement(nil, includeTime, ms, &offsets)
	cm.Timestamp = t
	var b int64
	if b = base[0]; second {
		cm.timeIndex = 1
		b = base[1]
	}
	v := int64(uint64(t) & (1<<62 - 1))
	n := cm.GetBinaryLength()
	using := cm.GetCompactStateFlags()&0x40 != 0
	vpEnsures("length", n == 9 || includeTime && (n == 17 && !using || n == 11 && using && ms || n == 13 && using && !ms))
	vpEnsures("time included", includeTime == (n != 9))
	if n == 13 {
		vpEnsures("tick offset decodes to the time", b+int64(cm.GetTimestampC4()) == v)
	}
	if n == 11 {
		d := v - (b + int64(cm.GetTimestampC2())*10000)
		vpEnsures("millisecond offset decodes to the millisecond", d >= 0 && d < 10000)
	}
	if includeTime && b > 0 && v > b && v-b < 655350000 {
		vpEnsures("near times are offsets", using)
	}
}
