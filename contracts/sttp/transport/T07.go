package transport

import (
	"errors"
	"math"
	"math/rand"
	"sync"

	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_ds.go

// T07: a data packet delivers exactly the measurements it contains. Decoding
// of a single measurement is the subject of T05 and T01, of compressed packets
// of T04; here the decoders yield arbitrary results, of which number vpJ is
// remembered.

var (
	vpPool    *[]Measurement
	vpPayload []byte
	vpOff     int
	vpDecoded int
	vpJ, vpQ  int
	vpBad     bool
	vpWant    Measurement
	vpCache   *SignalIndexCache
	vpTSSC    int
	vpTime    bool
	vpMS      bool
)

func sum_poolGet(p *sync.Pool) any {
	if vpPool == nil {
		return nil
	}
	return vpPool
}

func sum_poolPut(p *sync.Pool, x any) {}

func sum_decode(cm *CompactMeasurement, buf []byte) (int, error) {
	vpEnsures("a measurement starts where the one before it ended", len(buf) == len(vpPayload)-vpOff)
	vpEnsures("measurements are read from the packet", vpQ < vpOff || vpQ >= len(vpPayload) || vpAt(buf, vpQ-vpOff) == vpAt(vpPayload, vpQ))
	vpEnsures("subscription settings are used", cm.includeTime == vpTime && cm.useMillisecondResolution == vpMS && cm.signalIndexCache == vpCache)
	n := vpAny[int]()
	if n <= 0 || n > len(buf) {
		vpBad = true
		return 0, errors.New("bad")
	}
	cm.Measurement = vpAny[Measurement]()
	if vpDecoded == vpJ {
		vpWant = cm.Measurement
	}
	vpDecoded++
	vpOff += n
	return n, nil
}

// specRun decodes the packet by hand, for replays.
func specRun(ds *DataSubscriber, data []byte, count int) {
	for vpDecoded < count {
		cm := NewCompactMeasurement(vpCache, vpTime, vpMS, &ds.baseTimeOffsets)
		n, err := cm.Decode(data)
		if err != nil {
			vpBad = true
			return
		}
		if vpDecoded == vpJ {
			vpWant = cm.Measurement
		}
		vpDecoded++
		data = data[n:]
	}
}

func sameMeasurement(a, b Measurement) bool {
	return a.SignalID == b.SignalID && math.Float64bits(a.Value) == math.Float64bits(b.Value) && a.Timestamp == b.Timestamp && a.Flags == b.Flags
}

func gen_T07_compact(r *rand.Rand) ([]byte, []Measurement, bool, bool, bool, map[int32]uint32, []guid.Guid, int, int) {
	n := r.Intn(4)
	data := make([]byte, 5+n*17+r.Intn(3))
	r.Read(data)
	data[0] = byte(2 + 16*r.Intn(2))
	copy(data[1:], []byte{0, 0, 0, byte(n + r.Intn(2))})
	ref := map[int32]uint32{}
	var ids []guid.Guid
	if r.Intn(8) > 0 {
		ref[1] = 0
		ids = []guid.Guid{guid.New()}
	}
	return data, make([]Measurement, r.Intn(6)), r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, ref, ids, r.Intn(3), 0
}

//verif:syncgo
//verif:use (*sync.Pool).Get=sum_poolGet
//verif:use (*sync.Pool).Put=sum_poolPut
//verif:use (*github.com/sttp/goapi/sttp/transport.CompactMeasurement).Decode=sum_decode
func contract_T07_compact(data []byte, pool []Measurement, pooled, includeTime, ms bool, ref map[int32]uint32, ids []guid.Guid, j, q int) {
	vpRequires(len(data) >= 5 && data[0]&0x0A == 2 && j >= 0 && q >= 0 && !(vpConcrete() && data[1] > 0))
	vpPayload, vpOff, vpDecoded, vpJ, vpQ, vpBad, vpPool = data[5:], 0, 0, j, q, false, nil
	ds, s := vpSubscriber()
	if pooled {
		vpPool = &pool
		ds.MeasurementPool.Put(&pool)
	}
	vpTime, vpMS = includeTime, ms
	ds.subscription.IncludeTime, ds.subscription.UseMillisecondResolution = includeTime, ms
	signals := map[guid.Guid]int32{}
	if len(ids) > 0 {
		signals[ids[0]] = 0
	}
	vpCache = &SignalIndexCache{reference: ref, signalIDList: ids, signalIDCache: signals}
	which := 0
	if data[0]&0x10 != 0 {
		which = 1
	}
	ds.signalIndexCache[which] = vpCache
	calls := 0
	var got []Measurement
	ds.NewMeasurementsCallback = func(m *[]Measurement) { calls++; got = *m }
	vpInvariant(func(i int) bool { return i == vpDecoded || i == vpOff })
	vpInvariant(func(i int) bool { return i <= len(vpPayload) })
	vpInvariant(func(m []Measurement) bool { return j >= vpDecoded || sameMeasurement(vpAt(m, j), vpWant) })
	vpInvariant(func() bool { return !vpBad && 0 <= vpOff })

	ds.handleDataPacket(data)

	count := uint32(data[1])<<24 | uint32(data[2])<<16 | uint32(data[3])<<8 | uint32(data[4])
	vpSettle(func() bool { return s.terminated })
	if uint64(count) > uint64(len(data)-5)*8 {
		vpEnsures("an impossible count yields nothing", calls == 0 && vpDecoded == 0 && ds.TotalMeasurementsReceived() == 0)
		return
	}
	if len(ids) == 0 {
		vpEnsures("nothing is decoded before the signal index cache", len(got) == 0 && vpDecoded == 0 && ds.TotalMeasurementsReceived() == 0)
		return
	}
	if vpConcrete() {
		specRun(ds, data[5:], int(count))
	}
	vpEnsures("delivered once", calls == 1)
	vpEnsures("every measurement of the packet", len(got) == vpDecoded && (vpBad || vpDecoded == int(count)))
	vpEnsures("invalid data ends the connection", s.terminated == vpBad)
	vpEnsures("measurements counted", ds.TotalMeasurementsReceived() == uint64(vpDecoded))
	if j < len(got) {
		vpEnsures("in order and unchanged", sameMeasurement(got[j], vpWant))
	}
}

// Compressed packets are passed to the decompression whole.
func sum_tssc(ds *DataSubscriber, c *SignalIndexCache, data []byte, room []Measurement) int {
	vpEnsures("compressed data follows the count", len(data) == len(vpPayload) && (vpQ >= len(data) || data[vpQ] == vpPayload[vpQ]))
	vpEnsures("room for every measurement", len(room) == vpTSSC)
	vpEnsures("signal index cache of the packet", c == vpCache)
	n := vpAny[int]()
	vpRequires(0 <= n && n <= len(room))
	if vpJ < n {
		room[vpJ] = vpAny[Measurement]()
		vpWant = room[vpJ]
	}
	vpDecoded = n
	return n
}

//verif:syncgo
//verif:use (*sync.Pool).Get=sum_poolGet
//verif:use (*sync.Pool).Put=sum_poolPut
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).parseTSSCMeasurements=sum_tssc
func contract_T07_compressed(data []byte, pool []Measurement, pooled bool, j, q int) {
	vpRequires(len(data) >= 5 && data[0]&0x08 != 0 && j >= 0 && q >= 0 && !(vpConcrete() && data[1] > 0))
	count := uint32(data[1])<<24 | uint32(data[2])<<16 | uint32(data[3])<<8 | uint32(data[4])
	vpPayload, vpDecoded, vpJ, vpQ, vpPool, vpTSSC = data[5:], 0, j, q, nil, int(count)
	ds, _ := vpSubscriber()
	if pooled {
		vpPool = &pool
		ds.MeasurementPool.Put(&pool)
	}
	vpCache = NewSignalIndexCache()
	which := 0
	if data[0]&0x10 != 0 {
		which = 1
	}
	ds.signalIndexCache[which] = vpCache
	calls := 0
	var got []Measurement
	ds.NewMeasurementsCallback = func(m *[]Measurement) { calls++; got = *m }
	ds.handleDataPacket(data)
	if vpConcrete() {
		vpEnsures("no more than announced", uint64(len(got)) <= uint64(count))
		return
	}
	if uint64(count) > uint64(len(data)-5)*8 {
		vpEnsures("an impossible count yields nothing", calls == 0)
		return
	}
	vpEnsures("every measurement of the packet", calls == 1 && len(got) == vpDecoded && ds.TotalMeasurementsReceived() == uint64(vpDecoded))
	if j < len(got) {
		vpEnsures("in order and unchanged", sameMeasurement(got[j], vpWant))
	}
}
