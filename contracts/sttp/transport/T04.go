package transport

import (
	"encoding/binary"
	"errors"
	"math"
	"math/rand"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport/tssc"
)

//verif:with common_ds.go

// T04: compressed packets are decoded only in sequence. Decoding of single
// measurements is the subject of T01; here the decoder yields an arbitrary
// sequence of measurements, of which number vpJ is remembered.

var (
	vpUsed    *tssc.Decoder
	vpBuffer  []byte
	vpDecoded int
	vpJ       int
	vpBad     bool
	vpWant    Measurement
	vpCache   *SignalIndexCache
)

func sum_setBuffer(td *tssc.Decoder, data []byte) { vpUsed, vpBuffer = td, data }

func sum_tryGet(td *tssc.Decoder, id *int32, timestamp *int64, flags *uint32, value *float32) (bool, error) {
	vpEnsures("decodes from the current decoder", td == vpUsed)
	if vpAny[bool]() {
		if vpAny[bool]() {
			vpBad = true
			return false, errors.New("bad")
		}
		return false, nil
	}
	*id, *timestamp, *flags, *value = vpAny[int32](), vpAny[int64](), vpAny[uint32](), vpAny[float32]()
	if k, ok := vpCache.reference[*id]; ok {
		vpRequires(int(k) < len(vpCache.signalIDList))
	}
	if vpDecoded == vpJ {
		vpWant = specMeasurement(*id, *timestamp, *flags, *value)
	}
	vpDecoded++
	return true, nil
}

func specMeasurement(id int32, timestamp int64, flags uint32, value float32) Measurement {
	m := Measurement{Value: float64(value), Timestamp: ticks.Ticks(timestamp), Flags: StateFlagsEnum(flags)}
	if k, ok := vpCache.reference[id]; ok {
		m.SignalID = vpAt(vpCache.signalIDList, int(k))
	}
	return m
}

// specRun decodes a whole packet with a decoder of its own, for replays.
func specRun(data []byte, room int) {
	td := tssc.NewDecoder()
	td.SetBuffer(data)
	for {
		var id int32
		var timestamp int64
		var flags uint32
		var value float32
		ok, err := td.TryGetMeasurement(&id, &timestamp, &flags, &value)
		if !ok {
			vpBad = err != nil
			return
		}
		if vpDecoded == vpJ {
			vpWant = specMeasurement(id, timestamp, flags, value)
		}
		vpDecoded++
		if vpDecoded > room {
			return
		}
	}
}

func sameMeasurement(a, b Measurement) bool {
	return a.SignalID == b.SignalID && math.Float64bits(a.Value) == math.Float64bits(b.Value) && a.Timestamp == b.Timestamp && a.Flags == b.Flags
}

func gen_T04_sequence(r *rand.Rand) ([]byte, uint16, bool, map[int32]uint32, []guid.Guid, []Measurement, int) {
	data := make([]byte, 3+r.Intn(40))
	r.Read(data)
	var seq uint16
	switch r.Intn(4) {
	case 0:
		seq = 65535
	case 1, 2:
		seq = uint16(1 + r.Intn(5))
	}
	data[0] = 85
	binary.BigEndian.PutUint16(data[1:], seq)
	if r.Intn(4) == 0 {
		seq += uint16(r.Intn(3))
	}
	if len(data) > 5 && r.Intn(2) == 0 {
		// a few measurements that keep to short codes
		for i := 3; i < len(data); i++ {
			data[i] = byte([]int{0xFF, 0x0F, 0, 1, 0x88, 0x20}[r.Intn(6)])
		}
	}
	return data, seq, r.Intn(4) > 0, map[int32]uint32{int32(r.Intn(4)): 0}, []guid.Guid{guid.New()}, make([]Measurement, r.Intn(6)), r.Intn(3)
}

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport/tssc.Decoder).SetBuffer=sum_setBuffer
//verif:use (*github.com/sttp/goapi/sttp/transport/tssc.Decoder).TryGetMeasurement=sum_tryGet
func contract_T04_sequence(data []byte, seq uint16, known bool, ref map[int32]uint32, ids []guid.Guid, room []Measurement, j int) {
	vpRequires(len(room) < 1<<30 && j >= 0)
	var td *tssc.Decoder
	if known {
		td = tssc.NewDecoder()
		td.SequenceNumber = seq
	} else {
		vpRequires(seq == 0)
	}
	for k := int32(0); vpConcrete() && k < 5; k++ {
		vpRequires(int(ref[k]) < len(ids))
	}
	ds, s := vpSubscriber()
	vpCache = &SignalIndexCache{reference: ref, signalIDList: ids, tsscDecoder: td}
	vpUsed, vpBuffer, vpDecoded, vpJ, vpBad = nil, nil, 0, j, false
	vpInvariant(func(err error) bool { return (err != nil) == vpBad })
	vpInvariant(func(ok bool) bool { return !ok || !vpBad })
	vpInvariant(func() bool { return !vpBad })
	vpInvariant(func(i int) bool { return i == vpDecoded && i <= len(room) })
	vpInvariant(func(i int) bool { return j >= i || sameMeasurement(vpAt(room, j), vpWant) })

	n := ds.parseTSSCMeasurements(vpCache, data, room)

	after := vpCache.tsscDecoder
	vpSettle(func() bool { return s.terminated })
	if len(data) < 3 || data[0] != 85 {
		vpEnsures("an unknown packet yields nothing", n == 0 && vpDecoded == 0)
		vpEnsures("an unknown version ends the connection", s.terminated == (len(data) >= 3))
		vpEnsures("an unknown packet keeps the sequence", !known || after == td && td.SequenceNumber == seq)
		return
	}
	got := uint16(data[1])<<8 | uint16(data[2])
	if got != 0 && got != seq {
		vpEnsures("out of sequence yields nothing", n == 0 && vpDecoded == 0 && !s.terminated)
		vpEnsures("out of sequence keeps the expected number", after.SequenceNumber == seq && (!known || after == td))
		return
	}
	if vpConcrete() {
		specRun(data[3:], len(room))
		vpUsed, vpBuffer = after, data[3:]
	}
	vpEnsures("packet is decoded after its header", len(vpBuffer) == len(data)-3 && (j >= len(vpBuffer) || vpBuffer[j] == data[3+j]))
	vpEnsures("decoder is the one kept for the cache", vpUsed == after && after != nil)
	vpEnsures("sequence zero starts over", got != 0 || !known || after != td)
	vpEnsures("decoder is kept in sequence", got == 0 || after == td)
	if vpBad || vpDecoded > len(room) {
		vpEnsures("invalid data ends the connection", s.terminated)
	} else {
		next := got + 1
		if next == 0 {
			next = 1
		}
		vpEnsures("next sequence number", !s.terminated && after.SequenceNumber == next)
	}
	m := vpDecoded
	if m > len(room) {
		m = len(room)
	}
	vpEnsures("every measurement counted", n == m)
	if j < n {
		vpEnsures("every measurement in order", sameMeasurement(room[j], vpWant))
	}
}
