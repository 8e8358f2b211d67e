package transport

import (
	"math"
	"math/rand"

	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_ds.go

// T08: the signal index cache.

type vpRec struct {
	id  guid.Guid
	src string
	num uint64
	ok  bool
}

func lookup(sic *SignalIndexCache, i int32) vpRec {
	id, src, num, ok := sic.Record(i)
	return vpRec{id, src, num, ok}
}

func vpCache(ref map[int32]uint32, ids []guid.Guid, src []string, num []uint64, back map[guid.Guid]int32) *SignalIndexCache {
	vpRequires(ref != nil && back != nil && len(src) == len(ids) && len(num) == len(ids) && len(ids) < 1<<31)
	return &SignalIndexCache{reference: ref, signalIDList: ids, sourceList: src, idList: num, signalIDCache: back}
}

// The single-value lookups agree with each other and with the stored record.
func contract_T08_lookup(ref map[int32]uint32, ids []guid.Guid, src []string, num []uint64, back map[guid.Guid]int32, i int32, g guid.Guid) {
	sic := vpCache(ref, ids, src, num, back)
	k, ok := ref[i]
	vpRequires(!ok || int(k) < len(ids))
	r := lookup(sic, i)
	vpEnsures("contains", sic.Contains(i) == ok && r.ok == ok)
	if ok {
		vpEnsures("record", r.id == ids[k] && r.src == src[k] && r.num == num[k])
		vpEnsures("fields", sic.SignalID(i) == ids[k] && sic.Source(i) == src[k] && sic.ID(i) == num[k])
	} else {
		vpEnsures("unknown index", sic.SignalID(i) == guid.Guid{} && sic.Source(i) == "" && sic.ID(i) == 1<<64-1)
	}
	j, known := back[g]
	if !known {
		j = -1
	}
	vpEnsures("signal index", sic.SignalIndex(g) == j)
	vpEnsures("count", int(sic.Count()) == len(back))
}

func gen_T08_add(r *rand.Rand) (map[int32]uint32, []guid.Guid, []string, []uint64, map[guid.Guid]int32, int32, int32, guid.Guid, guid.Guid, string, uint64, bool, MeasurementMetadata) {
	n := r.Intn(4)
	ref, back := map[int32]uint32{}, map[guid.Guid]int32{}
	ids, src, num := []guid.Guid{}, []string{}, []uint64{}
	at := func() (g guid.Guid) { g[r.Intn(2)] = byte(r.Intn(3)); return g }
	for i := 0; i < n; i++ {
		g, k := at(), int32(r.Intn(5))
		ref[k], back[g] = uint32(i), k
		ids, src, num = append(ids, g), append(src, "PPA"), append(num, uint64(i))
	}
	return ref, ids, src, num, back, int32(r.Intn(5)), int32(r.Intn(5)), at(), at(), []string{"", "SHELBY"}[r.Intn(2)], r.Uint64(), r.Intn(2) == 0, MeasurementMetadata{Source: []string{"", "X"}[r.Intn(2)]}
}

// Adding a record makes exactly that record visible and changes no other.
//
//verif:use (*sync.Map).Load=sum_regLoad
//verif:use (*sync.Map).Store=sum_regStore
//verif:use (*sync.Map).LoadOrStore=sum_regLoadOrStore
func contract_T08_add(ref map[int32]uint32, ids []guid.Guid, src []string, num []uint64, back map[guid.Guid]int32,
	i, other int32, g, otherID guid.Guid, source string, id uint64, known bool, md MeasurementMetadata) {
	sic := vpCache(ref, ids, src, num, back)
	k, ok := ref[other]
	vpRequires(!ok || int(k) < len(ids))
	vpRequires(i != other && g != otherID)
	ds, _ := vpSubscriber()
	md.SignalID = g
	p := vpRegistry(ds, known, md)
	before := lookup(sic, other)
	beforeIndex := sic.SignalIndex(otherID)
	_, present := back[g]
	count := sic.Count()

	sic.addRecord(ds, i, g, source, id, 1)

	vpEnsures("record", lookup(sic, i) == vpRec{g, source, id, true})
	vpEnsures("signal index", sic.SignalIndex(g) == i)
	vpEnsures("other record", lookup(sic, other) == before)
	vpEnsures("other signal index", sic.SignalIndex(otherID) == beforeIndex)
	if present {
		vpEnsures("count of a known signal", sic.Count() == count)
	} else {
		vpEnsures("count of a new signal", sic.Count() == count+1)
	}
	now := ds.LookupMetadata(g)
	if known {
		vpEnsures("metadata kept", now == p)
	}
	if known && md.Source != "" {
		vpEnsures("metadata unchanged", sameMetadata(*now, md))
	} else {
		vpEnsures("metadata source", now.Source == source && now.ID == id && now.SignalID == g)
	}
}

func sameMetadata(a, b MeasurementMetadata) bool {
	same := math.Float64bits(a.Adder) == math.Float64bits(b.Adder) && math.Float64bits(a.Multiplier) == math.Float64bits(b.Multiplier)
	a.Adder, a.Multiplier, b.Adder, b.Multiplier = 0, 0, 0, 0
	return same && a == b
}

// Decoding adds the records of the buffer in order. Each call of addRecord is
// checked against the bytes at the position the previous records lead to.
var (
	vpBuf  []byte
	vpSwap bool
	vpOff  uint32
	vpN    uint32
	vpIn   *SignalIndexCache
)

func specID(b []byte, i int, swap bool) (g guid.Guid) {
	for k := 0; k < 16; k++ {
		g[k] = vpAt(b, i+k)
	}
	if swap {
		g[0], g[1], g[2], g[3] = g[3], g[2], g[1], g[0]
		g[4], g[5] = g[5], g[4]
		g[6], g[7] = g[7], g[6]
	}
	return g
}

func u32at(b []byte, i int) uint32 {
	return uint32(vpAt(b, i))<<24 | uint32(vpAt(b, i+1))<<16 | uint32(vpAt(b, i+2))<<8 | uint32(vpAt(b, i+3))
}

func u64at(b []byte, i int) uint64 {
	return uint64(u32at(b, i))<<32 | uint64(u32at(b, i+4))
}

func sum_addRecord(sic *SignalIndexCache, ds *DataSubscriber, signalIndex int32, signalID guid.Guid, source string, id uint64, charSizeEstimate uint32) {
	o := int(vpOff)
	vpEnsures("decoded into the cache", sic == vpIn)
	vpEnsures("signal index of each record", uint32(signalIndex) == u32at(vpBuf, o))
	vpEnsures("signal ID of each record", signalID == specID(vpBuf, o+4, vpSwap))
	n := int(u32at(vpBuf, o+20))
	vpEnsures("record lies within the buffer", o+32+n <= len(vpBuf))
	vpEnsures("source of each record", source == string(vpBuf[o+24:o+24+n]))
	vpEnsures("measurement number of each record", id == u64at(vpBuf, o+24+n))
	vpOff = uint32(o + 24 + n + 8)
	vpN++
}

//verif:use (*github.com/sttp/goapi/sttp/transport.SignalIndexCache).addRecord=sum_addRecord
func contract_T08_decode(buf []byte, swap bool) {
	vpRequires(len(buf) < 1<<32)
	ds, _ := vpSubscriber()
	ds.SwapGuidEndianness = swap
	sic := NewSignalIndexCache()
	vpBuf, vpSwap, vpOff, vpN, vpIn = buf, swap, 24, 0, sic
	var sub guid.Guid
	err := sic.decode(ds, buf, &sub)
	if len(buf) < 24 || uint64(u32at(buf, 0)) > uint64(len(buf)) {
		vpEnsures("too short is an error", err != nil)
		return
	}
	vpEnsures("subscriber ID", sub == specID(buf, 4, swap))
	if vpConcrete() {
		o, n := 24, 0
		want := NewSignalIndexCache()
		for ; n < int(u32at(buf, 20)); n++ {
			if o+32 > len(buf) || o+32+int(u32at(buf, o+20)) > len(buf) {
				break
			}
			l := int(u32at(buf, o+20))
			want.addRecord(NewDataSubscriber(), int32(u32at(buf, o)), specID(buf, o+4, swap), string(buf[o+24:o+24+l]), u64at(buf, o+24+l), 1)
			o += 32 + l
		}
		vpEnsures("signal index of each record", len(sic.signalIDList) == len(want.signalIDList))
		for k := range want.reference {
			vpEnsures("signal index of each record", lookup(sic, k) == lookup(want, k))
		}
		vpN = uint32(n)
	}
	if err == nil {
		vpEnsures("every record decoded", vpN == u32at(buf, 20))
	} else {
		// the next record does not fit
		vpEnsures("stops only at the end of the buffer", vpN < u32at(buf, 20) && len(buf)-int(vpOff) < 32+vpLen(buf, int(vpOff)) || vpConcrete())
	}
}

func vpLen(buf []byte, o int) int {
	if o+24 > len(buf) {
		return 0
	}
	return int(u32at(buf, o+20))
}

func gen_T08_decode(r *rand.Rand) ([]byte, bool) {
	n := r.Intn(4)
	put := func(b []byte, v uint64, k int) []byte {
		for i := k - 1; i >= 0; i-- {
			b = append(b, byte(v>>(8*i)))
		}
		return b
	}
	b := make([]byte, 20)
	r.Read(b)
	b = put(b, uint64(n), 4)
	for i := 0; i < n; i++ {
		b = put(b, uint64(i*r.Intn(5)), 4)
		b = put(b, r.Uint64(), 8)
		b = put(b, r.Uint64(), 8)
		src := "PMU-source"[:r.Intn(11)]
		b = put(b, uint64(len(src)), 4)
		b = append(b, src...)
		b = put(b, r.Uint64(), 8)
	}
	b = append(b, make([]byte, r.Intn(3))...)
	copy(b, put(nil, uint64(len(b)), 4))
	if r.Intn(6) == 0 {
		b = b[:r.Intn(len(b)+1)]
		if len(b) >= 4 && r.Intn(3) > 0 {
			copy(b, put(nil, uint64(len(b)), 4))
		}
	}
	return b, r.Intn(2) == 0
}
