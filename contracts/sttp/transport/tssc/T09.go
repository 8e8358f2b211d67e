package tssc

// T09: decoding never crashes, whatever the bytes and the state reached.

func sum_readCode(pm *pointMetadata) (int32, error) {
	if vpAny[bool]() {
		panic("end of data")
	}
	c := vpAny[int32]()
	vpRequires(c >= 0 && c < 32)
	return c, nil
}

func sum_bits4(td *Decoder) int32 {
	if vpAny[bool]() {
		panic("end of data")
	}
	v := vpAny[int32]()
	vpRequires(0 <= v && v < 16)
	return v
}

func sum_seven32(data []byte, pos *int) uint32 {
	if vpAny[bool]() {
		panic("end of data")
	}
	*pos += 5
	return vpAny[uint32]()
}

func sum_seven64(data []byte, pos *int) uint64 {
	if vpAny[bool]() {
		panic("end of data")
	}
	*pos += 9
	return vpAny[uint64]()
}

//verif:use (*github.com/sttp/goapi/sttp/transport/tssc.Decoder).readBits4=sum_bits4
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sum_seven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sum_seven64
//verif:use (*github.com/sttp/goapi/sttp/transport/tssc.pointMetadata).ReadCode=sum_readCode
func contract_T09_tryGet(data []byte, pos int, count, cache int32, last, prev vpPrev, key int32, t1, t2 int64) {
	vpRequires(0 <= pos && pos <= len(data) && 0 <= count && count < 8 && 0 <= cache && cache < 256)
	td := NewDecoder()
	td.SetBuffer(data)
	td.position, td.bitStreamCount, td.bitStreamCache = pos, count, cache
	td.prevTimestamp1, td.prevTimestamp2 = t1, t2
	last.into(td.lastPoint)
	td.points[key] = prev.into(td.newPointMetadata())
	var id int32
	var timestamp int64
	var flags uint32
	var value float32
	ok, err := td.TryGetMeasurement(&id, &timestamp, &flags, &value)
	vpEnsures("no measurement together with an error", !ok || err == nil)
}

// Reading a code word never leaves the table, so that only the end of the data
// can stop it.
func contract_T09_readCode(t vpTables, b [8]byte) {
	vpRequires(t.valid())
	pos := 0
	bit := func() int32 {
		if pos == len(b) {
			panic("end of data")
		}
		v := b[pos] & 1
		pos++
		return int32(v)
	}
	pm := t.point()
	pm.readBit = bit
	pm.readBits5 = func() int32 { return bit()<<4 | bit()<<3 | bit()<<2 | bit()<<1 | bit() }
	vpRequires(t.Since <= 4)
	code, err := pm.ReadCode()
	vpEnsures("code of the table", err == nil && code >= 0 && code < 32)
}
