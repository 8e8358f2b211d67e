package tssc

import (
	"math"
	"math/rand"
)

// T01: one measurement is decoded from its code words and the bytes that go
// with them. Reading code words is the subject of T02 and reading bits and
// 7-bit integers of T03: here the code words come from a list and the pending
// bits are the eight of bits.

// vpTimes is what the decoder remembers about timestamps.
type vpTimes struct {
	T1, T2 int64
	D      [4]int64
}

func timesOf(td *Decoder) vpTimes {
	return vpTimes{td.prevTimestamp1, td.prevTimestamp2, [4]int64{td.prevTimeDelta1, td.prevTimeDelta2, td.prevTimeDelta3, td.prevTimeDelta4}}
}

// vpInput is the compressed form of one measurement.
type vpInput struct {
	Codes [4]byte
	Bits  byte
	Data  []byte
}

type vpCursor struct {
	in             vpInput
	code, pos, nib int
}

func (c *vpCursor) next() byte {
	v := c.in.Codes[c.code]
	c.code++
	return v
}

func (c *vpCursor) byte() uint64 {
	v := vpAt(c.in.Data, c.pos)
	c.pos++
	return uint64(v)
}

// bits reads n bits: an odd number of half bytes starts with pending bits, the
// bytes follow least significant first.
func (c *vpCursor) bits(n int) uint64 {
	var v uint64
	at := uint(0)
	if n%8 == 4 {
		v = uint64(c.in.Bits>>(4-4*c.nib)) & 15
		c.nib++
		at = 4
	}
	for i := 0; i < n/8; i++ {
		v |= c.byte() << at
		at += 8
	}
	return v
}

func (c *vpCursor) seven(max int) uint64 {
	if max == 5 {
		return uint64(vpSeven32(c.in.Data, &c.pos))
	}
	return vpSeven64(c.in.Data, &c.pos)
}

func vpSeven(data []byte, pos *int, max int) (v uint64) {
	for i := 0; i < max; i++ {
		b := uint64(vpAt(data, *pos))
		*pos++
		if i == max-1 {
			return v | b<<(7*uint(i))
		}
		v |= (b & 127) << (7 * uint(i))
		if b < 128 {
			break
		}
	}
	return v
}

func vpSeven32(data []byte, pos *int) uint32 { return uint32(vpSeven(data, pos, 5)) }
func vpSeven64(data []byte, pos *int) uint64 { return vpSeven(data, pos, 9) }

// The contracts of the 7-bit integer readers, discharged under T03.
func sumSeven32(data []byte, pos *int) uint32 {
	n, v := vpPure[int]("length32", *pos), vpPure[uint32]("value32", *pos)
	vpRequires(1 <= n && n <= 5)
	vpEnsures("7-bit integer lies in the data", *pos >= 0 && *pos+n <= len(data))
	*pos += n
	return v
}

func sumSeven64(data []byte, pos *int) uint64 {
	n, v := vpPure[int]("length64", *pos), vpPure[uint64]("value64", *pos)
	vpRequires(1 <= n && n <= 9)
	vpEnsures("7-bit integer lies in the data", *pos >= 0 && *pos+n <= len(data))
	*pos += n
	return v
}

var vpIDBits = [8]int{0, 4, 8, 12, 16, 20, 24, 32}

// specID is the measurement ID step: the ID expected after the last one,
// changed by the bits given.
func specID(c *vpCursor, next int32) (int32, byte, bool) {
	k := c.next()
	if k >= 1 && k <= 7 {
		next ^= int32(uint32(c.bits(vpIDBits[k])))
		k = c.next()
		return next, k, k >= 8
	}
	return next, k, true
}

// specTime: one of the four smallest distinct distances seen forward or back,
// the time before the last, a difference in bits, or the last time.
func specTime(c *vpCursor, k byte, t *vpTimes) (int64, byte, bool) {
	if k > 17 {
		return t.T1, k, true
	}
	var v int64
	switch {
	case k <= 11:
		v = t.T1 + t.D[k-8]
	case k <= 15:
		v = t.T1 - t.D[k-12]
	case k == 16:
		v = t.T2
	default:
		v = t.T1 ^ int64(c.seven(9))
	}
	d := t.T1 - v
	if d < 0 {
		d = -d
	}
	if d != t.D[0] && d != t.D[1] && d != t.D[2] {
		for i := 0; i < 4; i++ {
			if d < t.D[i] {
				for j := 3; j > i; j-- {
					t.D[j] = t.D[j-1]
				}
				t.D[i] = d
				break
			}
		}
	}
	t.T1, t.T2 = v, t.T1
	k = c.next()
	return v, k, k >= 18
}

func specFlags(c *vpCursor, k byte, p *vpPrev) (uint32, byte, bool) {
	if k > 19 {
		return p.Flags1, k, true
	}
	v := p.Flags2
	if k == 19 {
		v = uint32(c.seven(5))
	}
	p.Flags1, p.Flags2 = v, p.Flags1
	k = c.next()
	return v, k, k >= 20
}

// specValue: one of the three last values, zero, or a difference in bits; the
// value used becomes the last one.
func specValue(c *vpCursor, k byte, p *vpPrev) uint32 {
	v := p.V1
	switch {
	case k == 20:
		return v
	case k == 21:
		p.V1, p.V2 = p.V2, p.V1
		return p.V1
	case k == 22:
		v = p.V3
	case k == 23:
		v = 0
	default:
		v = p.V1 ^ uint32(c.bits(4*int(k-23)))
	}
	p.V1, p.V2, p.V3 = v, p.V1, p.V2
	return v
}

func genAny(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte) {
	var in vpInput
	lo := []int{0, 8, 18, 20}
	for i := range in.Codes {
		in.Codes[i] = byte(lo[i] + r.Intn(32-lo[i]))
	}
	if r.Intn(2) == 0 {
		in.Codes[0], in.Codes[1], in.Codes[2], in.Codes[3] = byte(1+r.Intn(7)), byte(8+r.Intn(10)), byte(18+r.Intn(2)), byte(20+r.Intn(12))
	}
	in.Bits = byte(r.Intn(256))
	in.Data = make([]byte, 24)
	for i := range in.Data {
		in.Data[i] = byte(r.Intn(256))
	}
	var t vpTimes
	t.T1, t.T2 = r.Int63n(1<<60), r.Int63n(1<<60)
	d := r.Int63n(1000)
	for i := range t.D {
		t.D[i] = d
		d += 1 + r.Int63n(1000)
	}
	p := func() vpPrev {
		return vpPrev{int32(r.Intn(100)), r.Uint32(), r.Uint32(), r.Uint32(), r.Uint32(), r.Uint32()}
	}
	return in, t, p(), p(), byte(r.Intn(3))
}

// kind: the measurement is new (0), known (1), or the same as the last one (2).
// The classes of time and flags code words are taken one by one.

func gen_T01_last_last(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 0, 0)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_last_last(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpShape(in, idc, 0, 0)
	vpEach(in, t, last, prev, kind, idc)
}

func gen_T01_last_second(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 0, 1)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_last_second(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpShape(in, idc, 0, 1)
	vpEach(in, t, last, prev, kind, idc)
}

func gen_T01_last_seven(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 0, 2)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_last_seven(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpShape(in, idc, 0, 2)
	vpEach(in, t, last, prev, kind, idc)
}

func gen_T01_forward_last_same(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 0)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_forward_last_same(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == false)
	vpShape(in, idc, 1, 0)
	vpEachTime(in, t, last, prev, kind, 0, 8, 11)
}

func gen_T01_forward_last_id(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 0)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_forward_last_id(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == true)
	vpShape(in, idc, 1, 0)
	vpEachTime(in, t, last, prev, kind, 1, 8, 11)
}

func gen_T01_back_last_same(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 0)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_back_last_same(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == false)
	vpShape(in, idc, 1, 0)
	vpEachTime(in, t, last, prev, kind, 0, 12, 16)
}

func gen_T01_back_last_id(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 0)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_back_last_id(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == true)
	vpShape(in, idc, 1, 0)
	vpEachTime(in, t, last, prev, kind, 1, 12, 16)
}

func gen_T01_forward_second_same(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 1)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_forward_second_same(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == false)
	vpShape(in, idc, 1, 1)
	vpEachTime(in, t, last, prev, kind, 0, 8, 11)
}

func gen_T01_forward_second_id(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 1)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_forward_second_id(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == true)
	vpShape(in, idc, 1, 1)
	vpEachTime(in, t, last, prev, kind, 1, 8, 11)
}

func gen_T01_back_second_same(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 1)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_back_second_same(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == false)
	vpShape(in, idc, 1, 1)
	vpEachTime(in, t, last, prev, kind, 0, 12, 16)
}

func gen_T01_back_second_id(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 1)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_back_second_id(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == true)
	vpShape(in, idc, 1, 1)
	vpEachTime(in, t, last, prev, kind, 1, 12, 16)
}

func gen_T01_forward_seven_same(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 2)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_forward_seven_same(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == false)
	vpShape(in, idc, 1, 2)
	vpEachTime(in, t, last, prev, kind, 0, 8, 11)
}

func gen_T01_forward_seven_id(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 2)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_forward_seven_id(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == true)
	vpShape(in, idc, 1, 2)
	vpEachTime(in, t, last, prev, kind, 1, 8, 11)
}

func gen_T01_back_seven_same(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 2)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_back_seven_same(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == false)
	vpShape(in, idc, 1, 2)
	vpEachTime(in, t, last, prev, kind, 0, 12, 16)
}

func gen_T01_back_seven_id(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 1, 2)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_back_seven_id(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpRequires((idc > 0) == true)
	vpShape(in, idc, 1, 2)
	vpEachTime(in, t, last, prev, kind, 1, 12, 16)
}

func gen_T01_xor_last(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 2, 0)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_xor_last(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpShape(in, idc, 2, 0)
	vpEach(in, t, last, prev, kind, idc)
}

func gen_T01_xor_second(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 2, 1)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_xor_second(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpShape(in, idc, 2, 1)
	vpEach(in, t, last, prev, kind, idc)
}

func gen_T01_xor_seven(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	return genStep(r, 2, 2)
}

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_xor_seven(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	vpShape(in, idc, 2, 2)
	vpEach(in, t, last, prev, kind, idc)
}

// vpShape restricts the code words to the given classes of time and flags code.
func vpShape(in vpInput, idc byte, time, flags int) {
	i := 0
	vpRequires(idc <= 7)
	if idc > 0 {
		vpRequires(in.Codes[0] == idc)
		i = 1
	}
	switch time {
	case 1:
		vpRequires(in.Codes[i] >= 8 && in.Codes[i] <= 16)
		i++
	case 2:
		vpRequires(in.Codes[i] == 17)
		i++
	}
	switch flags {
	case 1:
		vpRequires(in.Codes[i] == 18)
		i++
	case 2:
		vpRequires(in.Codes[i] == 19)
		i++
	}
	vpRequires(in.Codes[i] >= 20)
}

func vpEach(in vpInput, t vpTimes, last, prev vpPrev, kind, idc byte) {
	for k := byte(0); k < 8; k++ {
		if idc == k {
			if k > 0 {
				in.Codes[0] = k
			}
			for q := byte(0); q < 3; q++ {
				if kind == q {
					stepContract(in, t, last, prev, q)
				}
			}
			return
		}
	}
}

func vpEachTime(in vpInput, t vpTimes, last, prev vpPrev, kind byte, i int, lo, hi byte) {
	for k := lo; k <= hi; k++ {
		if in.Codes[i] == k {
			in.Codes[i] = k
			for q := byte(0); q < 3; q++ {
				if kind == q {
					stepContract(in, t, last, prev, q)
				}
			}
			return
		}
	}
}

func genStep(r *rand.Rand, time, flags int) (vpInput, vpTimes, vpPrev, vpPrev, byte, byte) {
	in, t, a, b, kind := genAny(r)
	idc := byte(r.Intn(8))
	i := 0
	if idc > 0 {
		in.Codes[0] = idc
		i = 1
	}
	if time > 0 {
		in.Codes[i] = byte(8 + r.Intn(9))
		if time == 2 {
			in.Codes[i] = 17
		}
		i++
	}
	if flags > 0 {
		in.Codes[i] = byte(17 + flags)
		i++
	}
	in.Codes[i] = byte(20 + r.Intn(12))
	return in, t, a, b, kind, idc
}

// Code words in an order that no measurement has.
func gen_T01_order(r *rand.Rand) (vpInput, vpTimes, vpPrev, vpPrev, byte) { return genAny(r) }

//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven32=sumSeven32
//verif:use github.com/sttp/goapi/sttp/transport/tssc.decode7BitUInt64=sumSeven64
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpSeven64=sumSeven64
func contract_T01_order(in vpInput, t vpTimes, last, prev vpPrev, kind byte) {
	c := in.Codes
	i := 0
	bad := false
	if c[i] >= 1 && c[i] <= 7 {
		i++
		bad = c[i] < 8
	}
	if !bad && c[i] >= 8 && c[i] <= 17 {
		i++
		bad = c[i] < 18
	}
	if !bad && c[i] >= 18 && c[i] <= 19 {
		i++
		bad = c[i] < 20
	}
	vpRequires(bad || c[0] == 0)
	stepContract(in, t, last, prev, kind)
}

func stepContract(in vpInput, t vpTimes, last, prev vpPrev, kind byte) {
	vpRequires(len(in.Data) >= 22 && len(in.Data) < 1<<20 && kind <= 2)
	for i := 0; i < 4; i++ {
		vpRequires(in.Codes[i] < 32)
		vpRequires(t.D[i] >= 0 && (i == 0 || t.D[i-1] < t.D[i] || t.D[i-1] == math.MaxInt64 && t.D[i] == math.MaxInt64))
	}
	td := NewDecoder()
	td.SetBuffer(in.Data)
	td.bitStreamCount, td.bitStreamCache = 8, int32(in.Bits)
	td.prevTimestamp1, td.prevTimestamp2 = t.T1, t.T2
	td.prevTimeDelta1, td.prevTimeDelta2, td.prevTimeDelta3, td.prevTimeDelta4 = t.D[0], t.D[1], t.D[2], t.D[3]
	lp := last.into(vpTables{Mode: 1, Startup: 2}.point())
	read := 0
	lp.readBits5 = func() int32 {
		read++
		return int32(in.Codes[read-1])
	}
	td.lastPoint = lp

	c := &vpCursor{in: in}
	id, k, ok1 := specID(c, last.NextID)
	var np *pointMetadata
	p := vpPrev{NextID: id + 1}
	switch kind {
	case 1:
		p = prev
		np = p.into(&pointMetadata{})
		td.points[id] = np
	case 2:
		p = last
		p.NextID = id
		np = lp
		td.points[id] = lp
	}

	var gid int32
	var gtime int64
	var gflags uint32
	var gvalue float32
	ok, err := td.TryGetMeasurement(&gid, &gtime, &gflags, &gvalue)

	if in.Codes[0] == 0 {
		vpEnsures("end of stream", !ok && err == nil && gid == 0 && gtime == 0 && gflags == 0 && gvalue == 0 && td.bitStreamCount == 0)
		return
	}
	if !ok1 {
		vpEnsures("time, flags or value must follow the ID", !ok && err != nil)
		return
	}
	time, k, ok2 := specTime(c, k, &t)
	if !ok2 {
		vpEnsures("flags or value must follow the time", !ok && err != nil)
		return
	}
	flags, k, ok3 := specFlags(c, k, &p)
	if !ok3 {
		vpEnsures("value must follow the flags", !ok && err != nil)
		return
	}
	value := specValue(c, k, &p)
	vpEnsures("decoded", ok && err == nil)
	vpEnsures("measurement ID", gid == id)
	vpEnsures("timestamp", gtime == time)
	vpEnsures("state flags", gflags == flags)
	vpEnsures("value", math.Float32bits(gvalue) == value || gvalue != gvalue && math.Float32frombits(value) != math.Float32frombits(value))
	vpEnsures("bytes used", td.position == c.pos)
	vpEnsures("bits used", int(td.bitStreamCount) == 8-4*c.nib)
	vpEnsures("code words used", read == c.code)
	vpEnsures("remembered times", timesOf(td) == t)
	if kind == 0 {
		np = td.points[id]
		vpEnsures("new point starts with the initial code table", np != nil && np != lp && tablesOf(np) == (vpTables{Mode: 4, M41: 20, M401: 21, M4001: 22}))
	}
	vpEnsures("next point", td.lastPoint == np && td.points[id] == np)
	vpEnsures("remembered values", prevOf(np) == p)
	if kind != 2 {
		last.NextID = id
		vpEnsures("last point keeps its values", prevOf(lp) == last)
	}
}
