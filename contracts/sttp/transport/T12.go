package transport

import (
	"math/rand"

	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_ds.go

// T12: buffer blocks are delivered once and in sequence. The cache holds the
// blocks that arrived early: element i is block expected+i, without a buffer
// while it is missing.

func at32(b []byte, i int) uint32 {
	return uint32(vpAt(b, i))<<24 | uint32(vpAt(b, i+1))<<16 | uint32(vpAt(b, i+2))<<8 | uint32(vpAt(b, i+3))
}

var (
	vpConfirmed int
	vpConfirm   []byte
	vpCode      ServerCommandEnum
)

func sum_send(ds *DataSubscriber, c ServerCommandEnum, data []byte) {
	vpConfirmed++
	vpCode, vpConfirm = c, data
}

func sameBlock(a, b BufferBlock, q int) bool {
	return a.SignalID == b.SignalID && (a.Buffer == nil) == (b.Buffer == nil) && len(a.Buffer) == len(b.Buffer) &&
		(q >= len(a.Buffer) || vpAt(a.Buffer, q) == vpAt(b.Buffer, q))
}

func gen_T12_block(r *rand.Rand) ([]byte, byte, uint32, []BufferBlock, map[int32]uint32, []guid.Guid, int, int) {
	version := byte(1 + r.Intn(2))
	expected := uint32(r.Intn(5)) - 2
	seq := expected + uint32(r.Intn(7)) - 1
	data := []byte{byte(seq >> 24), byte(seq >> 16), byte(seq >> 8), byte(seq)}
	if version > 1 {
		data = append(data, byte(r.Intn(3)))
	}
	data = append(data, 0, 0, 0, byte(r.Intn(3)))
	for i := r.Intn(4); i > 0; i-- {
		data = append(data, byte(r.Intn(256)))
	}
	var cache []BufferBlock
	for i := r.Intn(5); i > 0; i-- {
		var b BufferBlock
		b.SignalID[0] = byte(r.Intn(9))
		if len(cache) > 0 && r.Intn(3) > 0 {
			b.Buffer = []byte{byte(r.Intn(9)), byte(i)}[:r.Intn(3)]
		}
		cache = append(cache, b)
	}
	return data, version, expected, cache, map[int32]uint32{1: 0, 2: 1}, []guid.Guid{{7}, {8}}, r.Intn(6), r.Intn(3)
}

//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_send
func contract_T12_block(data []byte, version byte, expected uint32, cache []BufferBlock, ref map[int32]uint32, ids []guid.Guid, j, q int) {
	header := 8
	if version > 1 {
		header = 9
	}
	vpRequires(len(data) >= header && 0 <= j && 0 <= q)
	vpRequires(len(cache) < 1<<20 && (len(cache) == 0 || cache[0].Buffer == nil))
	vpRequires(len(ids) < 1<<31)
	ds, s := vpSubscriber()
	ds.Version = version
	ds.bufferBlockExpectedSequenceNumber = expected
	if vpConcrete() {
		ds.bufferBlockCache = append([]BufferBlock{}, cache...)
	} else {
		ds.bufferBlockCache = cache
	}
	which := 0
	if version > 1 && data[4] > 0 {
		which = 1
	}
	signal := int32(at32(data, header-4))
	if k, ok := ref[signal]; ok {
		vpRequires(int(k) < len(ids))
	}
	ds.signalIndexCache[which] = &SignalIndexCache{reference: ref, signalIDList: ids}
	var got []BufferBlock
	calls := 0
	ds.NewBufferBlocksCallback = func(b []BufferBlock) { calls++; got = b }
	vpConfirmed = 0

	seq := at32(data, 0)
	pos := int(int32(seq - expected))
	vpRequires(!vpConcrete() || pos < 1000)
	known := pos >= 0 && pos < len(cache) && cache[pos].Buffer != nil
	n := len(cache)
	var old BufferBlock
	if j < n {
		old = cache[j]
	}
	want := guid.Guid{}
	if k, ok := ref[signal]; ok {
		want = ids[k]
	}
	vpInvariant(func(i int) bool { return j == 0 || j >= i || old.Buffer != nil && j < n })
	vpInvariant(func(i int, l []BufferBlock) bool { return j == 0 || j >= i || sameBlock(vpAt(l, j), old, q) })
	vpInvariant(func(i int, l []BufferBlock) bool { return len(l) == i })
	vpInvariant(func(l []BufferBlock) bool {
		return len(l) >= 1 && vpAt(l, 0).SignalID == want && len(vpAt(l, 0).Buffer) == len(data)-header
	})
	vpInvariant(func(l []BufferBlock) bool {
		return q >= len(data)-header || vpAt(vpAt(l, 0).Buffer, q) == data[header+q]
	})
	vpInvariant(func(i int) bool { return ds.bufferBlockExpectedSequenceNumber == expected+uint32(i) })
	vpInvariant(func(i int) bool { return len(ds.bufferBlockCache) == i })
	vpInvariant(func(i int) bool { return i <= n || i <= pos+1 })
	vpInvariant(func() bool { return j >= n || sameBlock(vpAt(ds.bufferBlockCache, j), old, q) })
	vpInvariant(func(i int) bool { return j < n || j >= i || vpAt(ds.bufferBlockCache, j).Buffer == nil })

	ds.handleBufferBlock(data)

	if vpConcrete() {
		vpConfirmed = s.conn.writes
		if vpConfirmed > 0 {
			vpCode, vpConfirm = ServerCommandEnum(s.conn.last[4]), s.conn.last[5:]
		}
	}
	if pos < 0 || known {
		vpEnsures("a repeated block is ignored", calls == 0 && ds.bufferBlockExpectedSequenceNumber == expected && len(ds.bufferBlockCache) == n)
		return
	}
	vpEnsures("confirmation", vpConfirmed == 1 && vpCode == 0x08 && len(vpConfirm) == 4 && at32(vpConfirm, 0) == seq)
	if pos == 0 {
		vpEnsures("delivered at once", calls == 1 && len(got) >= 1)
		m := len(got)
		vpEnsures("block", got[0].SignalID == want && len(got[0].Buffer) == len(data)-header)
		if q < len(data)-header {
			vpEnsures("block bytes", got[0].Buffer[q] == data[header+q])
		}
		if 0 < j && j < m {
			vpEnsures("followed by the early blocks", j < n && old.Buffer != nil && sameBlock(got[j], old, q))
		}
		vpEnsures("up to the first missing block", m >= n || cache[m].Buffer == nil)
		vpEnsures("expects the next missing block", ds.bufferBlockExpectedSequenceNumber == expected+uint32(m))
		vpEnsures("delivered blocks leave the cache", n == 0 && len(ds.bufferBlockCache) == 0 || len(ds.bufferBlockCache) == n-m)
		if m <= j && j < n {
			vpEnsures("later blocks stay", sameBlock(ds.bufferBlockCache[j-m], old, q))
		}
		return
	}
	vpEnsures("an early block is not delivered", calls == 0 && ds.bufferBlockExpectedSequenceNumber == expected)
	c := ds.bufferBlockCache
	vpEnsures("room for the early block", len(c) > pos && len(c) >= n && (len(c) == n || len(c) == pos+1))
	vpEnsures("early block kept", c[pos].SignalID == want && c[pos].Buffer != nil && len(c[pos].Buffer) == len(data)-header)
	if q < len(data)-header {
		vpEnsures("early block bytes", c[pos].Buffer[q] == data[header+q])
	}
	if j < n && j != pos {
		vpEnsures("other blocks unchanged", sameBlock(c[j], old, q))
	}
	if n <= j && j < len(c) && j != pos {
		vpEnsures("blocks between are missing", c[j].Buffer == nil)
	}
}
