package transport

import (
	"bytes"
	"compress/gzip"
	"errors"
	"math/rand"

	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_ds.go

// T18: a signal index cache received from the publisher takes effect as a
// whole or not at all. Uncompressing and decoding (T08) are stand-ins that may
// fail and record what they were given.

var (
	vpUnzips, vpDecodes  int
	vpUnzipped, vpPlain  []byte
	vpDecoded            []byte
	vpDecodedTo          *SignalIndexCache
	vpBadZip, vpBadCache bool
	vpSubID              guid.Guid
	vpConfirms           int
	vpConfirmCode        ServerCommandEnum
	vpConfirmSize        int
)

func sum_unzip(data []byte) ([]byte, error) {
	vpUnzips++
	vpUnzipped = data
	if vpBadZip {
		return nil, errors.New("bad data")
	}
	return vpPlain, nil
}

func sum_decode(sic *SignalIndexCache, ds *DataSubscriber, buffer []byte, id *guid.Guid) error {
	vpDecodes++
	vpDecoded, vpDecodedTo = buffer, sic
	if vpBadCache {
		return errors.New("bad data")
	}
	*id = vpSubID
	return nil
}

func sum_confirm(ds *DataSubscriber, c ServerCommandEnum, data []byte) {
	vpConfirms++
	vpConfirmCode, vpConfirmSize = c, len(data)
}

func gen_T18_update(r *rand.Rand) ([]byte, byte, bool, bool, bool, []byte, guid.Guid, int, int32) {
	b := make([]byte, 20)
	r.Read(b)
	n := r.Intn(3)
	b = append(b, 0, 0, 0, byte(n))
	for i := 0; i < n; i++ {
		rec := make([]byte, 32)
		r.Read(rec[4:20])
		rec[3] = byte(r.Intn(4))
		b = append(b, rec...)
	}
	copy(b, []byte{0, 0, 0, byte(len(b))})
	if r.Intn(4) == 0 {
		b = b[:r.Intn(len(b))]
	}
	compress := r.Intn(2) == 0
	if compress && r.Intn(4) > 0 {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(b)
		w.Close()
		b = z.Bytes()
	}
	version := byte(1 + r.Intn(2))
	if version > 1 {
		b = append([]byte{byte(r.Intn(3))}, b...)
	}
	return b, version, compress, false, false, nil, guid.Guid{}, 0, int32(r.Intn(2))
}

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_confirm
//verif:use github.com/sttp/goapi/sttp/transport.decompressGZip=sum_unzip
//verif:use (*github.com/sttp/goapi/sttp/transport.SignalIndexCache).decode=sum_decode
func contract_T18_update(data []byte, version byte, compress, badZip, badCache bool, plain []byte, id guid.Guid, q int, active int32) {
	vpRequires(data != nil && (active == 0 || active == 1) && q >= 0)
	ds, s := vpSubscriber()
	ds.Version = version
	ds.CompressSignalIndexCache = compress
	old := [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
	ds.signalIndexCache = old
	ds.cacheIndex = active
	calls, messages := 0, 0
	var got *SignalIndexCache
	ds.SubscriptionUpdatedCallback = func(c *SignalIndexCache) { calls++; got = c }
	ds.ErrorMessageCallback = func(string) { messages++ }
	vpUnzips, vpDecodes, vpConfirms, vpUnzipped, vpPlain, vpDecoded, vpDecodedTo = 0, 0, 0, nil, plain, nil, nil
	vpBadZip, vpBadCache, vpSubID = badZip, badCache, id

	ds.handleUpdateSignalIndexCache(data)

	payload, slot := data, 0
	if version > 1 && len(data) > 0 {
		payload = data[1:]
		if data[0] != 0 {
			slot = 1
		}
	}
	failed := version > 1 && len(data) == 0
	if vpConcrete() {
		if compress && !failed {
			var err error
			payload, err = decompressGZip(payload)
			failed = err != nil
		}
		want := NewSignalIndexCache()
		failed = failed || want.decode(NewDataSubscriber(), payload, &id) != nil
		vpSettle(func() bool { return calls+messages > 0 })
		vpConfirms = s.conn.writes
		if vpConfirms > 0 {
			vpConfirmCode, vpConfirmSize = ServerCommandEnum(s.conn.last[4]), len(s.conn.last)-5
		}
		vpDecodedTo = ds.signalIndexCache[slot]
		if !failed {
			vpEnsures("decoded from the data received", vpDecodedTo.Count() == want.Count())
			for k := range want.reference {
				vpEnsures("decoded from the data received", vpDecodedTo.SignalID(k) == want.SignalID(k))
			}
		}
	} else if !failed {
		if compress {
			vpEnsures("uncompressed once", vpUnzips == 1 && vpSame(vpUnzipped, payload, q))
			failed = badZip
			payload = plain
		} else {
			vpEnsures("not compressed", vpUnzips == 0)
		}
		if !failed {
			vpEnsures("decoded from the data received", vpDecodes == 1 && vpSame(vpDecoded, payload, q))
			failed = badCache
		}
	}

	if failed {
		vpEnsures("bad data changes nothing", ds.signalIndexCache == old && ds.cacheIndex == active)
		vpEnsures("bad data is not confirmed", vpConfirms == 0)
		vpEnsures("bad data is reported", messages == 1 && calls == 0)
		return
	}
	vpEnsures("new cache takes its place", ds.signalIndexCache[slot] == vpDecodedTo && vpDecodedTo != old[0] && vpDecodedTo != old[1])
	vpEnsures("other cache stays", ds.signalIndexCache[1-slot] == old[1-slot])
	vpEnsures("cache becomes active", ds.cacheIndex == int32(slot) && ds.ActiveSignalIndexCache() == vpDecodedTo)
	vpEnsures("subscriber ID", ds.SubscriberID() == id)
	if version > 1 {
		vpEnsures("confirmed", vpConfirms == 1 && vpConfirmCode == 0x0A && vpConfirmSize == 0)
	} else {
		vpEnsures("nothing to confirm", vpConfirms == 0)
	}
	vpEnsures("callback gets the new cache", calls == 1 && got == vpDecodedTo && messages == 0)
}

func vpSame(a, b []byte, q int) bool {
	return len(a) == len(b) && (q >= len(a) || vpAt(a, q) == vpAt(b, q))
}
