package transport

import (
	"crypto/cipher"
	"errors"
	"math/rand"
	"sync"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
)

//verif:with common_ds.go

// T09: no response of the publisher, of whatever content and length, crashes
// the subscriber. Each handler is checked for every payload; the dispatch
// harness covers the selection of the handler.

func sum_withData(ds *DataSubscriber, data []byte)                      { vpHandled++ }
func sum_withCode(ds *DataSubscriber, c ServerCommandEnum, data []byte) { vpHandled++ }
func sum_plain(ds *DataSubscriber)                                      { vpHandled++ }
func sum_send(ds *DataSubscriber, c ServerCommandEnum, data []byte)     { vpSent++ }
func sum_sicDecode(s *SignalIndexCache, ds *DataSubscriber, b []byte, id *guid.Guid) error {
	*id = vpAny[guid.Guid]()
	if vpAny[bool]() {
		return errors.New("bad")
	}
	return nil
}

func sum_unzip(data []byte) ([]byte, error) {
	if vpAny[bool]() {
		return nil, errors.New("bad")
	}
	return vpAny[[]byte](), nil
}

func sum_int(n int) string              { return vpAny[string]() }
func sum_float(f float64, n int) string { return vpAny[string]() }
func sum_poolGet(p *sync.Pool) any {
	if vpAny[bool]() {
		return nil
	}
	m := vpAny[[]Measurement]()
	return &m
}

var vpHandled, vpSent int

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleSucceeded=sum_withCode
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleFailed=sum_withCode
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleDataPacket=sum_withData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleDataStartTime=sum_withData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleProcessingComplete=sum_withData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleUpdateSignalIndexCache=sum_withData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleUpdateBaseTimes=sum_withData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleUpdateCipherKeys=sum_withData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleConfigurationChanged=sum_plain
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleBufferBlock=sum_withData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleNotification=sum_withData
func contract_T09_dispatch(buf []byte, version byte, validated bool) {
	vpHandled = 0
	ds, _ := vpSubscriber()
	ds.Version = version
	if !validated {
		ds.validated.UnSet()
	}
	if vpConcrete() {
		// a block far ahead takes too long
		vpRequires(len(buf) < 8 || ServerResponseEnum(buf[0]) != ServerResponse.BufferBlock || buf[6] == 0 && buf[7] == 0)
		ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
	}
	ds.processServerResponse(buf)
	vpEnsures("at most one handler", vpHandled <= 1)
}

//verif:syncgo
//verif:use github.com/sttp/goapi/sttp/transport.decompressGZip=sum_unzip
//verif:use github.com/sttp/goapi/sttp/format.Int=sum_int
//verif:use github.com/sttp/goapi/sttp/format.Float=sum_float
func contract_T09_succeeded(code byte, data []byte, compress, callback bool) {
	ds, _ := vpSubscriber()
	ds.CompressMetadata = compress
	if callback {
		ds.MetadataReceivedCallback = func([]byte) {}
	}
	ds.handleSucceeded(ServerCommandEnum(code), data)
	if code == 0x02 || code == 0x03 {
		vpEnsures("subscription state follows the answer", ds.IsSubscribed() == (code == 0x02))
	}
}

//verif:syncgo
func contract_T09_failed(code byte, data []byte) {
	ds, _ := vpSubscriber()
	ds.handleFailed(ServerCommandEnum(code), data)
	vpEnsures("refusal is noted", ds.connector.connectionRefused.IsSet() == (code == 0x00 || code == 0x06))
}

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_send
func contract_T09_messages(data []byte, version byte, callbacks bool) {
	ds, s := vpSubscriber()
	ds.Version = version
	if callbacks {
		ds.ProcessingCompleteCallback = func(string) {}
		ds.NotificationReceivedCallback = func(string) {}
		ds.ConfigurationChangedCallback = func() {}
		ds.DataStartTimeCallback = func(ticks.Ticks) {}
	}
	ds.handleProcessingComplete(data)
	ds.handleNotification(data)
	ds.handleConfigurationChanged()
	ds.handleDataStartTime(data)
	ds.handleUpdateBaseTimes(data)
	vpEnsures("connection is kept", !s.terminated)
}

func contract_T09_cipherKeys(data []byte) {
	ds, _ := vpSubscriber()
	ds.handleUpdateCipherKeys(data)
	vpEnsures("keys come complete", ds.keyIVs == nil || len(ds.keyIVs) == 2 && len(ds.keyIVs[0]) == 2 && len(ds.keyIVs[1]) == 2)
}

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_send
//verif:use github.com/sttp/goapi/sttp/transport.decompressGZip=sum_unzip
//verif:use (*github.com/sttp/goapi/sttp/transport.SignalIndexCache).decode=sum_sicDecode
func contract_T09_signalIndexCache(data []byte, version byte, compress, callback bool) {
	ds, _ := vpSubscriber()
	ds.Version = version
	ds.CompressSignalIndexCache = compress
	if callback {
		ds.SubscriptionUpdatedCallback = func(*SignalIndexCache) {}
	}
	ds.handleUpdateSignalIndexCache(data)
	vpEnsures("caches stay present", ds.signalIndexCache[0] != nil && ds.signalIndexCache[1] != nil)
}

func sum_addRecord(s *SignalIndexCache, ds *DataSubscriber, i int32, id guid.Guid, source string, n uint64, c uint32) {
}

//verif:use (*github.com/sttp/goapi/sttp/transport.SignalIndexCache).addRecord=sum_addRecord
func contract_T09_records(data []byte, swap bool) {
	ds, _ := vpSubscriber()
	ds.SwapGuidEndianness = swap
	var id guid.Guid
	vpInvariant(func(o uint32) bool { return int(o) <= len(data) })
	NewSignalIndexCache().decode(ds, data, &id)
}

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_send
func contract_T09_bufferBlock(data []byte, version byte, expected uint32, callback bool) {
	vpRequires(!vpConcrete() || len(data) < 4 || data[0] == 0 && data[1] == 0 && expected < 1<<16)
	ds, _ := vpSubscriber()
	ds.Version = version
	ds.bufferBlockExpectedSequenceNumber = expected
	ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
	if callback {
		ds.NewBufferBlocksCallback = func([]BufferBlock) {}
	}
	vpInvariant(func(i int) bool { return i == len(ds.bufferBlockCache) })
	before := expected
	ds.handleBufferBlock(data)
	vpEnsures("sequence goes forward", ds.bufferBlockExpectedSequenceNumber-before <= 1)
}

// The decoders reached from a data packet.
func sum_parse(ds *DataSubscriber, c *SignalIndexCache, data []byte, room []Measurement) int {
	vpEnsures("a signal index cache is present", c != nil)
	n := vpAny[int]()
	vpRequires(0 <= n && n <= len(room))
	return n
}

func sum_decipher(key, iv, data []byte) ([]byte, error) {
	if vpAny[bool]() {
		return nil, errors.New("bad")
	}
	return vpAny[[]byte](), nil
}

func gen_T09_dataPacket(r *rand.Rand) ([]byte, []Measurement, bool, bool) {
	data := make([]byte, r.Intn(30))
	r.Read(data)
	for i := 1; i < 5 && i < len(data); i++ {
		data[i] = 0
	}
	if len(data) > 4 {
		data[4] = byte(r.Intn(4))
	}
	return data, make([]Measurement, r.Intn(4)), r.Intn(2) == 0, r.Intn(2) == 0
}

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).parseTSSCMeasurements=sum_parse
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).parseCompactMeasurements=sum_parse
//verif:use github.com/sttp/goapi/sttp/transport.decipherAES=sum_decipher
//verif:use (*sync.Pool).Get=sum_poolGet
func contract_T09_dataPacket(data []byte, pool []Measurement, keys, callback bool) {
	vpRequires(!vpConcrete() || len(data) < 5 || data[1] == 0)
	ds, _ := vpSubscriber()
	ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
	if keys {
		ds.keyIVs = [][][]byte{{{}, {}}, {{}, {}}}
	}
	if callback {
		ds.NewMeasurementsCallback = func(*[]Measurement) {}
	}
	ds.handleDataPacket(data)
}

// The cipher library panics on vectors and data of the wrong length.
type vpBlock struct{}

func (vpBlock) BlockSize() int          { return 16 }
func (vpBlock) Encrypt(dst, src []byte) {}
func (vpBlock) Decrypt(dst, src []byte) {}

type vpMode struct{}

func (vpMode) BlockSize() int { return 16 }
func (vpMode) CryptBlocks(dst, src []byte) {
	vpEnsures("whole blocks", len(src)%16 == 0 && len(dst) >= len(src))
}

func sum_newCipher(key []byte) (cipher.Block, error) {
	if len(key) != 16 && len(key) != 24 && len(key) != 32 {
		return nil, errors.New("bad key")
	}
	return vpBlock{}, nil
}

func sum_newCBC(b cipher.Block, iv []byte) cipher.BlockMode {
	vpEnsures("vector of one block", len(iv) == 16)
	return vpMode{}
}

func gen_T09_decipher(r *rand.Rand) ([]byte, []byte, []byte) {
	n := []int{0, 8, 16, 24, 32}
	return make([]byte, n[r.Intn(5)]), make([]byte, n[r.Intn(5)]), make([]byte, r.Intn(40))
}

//verif:use crypto/aes.NewCipher=sum_newCipher
//verif:use crypto/cipher.NewCBCDecrypter=sum_newCBC
func contract_T09_decipher(key, iv, data []byte) {
	out, err := decipherAES(key, iv, data)
	good := (len(key) == 16 || len(key) == 24 || len(key) == 32) && len(iv) == 16 && len(data)%16 == 0
	vpEnsures("deciphered exactly when key, vector and data fit", (err == nil) == good)
	vpEnsures("same length", !good || len(out) == len(data))
}

func gen_T09_compact(r *rand.Rand) ([]byte, []Measurement, bool, bool, bool, [2]int64) {
	data := make([]byte, r.Intn(60))
	r.Read(data)
	return data, make([]Measurement, r.Intn(5)), r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, [2]int64{r.Int63(), r.Int63()}
}

//verif:syncgo
func contract_T09_compact(data []byte, room []Measurement, includeTime, ms, empty bool, base [2]int64) {
	ds, _ := vpSubscriber()
	ds.subscription.IncludeTime, ds.subscription.UseMillisecondResolution = includeTime, ms
	ds.baseTimeOffsets = base
	c := NewSignalIndexCache()
	if !empty {
		id := guid.Guid{1}
		c.reference[7] = 0
		c.signalIDList = []guid.Guid{id}
		c.signalIDCache[id] = 7
	}
	vpInvariant(func(i int) bool { return 0 <= i && i <= len(data) })
	vpInvariant(func(i, at int) bool { return 9*i <= at && i < 1<<31 })
	n := ds.parseCompactMeasurements(c, data, room)
	vpEnsures("no more than announced", 0 <= n && n <= len(room))
	vpEnsures("every measurement has its bytes", n <= len(data)/9)
}
