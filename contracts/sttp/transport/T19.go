package transport

import (
	"bytes"
	"compress/gzip"
	"errors"
	"math/rand"
)

//verif:with common_ds.go

// T19: answers and notices of the publisher reach the right callback with the
// content received. Uncompressing is a stand-in that may fail.

var (
	vpUnzipped, vpPlain []byte
	vpUnzips            int
	vpBadZip            bool
	vpConfirms          int
	vpConfirmCode       ServerCommandEnum
	vpConfirmData       []byte
)

func sum_unzip(data []byte) ([]byte, error) {
	vpUnzips++
	vpUnzipped = data
	if vpBadZip {
		return nil, errors.New("bad data")
	}
	return vpPlain, nil
}

func sum_int(v int) string { return "n" }

func sum_float(v float64, n int) string { return "x" }

func sum_confirm(ds *DataSubscriber, c ServerCommandEnum, data []byte) {
	vpConfirms++
	vpConfirmCode, vpConfirmData = c, data
}

// vpHeard is what the callbacks of a subscriber were told.
type vpHeard struct {
	status, errors      int
	lastStatus, lastErr string
	metadata            int
	bytes               []byte
	complete, notices   int
	text                string
	changed             int
}

func (h *vpHeard) listen(ds *DataSubscriber) {
	ds.StatusMessageCallback = func(m string) { h.status++; h.lastStatus = m }
	ds.ErrorMessageCallback = func(m string) { h.errors++; h.lastErr = m }
	ds.MetadataReceivedCallback = func(b []byte) { h.metadata++; h.bytes = b }
	ds.ProcessingCompleteCallback = func(m string) { h.complete++; h.text = m }
	ds.NotificationReceivedCallback = func(m string) { h.notices++; h.text = m }
	ds.ConfigurationChangedCallback = func() { h.changed++ }
}

func (h *vpHeard) others() int { return h.metadata + h.complete + h.notices + h.changed }

func withText(m string, data []byte) string {
	if len(data) > 0 {
		return m + "\n" + string(data)
	}
	return m
}

func gen_T19_succeeded(r *rand.Rand) (byte, []byte, bool) {
	return byte(r.Intn(15)), []byte("accepted")[:r.Intn(9)], r.Intn(2) == 0
}

// An answer to a command is passed on as a status message; a subscription is
// active after the answer to a subscribe and until the one to an unsubscribe.
//
//verif:syncgo
//verif:use github.com/sttp/goapi/sttp/transport.decompressGZip=sum_unzip
//verif:use github.com/sttp/goapi/sttp/format.Int=sum_int
//verif:use github.com/sttp/goapi/sttp/format.Float=sum_float
func contract_T19_succeeded(code byte, data []byte, subscribed bool) {
	vpRequires(code != 0x01)
	ds, _ := vpSubscriber()
	ds.subscribed.SetTo(subscribed)
	h := &vpHeard{}
	h.listen(ds)
	ds.handleSucceeded(ServerCommandEnum(code), data)
	vpSettle(func() bool { return h.status+h.errors > 0 })
	want := subscribed
	switch code {
	case 0x02:
		want = true
	case 0x03:
		want = false
	}
	vpEnsures("subscription follows the answers", ds.IsSubscribed() == want)
	vpEnsures("no other callback", h.others() == 0)
	switch code {
	case 0x02, 0x03, 0x04, 0x05, 0x06:
		vpEnsures("status message", h.status == 1 && h.errors == 0 &&
			h.lastStatus == withText("Received success code in response to server command: "+ServerCommandEnum(code).String(), data))
	default:
		vpEnsures("unknown command is an error", h.status == 0 && h.errors == 1)
	}
}

func gen_T19_failed(r *rand.Rand) (byte, []byte, bool) {
	return byte(r.Intn(15)), []byte("refused")[:r.Intn(8)], r.Intn(2) == 0
}

// A failure is passed on as an error message with the text of the publisher.
//
//verif:syncgo
func contract_T19_failed(code byte, data []byte, subscribed bool) {
	// The cases are kept apart so that the text is put together the same way.
	switch {
	case code == 0x00 || code == 0x06:
		failed(code, data, subscribed)
	case len(data) > 0:
		failed(code, data, subscribed)
	default:
		failed(code, nil, subscribed)
	}
}

func failed(code byte, data []byte, subscribed bool) {
	ds, _ := vpSubscriber()
	ds.subscribed.SetTo(subscribed)
	h := &vpHeard{}
	h.listen(ds)
	ds.handleFailed(ServerCommandEnum(code), data)
	refused := code == 0x00 || code == 0x06
	quiet := refused && len(data) == 0
	vpSettle(func() bool { return quiet || h.errors > 0 })
	vpEnsures("refused connection", ds.connector.connectionRefused.IsSet() == refused)
	vpEnsures("subscription unchanged", ds.IsSubscribed() == subscribed)
	vpEnsures("no other callback", h.others() == 0 && h.status == 0)
	switch {
	case quiet:
		vpEnsures("nothing to tell", h.errors == 0)
	case refused:
		vpEnsures("message of the publisher", h.errors == 1 && h.lastErr == string(data))
	default:
		vpEnsures("error message", h.errors == 1 &&
			h.lastErr == withText("Received failure code in response to server command: "+ServerCommandEnum(code).String(), data))
	}
}

func gen_T19_metadata(r *rand.Rand) ([]byte, bool, bool, bool, []byte, int) {
	b := make([]byte, r.Intn(9))
	r.Read(b)
	compress := r.Intn(2) == 0
	if compress && r.Intn(3) > 0 {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(b)
		w.Close()
		b = z.Bytes()
	}
	return b, compress, false, true, nil, r.Intn(9)
}

// Metadata is handed over uncompressed and stays as received when the next
// packet is read.
//
//verif:syncgo
//verif:use github.com/sttp/goapi/sttp/transport.decompressGZip=sum_unzip
//verif:use github.com/sttp/goapi/sttp/format.Int=sum_int
//verif:use github.com/sttp/goapi/sttp/format.Float=sum_float
func contract_T19_metadata(data []byte, compress, badZip, callback bool, plain []byte, q int) {
	vpRequires(q >= 0)
	ds, _ := vpSubscriber()
	ds.CompressMetadata = compress
	h := &vpHeard{}
	h.listen(ds)
	if !callback {
		ds.MetadataReceivedCallback = nil
	}
	vpUnzips, vpPlain, vpBadZip = 0, plain, badZip
	want, failed := data, false
	if vpConcrete() {
		want = append([]byte{}, data...)
		if compress {
			var err error
			want, err = decompressGZip(data)
			failed = err != nil
		}
	}
	var was byte
	if q < len(data) {
		was = data[q]
	}
	ds.handleSucceeded(0x01, data)
	vpSettle(func() bool { return !callback || h.errors+h.metadata > 0 })
	if !vpConcrete() && compress && callback {
		vpEnsures("uncompressed once", vpUnzips == 1 && len(vpUnzipped) == len(data) && (q >= len(data) || vpAt(vpUnzipped, q) == was))
		failed, want = badZip, plain
	}
	if !callback {
		vpEnsures("nobody to tell", h.others() == 0)
		return
	}
	if failed {
		vpEnsures("bad data is an error", h.errors == 1 && h.others() == 0)
		return
	}
	vpEnsures("metadata handed over", h.metadata == 1 && h.others() == 1 && h.errors == 0 && len(h.bytes) == len(want))
	if q < len(want) {
		if compress || vpConcrete() {
			was = want[q]
		}
		vpEnsures("metadata content", h.bytes[q] == was)
		if q < len(data) {
			data[q] ^= 255
		}
		vpEnsures("metadata does not change with the next packet", h.bytes[q] == was)
	}
}

func gen_T19_notices(r *rand.Rand) (byte, []byte, byte) {
	b := make([]byte, r.Intn(9))
	r.Read(b)
	return byte(r.Intn(3)), b, byte(1 + r.Intn(2))
}

// Notices are passed on with their text; a notification is confirmed with its
// hash.
//
//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_confirm
func contract_T19_notices(which byte, data []byte, version byte) {
	vpRequires(which < 3)
	ds, s := vpSubscriber()
	ds.Version = version
	h := &vpHeard{}
	h.listen(ds)
	vpConfirms = 0
	response := []byte{0x87, 0x89, 0x8A}[which]
	var buf []byte
	if vpConcrete() {
		buf = append([]byte{response, 0, 0, 0, 0, 0}, data...)
	}
	switch {
	case vpConcrete():
		ds.processServerResponse(buf)
	case which == 0:
		ds.handleProcessingComplete(data)
	case which == 1:
		ds.handleNotification(data)
	default:
		ds.handleConfigurationChanged()
	}
	vpSettle(func() bool { return h.others()+h.errors > 0 })
	if vpConcrete() && s.conn.writes > 0 {
		vpConfirms, vpConfirmCode, vpConfirmData = s.conn.writes, ServerCommandEnum(s.conn.last[4]), s.conn.last[5:]
	}
	switch which {
	case 0:
		vpEnsures("processing complete", h.complete == 1 && h.others() == 1 && h.text == string(data) && vpConfirms == 0)
	case 1:
		if len(data) < 4 {
			vpEnsures("short notification", h.others() == 0 && h.errors == 1 && vpConfirms == 0)
			return
		}
		vpEnsures("notification", h.notices == 1 && h.others() == 1 && h.text == string(data[4:]))
		vpEnsures("confirmed with its hash", vpConfirms == 1 && vpConfirmCode == 0x07 && len(vpConfirmData) == 4 &&
			vpConfirmData[0] == data[0] && vpConfirmData[1] == data[1] && vpConfirmData[2] == data[2] && vpConfirmData[3] == data[3])
	default:
		vpEnsures("configuration changed", h.changed == 1 && h.others() == 1 && vpConfirms == 0)
	}
}

// Each response is handled as what it is.
//
//verif:syncgo
func contract_T19_responses(which int, subscribed bool, a, b byte) {
	vpRequires(which >= 0 && which < 8)
	ds, s := vpSubscriber()
	ds.validated.Set()
	ds.subscribed.SetTo(subscribed)
	h := &vpHeard{}
	h.listen(ds)
	packet := [][]byte{
		{0x80, 0x02, 0, 0, 0, 0},
		{0x80, 0x03, 0, 0, 0, 0},
		{0x81, 0x06, 0, 0, 0, 0},
		{0x81, 0x02, 0, 0, 0, 0},
		{0x84, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, a, 0, 0, 0, 0, 0, 0, 0, b},
		{0x85, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, a, 0, 0, 0, 1, b, 0, 0, 0, 0, 0, 0, 0, 0},
		{0xFF, a, 0, 0, 0, 0},
		{0x8B, a, 0, 0, 0, 0},
	}
	for i := range packet {
		if i == which {
			ds.processServerResponse(packet[i])
		}
	}
	quiet := which == 2 || which == 5 || which == 6
	vpSettle(func() bool { return quiet || h.status+h.errors > 0 })
	vpEnsures("subscribed", ds.IsSubscribed() == (which == 0 || which != 1 && subscribed))
	vpEnsures("refused", ds.connector.connectionRefused.IsSet() == (which == 2))
	vpEnsures("failure and unknown responses are errors", (h.errors > 0) == (which == 3 || which == 7))
	if which == 4 {
		vpEnsures("base times", ds.timeIndex == 1 && ds.baseTimeOffsets == [2]int64{int64(a), int64(b)})
	} else {
		vpEnsures("base times stay", ds.timeIndex == 0 && ds.baseTimeOffsets == [2]int64{})
	}
	if which == 5 {
		vpEnsures("cipher keys", len(ds.keyIVs) == 2 && len(ds.keyIVs[0][0]) == 1 && ds.keyIVs[0][0][0] == a && len(ds.keyIVs[0][1]) == 1 && ds.keyIVs[0][1][0] == b)
	} else {
		vpEnsures("no cipher keys", ds.keyIVs == nil)
	}
	vpEnsures("nothing else", h.others() == 0 && s.conn.writes == 0 && !s.terminated)
}
