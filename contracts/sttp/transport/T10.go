package transport

import (
	"bufio"
	"io"
)

//verif:with common_ds.go

// T10: until the publisher has answered the operational modes with success or
// failure nothing else is accepted from it.

var vpHandled int

func sum_handleCommand(ds *DataSubscriber, c ServerCommandEnum, data []byte) { vpHandled = 1 }
func sum_handleData(ds *DataSubscriber, data []byte)                         { vpHandled = 2 }
func sum_handleConfig(ds *DataSubscriber)                                    { vpHandled = 2 }

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleSucceeded=sum_handleCommand
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleFailed=sum_handleCommand
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleDataPacket=sum_handleData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleDataStartTime=sum_handleData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleProcessingComplete=sum_handleData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleUpdateSignalIndexCache=sum_handleData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleUpdateBaseTimes=sum_handleData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleUpdateCipherKeys=sum_handleData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleConfigurationChanged=sum_handleConfig
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleBufferBlock=sum_handleData
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).handleNotification=sum_handleData
func contract_T10_gate(buf []byte, version byte, validated bool) {
	vpRequires(len(buf) >= 6)
	vpHandled = 0
	ds, s := vpSubscriber()
	ds.Version = version
	if !validated {
		ds.validated.UnSet()
	}
	code, cmd := buf[0], buf[1]
	ds.processServerResponse(buf)
	first := !validated && version >= 2
	ok := code == 0xFF || cmd == 0x06 && (code == 0x80 || code == 0x81)
	if first && !ok {
		vpSettle(func() bool { return s.terminated })
		vpEnsures("an unexpected first response ends the connection", s.terminated)
		vpEnsures("an unexpected first response does not validate", !ds.IsValidated())
		vpEnsures("an unexpected first response is not handled", vpHandled == 0)
		return
	}
	vpEnsures("accepted", ds.IsValidated())
	if first {
		vpSettle(func() bool { return s.terminated })
		vpEnsures("a valid first response keeps the connection", !s.terminated)
		vpEnsures("first response handled", vpHandled != 2)
	}
}

// A first packet that is announced larger than 8 KB is refused before it is read.
var vpRead int

func sum_readPacket(ds *DataSubscriber, n int, err error) { vpRead++ }

//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).readPacket=sum_readPacket
//verif:use io.ReadFull=sum_readFull
func contract_T10_initialSize(h [4]byte, version byte, validated bool) {
	ds, s := vpSubscriber()
	ds.Version = version
	if !validated {
		ds.validated.UnSet()
	}
	vpRead = 0
	if vpConcrete() {
		ds.reader = bufio.NewReader(s.conn)
	}
	copy(ds.readBuffer, h[:])
	size := uint32(h[0])<<24 | uint32(h[1])<<16 | uint32(h[2])<<8 | uint32(h[3])
	vpRequires(!vpConcrete() || size < 1<<22)
	before := cap(ds.readBuffer)
	vpWant = uint64(size)
	ds.readPayloadHeader(4, nil)
	if !validated && version >= 2 && size > 6+8192 {
		vpSettle(func() bool { return s.terminated })
		vpEnsures("oversized first packet ends the connection", s.terminated && !ds.IsValidated())
		vpEnsures("oversized first packet is not read", vpRead == 0 && cap(ds.readBuffer) == before)
		return
	}
	vpEnsures("packet is read", vpConcrete() || vpRead == 1 && !s.terminated)
	vpEnsures("room for the packet", uint64(cap(ds.readBuffer)) >= uint64(size))
	vpEnsures("old versions need no validation", ds.IsValidated() == (validated || version < 2))
	vpEnsures("bytes counted", vpConcrete() || ds.TotalCommandChannelBytesReceived() == 4)
}

var vpWant uint64

func sum_readFull(r io.Reader, buf []byte) (int, error) {
	vpEnsures("reads the announced size", uint64(len(buf)) == vpWant)
	return len(buf), nil
}

// Subscribing needs a connected and validated subscriber.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_sendNothing
func contract_T10_subscribe(version byte, connected, validated bool) {
	vpSent = 0
	ds, s := vpSubscriber()
	ds.Version = version
	if !connected {
		ds.connected.UnSet()
	}
	if !validated {
		ds.validated.UnSet()
	}
	err := ds.Subscribe()
	ready := connected && (validated || version < 2)
	vpEnsures("subscribe needs a validated connection", (err == nil) == ready)
	vpEnsures("request sent only when ready", vpSent+s.conn.writes == vpOne(ready))
}

var vpSent int

func sum_sendNothing(ds *DataSubscriber, c ServerCommandEnum, data []byte) { vpSent++ }

func vpOne(b bool) int {
	if b {
		return 1
	}
	return 0
}
