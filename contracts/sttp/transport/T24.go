package transport

import (
	"bufio"
	"io"
	"math/rand"
	"time"

	"github.com/sttp/goapi/sttp/thread"
	"github.com/sttp/goapi/sttp/ticks"
)

//verif:with common_ds.go

// T24: what arrives is split into packets, each processed once, whole and in
// order, and is counted. Unsubscribing meanwhile changes none of this.

// vpFeed is a socket that gives the bytes of a stream, or the parts of one in
// which the sizes are announced ahead as datagrams.
type vpFeed struct {
	vpConn
	stream  []byte
	pos     int
	chunk   int
	grams   bool
	closing func()
	closed  int
}

func (c *vpFeed) Close() error {
	c.closed++
	if c.closing != nil {
		c.closing()
	}
	return nil
}

// left is how much of the stream is still to come.
func (c *vpFeed) left() int { return len(c.stream) - c.pos }

// size is the size announced at the current position.
func (c *vpFeed) size() uint32 { return at32(c.stream, c.pos) }

func at32(b []byte, i int) uint32 {
	return uint32(vpAt(b, i))<<24 | uint32(vpAt(b, i+1))<<16 | uint32(vpAt(b, i+2))<<8 | uint32(vpAt(b, i+3))
}

func (c *vpFeed) Read(b []byte) (int, error) {
	if c.grams {
		if c.left() < 4 || uint64(c.left()-4) < uint64(c.size()) {
			return 0, io.EOF
		}
		n := int(c.size())
		vpRequires(n <= len(b))
		copy(b[:n], c.stream[c.pos+4:c.pos+4+n])
		c.pos += 4 + n
		return n, nil
	}
	n := c.left()
	if n == 0 {
		return 0, io.EOF
	}
	if n > len(b) {
		n = len(b)
	}
	if n > c.chunk && c.chunk > 0 {
		n = c.chunk
	}
	copy(b[:n], c.stream[c.pos:])
	c.pos += n
	return n, nil
}

var vpIn *vpFeed

func sum_newReader(r io.Reader) *bufio.Reader { return nil }

func sum_readSome(r *bufio.Reader, b []byte) (int, error) { return vpIn.Read(b) }

func sum_readFull(r io.Reader, buf []byte) (int, error) {
	n := vpIn.left()
	if n >= len(buf) {
		copy(buf, vpIn.stream[vpIn.pos:vpIn.pos+len(buf)])
		vpIn.pos += len(buf)
		return len(buf), nil
	}
	copy(buf, vpIn.stream[vpIn.pos:])
	vpIn.pos = len(vpIn.stream)
	if n == 0 {
		return 0, io.EOF
	}
	return n, io.ErrUnexpectedEOF
}

// vpNext is where the packet expected next starts in the stream, vpPlace any
// position in it, and vpDone how many packets were processed.
var vpNext, vpPlace, vpDone int

// What is processed is the next packet of the stream.
func sum_process(ds *DataSubscriber, buffer []byte) {
	in := vpIn
	size := at32(in.stream, vpNext)
	vpEnsures("whole packet", uint64(len(buffer)) == uint64(size))
	if vpPlace < len(buffer) {
		vpEnsures("as received", vpAt(buffer, vpPlace) == vpAt(in.stream, vpNext+4+vpPlace))
	}
	vpNext += 4 + len(buffer)
	vpDone++
}

// vpTimes are start times told in a replay, one for each packet.
type vpTimes struct{ told []ticks.Ticks }

func (c *vpFeed) listens(ds *DataSubscriber) *vpTimes {
	t := &vpTimes{}
	ds.DataStartTimeCallback = func(time ticks.Ticks) { t.told = append(t.told, time) }
	return t
}

// vpStarts are the packets of a stream that are complete, as start times.
func (c *vpFeed) starts() (want []ticks.Ticks, end int) {
	s := c.stream
	for end+4 <= len(s) {
		n := int(at32(s, end))
		if n > len(s)-end-4 {
			break
		}
		p := s[end+4 : end+4+n]
		vpRequires(len(p) >= 14 && ServerResponseEnum(p[0]) == ServerResponse.DataStartTime)
		var v ticks.Ticks
		for _, b := range p[6:14] {
			v = v<<8 | ticks.Ticks(b)
		}
		want = append(want, v)
		end += 4 + n
	}
	return
}

func vpSame(a, b []ticks.Ticks) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vpStream(r *rand.Rand) []byte {
	var s []byte
	for i := r.Intn(4); i > 0; i-- {
		n := 14 + r.Intn(3)*r.Intn(40)
		if r.Intn(5) == 0 {
			n += r.Intn(20000)
		}
		p := make([]byte, n)
		p[0] = byte(ServerResponse.DataStartTime)
		p[13], p[12] = byte(r.Intn(256)), byte(r.Intn(256))
		s = append(s, 0, 0, byte(n>>8), byte(n))
		s = append(s, p...)
	}
	if r.Intn(2) == 0 && len(s) > 0 {
		s = s[:len(s)-r.Intn(len(s))]
	}
	return s
}

func gen_T24_command(r *rand.Rand) ([]byte, int, int, uint64) {
	return vpStream(r), r.Intn(20), r.Intn(3) * 7, uint64(r.Intn(3))
}

// The stream of the command channel, however its bytes arrive.
//
//verif:syncgo
//verif:use io.ReadFull=sum_readFull
//verif:use bufio.NewReader=sum_newReader
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).processServerResponse=sum_process
func contract_T24_command(stream []byte, place, chunk int, before uint64) {
	vpRequires(place >= 0 && chunk >= 0)
	ds := NewDataSubscriber()
	in := &vpFeed{stream: stream, chunk: chunk}
	over := 0
	ds.connectionTerminationThread = thread.NewThread(func() {
		over++
		ds.connected.UnSet()
	})
	ds.commandChannelSocket = in
	ds.connected.Set()
	ds.validated.Set()
	ds.totalCommandChannelBytesReceived = before
	vpIn, vpNext, vpPlace, vpDone = in, 0, place, 0
	if vpConcrete() {
		want, end := in.starts()
		t := in.listens(ds)
		ds.runCommandChannelResponseThread()
		vpSettle(func() bool { return over > 0 })
		vpEnsures("each packet once, in order", vpSame(t.told, want))
		if len(stream)-end >= 4 {
			end += 4
		}
		vpEnsures("bytes counted", ds.TotalCommandChannelBytesReceived() == before+uint64(end))
		vpEnsures("the end of the stream ends the connection", over > 0)
		return
	}
	vpInvariant(func() bool { return in.pos >= 0 && in.pos <= len(stream) })
	vpInvariant(func() bool { return ds.connected.IsNotSet() || in.pos == vpNext && over == 0 })
	vpInvariant(func() bool { return ds.connected.IsSet() || over == 1 && in.pos == len(stream) })
	vpInvariant(func() bool { return vpNext >= 0 && vpNext <= len(stream) })
	vpInvariant(func() bool {
		return ds.connected.IsNotSet() || ds.totalCommandChannelBytesReceived == before+uint64(vpNext)
	})
	vpInvariant(func() bool {
		return ds.connected.IsSet() || ds.totalCommandChannelBytesReceived == before+uint64(vpNext)+4*uint64(vpOne(len(stream)-vpNext >= 4))
	})
	vpInvariant(func() bool {
		return ds.connected.IsSet() || len(stream)-vpNext < 4 || uint64(len(stream)-vpNext-4) < uint64(at32(stream, vpNext))
	})
	vpInvariant(func() bool { return cap(ds.readBuffer) >= 4 && len(ds.readBuffer) >= 4 })

	ds.runCommandChannelResponseThread()

	vpEnsures("the end of the stream ends the connection", over == 1)
	vpEnsures("every whole packet", len(stream)-vpNext < 4 || uint64(len(stream)-vpNext-4) < uint64(at32(stream, vpNext)))
	vpEnsures("bytes counted", ds.TotalCommandChannelBytesReceived() == before+uint64(vpNext)+4*uint64(vpOne(len(stream)-vpNext >= 4)))
}

func vpOne(b bool) int {
	if b {
		return 1
	}
	return 0
}

func gen_T24_data(r *rand.Rand) ([]byte, int, uint64, uint64, bool, bool) {
	return vpStream(r), r.Intn(20), uint64(r.Intn(3)), uint64(r.Intn(3)), r.Intn(2) == 0, r.Intn(5) > 0
}

// The datagrams of the data channel.
//
//verif:syncgo
//verif:use (*bufio.Reader).Read=sum_readSome
//verif:use bufio.NewReader=sum_newReader
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).processServerResponse=sum_process
func contract_T24_data(stream []byte, place int, before, command uint64, udp, up bool) {
	vpRequires(place >= 0)
	ds, s := vpSubscriber()
	if !up {
		ds.connected.UnSet()
	}
	in := &vpFeed{stream: stream, grams: true}
	ds.dataChannelSocket = in
	ds.validated.Set()
	ds.subscription.UdpDataChannel = udp
	ds.totalCommandChannelBytesReceived = command
	ds.totalDataChannelBytesReceived = before
	vpIn, vpNext, vpPlace, vpDone = in, 0, place, 0
	got := before
	if vpConcrete() {
		want, end := in.starts()
		if !up {
			want, end = nil, 0
		}
		t := in.listens(ds)
		ds.runDataChannelResponseThread()
		vpEnsures("each datagram once, in order", vpSame(t.told, want))
		got += uint64(end - 4*len(want))
	} else {
		vpInvariant(func() bool { return up || vpDone == 0 })
		vpInvariant(func() bool {
			return in.pos == vpNext && in.pos >= 0 && in.pos <= len(stream) && vpDone >= 0 && vpDone <= in.pos
		})
		vpInvariant(func() bool { return ds.totalDataChannelBytesReceived == before+uint64(in.pos)-4*uint64(vpDone) })
		ds.runDataChannelResponseThread()
		vpEnsures("every datagram", !up && vpDone == 0 || in.left() < 4 || uint64(in.left()-4) < uint64(in.size()))
		got += uint64(vpNext) - 4*uint64(vpDone)
	}
	vpEnsures("the connection is kept", !s.terminated && ds.IsConnected() == up)
	vpEnsures("command channel bytes", ds.TotalCommandChannelBytesReceived() == command)
	if !udp {
		got = command
	}
	vpEnsures("data channel bytes", ds.TotalDataChannelBytesReceived() == got)
}

// Waiting for a thread runs it; W01 is about threads.
func sum_joined(th *thread.Thread) {
	if th.IsRunning() {
		vpSched()
		vpEnsures("waiting ends", !th.IsRunning())
	}
}

func gen_T24_unsubscribe(r *rand.Rand) ([]byte, int, bool, bool, bool) {
	return vpStream(r), r.Intn(20), r.Intn(4) > 0, r.Intn(4) > 0, r.Intn(4) > 0
}

// A packet that arrives while unsubscribing.
//
//verif:lazygo
//verif:use (*github.com/sttp/goapi/sttp/thread.Thread).Join=sum_joined
//verif:use io.ReadFull=sum_readFull
//verif:use bufio.NewReader=sum_newReader
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).processServerResponse=sum_process
func contract_T24_unsubscribe(stream []byte, place int, connected, validated, udp bool) {
	vpRequires(place >= 0)
	ds, s := vpSubscriber()
	if !connected {
		ds.connected.UnSet()
	}
	if !validated {
		ds.validated.UnSet()
	}
	in, socket := &vpFeed{stream: stream}, &vpFeed{}
	vpIn, vpNext, vpPlace, vpDone = in, 0, place, 0
	whole := in.left() >= 4 && uint64(in.left()-4) >= uint64(in.size())
	vpRequires(whole)
	var t *vpTimes
	if vpConcrete() {
		in.starts()
		t = in.listens(ds)
		ds.reader = bufio.NewReader(in)
	}
	ended, waited := false, false
	socket.closing = func() {
		ds.readPayloadHeader(io.ReadFull(ds.reader, ds.readBuffer[:4]))
		ended = true
	}
	if udp {
		ds.dataChannelSocket = socket
		ds.dataChannelResponseThread = thread.NewThread(func() {
			for i := 0; i < 1000 && !ended && vpConcrete(); i++ {
				time.Sleep(time.Millisecond)
			}
			waited = true
		})
		ds.dataChannelResponseThread.Start()
	}
	ds.Unsubscribe()
	if !connected || !validated {
		vpEnsures("nothing to unsubscribe", s.conn.writes == 0 && socket.closed == 0)
		return
	}
	vpEnsures("asked once", s.conn.writes == 1 && len(s.conn.last) == 5 && s.conn.last[4] == 0x03)
	vpEnsures("still connected", ds.IsConnected() && ds.IsValidated() && !s.terminated)
	vpEnsures("data channel closed", socket.closed == vpOne(udp))
	if udp {
		if vpConcrete() {
			vpDone += len(t.told)
		}
		vpEnsures("packet processed", vpDone == 1)
		vpEnsures("waits for the data channel", waited)
	}
}
