package transport

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

//verif:with common_ds.go

// T20: connections are made to the host and port asked for and start afresh.

var (
	vpCalls   int
	vpNetwork string
	vpAddress string
	vpSocket  net.Conn
	vpRefusal error
	vpPeer    net.Listener
)

func sum_dialed(network, address string) (net.Conn, error) {
	vpCalls++
	vpNetwork, vpAddress = network, address
	if vpRefusal != nil {
		return nil, vpRefusal
	}
	return vpSocket, nil
}

func sum_listened(network, address string) (net.Listener, error) {
	vpCalls++
	vpNetwork, vpAddress = network, address
	if vpRefusal != nil {
		return nil, vpRefusal
	}
	return vpPeer, nil
}

// As documented: brackets for an address with a colon.
func sum_join(host, port string) string {
	if strings.IndexByte(host, ':') >= 0 {
		return "[" + host + "]:" + port
	}
	return host + ":" + port
}

func sum_resolved(addr string) string { return addr }

// vpStale is a subscriber with remains of an earlier connection.
func vpStale(up, listening bool) *DataSubscriber {
	ds := NewDataSubscriber()
	ds.subscription.UdpDataChannel = true
	ds.totalCommandChannelBytesReceived = 1
	ds.totalDataChannelBytesReceived = 2
	ds.totalMeasurementsReceived = 3
	ds.bufferBlockExpectedSequenceNumber = 4
	ds.bufferBlockCache = []BufferBlock{{}}
	ds.keyIVs = [][][]byte{nil, nil}
	ds.subscribed.Set()
	ds.disconnected.Set()
	ds.connector.connectAttempt = 5
	if up {
		ds.connected.Set()
	}
	if listening {
		ds.listening.Set()
	}
	return ds
}

func vpAfresh(ds *DataSubscriber) {
	vpEnsures("counters start again", atomic.LoadUint64(&ds.totalCommandChannelBytesReceived) == 0 && ds.TotalDataChannelBytesReceived() == 0 &&
		ds.TotalMeasurementsReceived() == 0)
	vpEnsures("buffer blocks start again", ds.bufferBlockExpectedSequenceNumber == 0 && len(ds.bufferBlockCache) == 0)
	vpEnsures("no keys", ds.keyIVs == nil)
	vpEnsures("not subscribed", !ds.IsSubscribed())
	vpEnsures("ready to disconnect", ds.disconnected.IsNotSet())
}

// vpHears gives the first command received from a connection.
func vpHears(c net.Conn) byte {
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	var b [5]byte
	if _, err := io.ReadFull(c, b[:]); err != nil {
		return 0xFF
	}
	return b[4]
}

func gen_T20_connect(r *rand.Rand) (string, uint16, bool, bool, bool, bool) {
	return []string{"127.0.0.1", "::1", "localhost"}[r.Intn(3)], uint16(r.Intn(2)), r.Intn(4) == 0, r.Intn(4) == 0, r.Intn(2) == 0, false
}

// A connection is made to the host and port, with nothing left of an earlier
// one; operational modes are the first command, then it is reported.
//
//verif:lazygo
//verif:use net.Dial=sum_dialed
//verif:use net.JoinHostPort=sum_join
func contract_T20_connect(host string, port uint16, up, listening, again, fails bool) {
	ds := vpStale(up, listening)
	n := 0
	ds.ConnectionEstablishedCallback = func() {
		vpEnsures("connected when reported", ds.IsConnected())
		n++
	}
	conn := &vpConn{}
	vpCalls, vpSocket, vpRefusal = 0, conn, nil
	var heard chan byte
	if vpConcrete() {
		vpRequires(!fails && (host == "127.0.0.1" || host == "::1" || host == "localhost"))
		l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
		if err != nil {
			panic(vpSkip{})
		}
		defer l.Close()
		if port == 0 {
			// nobody answers
			l.Close()
			fails = true
		}
		port = uint16(l.Addr().(*net.TCPAddr).Port)
		heard = make(chan byte, 1)
		done := make(chan bool)
		defer close(done)
		go func() {
			c, err := l.Accept()
			if err == nil {
				heard <- vpHears(c)
				<-done
				c.Close()
			}
		}()
	} else if fails {
		vpRefusal = vpAny[error]()
		vpRequires(vpRefusal != nil)
	}
	err := ds.connect(host, port, again)
	if up || listening {
		vpEnsures("refused", err != nil)
		vpEnsures("nothing done", vpCalls == 0 && n == 0 && ds.IsConnected() == up && ds.IsListening() == listening && ds.IsSubscribed())
		return
	}
	vpEnsures("one attempt", vpConcrete() || vpCalls == 1 && vpNetwork == "tcp" && vpAddress == sum_join(host, strconv.Itoa(int(port))))
	vpEnsures("attempts counted from the first", again && ds.connector.connectAttempt == 5 || !again && ds.connector.connectAttempt == 0)
	if fails {
		vpEnsures("failure told", err != nil && !ds.IsConnected() && n == 0)
		return
	}
	vpEnsures("made", err == nil && ds.IsConnected())
	vpEnsures("reported once", n == 1)
	if err != nil {
		return
	}
	if vpConcrete() {
		vpEnsures("operational modes come first", <-heard == byte(ServerCommand.DefineOperationalModes))
		vpAfresh(ds)
		return
	}
	vpEnsures("operational modes come first", conn.writes == 1 && len(conn.last) > 4 && conn.last[4] == byte(ServerCommand.DefineOperationalModes))
	vpAfresh(ds)
}

func gen_T20_listen(r *rand.Rand) (string, uint16, bool, bool, bool) {
	return []string{"127.0.0.1", "::1", "localhost", ""}[r.Intn(4)], uint16(r.Intn(2)), r.Intn(4) == 0, r.Intn(4) == 0, false
}

// Listening is on the interface and port asked for.
//
//verif:lazygo
//verif:use net.Listen=sum_listened
//verif:use net.JoinHostPort=sum_join
func contract_T20_listen(host string, port uint16, up, listening, fails bool) {
	ds := vpStale(up, listening)
	vpCalls, vpRefusal = 0, nil
	if vpConcrete() {
		vpRequires(!fails && (host == "127.0.0.1" || host == "::1" || host == "localhost" || host == ""))
		l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
		if err != nil {
			panic(vpSkip{})
		}
		if port == 0 {
			// the port stays taken
			defer l.Close()
			fails = true
		} else {
			l.Close()
		}
		port = uint16(l.Addr().(*net.TCPAddr).Port)
	} else if fails {
		vpRefusal = vpAny[error]()
		vpRequires(vpRefusal != nil)
	}
	err := ds.Listen(port, host)
	if up || listening {
		vpEnsures("refused", err != nil)
		vpEnsures("nothing done", vpCalls == 0 && ds.IsConnected() == up && ds.IsListening() == listening)
		return
	}
	vpEnsures("one attempt", vpConcrete() || vpCalls == 1 && vpNetwork == "tcp" && vpAddress == sum_join(host, strconv.Itoa(int(port))))
	if vpConcrete() && !fails {
		if host == "" {
			host = "127.0.0.1"
		}
		c, err := net.Dial("tcp", net.JoinHostPort(host, strconv.Itoa(int(port))))
		vpEnsures("reached", err == nil && vpHears(c) == byte(ServerCommand.DefineOperationalModes))
		if err == nil {
			c.Close()
		}
		defer ds.Dispose()
	}
	vpEnsures("told", fails == (err != nil) && fails == !ds.IsListening())
}

// vpIncoming is a listening socket with one connection to give.
type vpIncoming struct {
	ds     *DataSubscriber
	conn   *vpIncomer
	fails  bool
	accept int
}

type vpIncomer struct {
	vpConn
	closed int
}

func (c *vpIncomer) Read(b []byte) (int, error) {
	time.Sleep(time.Hour)
	return 0, net.ErrClosed
}

func (c *vpIncomer) Close() error {
	c.closed++
	return nil
}

func (l *vpIncoming) Accept() (net.Conn, error) {
	l.accept++
	if l.accept > 1 || l.fails {
		l.ds.listening.UnSet()
		return nil, errors.New("closed")
	}
	return l.conn, nil
}

func (l *vpIncoming) Close() error   { return nil }
func (l *vpIncoming) Addr() net.Addr { return nil }

// A publisher that connects to a listening subscriber is taken like one
// connected to, unless there is one already; then it is turned away.
//
//verif:lazygo
//verif:use github.com/sttp/goapi/sttp/transport.resolveDNSName=sum_resolved
func contract_T20_accept(up, fails bool) {
	ds := vpStale(up, true)
	ds.disconnecting.UnSet()
	n := 0
	ds.ConnectionEstablishedCallback = func() {
		vpEnsures("connected when reported", ds.IsConnected())
		n++
	}
	old := &vpIncomer{}
	if up {
		ds.commandChannelSocket = old
	}
	l := &vpIncoming{ds: ds, conn: &vpIncomer{}, fails: fails}
	ds.listeningSocket = l
	ds.runListeningSocketAcceptThread()
	if fails {
		vpEnsures("nothing done", n == 0 && ds.IsConnected() == up && ds.IsSubscribed())
		return
	}
	vpEnsures("goes on listening", l.accept == 2)
	if up {
		vpEnsures("turned away", l.conn.closed == 1 && l.conn.writes == 0 && n == 0)
		vpEnsures("the first connection is kept", ds.IsConnected() && ds.commandChannelSocket == net.Conn(old) && old.closed == 0 && ds.IsSubscribed() &&
			ds.TotalMeasurementsReceived() == 3)
		return
	}
	vpEnsures("taken", ds.IsConnected() && ds.commandChannelSocket == net.Conn(l.conn) && l.conn.closed == 0)
	vpEnsures("reported once", n == 1)
	vpEnsures("operational modes come first", l.conn.writes == 1 && len(l.conn.last) > 4 && l.conn.last[4] == byte(ServerCommand.DefineOperationalModes))
	vpAfresh(ds)
}
