package transport

import (
	"net"
	"time"

	"github.com/sttp/goapi/sttp/thread"
)

//verif:with common_ds.go

// T21: a connection ends as a whole, is reported once and, when lost, is made
// again.

// vpEnding is a socket that counts how often it is closed.
type vpEnding struct {
	vpConn
	closed int
	hold   chan bool
}

func (c *vpEnding) Close() error {
	if c.hold != nil {
		<-c.hold
	}
	c.closed++
	return nil
}

type vpDoor struct{ closed int }

func (l *vpDoor) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l *vpDoor) Addr() net.Addr            { return nil }
func (l *vpDoor) Close() error {
	l.closed++
	return nil
}

// Waiting for a thread runs it; W01 is about threads.
func sum_joined(th *thread.Thread) {
	if th.IsRunning() {
		vpSched()
		vpEnsures("waiting ends", !th.IsRunning())
	}
}

// vpEndpoint is a subscribed subscriber with sockets that are watched.
type vpEndpoint struct {
	ds                *DataSubscriber
	conn              *vpEnding
	door              *vpDoor
	reported, retried int
}

func vpEndpoints(up, listening bool) *vpEndpoint {
	e := &vpEndpoint{ds: NewDataSubscriber(), door: &vpDoor{}, conn: &vpEnding{}}
	ds := e.ds
	if up {
		ds.connected.Set()
		ds.commandChannelSocket = e.conn
		ds.subscribed.Set()
	}
	if listening {
		ds.listening.Set()
		ds.listeningSocket = e.door
	}
	ds.ConnectionTerminatedCallback = func() {
		vpEnsures("closed before it is reported", e.conn.closed == 1 || !up)
		vpEnsures("not connected when reported", !ds.IsConnected())
		e.reported++
	}
	ds.AutoReconnectCallback = func() {
		vpEnsures("made again after it was reported", e.reported == 1)
		vpEnsures("made again after it has ended", ds.disconnecting.IsNotSet() && ds.disconnected.IsSet())
		e.retried++
	}
	return e
}

// vpEnded checks what is left after the end.
func (e *vpEndpoint) ended(up, listening, again, door bool) {
	ds := e.ds
	vpSettle(func() bool {
		return ds.disconnecting.IsNotSet() && ds.disconnected.IsSet() && (!again || e.retried > 0)
	})
	vpEnsures("ended", ds.disconnected.IsSet() && ds.disconnecting.IsNotSet())
	vpEnsures("no longer connected", !ds.IsConnected() && !ds.IsValidated() && !ds.IsSubscribed())
	vpEnsures("listening ends only if asked for", ds.IsListening() == (listening && !door))
	vpEnsures("connection closed", e.conn.closed == 1 && up || e.conn.closed == 0 && !up)
	vpEnsures("listening socket closed", e.door.closed == 1 && listening && door || e.door.closed == 0 && !(listening && door))
	vpEnsures("reported once", e.reported == 1)
	vpEnsures("made again only when lost", e.retried == 1 && again || e.retried == 0 && !again)
}

// Ending a connection, from the outside or because it was lost.
//
//verif:lazygo
//verif:use (*github.com/sttp/goapi/sttp/thread.Thread).Join=sum_joined
func contract_T21_end(up, listening, wait, lost, door, disposing bool) {
	e := vpEndpoints(up, listening)
	ds := e.ds
	if disposing {
		ds.disposing.Set()
	}
	ds.disconnect(wait, lost, door)
	if wait {
		vpEnsures("waited for", e.reported == 1)
	} else {
		vpEnsures("told at once", !ds.IsConnected() && !ds.IsSubscribed())
		vpSched()
	}
	e.ended(up, listening, lost && !disposing, door)
}

// A user who disconnects ends everything, once.
//
//verif:lazygo
//verif:use (*github.com/sttp/goapi/sttp/thread.Thread).Join=sum_joined
func contract_T21_twice(up, listening bool) {
	e := vpEndpoints(up, listening)
	ds := e.ds
	ds.ConnectionTerminatedCallback = func() {
		e.reported++
		ds.Disconnect()
		ds.disconnect(false, true, false)
	}
	ds.Disconnect()
	vpSched()
	vpSettle(func() bool { return ds.disconnecting.IsNotSet() && ds.disconnected.IsSet() })
	vpEnsures("nothing is left to do", !vpSched())
	e.ended(up, listening, false, true)
}

// A lost connection ends once, however often the loss is noticed, goes on
// listening and is made again.
//
//verif:lazygo
//verif:use (*github.com/sttp/goapi/sttp/thread.Thread).Join=sum_joined
func contract_T21_lost(listening bool) {
	e := vpEndpoints(true, listening)
	if vpConcrete() {
		e.conn.hold = make(chan bool)
	}
	e.ds.dispatchConnectionTerminated()
	e.ds.dispatchConnectionTerminated()
	if vpConcrete() {
		close(e.conn.hold)
	}
	vpSched()
	vpSched()
	vpEnsures("nothing is left to do", !vpSched())
	e.ended(true, listening, true, false)
}

// Who waits for the end of a connection that is ending already waits for all
// of it.
//
//verif:lazygo
//verif:use (*github.com/sttp/goapi/sttp/thread.Thread).Join=sum_joined
func contract_T21_wait(up, listening, lost, door, user bool) {
	e := vpEndpoints(up, listening)
	ds := e.ds
	told := ds.ConnectionTerminatedCallback
	ds.ConnectionTerminatedCallback = func() {
		if vpConcrete() {
			time.Sleep(5 * time.Millisecond)
		}
		told()
	}
	ds.disconnect(false, lost, door)
	ds.disconnect(true, !user, true)
	vpEnsures("waited for", e.reported == 1)
	vpSched()
	e.ended(up, listening, lost, door)
}

// vpLeaving is a data channel during whose end the user disconnects.
type vpLeaving struct {
	vpEnding
	ds *DataSubscriber
}

func (c *vpLeaving) Close() error {
	c.closed++
	if c.closed == 1 {
		c.ds.Disconnect()
	}
	return nil
}

// A user who disconnects while unsubscribing is not forgotten.
//
//verif:lazygo
//verif:use (*github.com/sttp/goapi/sttp/thread.Thread).Join=sum_joined
func contract_T21_unsubscribing(listening bool) {
	e := vpEndpoints(true, listening)
	ds := e.ds
	ds.validated.Set()
	ds.dataChannelSocket = &vpLeaving{ds: ds}
	ds.Unsubscribe()
	vpSched()
	e.ended(true, listening, false, true)
}
