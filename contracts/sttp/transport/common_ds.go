package transport

import (
	"net"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/thread"
)

// vpConn stands for the command channel socket and records what is written.
type vpConn struct {
	writes int
	last   []byte
	fail   bool
}

func (c *vpConn) Write(b []byte) (int, error) {
	if c.fail {
		return 0, net.ErrClosed
	}
	c.writes++
	c.last = append([]byte{}, b...)
	return len(b), nil
}
func (c *vpConn) Read(b []byte) (int, error)         { return 0, net.ErrClosed }
func (c *vpConn) Close() error                       { return nil }
func (c *vpConn) LocalAddr() net.Addr                { return nil }
func (c *vpConn) RemoteAddr() net.Addr               { return nil }
func (c *vpConn) SetDeadline(t time.Time) error      { return nil }
func (c *vpConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vpConn) SetWriteDeadline(t time.Time) error { return nil }

// vpState is what the harnesses observe of a subscriber.
type vpState struct {
	terminated bool
	conn       *vpConn
}

// vpSubscriber is a connected subscriber whose socket and termination thread
// are observed.
func vpSubscriber() (*DataSubscriber, *vpState) {
	s := &vpState{conn: &vpConn{}}
	ds := NewDataSubscriber()
	ds.connectionTerminationThread = thread.NewThread(func() { s.terminated = true })
	ds.commandChannelSocket = s.conn
	ds.connected.Set()
	return ds, s
}

// The metadata registry is a sync.Map; within the verifier its contents are
// this map.
var vpReg map[guid.Guid]*MeasurementMetadata

func vpRegistry(ds *DataSubscriber, known bool, md MeasurementMetadata) *MeasurementMetadata {
	if !vpConcrete() {
		vpReg = vpAny[map[guid.Guid]*MeasurementMetadata]()
		delete(vpReg, md.SignalID)
	}
	if known {
		p := &md
		ds.measurementRegistry.Store(md.SignalID, p)
		return p
	}
	return nil
}

func sum_regLoad(m *sync.Map, key any) (any, bool) {
	v, ok := vpReg[key.(guid.Guid)]
	if !ok {
		return nil, false
	}
	return v, true
}

func sum_regStore(m *sync.Map, key, value any) {
	vpReg[key.(guid.Guid)] = value.(*MeasurementMetadata)
}

func sum_regLoadOrStore(m *sync.Map, key, value any) (any, bool) {
	v, ok := vpReg[key.(guid.Guid)]
	if ok {
		return v, true
	}
	vpReg[key.(guid.Guid)] = value.(*MeasurementMetadata)
	return value, false
}
