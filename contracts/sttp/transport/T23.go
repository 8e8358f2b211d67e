package transport

import (
	"errors"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp/thread"
	"github.com/sttp/goapi/sttp/ticks"
)

//verif:with common_ds.go

// T23: callbacks and their assignment take turns, and nothing is left locked.
// Within the verifier the locks are counted here.

type vpLock struct {
	rw               *sync.RWMutex
	m                *sync.Mutex
	readers, writers int
}

var (
	vpLocks []*vpLock
	// vpFinish is what somebody else who holds a lock does before releasing it.
	vpFinish func()
)

func vpLockOf(rw *sync.RWMutex, m *sync.Mutex) *vpLock {
	for _, l := range vpLocks {
		if l.rw == rw && l.m == m {
			return l
		}
	}
	l := &vpLock{rw: rw, m: m}
	vpLocks = append(vpLocks, l)
	return l
}

// vpWaits is reached when a lock is held already: by somebody else, who comes to
// an end, or by the one that waits, forever.
func vpWaits() {
	if vpFinish != nil {
		f := vpFinish
		vpFinish = nil
		f()
		return
	}
	vpEnsures("nothing waits for itself", false)
	vpRequires(false)
}

func (l *vpLock) lock() {
	if l.readers+l.writers > 0 {
		vpWaits()
	}
	l.writers++
}

func (l *vpLock) unlock() {
	vpEnsures("only what is locked is unlocked", l.writers > 0)
	l.writers--
}

//verif:for (*sync.RWMutex).RLock
func sum_rlock(m *sync.RWMutex) {
	l := vpLockOf(m, nil)
	if l.writers > 0 {
		vpWaits()
	}
	l.readers++
}

//verif:for (*sync.RWMutex).RUnlock
func sum_runlock(m *sync.RWMutex) {
	l := vpLockOf(m, nil)
	vpEnsures("only what is locked is unlocked", l.readers > 0)
	l.readers--
}

//verif:for (*sync.RWMutex).Lock
func sum_rwlock(m *sync.RWMutex) { vpLockOf(m, nil).lock() }

//verif:for (*sync.RWMutex).Unlock
func sum_rwunlock(m *sync.RWMutex) { vpLockOf(m, nil).unlock() }

//verif:for (*sync.Mutex).Lock
func sum_lock(m *sync.Mutex) { vpLockOf(nil, m).lock() }

//verif:for (*sync.Mutex).Unlock
func sum_unlock(m *sync.Mutex) { vpLockOf(nil, m).unlock() }

//verif:for (*sync.RWMutex).TryLock
func sum_rwtry(m *sync.RWMutex) bool {
	l := vpLockOf(m, nil)
	if l.readers+l.writers > 0 {
		return false
	}
	l.writers++
	return true
}

//verif:for (*sync.Mutex).TryLock
func sum_try(m *sync.Mutex) bool {
	l := vpLockOf(nil, m)
	if l.writers > 0 {
		return false
	}
	l.writers++
	return true
}

// vpAllFree says that all locks of a subscriber can be had.
func vpAllFree(ds *DataSubscriber) bool {
	for _, m := range []*sync.RWMutex{&ds.assigningHandlerMutex, &ds.connector.assigningHandlerMutex} {
		if !m.TryLock() {
			return false
		}
		m.Unlock()
	}
	for _, m := range []*sync.Mutex{&ds.connectActionMutex, &ds.disconnectThreadMutex, &ds.signalIndexCacheMutex} {
		if !m.TryLock() {
			return false
		}
		m.Unlock()
	}
	return true
}

// vpCase runs f with n as a constant.
func vpCase(n, from, to int, f func(n int)) {
	for i := from; i <= to; i++ {
		if n == i {
			f(i)
			return
		}
	}
}

const vpEvents = 16

// vpAssign sets the callback of an event.
func vpAssign(ds *DataSubscriber, which int, called func()) {
	switch which {
	case 0:
		ds.StatusMessageCallback = func(string) { called() }
	case 1:
		ds.ErrorMessageCallback = func(string) { called() }
	case 2:
		ds.ConnectionEstablishedCallback = called
	case 3:
		ds.ConnectionTerminatedCallback = called
	case 4:
		ds.AutoReconnectCallback = called
	case 5:
		ds.MetadataReceivedCallback = func([]byte) { called() }
	case 6:
		ds.DataStartTimeCallback = func(ticks.Ticks) { called() }
	case 7:
		ds.ProcessingCompleteCallback = func(string) { called() }
	case 8:
		ds.ConfigurationChangedCallback = called
	case 9:
		ds.NotificationReceivedCallback = func(string) { called() }
	case 10:
		ds.NewBufferBlocksCallback = func([]BufferBlock) { called() }
	case 11:
		ds.NewMeasurementsCallback = func(*[]Measurement) { called() }
	case 12:
		ds.SubscriptionUpdatedCallback = func(*SignalIndexCache) { called() }
	case 13:
		ds.connector.ErrorMessageCallback = func(string) { called() }
	case 14:
		ds.connector.ReconnectCallback = func(*DataSubscriber) { called() }
	case 15:
		ds.ConnectionTerminatedCallback = called
	}
}

// vpHappen makes an event happen; of data received only the first bytes are
// kept.
func vpHappen(ds *DataSubscriber, which, keep int) {
	cut := func(b []byte) []byte {
		if keep < len(b) {
			return b[:keep]
		}
		return b
	}
	text := cut([]byte("12345678"))
	respond := func(response ServerResponseEnum, data []byte) {
		ds.processServerResponse(append([]byte{byte(response), byte(ServerCommand.MetadataRefresh), 0, 0, 0, 0}, data...))
	}
	switch which {
	case 0:
		ds.dispatchStatusMessage("s")
	case 1:
		ds.dispatchErrorMessage("e")
	case 2:
		ds.establishConnection(&vpConn{}, false)
	case 3:
		ds.disconnect(true, false, false)
	case 4:
		ds.disconnect(true, true, false)
	case 5:
		respond(ServerResponse.Succeeded, text)
	case 6:
		respond(ServerResponse.DataStartTime, text)
	case 7:
		respond(ServerResponse.ProcessingComplete, text)
	case 8:
		respond(ServerResponse.ConfigurationChanged, nil)
	case 9:
		respond(ServerResponse.Notify, text)
	case 10:
		respond(ServerResponse.BufferBlock, cut([]byte{0, 0, 0, 0, 0, 0, 0, 0, 1}))
	case 11:
		respond(ServerResponse.DataPacket, cut([]byte{2, 0, 0, 0, 0}))
	case 12:
		respond(ServerResponse.UpdateSignalIndexCache, cut([]byte{0, 0, 0, 0, 28,
			1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16,
			0, 0, 0, 0, 0, 0, 0, 0}))
	case 13:
		ds.connector.dispatchErrorMessage("e")
	case 14:
		ds.autoReconnect()
	case 15:
		ds.connectionTerminationThread = thread.NewThread(func() { ds.disconnect(false, true, false) })
		ds.dispatchConnectionTerminated()
	}
}

// vpDo does something that comes to an end.
func vpDo(f func()) bool {
	if !vpConcrete() {
		f()
		return true
	}
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(time.Second):
		vpEnsures("nothing waits for itself", false)
	}
	return false
}

// Making a connection again succeeds or fails without a wait.
func sum_again(sc *SubscriberConnector, ds *DataSubscriber, auto bool) ConnectStatusEnum {
	return ConnectStatus.Success
}

//verif:for (*github.com/sttp/goapi/sttp/transport.DataSubscriber).runCommandChannelResponseThread
func sum_noanswers(ds *DataSubscriber) {}

//verif:for (*sync.Pool).Get
func sum_noPool(p *sync.Pool) any { return nil }

func sum_nowait(sc *SubscriberConnector) {}

func sum_metadataText(v int) string { return "n" }

func sum_metadataTime(v float64, n int) string { return "x" }

func vpLockable() *DataSubscriber {
	ds, _ := vpSubscriber()
	ds.Version = 2
	ds.CompressMetadata, ds.CompressSignalIndexCache = false, false
	vpLocks, vpFinish = nil, nil
	ds.connector.MaxRetries = 1
	if vpConcrete() {
		// Nobody answers, and attempts are over at once.
		ds.connector.Hostname, ds.connector.Port = "127.0.0.1", 1
		ds.connector.RetryInterval = 1
	}
	return ds
}

func gen_T23_assignment(r *rand.Rand) int { return r.Intn(vpEvents) }

// While callbacks are being assigned, none is called.
//
//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).connect=sum_again
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).waitForRetry=sum_nowait
//verif:use github.com/sttp/goapi/sttp/format.Int=sum_metadataText
//verif:use github.com/sttp/goapi/sttp/format.Float=sum_metadataTime
func contract_T23_assignment(which int) {
	vpRequires(which >= 0 && which < vpEvents)
	vpCase(which, 0, vpEvents-1, func(which int) {
		ds := vpLockable()
		var mu sync.Mutex
		before, after := 0, 0
		count := func(n *int) func() {
			return func() {
				if vpConcrete() {
					mu.Lock()
					defer mu.Unlock()
				}
				*n++
			}
		}
		begin, end := ds.BeginCallbackAssignment, ds.EndCallbackAssignment
		if which == 13 || which == 14 {
			begin, end = ds.connector.BeginCallbackAssignment, ds.connector.EndCallbackAssignment
		}
		vpAssign(ds, which, count(&before))
		begin()
		vpFinish = func() {
			vpEnsures("not called during an assignment", before == 0)
			vpAssign(ds, which, count(&after))
			end()
		}
		if vpConcrete() {
			go vpHappen(ds, which, 99)
			time.Sleep(2 * time.Millisecond)
			mu.Lock()
			vpFinish()
			mu.Unlock()
			vpSettle(func() bool {
				mu.Lock()
				defer mu.Unlock()
				return before+after > 0 && vpAllFree(ds)
			})
			mu.Lock()
			defer mu.Unlock()
		} else {
			vpHappen(ds, which, 99)
		}
		vpEnsures("the callback assigned is called", before == 0 && after == 1)
	})
}

func gen_T23_left(r *rand.Rand) int { return r.Intn(vpEvents) }

// After an event its callback was called and nothing is locked.
//
//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).connect=sum_again
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).waitForRetry=sum_nowait
//verif:use github.com/sttp/goapi/sttp/format.Int=sum_metadataText
//verif:use github.com/sttp/goapi/sttp/format.Float=sum_metadataTime
func contract_T23_left(which int) {
	vpRequires(which >= 0 && which < vpEvents)
	vpCase(which, 0, vpEvents-1, func(which int) {
		ds := vpLockable()
		var mu sync.Mutex
		count := 0
		called := func() {
			if vpConcrete() {
				mu.Lock()
				defer mu.Unlock()
			}
			count++
		}
		vpAssign(ds, which, called)
		if !vpDo(func() { vpHappen(ds, which, 99) }) {
			return
		}
		vpSettle(func() bool {
			mu.Lock()
			defer mu.Unlock()
			return count > 0 && vpAllFree(ds)
		})
		vpEnsures("nothing is left locked", vpAllFree(ds))
		if vpConcrete() {
			mu.Lock()
			defer mu.Unlock()
		}
		vpEnsures("called once", count == 1)
	})
}

func gen_T23_bad(r *rand.Rand) (int, int) { return 5 + r.Intn(8), r.Intn(30) }

// Nor is anything left locked by data that ends too early.
//
//verif:syncgo
//verif:use github.com/sttp/goapi/sttp/format.Int=sum_metadataText
//verif:use github.com/sttp/goapi/sttp/format.Float=sum_metadataTime
func contract_T23_bad(which, keep int) {
	vpRequires(which >= 5 && which <= 12 && keep >= 0 && keep < 30)
	vpCase(which, 5, 12, func(which int) {
		vpCase(keep, 0, 29, func(keep int) {
			ds := vpLockable()
			vpAssign(ds, which, func() {})
			if !vpDo(func() { vpHappen(ds, which, keep) }) {
				return
			}
			vpSettle(func() bool { return vpAllFree(ds) })
			vpEnsures("nothing is left locked", vpAllFree(ds))
		})
	})
}

var vpDialFails bool

func sum_dial23(network, address string) (net.Conn, error) {
	if vpDialFails {
		return nil, errors.New("refused")
	}
	return &vpConn{}, nil
}

// A connection made, or not made, leaves nothing locked, and can be ended and
// made again.
//
//verif:syncgo
//verif:use net.Dial=sum_dial23
//verif:use strconv.Itoa=sum_metadataText
func contract_T23_connect(fails, again, auto bool) {
	ds := vpLockable()
	ds.disconnect(true, false, false)
	ds.connector.AutoReconnect = auto
	vpDialFails = fails
	port := uint16(1)
	if vpConcrete() && !fails {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		vpRequires(err == nil)
		defer l.Close()
		port = uint16(l.Addr().(*net.TCPAddr).Port)
	}
	for i := 0; i < 2; i++ {
		ds.connector.Hostname, ds.connector.Port = "127.0.0.1", port
		if !vpDo(func() {
			if again {
				ds.connector.ResetConnection()
				ds.connector.Connect(ds)
			} else {
				ds.Connect("127.0.0.1", port)
			}
		}) {
			return
		}
		vpSettle(func() bool { return ds.IsConnected() == !fails && vpAllFree(ds) })
		vpEnsures("connected unless refused", ds.IsConnected() == !fails)
		vpEnsures("nothing is left locked", vpAllFree(ds))
		if !vpDo(func() { ds.disconnect(true, false, false) }) {
			return
		}
		vpSettle(func() bool { return vpAllFree(ds) })
		vpEnsures("nothing is left locked", vpAllFree(ds))
	}
}
