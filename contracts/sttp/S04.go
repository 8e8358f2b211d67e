package sttp

import (
	"math/rand"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
)

//verif:with common_sb.go

// S04: receivers hear what they were set for, from the moment they are set.
// Within the verifier the locks are counted here.

type vpLock struct {
	m                *sync.RWMutex
	readers, writers int
}

var (
	vpLocks []*vpLock
	// vpFinish is what somebody else who holds a lock does.
	vpFinish func()
)

func vpLockOf(m *sync.RWMutex) *vpLock {
	for _, l := range vpLocks {
		if l.m == m {
			return l
		}
	}
	l := &vpLock{m: m}
	vpLocks = append(vpLocks, l)
	return l
}

// vpWaits is reached when a lock is held already: by somebody else, who comes to
// an end, or by the one that waits, forever.
func vpWaits() {
	if vpFinish != nil {
		f := vpFinish
		vpFinish = nil
		f()
		return
	}
	vpEnsures("nothing waits for itself", false)
	vpRequires(false)
}

//verif:for (*sync.RWMutex).RLock
func sum_rlock(m *sync.RWMutex) {
	l := vpLockOf(m)
	if l.writers > 0 {
		vpWaits()
	}
	l.readers++
}

//verif:for (*sync.RWMutex).RUnlock
func sum_runlock(m *sync.RWMutex) {
	l := vpLockOf(m)
	vpEnsures("only what is locked is unlocked", l.readers > 0)
	l.readers--
}

//verif:for (*sync.RWMutex).Lock
func sum_lock(m *sync.RWMutex) {
	l := vpLockOf(m)
	if l.readers+l.writers > 0 {
		vpWaits()
	}
	l.writers++
}

//verif:for (*sync.RWMutex).Unlock
func sum_unlock(m *sync.RWMutex) {
	l := vpLockOf(m)
	vpEnsures("only what is locked is unlocked", l.writers > 0)
	l.writers--
}

func vpNothingLocked() bool {
	for _, l := range vpLocks {
		if l.readers+l.writers > 0 {
			return false
		}
	}
	return true
}

func sum_parsed(d *data.DataSet, buffer []byte) error { return nil }

func sum_loaded(sb *Subscriber, d *data.DataSet) {}

func sum_summed(sb *Subscriber, d *data.DataSet, started time.Time) {}

func sum_made(sc *transport.SubscriberConnector, ds *transport.DataSubscriber) transport.ConnectStatusEnum {
	return transport.ConnectStatus.Success
}

func sum_open(ds *transport.DataSubscriber, port uint16, networkInterface string) error { return nil }

// vpEnds waits for something that comes to an end.
func vpEnds(done chan bool) {
	select {
	case <-done:
	case <-time.After(time.Second):
		vpEnsures("nothing waits for itself", false)
	}
}

// vpCase runs f with n as a constant.
func vpCase(n, from, to int, f func(n int)) {
	for i := from; i <= to; i++ {
		if n == i {
			f(i)
			return
		}
	}
}

const vpReceivers = 13

// vpSet sets a receiver, through the function meant for it.
func vpSet(sb *Subscriber, which int, heard func(any)) {
	switch which {
	case 0, 12:
		sb.SetStatusMessageLogger(func(m string) { heard(m) })
	case 1, 2:
		sb.SetErrorMessageLogger(func(m string) { heard(m) })
	case 3:
		sb.SetMetadataReceiver(func(d *data.DataSet) { heard(d != nil) })
	case 4:
		sb.SetSubscriptionUpdatedReceiver(func(c *transport.SignalIndexCache) { heard(c) })
	case 5:
		sb.SetDataStartTimeReceiver(func(t time.Time) { heard(t) })
	case 6:
		sb.SetConfigurationChangedReceiver(func() { heard(nil) })
	case 7:
		sb.SetNewMeasurementsReceiver(func(m *[]transport.Measurement) { heard(m) })
	case 8:
		sb.SetNewBufferBlocksReceiver(func(b []transport.BufferBlock) { heard(len(b)) })
	case 9:
		sb.SetNotificationReceiver(func(m string) { heard(m) })
	case 10:
		sb.SetHistoricalReadCompleteReceiver(func() { heard(nil) })
	case 11:
		sb.SetConnectionTerminatedReceiver(func() { heard(nil) })
	}
}

func vpUnset(sb *Subscriber, which int) {
	switch which {
	case 0, 12:
		sb.SetStatusMessageLogger(nil)
	case 1, 2:
		sb.SetErrorMessageLogger(nil)
	case 3:
		sb.SetMetadataReceiver(nil)
	case 4:
		sb.SetSubscriptionUpdatedReceiver(nil)
	case 5:
		sb.SetDataStartTimeReceiver(nil)
	case 6:
		sb.SetConfigurationChangedReceiver(nil)
	case 7:
		sb.SetNewMeasurementsReceiver(nil)
	case 8:
		sb.SetNewBufferBlocksReceiver(nil)
	case 9:
		sb.SetNotificationReceiver(nil)
	case 10:
		sb.SetHistoricalReadCompleteReceiver(nil)
	case 11:
		sb.SetConnectionTerminatedReceiver(nil)
	}
}

// vpHappens is an event as the data subscriber reports it; what is heard of it
// is the result.
func vpHappens(sb *Subscriber, which int, text string, t ticks.Ticks, count int) any {
	ds := sb.dataSubscriber()
	switch which {
	case 0:
		if ds.StatusMessageCallback != nil {
			ds.StatusMessageCallback(text)
		}
		return text
	case 1:
		if ds.ErrorMessageCallback != nil {
			ds.ErrorMessageCallback(text)
		}
		return text
	case 2:
		if ds.Connector().ErrorMessageCallback != nil {
			ds.Connector().ErrorMessageCallback(text)
		}
		return text
	case 3:
		ds.MetadataReceivedCallback([]byte("<x/>"))
		return true
	case 4:
		c := transport.NewSignalIndexCache()
		if ds.SubscriptionUpdatedCallback != nil {
			ds.SubscriptionUpdatedCallback(c)
		}
		return c
	case 5:
		ds.DataStartTimeCallback(t)
		return t.ToTime()
	case 6:
		ds.ConfigurationChangedCallback()
	case 7:
		m := &[]transport.Measurement{}
		if ds.NewMeasurementsCallback != nil {
			ds.NewMeasurementsCallback(m)
		}
		return m
	case 8:
		if ds.NewBufferBlocksCallback != nil {
			ds.NewBufferBlocksCallback(make([]transport.BufferBlock, count))
		}
		return count
	case 9:
		if ds.NotificationReceivedCallback != nil {
			ds.NotificationReceivedCallback(text)
		}
		return text
	case 10:
		ds.ProcessingCompleteCallback(text)
	case 11:
		if ds.ConnectionTerminatedCallback != nil {
			ds.ConnectionTerminatedCallback()
		}
	case 12:
		ds.ProcessingCompleteCallback(text)
		return text
	}
	return nil
}

// vpJoined is a subscriber connected either way.
func vpJoined(sb *Subscriber, listen bool) func() {
	vpHear()
	sb.config.AutoRequestMetadata, sb.config.AutoSubscribe, sb.config.AutoReconnect = false, false, false
	if !vpConcrete() {
		if listen {
			vpEnsures("listening", sb.listen(1, "") == nil)
		} else {
			vpEnsures("connected", sb.connect("h", 1) == nil)
		}
		return func() {}
	}
	if listen {
		vpRequires(sb.listen(0, "127.0.0.1") == nil)
		return sb.Close
	}
	p := vpListen()
	vpRequires(sb.connect("127.0.0.1", p.port()) == nil)
	return func() { p.told(sb) }
}

func gen_S04_heard(r *rand.Rand) (int, bool, int, string, ticks.Ticks, int) {
	return r.Intn(vpReceivers), r.Intn(2) == 0, r.Intn(4), []string{"", "hello"}[r.Intn(2)], ticks.Ticks(r.Int63n(1 << 60)), r.Intn(4)
}

// The receiver set last, before or after the connection is made, is the one
// that hears an event, once; with none nothing happens.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).Connect=sum_made
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Listen=sum_open
//verif:use (*github.com/sttp/goapi/sttp/data.DataSet).ParseXml=sum_parsed
//verif:use (*github.com/sttp/goapi/sttp.Subscriber).loadMeasurementMetadata=sum_loaded
//verif:use (*github.com/sttp/goapi/sttp.Subscriber).showMetadataSummary=sum_summed
func contract_S04_heard(which int, listen bool, when int, text string, t ticks.Ticks, count int) {
	vpRequires(which >= 0 && which < vpReceivers && when >= 0 && when < 4 && count >= 0 && count < 1000 && t >= 0)
	vpRequires(which != 2 || !listen)
	if vpConcrete() {
		vpRequires(len(text) < 100)
	}
	vpCase(which, 0, vpReceivers-1, func(which int) {
		vpLocks, vpFinish = nil, nil
		sb := NewSubscriber()
		vpQuiet(sb)
		sb.SetConnectionEstablishedReceiver(nil)
		first, second := 0, 0
		var what any
		one := func(any) { first++ }
		two := func(v any) { second++; what = v }
		if when == 0 {
			vpSet(sb, which, two)
		} else {
			vpSet(sb, which, one)
		}
		if when == 1 {
			vpSet(sb, which, two)
		}
		end := vpJoined(sb, listen)
		if when == 2 {
			vpSet(sb, which, two)
		}
		if when == 3 {
			vpUnset(sb, which)
		}
		if vpConcrete() {
			// What was said about the connection is over by now.
			time.Sleep(time.Millisecond)
			first, second = 0, 0
		}
		want := vpHappens(sb, which, text, t, count)
		if when == 3 {
			vpEnsures("nobody hears", first+second == 0)
		} else {
			if which == 3 && vpConcrete() {
				vpEnsures("heard", second > 0)
			} else {
				vpEnsures("heard once", second == 1)
			}
			vpEnsures("not by the one set before", first == 0)
			vpEnsures("as it was told", what == want)
		}
		end()
		vpEnsures("nothing is left locked", vpNothingLocked())
	})
}

func gen_S04_turns(r *rand.Rand) (int, bool) { return r.Intn(vpReceivers), r.Intn(2) == 0 }

// Setting a receiver waits for calls that are going on, and calls wait while a
// receiver is set.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).Connect=sum_made
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Listen=sum_open
func contract_S04_turns(which int, none bool) {
	vpRequires(which >= 0 && which < vpReceivers)
	vpCase(which, 0, vpReceivers-1, func(which int) {
		vpLocks, vpFinish = nil, nil
		sb := NewSubscriber()
		ds := sb.dataSubscriber()
		waited := false
		begin, end := sb.beginCallbackSync, sb.endCallbackSync
		switch which {
		case 4, 7, 8, 9, 11:
			begin, end = ds.BeginCallbackSync, ds.EndCallbackSync
		}
		begin()
		set := func() {
			if none {
				vpUnset(sb, which)
			} else {
				vpSet(sb, which, func(any) {})
			}
		}
		if !vpConcrete() {
			vpFinish = func() {
				waited = true
				end()
			}
			set()
			vpEnsures("waits for calls", waited)
			vpEnsures("nothing is left locked", vpNothingLocked())
			return
		}
		done := make(chan bool)
		go func() {
			set()
			close(done)
		}()
		select {
		case <-done:
			vpEnsures("waits for calls", false)
		case <-time.After(2 * time.Millisecond):
		}
		end()
		vpEnds(done)
	})
}

func gen_S04_during(r *rand.Rand) (int, string, ticks.Ticks) {
	return []int{0, 1, 2, 3, 5, 6, 10, 12}[r.Intn(8)], []string{"", "hello"}[r.Intn(2)], ticks.Ticks(r.Int63n(1 << 60))
}

// An event that comes while a receiver is set is heard by the new one.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).Connect=sum_made
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Listen=sum_open
//verif:use (*github.com/sttp/goapi/sttp/data.DataSet).ParseXml=sum_parsed
//verif:use (*github.com/sttp/goapi/sttp.Subscriber).loadMeasurementMetadata=sum_loaded
//verif:use (*github.com/sttp/goapi/sttp.Subscriber).showMetadataSummary=sum_summed
func contract_S04_during(which int, text string, t ticks.Ticks) {
	vpRequires(which >= 0 && which < vpReceivers && which != 4 && (which < 7 || which == 10 || which == 12) && t >= 0)
	if vpConcrete() {
		vpRequires(len(text) < 100)
	}
	vpCase(which, 0, vpReceivers-1, func(which int) {
		vpLocks, vpFinish = nil, nil
		sb := NewSubscriber()
		vpQuiet(sb)
		sb.SetConnectionEstablishedReceiver(nil)
		over := vpJoined(sb, false)
		var mu sync.Mutex
		first, second := 0, 0
		count := func(n *int) func(any) {
			return func(any) {
				if vpConcrete() {
					mu.Lock()
					defer mu.Unlock()
				}
				*n++
			}
		}
		vpSet(sb, which, count(&first))
		if vpConcrete() {
			time.Sleep(time.Millisecond)
			first = 0
		}
		sb.beginCallbackAssignment()
		finish := func() {
			vpEnsures("not while a receiver is set", first == 0)
			sb.endCallbackAssignment()
			vpSet(sb, which, count(&second))
		}
		if !vpConcrete() {
			vpFinish = finish
			vpHappens(sb, which, text, t, 1)
			vpEnsures("heard by the new one", first == 0 && second == 1)
			return
		}
		done := make(chan bool)
		go func() {
			vpHappens(sb, which, text, t, 1)
			close(done)
		}()
		time.Sleep(2 * time.Millisecond)
		mu.Lock()
		vpEnsures("not while a receiver is set", first == 0)
		mu.Unlock()
		sb.endCallbackAssignment()
		vpEnds(done)
		over()
	})
}
