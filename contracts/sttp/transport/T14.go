package transport

import (
	"errors"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"time"
)

//verif:with common_ds.go

// T14: reconnection attempts back off, end when they should and can be
// cancelled. A timer is its delay and whether its channel will deliver.

var (
	vpDelay int64
	vpWaits int
	vpTries int32
	vpTried bool
	vpLast  bool
	vpTimer *time.Timer
	vpAwake bool
)

func sum_newTimer(d time.Duration) *time.Timer {
	vpDelay = int64(d)
	vpWaits++
	vpTimer = &time.Timer{C: make(chan time.Time, 1)}
	vpAwake = true
	return vpTimer
}

func sum_stop(t *time.Timer) bool {
	vpAwake = false
	return vpAny[bool]()
}

func sum_reset(t *time.Timer, d time.Duration) bool {
	vpAwake = true
	vpDelay = int64(d)
	return vpAny[bool]()
}

func sum_min(x, y float64) float64 {
	if x < y {
		return x
	}
	return y
}

func sum_max(x, y float64) float64 {
	if x > y {
		return x
	}
	return y
}

func sum_pow(x, y float64) float64 {
	if x == 2 {
		for i := 0; i <= 30; i++ {
			if y == float64(i) {
				return float64(int64(1) << i)
			}
		}
	}
	return vpAny[float64]()
}

// specDelay doubles the interval with each attempt, thirteen times at most,
// up to the maximum; the first wait after a lost connection is the interval.
func specDelay(attempt, interval, max int32) int64 {
	if attempt <= 0 {
		return int64(interval)
	}
	n := attempt
	if n > 13 {
		n = 13
	}
	d := int64(interval) * (int64(1) << n)
	if d > int64(max) {
		return int64(max)
	}
	return d
}

func gen_T14_delay(r *rand.Rand) (int32, int32, int32) {
	interval := int32(1) << r.Intn(31)
	max := interval
	if r.Intn(2) == 0 {
		max = interval + r.Int31n(1<<31-1-interval+1)
	}
	return r.Int31n(20), interval, max
}

//verif:syncgo
//verif:use time.NewTimer=sum_newTimer
//verif:use (*time.Timer).Reset=sum_reset
//verif:use (*time.Timer).Stop=sum_stop
//verif:use math.Pow=sum_pow
//verif:use math.Min=sum_min
//verif:use math.Max=sum_max
func contract_T14_delay(attempt, interval, max int32) {
	vpRequires(attempt >= 0 && interval > 0 && max >= interval)
	for n := int32(0); n <= 14; n++ {
		if attempt == n {
			vpBackoff(n, interval, max, specDelay(n, interval, max))
			return
		}
	}
	vpBackoff(attempt, interval, max, specDelay(13, interval, max))
}

func vpBackoff(attempt, interval, max int32, want int64) {
	sc := &SubscriberConnector{RetryInterval: interval, MaxRetryInterval: max, MaxRetries: -1, connectAttempt: attempt}
	vpDelay, vpWaits = 0, 0
	want *= 1000000
	if vpConcrete() {
		if attempt == 0 {
			return
		}
		got := make(chan string, 1)
		sc.ErrorMessageCallback = func(message string) { got <- message }
		go sc.waitForRetry()
		message := <-got
		defer sc.Cancel()
		_, rest, _ := strings.Cut(message, "reconnect in ")
		text, _, ok := strings.Cut(rest, " seconds")
		seconds, err := strconv.ParseFloat(text, 64)
		diff := seconds*1000 - float64(want)/1000000
		vpEnsures("delay doubles with each attempt up to the maximum", ok && err == nil && diff <= 6 && diff >= -6)
		return
	}
	sc.waitForRetry()
	vpEnsures("waits once", vpWaits == 1)
	vpEnsures("delay doubles with each attempt up to the maximum", vpDelay == want)
	vpEnsures("cancelling can reach the wait", sc.waitTimer == vpTimer)
}

// Cancelling ends a wait that is going on.
//
//verif:use time.NewTimer=sum_newTimer
//verif:use (*time.Timer).Reset=sum_reset
//verif:use (*time.Timer).Stop=sum_stop
//verif:use math.Pow=sum_pow
//verif:use math.Min=sum_min
//verif:use math.Max=sum_max
func contract_T14_cancel(attempt int32) {
	vpRequires(attempt >= 0)
	sc := &SubscriberConnector{RetryInterval: 60000, MaxRetryInterval: 60000, MaxRetries: -1, connectAttempt: attempt}
	if vpConcrete() {
		done := make(chan bool)
		go func() { sc.waitForRetry(); close(done) }()
		for i := 0; i < 100; i++ {
			time.Sleep(time.Millisecond)
			sc.waitTimerMutex.Lock()
			t := sc.waitTimer
			sc.waitTimerMutex.Unlock()
			if t != nil {
				break
			}
		}
		sc.Cancel()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
			vpEnsures("a pending wait ends", false)
		}
		return
	}
	vpDelay, vpWaits, vpAwake = 0, 0, false
	sc.waitForRetry()
	vpRequires(vpWaits == 1)
	sc.Cancel()
	vpEnsures("later attempts see it", sc.cancel.IsSet())
	vpEnsures("a pending wait ends", vpAwake && vpDelay <= 1000000000)
	sc2 := &SubscriberConnector{}
	sc2.Cancel()
	vpEnsures("nothing to cancel", sc2.cancel.IsSet())
}

func sum_dial(network, address string) (net.Conn, error) {
	vpTries++
	vpTried = true
	if vpAny[bool]() {
		vpLast = true
		return &vpConn{}, nil
	}
	return nil, errors.New("refused")
}

func sum_establish(ds *DataSubscriber, conn net.Conn, listening bool) { ds.connected.Set() }

func sum_wait(sc *SubscriberConnector) {
	vpWaits++
	if vpAny[bool]() {
		sc.cancel.Set()
	}
}

func gen_T14_attempts(r *rand.Rand) (int32, int32, int32, bool) {
	start := r.Int31n(4)
	if r.Intn(4) == 0 {
		return start, -1, 60000, r.Intn(2) == 0
	}
	return start, start + r.Int31n(4) - 1, 1 + r.Int31n(2), r.Intn(2) == 0
}

// vpCancelled starts a connection that is refused, cancels it as soon as it
// waits and reports whether it then ends.
func vpCancelled(sc *SubscriberConnector, ds *DataSubscriber, again bool) bool {
	done := make(chan ConnectStatusEnum, 1)
	go func() { done <- sc.connect(ds, again) }()
	for i := 0; i < 1000; i++ {
		time.Sleep(time.Millisecond)
		sc.waitTimerMutex.Lock()
		t := sc.waitTimer
		sc.waitTimerMutex.Unlock()
		if t != nil {
			break
		}
	}
	sc.Cancel()
	select {
	case status := <-done:
		return status == ConnectStatus.Canceled
	case <-time.After(2 * time.Second):
		ds.disposing.Set()
		sc.Cancel()
		return false
	}
}

//verif:syncgo
//verif:use net.Dial=sum_dial
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).establishConnection=sum_establish
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).waitForRetry=sum_wait
func contract_T14_attempts(start, limit, interval int32, again bool) {
	vpRequires(start >= 0 && start < 1<<30 && limit < 1<<30 && (limit == -1 || limit >= 0))
	sc := &SubscriberConnector{Hostname: "127.0.0.1", Port: 1, RetryInterval: interval, MaxRetryInterval: interval, MaxRetries: limit, connectAttempt: start}
	ds := NewDataSubscriber()
	ds.connector = sc
	// a new connection counts its retries from zero
	base := start
	if !again {
		base = -1
	}
	if vpConcrete() && limit == -1 {
		vpRequires(interval == 60000)
		vpEnsures("cancelled when cancelled", vpCancelled(sc, ds, again))
		return
	}
	if vpConcrete() {
		vpRequires(limit >= 0 && limit-base < 5 && interval < 3)
		want := start
		if start < limit {
			want = limit
		}
		status := ConnectStatus.Canceled
		go func() { status = sc.connect(ds, again) }()
		for i := 0; i < 1000 && status == ConnectStatus.Canceled; i++ {
			time.Sleep(time.Millisecond)
		}
		vpEnsures("attempts stop at the maximum", status == ConnectStatus.Failed && sc.connectAttempt == want)
		ds.disposing.Set()
		return
	}
	vpTries, vpTried, vpWaits, vpLast = 0, false, 0, false
	vpInvariant(func() bool {
		return vpTried && sc.connectAttempt == base+vpTries || !vpTried && sc.connectAttempt == start
	})
	vpInvariant(func() bool { return vpTried || vpTries == 0 })
	vpInvariant(func() bool { return !vpTried || limit == -1 || start < limit })
	vpInvariant(func() bool { return limit == -1 || vpTries > 0 && vpTries <= limit-base || vpTries == 0 && !vpTried })
	vpInvariant(func() bool { return !vpLast && !sc.cancel.IsSet() && !ds.connected.IsSet() })
	vpInvariant(func(b bool) bool { return vpTried || b == again })
	vpInvariant(func(b bool) bool { return !vpTried || b })

	status := sc.connect(ds, again)

	vpEnsures("attempts are counted", sc.connectAttempt == base+vpTries || !vpTried && sc.connectAttempt == start)
	vpEnsures("attempts stop at the maximum", limit == -1 || !vpTried || start < limit && vpTries > 0 && base+vpTries <= limit)
	vpEnsures("attempts go on up to the maximum", vpLast || sc.cancel.IsSet() || limit != -1 && sc.connectAttempt >= limit)
	vpEnsures("success when connected", (status == ConnectStatus.Success) == vpLast)
	vpEnsures("cancelled when cancelled", (status == ConnectStatus.Canceled) == sc.cancel.IsSet())
}

var vpConnects int

func sum_connector(sc *SubscriberConnector, ds *DataSubscriber, autoReconnecting bool) ConnectStatusEnum {
	vpConnects++
	vpEnsures("reconnecting keeps the count of attempts", autoReconnecting)
	vpAfter = sc.connectAttempt
	if vpAny[bool]() {
		sc.cancel.Set()
	}
	return vpStatus
}

var (
	vpStatus ConnectStatusEnum
	vpAfter  int32
)

func gen_T14_reconnect(r *rand.Rand) (int32, int32, bool, bool, bool, ConnectStatusEnum) {
	start := r.Int31n(4)
	return start, start + r.Int31n(4) - 1, r.Intn(2) == 0, r.Intn(8) == 0, r.Intn(8) == 0, ConnectStatus.Failed
}

// A lost connection is reconnected after a wait, unless the attempts are used
// up or reconnecting is cancelled. Only a refused connection keeps the count.
//
//verif:syncgo
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).waitForRetry=sum_wait
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).connect=sum_connector
func contract_T14_reconnect(start, limit int32, refused, cancelled, disposing bool, status ConnectStatusEnum) {
	vpRequires(start >= 0 && limit >= -1)
	sc := &SubscriberConnector{Hostname: "127.0.0.1", Port: 1, RetryInterval: 1, MaxRetryInterval: 1, MaxRetries: limit, connectAttempt: start}
	sc.connectionRefused.SetTo(refused)
	sc.cancel.SetTo(cancelled)
	ds := NewDataSubscriber()
	ds.connector = sc
	ds.disposing.SetTo(disposing)
	told := 0
	sc.ReconnectCallback = func(d *DataSubscriber) {
		vpEnsures("told about the subscriber", d == ds)
		told++
	}
	base := start
	if !refused {
		base = 0
	}
	allowed := limit == -1 || base < limit
	if vpConcrete() {
		vpRequires(limit >= 0 && limit-base < 5 && status == ConnectStatus.Failed)
		ds.autoReconnect()
		for i := 0; i < 500 && told == 0 && !cancelled && !disposing; i++ {
			time.Sleep(time.Millisecond)
			sc.reconnectThreadMutex.Lock()
			t := sc.reconnectThread
			sc.reconnectThreadMutex.Unlock()
			if i > 20 && (t == nil || !t.IsRunning()) {
				break
			}
		}
		want := start
		if !cancelled && !disposing {
			want = base
			if base < limit {
				want = limit
			}
		}
		vpEnsures("reconnects while attempts are left", (told == 1) == (allowed && !cancelled && !disposing) && sc.connectAttempt == want)
		ds.disposing.Set()
		return
	}
	vpWaits, vpConnects, vpStatus, vpAfter = 0, 0, status, -1
	ds.autoReconnect()
	if cancelled || disposing {
		vpEnsures("nothing after cancelling", vpWaits == 0 && vpConnects == 0 && told == 0 && sc.connectAttempt == start)
		return
	}
	vpEnsures("only a refused connection keeps the count", sc.connectAttempt == base)
	if !allowed {
		vpEnsures("no attempt after the last", vpWaits == 0 && vpConnects == 0 && told == 0)
		return
	}
	vpEnsures("waits before it connects", vpWaits == 1)
	vpEnsures("connects unless cancelled", vpConnects == 1 && vpAfter == base || vpConnects == 0 && sc.cancel.IsSet())
	vpEnsures("told when reconnected", told == 0 || told == 1 && vpConnects == 1 && status != ConnectStatus.Canceled)
	vpEnsures("told unless cancelled", told == 1 || sc.cancel.IsSet() || status == ConnectStatus.Canceled)
}
