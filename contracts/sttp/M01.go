package sttp

import (
	"context"
	"math"
	"math/rand"
	"time"

	"github.com/sttp/goapi/sttp/transport"
)

// M01: a measurement reader hands out the measurements received, one by one.
// Within the verifier a batch is put in the reader's channel as a whole before
// it is read.

func vpSame(a *transport.Measurement, b transport.Measurement) bool {
	return a != nil && a.SignalID == b.SignalID && math.Float64bits(a.Value) == math.Float64bits(b.Value) && a.Timestamp == b.Timestamp && a.Flags == b.Flags
}

func gen_M01_order(r *rand.Rand) (byte, bool, [3]transport.Measurement, bool) {
	var m [3]transport.Measurement
	for i := range m {
		r.Read(m[i].SignalID[:])
		m[i].Value = r.Float64()
	}
	return byte(r.Intn(4)), r.Intn(2) == 0, m, r.Intn(2) == 0
}

// Every measurement of a batch is read once, in order, as a copy that stays
// when the batch is used for other measurements.
//
//verif:use context.Background=sum_background
//verif:use context.TODO=sum_background
//verif:bounded batches of at most three measurements
func contract_M01_order(n byte, split bool, m [3]transport.Measurement, background bool) {
	vpRequires(n <= 3)
	switch n {
	case 0:
		vpOrder(0, false, m, background)
	case 1:
		vpOrder(1, false, m, background)
	case 2:
		vpOrder(2, false, m, background)
	default:
		if split {
			vpOrder(3, true, m, background)
		} else {
			vpOrder(3, false, m, background)
		}
	}
}

func vpOrder(n int, split bool, m [3]transport.Measurement, background bool) {
	sb := NewSubscriber()
	reader := sb.ReadMeasurements()
	deliver := sb.dataSubscriber().NewMeasurementsCallback
	vpEnsures("the reader gets new measurements", deliver != nil)
	var ctx context.Context
	if background {
		ctx = context.Background()
	}
	feed := func() {
		batch := append([]transport.Measurement{}, m[:n]...)
		if split {
			first, rest := batch[:1], batch[1:]
			deliver(&first)
			deliver(&rest)
		} else {
			deliver(&batch)
		}
		for i := range batch {
			batch[i] = transport.Measurement{Value: -1}
		}
	}
	if vpConcrete() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		fed := make(chan bool)
		go func() { feed(); close(fed) }()
		defer func() { <-fed }()
	} else {
		feed()
	}
	var got [3]*transport.Measurement
	for i := 0; i < n; i++ {
		next, done := reader.NextMeasurement(ctx)
		vpEnsures("a measurement is read", !done && next != nil)
		got[i] = next
	}
	for i := 0; i < n; i++ {
		vpEnsures("measurements in order", vpSame(got[i], m[i]))
	}
}

// vpIdle is a context that is never done, vpDone one that is.
type vpIdle struct{ context.Context }

func (vpIdle) Done() <-chan struct{} { return nil }

func sum_background() context.Context { return vpIdle{} }

type vpDone struct{ context.Context }

var vpDoneChan chan struct{}

func (vpDone) Done() <-chan struct{} { return vpDoneChan }

// Reading ends when the context is done or the reader is closed; measurements
// that arrive at a closed reader are dropped.
//
//verif:use context.Background=sum_background
//verif:use context.TODO=sum_background
func contract_M01_end(closed, late bool, m transport.Measurement) {
	sb := NewSubscriber()
	reader := sb.ReadMeasurements()
	deliver := sb.dataSubscriber().NewMeasurementsCallback
	if !closed {
		vpDoneChan = make(chan struct{})
		close(vpDoneChan)
		next, done := reader.NextMeasurement(vpDone{context.Background()})
		vpEnsures("nothing once the context is done", next == nil && done)
		return
	}
	reader.Close()
	if late {
		batch := []transport.Measurement{m}
		vpEnsures("late measurements are dropped", !vpPanics(func() { deliver(&batch) }))
	}
	next, done := reader.NextMeasurement(nil)
	// a reader that was waiting may still get the late measurement
	waited := late && !done && vpSame(next, m)
	vpEnsures("nothing once closed", next == nil && done || waited)
}
