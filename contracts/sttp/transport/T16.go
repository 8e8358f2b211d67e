package transport

import (
	"math"
	"sync"

	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_ds.go

// T16: the metadata registry.

//verif:use (*sync.Map).Load=sum_regLoad
//verif:use (*sync.Map).Store=sum_regStore
//verif:use (*sync.Map).LoadOrStore=sum_regLoadOrStore
func contract_T16_lookup(known bool, md MeasurementMetadata, value float64) {
	ds, _ := vpSubscriber()
	p := vpRegistry(ds, known, md)
	m := Measurement{SignalID: md.SignalID, Value: value}
	if known {
		vpEnsures("registered metadata is returned", ds.LookupMetadata(md.SignalID) == p && ds.Metadata(&m) == p)
		return
	}
	a := ds.LookupMetadata(md.SignalID)
	vpEnsures("new metadata", a.SignalID == md.SignalID && a.Adder == 0 && a.Multiplier == 1 && a.ID == 0 && a.Source == "" && a.SignalType == "")
	vpEnsures("one record per signal", ds.LookupMetadata(md.SignalID) == a && ds.Metadata(&m) == a)
}

// A record that another thread registers between the two registry accesses wins.
//
//verif:use (*sync.Map).Load=sum_regMiss
//verif:use (*sync.Map).LoadOrStore=sum_regLoadOrStore
func contract_T16_race(md MeasurementMetadata) {
	ds, _ := vpSubscriber()
	p := vpRegistry(ds, false, md)
	if !vpConcrete() {
		p = &md
		vpReg[md.SignalID] = p
		vpEnsures("the registered record is returned", ds.LookupMetadata(md.SignalID) == p)
	}
}

func sum_regMiss(m *sync.Map, key any) (any, bool) { return nil, false }

//verif:use (*sync.Map).Load=sum_regLoad
//verif:use (*sync.Map).Store=sum_regStore
//verif:use (*sync.Map).LoadOrStore=sum_regLoadOrStore
func contract_T16_adjusted(known bool, md MeasurementMetadata, value float64, flags uint32) {
	ds, _ := vpSubscriber()
	vpRegistry(ds, known, md)
	m := Measurement{SignalID: md.SignalID, Value: value, Flags: StateFlagsEnum(flags)}
	got := ds.AdjustedValue(&m)
	if known {
		vpEnsures("adjusted value", sameFloat(got, value*md.Multiplier+md.Adder))
	} else {
		vpEnsures("value without metadata", math.Float64bits(got) == math.Float64bits(value))
	}
	vpEnsures("measurement unchanged", math.Float64bits(m.Value) == math.Float64bits(value) && m.SignalID == md.SignalID)
}

// sameFloat takes any two NaN as the same.
func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

var _ guid.Guid
