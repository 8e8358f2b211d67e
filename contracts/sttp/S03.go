package sttp

import (
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
)

//verif:with common_sb.go

// S03: received metadata is found by signal.

var vpKnown map[guid.Guid]*transport.MeasurementMetadata

func sum_lookup(ds *transport.DataSubscriber, id guid.Guid) *transport.MeasurementMetadata {
	m, ok := vpKnown[id]
	if !ok {
		m = &transport.MeasurementMetadata{SignalID: id, Multiplier: 1}
		vpKnown[id] = m
	}
	return m
}

// vpRecord is a row of the table MeasurementDetail.
type vpRecord struct {
	Signal                             guid.Guid
	Unknown                            bool
	Key, Tag, Reference, Type, Comment string
	Updated                            time.Time
}

func vpText(r *rand.Rand) string { return []string{"", "a", "PPA:12", "x:y", "S:1:2", "T:9", "T:5000000000"}[r.Intn(7)] }

func vpGenRecord(r *rand.Rand) vpRecord {
	return vpRecord{guid.Guid{byte(r.Intn(3))}, r.Intn(4) == 0, vpText(r), vpText(r), vpText(r), vpText(r), vpText(r), time.Unix(int64(r.Intn(99)), 0).UTC()}
}

func gen_S03_load(r *rand.Rand) (vpRecord, vpRecord, guid.Guid, [6]bool) {
	var present [6]bool
	for i := range present {
		present[i] = r.Intn(6) > 0
	}
	return vpGenRecord(r), vpGenRecord(r), guid.Guid{byte(r.Intn(3))}, present
}

// Each signal of the table MeasurementDetail has the details of its last row
// there; columns that are missing, and signals, change nothing.
//
//verif:bounded two rows
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).LookupMetadata=sum_lookup
func contract_S03_load(a, b vpRecord, other guid.Guid, present [6]bool) {
	vpRequires(other != a.Signal && other != b.Signal)
	sb := NewSubscriber()
	vpQuiet(sb)
	errs := 0
	sb.SetErrorMessageLogger(func(string) { errs++ })
	vpKnown = make(map[guid.Guid]*transport.MeasurementMetadata)
	m := sb.LookupMetadata(other)
	m.Tag, m.ID, m.Multiplier, m.Adder = "other", 7, 3, 4

	d := data.NewDataSet()
	t := d.CreateTable("MeasurementDetail")
	column := func(name string, kind data.DataTypeEnum) int {
		t.AddColumn(t.CreateColumn(name, kind, ""))
		return t.ColumnCount() - 1
	}
	signal := column("SignalID", data.DataType.Guid)
	var at [6]int
	kinds := [6]data.DataTypeEnum{data.DataType.String, data.DataType.String, data.DataType.String, data.DataType.String, data.DataType.String, data.DataType.DateTime}
	names := [6]string{"ID", "PointTag", "SignalReference", "SignalAcronym", "Description", "UpdatedOn"}
	for i := 0; i < 6; i++ {
		at[i] = -1
		if present[i] {
			at[i] = column(names[i], kinds[i])
		}
	}
	add := func(c vpRecord) {
		row := t.CreateRow()
		if !c.Unknown {
			row.SetValue(signal, c.Signal)
		}
		for i, v := range []any{c.Key, c.Tag, c.Reference, c.Type, c.Comment, c.Updated} {
			if at[i] >= 0 {
				row.SetValue(at[i], v)
			}
		}
		t.AddRow(row)
	}
	add(a)
	add(b)
	d.AddTable(t)
	sb.loadMeasurementMetadata(d)

	vpEnsures("no trouble", errs == 0)
	vpEnsures("others stay", m.Tag == "other" && m.ID == 7 && m.Multiplier == 3 && m.Adder == 4)
	check := func(c vpRecord) {
		m := sb.LookupMetadata(c.Signal)
		parts := strings.Split(c.Key, ":")
		if present[0] && len(parts) == 2 {
			id, _ := strconv.ParseUint(parts[1], 10, 64)
			vpEnsures("key", m.Source == parts[0] && m.ID == id)
		}
		vpEnsures("tag", !present[1] && m.Tag == "" || present[1] && m.Tag == c.Tag)
		vpEnsures("reference", !present[2] && m.SignalReference == "" || present[2] && m.SignalReference == c.Reference)
		vpEnsures("type", !present[3] && m.SignalType == "" || present[3] && m.SignalType == c.Type)
		vpEnsures("description", !present[4] && m.Description == "" || present[4] && m.Description == c.Comment)
		vpEnsures("time", !present[5] && m.UpdatedOn == time.Time{} || present[5] && m.UpdatedOn == c.Updated)
		vpEnsures("factors stay", m.Multiplier == 1 && m.Adder == 0)
	}
	if !b.Unknown {
		check(b)
	}
	if !a.Unknown && (b.Unknown || a.Signal != b.Signal) {
		check(a)
	}
}

// Metadata without the table or its signals is reported.
func contract_S03_missing(table bool) {
	sb := NewSubscriber()
	vpQuiet(sb)
	errs := 0
	sb.SetErrorMessageLogger(func(string) { errs++ })
	d := data.NewDataSet()
	if table {
		t := d.CreateTable("MeasurementDetail")
		t.AddColumn(t.CreateColumn("ID", data.DataType.String, ""))
		t.AddRow(t.CreateRow())
		d.AddTable(t)
	}
	sb.loadMeasurementMetadata(d)
	vpEnsures("reported", errs == 1)
}
