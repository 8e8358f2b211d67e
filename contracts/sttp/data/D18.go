package data

import (
	"math/rand"
	"strings"
	"time"
)

//verif:with common_value.go

// D18: date functions of filter expressions.

var vpIntervals = [...]string{"YEAR", "MONTH", "DAYOFYEAR", "DAY", "WEEK", "WEEKDAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND"}

func vpDate(r *rand.Rand) vpVal {
	v := vpRandom(r)
	if r.Intn(8) > 0 {
		v.Kind = vDateTime
		v.T = time.Date(2000+r.Intn(30), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.UTC)
	}
	return v
}

func vpInterval(r *rand.Rand) vpVal {
	v := vpRandom(r)
	if r.Intn(8) > 0 {
		v.Kind = vString
		v.S = vpIntervals[r.Intn(10)]
		if r.Intn(4) == 0 {
			v.S = " " + strings.ToLower(v.S)
		}
	}
	return v
}

func gen_D18_part(r *rand.Rand) (vpVal, vpVal)       { return vpDate(r), vpInterval(r) }
func gen_D18_add(r *rand.Rand) (vpVal, vpVal, vpVal) { return vpDate(r), vpWhole(r), vpInterval(r) }
func gen_D18_diff(r *rand.Rand) (vpVal, vpVal, vpVal) {
	return vpDate(r), vpDate(r), vpInterval(r)
}

func specInterval(s string) int {
	s = strings.ToUpper(strings.TrimSpace(s))
	for i, n := range vpIntervals {
		if s == n {
			return i
		}
	}
	return -1
}

func contract_D18_part(v, in vpVal) {
	vpKinds(v, in, func(v, in vpVal) {
		got, err := call(ExpressionFunctionType.DatePart, v, in)
		v, in = v.typed(vDateTime), in.typed(vString)
		if v.Kind != vDateTime && v.Kind != vString || in.Kind != vString || in.Null {
			vpEnsures("arguments of other types are an error", err != nil)
			return
		}
		if v.Null {
			vpEnsures("null date gives null", is(got, err, vInt32, nil))
			return
		}
		w, _ := specConvert(v, vDateTime)
		t := w.(time.Time)
		var n int
		switch specInterval(in.S) {
		case 0:
			n = t.Year()
		case 1:
			n = int(t.Month())
		case 2:
			n = t.YearDay()
		case 3:
			n = t.Day()
		case 4:
			_, n = t.ISOWeek()
		case 5:
			n = int(t.Weekday()) + 1
		case 6:
			n = t.Hour()
		case 7:
			n = t.Minute()
		case 8:
			n = t.Second()
		case 9:
			n = t.Nanosecond() / 1000000
		default:
			vpEnsures("unknown interval is an error", err != nil)
			return
		}
		vpEnsures("part of the date", is(got, err, vInt32, int32(n)))
	})
}

func contract_D18_add(v, add, in vpVal) {
	vpKinds(v, in, func(v, in vpVal) {
		vpKind(add, func(add vpVal) {
			for i := -1; i < len(vpIntervals); i++ {
				if specInterval(in.S) == i {
					vpDateAdd(v, add, in, i)
					return
				}
			}
		})
	})
}

func vpDateAdd(v, add, in vpVal, interval int) {
	got, err := call(ExpressionFunctionType.DateAdd, v, add, in)
	v, add, in = v.typed(vDateTime), add.typed(vInt32), in.typed(vString)
	if v.Kind != vDateTime && v.Kind != vString || add.Kind > vInt64 || add.Null || in.Kind != vString || in.Null {
		vpEnsures("arguments of other types are an error", err != nil)
		return
	}
	if v.Null {
		vpEnsures("null date gives null", is(got, err, int(v.Kind), nil))
		return
	}
	w, _ := specConvert(v, vDateTime)
	t := w.(time.Time)
	n := int(specInt(add))
	switch interval {
	case 0:
		t = t.AddDate(n, 0, 0)
	case 1:
		t = t.AddDate(0, n, 0)
	case 2, 3, 5:
		t = t.AddDate(0, 0, n)
	case 4:
		t = t.AddDate(0, 0, n*7)
	case 6:
		t = t.Add(time.Duration(n) * time.Hour)
	case 7:
		t = t.Add(time.Duration(n) * time.Minute)
	case 8:
		t = t.Add(time.Duration(n) * time.Second)
	case 9:
		t = t.Add(time.Duration(n) * time.Millisecond)
	default:
		vpEnsures("unknown interval is an error", err != nil)
		return
	}
	vpEnsures("date moved", is(got, err, vDateTime, t))
}

func contract_D18_diff(l, r, in vpVal) {
	vpKinds(l, r, func(l, r vpVal) {
		vpKind(in, func(in vpVal) { vpDateDiff(l, r, in) })
	})
}

func vpDateDiff(l, r, in vpVal) {
	got, err := call(ExpressionFunctionType.DateDiff, l, r, in)
	l, r, in = l.typed(vDateTime), r.typed(vDateTime), in.typed(vString)
	if l.Kind != vDateTime && l.Kind != vString || r.Kind != vDateTime && r.Kind != vString || in.Kind != vString || in.Null {
		vpEnsures("arguments of other types are an error", err != nil)
		return
	}
	if l.Null || r.Null {
		vpEnsures("null date gives null", is(got, err, vInt32, nil))
		return
	}
	a, _ := specConvert(l, vDateTime)
	b, _ := specConvert(r, vDateTime)
	from, to := a.(time.Time), b.(time.Time)
	d := to.Sub(from)
	var n int32
	switch specInterval(in.S) {
	case 0:
		n = int32(to.Year() - from.Year())
	case 1:
		n = int32((to.Year()-from.Year())*12 + int(to.Month()-from.Month()))
	case 2, 3, 5:
		n = int32(d.Hours() / 24)
	case 4:
		n = int32(d.Hours() / 24 / 7)
	case 6:
		n = int32(d.Hours())
	case 7:
		n = int32(d.Minutes())
	case 8:
		n = int32(d.Seconds())
	case 9:
		n = int32(d.Milliseconds())
	default:
		vpEnsures("unknown interval is an error", err != nil)
		return
	}
	vpEnsures("difference of the dates", is(got, err, vInt32, n))
}
