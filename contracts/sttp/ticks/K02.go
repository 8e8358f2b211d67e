package ticks

import "time"

// K02: conversion to and from time.Time. A Ticks value counts 100 ns
// intervals since the year 1.

const yearOne = -62135596800 // 0001-01-01 in Unix seconds

func contract_K02_toTime(t Ticks) {
	v := int64(uint64(t) & (1<<62 - 1))
	vpRequires(v <= int64(Max))
	a, b := ToTime(t), t.ToTime()
	vpEnsures("seconds", a.Unix() == yearOne+v/10000000 && b.Unix() == a.Unix())
	vpEnsures("nanoseconds", int64(a.Nanosecond()) == v%10000000*100 && b.Nanosecond() == a.Nanosecond())
}

func contract_K02_fromTime(x time.Time) {
	s := x.Unix() - yearOne
	vpRequires(s >= 0 && s < int64(Max)/10000000)
	t := FromTime(x)
	vpEnsures("value", uint64(t) == uint64(s)*10000000+uint64(x.Nanosecond())/100)
}

func contract_K02_roundTrip(t Ticks) {
	vpRequires(t <= Max)
	vpEnsures("round trip", FromTime(ToTime(t)) == t)
}

func contract_K02_unixNano(t Ticks) {
	v := uint64(t) & (1<<62 - 1)
	vpRequires(v >= uint64(UnixBaseOffset) && v-uint64(UnixBaseOffset) <= 92233720368547758)
	n := t.ToUnixNano()
	vpEnsures("nanoseconds since 1970", n == (v-uint64(UnixBaseOffset))*100)
	vpEnsures("round trip", uint64(FromUnixNano(n)) == v)
}
