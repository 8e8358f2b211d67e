package ticks

// K01: leap second flags.

func contract_K01_flags(t Ticks) {
	value := uint64(t) & (1<<62 - 1)
	leap := uint64(t)>>63 == 1
	negative := leap && uint64(t)>>62&1 == 1
	vpEnsures("timestamp portion", t.TimestampValue() == int64(value))
	vpEnsures("leap second", IsLeapSecond(t) == leap && t.IsLeapSecond() == leap)
	vpEnsures("negative leap second", IsNegativeLeapSecond(t) == negative && t.IsNegativeLeapSecond() == negative)
}

func contract_K01_set(t Ticks, dir bool) {
	other := uint64(t) &^ (3 << 62)
	s := SetLeapSecond(t)
	vpEnsures("set leap second", uint64(s) == uint64(t)|1<<63)
	n := SetNegativeLeapSecond(t)
	vpEnsures("set negative leap second", uint64(n) == other|3<<62)
	a := t
	a.ApplyLeapSecond()
	vpEnsures("apply leap second", a == s)
	b := t
	b.ApplyNegativeLeapSecond()
	vpEnsures("apply negative leap second", b == n)
	c := t
	c.SetLeapSecond()
	vpEnsures("set leap second in place", c == s)
	d := t
	d.SetLeapSecondDirection(dir)
	want := uint64(t) &^ (1 << 62)
	if dir {
		want |= 1 << 62
	}
	vpEnsures("set direction", uint64(d) == want)
}
