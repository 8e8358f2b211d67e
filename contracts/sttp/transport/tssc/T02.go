package tssc

import "math/rand"

// T02: the adaptive code tables.

// specAdapt is the TSSC reference adaptation: rank codes by use, earlier code
// first among equals, and take the table with the smallest total size, simpler
// table first among equals.
func specAdapt(t vpTables) vpTables {
	var c1, c2, c3 byte = 0, 1, 2
	var n1, n2, n3, total int32
	for i := 0; i < 32; i++ {
		k := int32(t.Stats[i])
		total += k
		if k > n3 {
			if k > n1 {
				c1, c2, c3 = byte(i), c1, c2
				n1, n2, n3 = k, n1, n2
			} else if k > n2 {
				c2, c3 = byte(i), c2
				n2, n3 = k, n2
			} else {
				c3, n3 = byte(i), k
			}
		}
	}
	s1 := total * 5
	s2 := n1 + (total-n1)*6
	s3 := n1 + n2*2 + (total-n1-n2)*7
	s4 := n1 + n2*2 + n3*3 + (total-n1-n2-n3)*8
	switch {
	case s1 <= s2 && s1 <= s3 && s1 <= s4:
		t.Mode = 1
	case s2 <= s3 && s2 <= s4:
		t.Mode, t.M21 = 2, c1
	case s3 <= s4:
		t.Mode, t.M31, t.M301 = 3, c1, c2
	default:
		t.Mode, t.M41, t.M401, t.M4001 = 4, c1, c2, c3
	}
	t.Stats = [32]byte{}
	t.Since = 0
	return t
}

func specUse(t vpTables, code int32) vpTables {
	t.Stats[code]++
	t.Since++
	switch {
	case t.Startup == 0 && t.Since > 5, t.Startup == 1 && t.Since > 20:
		t.Startup++
		return specAdapt(t)
	case t.Startup == 2 && t.Since > 100:
		return specAdapt(t)
	}
	return t
}

func genTables(r *rand.Rand) vpTables {
	code := func() byte { return byte(r.Intn(32)) }
	t := vpTables{Mode: byte(1 + r.Intn(4)), M21: code(), M31: code(), M301: code(), M41: code(), M401: code(), M4001: code(), Startup: int32(r.Intn(3))}
	t.Since = []int32{5, 20, 100}[t.Startup]
	if r.Intn(2) == 0 {
		t.Since = r.Int31n(t.Since + 1)
	}
	few := 1 + r.Intn(32)
	base := r.Intn(32)
	for n := t.Since; n > 0; {
		k := int32(1)
		if r.Intn(3) == 0 {
			k += r.Int31n(n)
		}
		t.Stats[(base+r.Intn(few))%32] += byte(k)
		n -= k
	}
	return t
}

func gen_T02_adapt(r *rand.Rand) vpTables { return genTables(r) }

func gen_T02_statistics(r *rand.Rand) (vpTables, int32) { return genTables(r), r.Int31n(32) }

func gen_T02_lockstep(r *rand.Rand) (vpTables, int32) { return genTables(r), r.Int31n(32) }

func gen_T02_read(r *rand.Rand) (vpTables, [8]byte) {
	var b [8]byte
	for i := range b {
		b[i] = byte(r.Intn(2))
	}
	return genTables(r), b
}

func contract_T02_adapt(t vpTables) {
	pm := t.point()
	err := pm.adaptCommands()
	w := specAdapt(t)
	vpEnsures("no error", err == nil)
	vpEnsures("statistics restart", pm.commandStats == [32]byte{} && pm.commandsSentSinceLastChange == 0)
	vpEnsures("startup stage kept", pm.startupMode == t.Startup)
	vpEnsures("code table", tablesOf(pm) == w)
	t.Since = 0
	vpRequires(t.valid())
	vpEnsures("tables stay valid", tablesOf(pm).valid())
}

// The contract of adaptCommands as its callers see it.
func sumAdapt(pm *pointMetadata) error {
	t := sumSpecAdapt(tablesOf(pm))
	pm.commandStats, pm.commandsSentSinceLastChange, pm.mode, pm.mode21, pm.mode31, pm.mode301 = t.Stats, t.Since, t.Mode, t.M21, t.M31, t.M301
	pm.mode41, pm.mode401, pm.mode4001, pm.startupMode = t.M41, t.M401, t.M4001, t.Startup
	return nil
}

func sumSpecAdapt(t vpTables) vpTables {
	w := vpPure[vpTables]("adapt", t)
	w.Startup = t.Startup
	w.Since = 0
	t.Since = 0
	vpRequires(!t.valid() || w.valid())
	return w
}

//verif:use (*github.com/sttp/goapi/sttp/transport/tssc.pointMetadata).adaptCommands=sumAdapt
//verif:use github.com/sttp/goapi/sttp/transport/tssc.specAdapt=sumSpecAdapt
func contract_T02_statistics(t vpTables, code int32) {
	vpRequires(t.valid() && code >= 0 && code < 32)
	pm := t.point()
	err := pm.updatedCodeStatistics(code)
	vpEnsures("no error", err == nil)
	vpEnsures("statistics and table", tablesOf(pm) == specUse(t, code))
	vpEnsures("tables stay valid", tablesOf(pm).valid())
}

func sumUpdate(pm *pointMetadata, code int32) error {
	t := sumUsed(tablesOf(pm), code)
	pm.commandStats, pm.commandsSentSinceLastChange, pm.mode, pm.mode21, pm.mode31, pm.mode301 = t.Stats, t.Since, t.Mode, t.M21, t.M31, t.M301
	pm.mode41, pm.mode401, pm.mode4001, pm.startupMode = t.M41, t.M401, t.M4001, t.Startup
	return nil
}

func vpUsed(t vpTables, code int32) vpTables { return specUse(t, code) }

func sumUsed(t vpTables, code int32) vpTables {
	w := vpPure[vpTables]("use", t, code)
	vpRequires(w.valid())
	return w
}

// specRead: the code at the front of the bits b, and how many bits it takes.
func specRead(t vpTables, b [8]byte) (code int32, used int) {
	short := [4]byte{}
	n := 0
	switch t.Mode {
	case 2:
		short, n = [4]byte{t.M21}, 1
	case 3:
		short, n = [4]byte{t.M31, t.M301}, 2
	case 4:
		short, n = [4]byte{t.M41, t.M401, t.M4001}, 3
	}
	for i := 0; i < n; i++ {
		if b[i] == 1 {
			return int32(short[i]), i + 1
		}
	}
	for i := 0; i < 5; i++ {
		code = code<<1 | int32(b[n+i])
	}
	return code, n + 5
}

//verif:use (*github.com/sttp/goapi/sttp/transport/tssc.pointMetadata).updatedCodeStatistics=sumUpdate
//verif:use github.com/sttp/goapi/sttp/transport/tssc.vpUsed=sumUsed
func contract_T02_read(t vpTables, b [8]byte) {
	vpRequires(t.valid())
	for i := 0; i < 8; i++ {
		vpRequires(b[i] <= 1)
	}
	pos := 0
	bit := func() int32 {
		v := b[pos]
		pos++
		return int32(v)
	}
	pm := t.point()
	pm.readBit = bit
	pm.readBits5 = func() int32 {
		return bit()<<4 | bit()<<3 | bit()<<2 | bit()<<1 | bit()
	}
	code, err := pm.ReadCode()
	wc, wn := specRead(t, b)
	vpEnsures("no error", err == nil)
	vpEnsures("code read", code == wc)
	vpEnsures("bits consumed", pos == wn)
	vpEnsures("code in range", code >= 0 && code < 32)
	vpEnsures("statistics and table follow the code", tablesOf(pm) == vpUsed(t, wc))
}

// Reading what was written gives the code back and leaves both sides in the
// same state, from every state: by induction on histories they never part.
//
//verif:use (*github.com/sttp/goapi/sttp/transport/tssc.pointMetadata).updatedCodeStatistics=sumUpdate
func contract_T02_lockstep(t vpTables, code int32) {
	vpRequires(t.valid() && code >= 0 && code < 32)
	var value, count, reads int32
	w := t.point()
	writes := 0
	w.writeBits = func(v, n int32) { value, count = v, n; writes++ }
	err := w.WriteCode(code)
	vpEnsures("written", err == nil && writes == 1 && count >= 1 && count <= 8 && value>>count == 0)
	r := t.point()
	bit := func() int32 {
		reads++
		return value >> (count - reads) & 1
	}
	r.readBit = bit
	r.readBits5 = func() int32 {
		return bit()<<4 | bit()<<3 | bit()<<2 | bit()<<1 | bit()
	}
	got, err := r.ReadCode()
	vpEnsures("read", err == nil)
	vpEnsures("same code", got == code)
	vpEnsures("same bits", reads == count)
	vpEnsures("same state", tablesOf(r) == tablesOf(w))
}
