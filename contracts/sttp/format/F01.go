package format

import (
	"math"
	"math/rand"
	"strconv"
)

// F01: numbers are written with their digits grouped by three.

// Within the verifier the digits of a number are any digits, those of a
// negative number after a sign.
var (
	vpText string
	vpNeg  bool
)

func sum_formatInt(i int64, base int) string {
	vpEnsures("decimal", base == 10)
	vpEnsures("sign", (i < 0) == vpNeg)
	return vpText
}

func sum_formatUint(i uint64, base int) string {
	vpEnsures("decimal", base == 10)
	return vpText
}

func sum_formatFloat(f float64, fmt byte, prec, bits int) string {
	vpEnsures("not in scientific form", fmt == 'f' && bits == 64)
	vpEnsures("sign", (f < 0) == vpNeg)
	return vpText
}

// vpGroup is a text with the symbol in front of every third digit.
func vpGroup(text string, neg bool, symbol byte) string {
	var b []byte
	for i := 0; i < len(text); i++ {
		left := len(text) - i
		if left%3 == 0 && i > 0 && (i > 1 || !neg) {
			b = append(b, symbol)
		}
		b = append(b, text[i])
	}
	return string(b)
}

// vpLength takes the digits of a number one length after the other; there are
// at most twenty.
func vpLength(digits [20]byte, n int, neg bool, f func(text string)) {
	vpRequires(n >= 1 && n <= 20)
	for k := 1; k <= 20; k++ {
		if n != k {
			continue
		}
		var b []byte
		if neg {
			b = append(b, '-')
		}
		for i := 0; i < k; i++ {
			vpRequires(digits[i] >= '0' && digits[i] <= '9')
			b = append(b, digits[i])
		}
		f(string(b))
		return
	}
}

func gen_F01_int(r *rand.Rand) (int64, [20]byte, int, byte) {
	return int64(r.Uint64()) >> r.Intn(64), [20]byte{}, 1, []byte{',', '.', ' ', '_'}[r.Intn(4)]
}

//verif:use strconv.FormatInt=sum_formatInt
func contract_F01_int(i int64, digits [20]byte, n int, symbol byte) {
	if vpConcrete() {
		vpEnsures("grouped", Int64With(i, symbol) == vpGroup(strconv.FormatInt(i, 10), i < 0, symbol))
		vpEnsures("grouped by commas", Int64(i) == vpGroup(strconv.FormatInt(i, 10), i < 0, ',') && Int(int(i)) == Int64(i))
		return
	}
	neg := i < 0
	if neg {
		vpLength(digits, n, true, func(text string) { vpInts(i, text, true, symbol) })
		return
	}
	vpLength(digits, n, false, func(text string) { vpInts(i, text, false, symbol) })
}

func vpInts(i int64, text string, neg bool, symbol byte) {
	vpText, vpNeg = text, neg
	vpEnsures("grouped", Int64With(i, symbol) == vpGroup(text, neg, symbol) && IntWith(int(i), symbol) == vpGroup(text, neg, symbol))
	vpEnsures("grouped by commas", Int64(i) == vpGroup(text, neg, ',') && Int(int(i)) == vpGroup(text, neg, ','))
}

func gen_F01_uint(r *rand.Rand) (uint64, [20]byte, int, byte) {
	return r.Uint64() >> r.Intn(64), [20]byte{}, 1, []byte{',', '.', ' ', '_'}[r.Intn(4)]
}

//verif:use strconv.FormatUint=sum_formatUint
func contract_F01_uint(i uint64, digits [20]byte, n int, symbol byte) {
	if vpConcrete() {
		vpEnsures("grouped", UInt64With(i, symbol) == vpGroup(strconv.FormatUint(i, 10), false, symbol))
		vpEnsures("grouped by commas", UInt64(i) == vpGroup(strconv.FormatUint(i, 10), false, ',') && UInt(uint(i)) == UInt64(i))
		return
	}
	vpLength(digits, n, false, func(text string) {
		vpText = text
		vpEnsures("grouped", UInt64With(i, symbol) == vpGroup(text, false, symbol) && UIntWith(uint(i), symbol) == vpGroup(text, false, symbol))
		vpEnsures("grouped by commas", UInt64(i) == vpGroup(text, false, ',') && UInt(uint(i)) == vpGroup(text, false, ','))
	})
}

func gen_F01_float(r *rand.Rand) (float64, int, int, int) {
	f := math.Float64frombits(r.Uint64())
	switch r.Intn(4) {
	case 0:
		f = r.NormFloat64() * math.Pow(10, float64(r.Intn(14)))
	case 1:
		f = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), -0.001, 999.999}[r.Intn(7)]
	}
	return f, r.Intn(4), r.Intn(2), r.Intn(13)
}

var vpSymbols = [][2]byte{{'.', ','}, {',', '.'}}

// The fraction follows the decimal symbol; what is not finite has no digits.
//
//verif:bounded the digits 123456789012 and fractions 345 up to any place, both ways of writing them
//verif:use strconv.FormatFloat=sum_formatFloat
func contract_F01_float(f float64, prec, way, n int) {
	vpRequires(prec >= 0 && prec < 4 && way >= 0 && way < 2 && n >= 0 && n <= 12)
	symbols := vpSymbols[way]
	if vpConcrete() {
		text := strconv.FormatFloat(f, 'f', prec, 64)
		vpEnsures("grouped", FloatWith(f, prec, symbols[0], symbols[1]) == vpWritten(text, symbols))
		vpEnsures("grouped by commas", Float(f, prec) == vpWritten(text, vpSymbols[0]))
		return
	}
	if f != f {
		vpFloats(f, prec, way, "NaN", false)
		return
	}
	if math.IsInf(f, 1) {
		vpFloats(f, prec, way, "+Inf", false)
		return
	}
	if math.IsInf(f, -1) {
		vpFloats(f, prec, way, "-Inf", true)
		return
	}
	for k := 1; k <= 12; k++ {
		for p := 0; p < 4; p++ {
			if n != k || prec != p {
				continue
			}
			text := "123456789012"[:k]
			if p > 0 {
				text += "." + "345"[:p]
			}
			if f < 0 {
				vpFloats(f, p, way, "-"+text, true)
			} else {
				vpFloats(f, p, way, text, false)
			}
			return
		}
	}
}

func vpFloats(f float64, prec, way int, text string, neg bool) {
	vpText, vpNeg = text, neg
	for w := 0; w < 2; w++ {
		if w == way {
			vpEnsures("grouped", FloatWith(f, prec, vpSymbols[w][0], vpSymbols[w][1]) == vpWritten(text, vpSymbols[w]))
		}
	}
	vpEnsures("grouped by commas", Float(f, prec) == vpWritten(text, vpSymbols[0]))
}

// vpFloat is a text of digits and maybe a fraction, the digits grouped.
func vpWritten(text string, symbols [2]byte) string {
	switch text {
	case "NaN", "+Inf", "-Inf":
		return text
	}
	neg := text[0] == '-'
	for i := 0; i < len(text); i++ {
		if text[i] == '.' {
			return vpGroup(text[:i], neg, symbols[1]) + string(symbols[:1]) + text[i+1:]
		}
	}
	return vpGroup(text, neg, symbols[1])
}
