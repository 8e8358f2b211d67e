package transport

import (
	"math/rand"
	"strconv"
	"strings"
)

// T22: signal references give the source, kind and position of a signal.

var vpParts []string
var vpReference string

func sum_split(s, sep string) []string {
	if s == vpReference && sep == "-" {
		return vpParts
	}
	return vpAny[[]string]()
}

func vpLast(s string) int {
	if s != vpReference {
		return vpAny[int]()
	}
	return len(s) - len(vpParts[len(vpParts)-1]) - 1
}

func sum_lastIndex(s, sep string) int {
	if sep != "-" {
		return vpAny[int]()
	}
	return vpLast(s)
}

func sum_lastIndexByte(s string, sep byte) int {
	if sep != '-' {
		return vpAny[int]()
	}
	return vpLast(s)
}

func gen_T22_reference(r *rand.Rand) []string {
	parts := make([]string, 1+r.Intn(4))
	for i := range parts {
		parts[i] = []string{"", "a", "PA", "PM1", "fq", "QF12", "ZZ3", "STx", "S"}[r.Intn(9)]
	}
	return parts
}

// The part after the last dash is the kind and the position, what comes before
// is the source. Other references have no known kind.
//
//verif:use strings.Split=sum_split
//verif:use strings.LastIndex=sum_lastIndex
//verif:use strings.LastIndexByte=sum_lastIndexByte
func contract_T22_reference(parts []string) {
	vpRequires(len(parts) > 0)
	if vpConcrete() {
		for _, p := range parts {
			vpRequires(!strings.Contains(p, "-"))
		}
	}
	vpParts = parts
	last := len(parts) - 1
	tail := parts[last]
	if last == 0 {
		vpReferenceOf(tail, "", tail, false)
		return
	}
	head := strings.Join(parts[:last], "-")
	vpReferenceOf(head+"-"+tail, head, tail, len(tail) >= 2)
}

func vpReferenceOf(reference, head, tail string, known bool) {
	vpReference = reference
	m := &MeasurementMetadata{SignalReference: reference}
	source, kind, position := m.ParseSignalReference()
	if !known {
		vpEnsures("unknown", kind == SignalKind.Unknown && position == 0 && source == "")
		return
	}
	n, _ := strconv.Atoi(tail[2:])
	vpEnsures("source", source == head)
	vpEnsures("kind", kind == ParseSignalKindAcronym(tail[:2]))
	vpEnsures("position", position == n)
}

// Kinds and their acronyms are one to one.
func contract_T22_kinds() {
	acronyms := [12]string{"PA", "PM", "FQ", "DF", "SF", "DV", "AV", "CV", "ST", "AL", "QF", "??"}
	lower := [12]string{"pa", "pm", "fq", "df", "sf", "dv", "av", "cv", "st", "al", "qf", "zz"}
	kinds := [12]SignalKindEnum{SignalKind.Angle, SignalKind.Magnitude, SignalKind.Frequency, SignalKind.DfDt, SignalKind.Status, SignalKind.Digital,
		SignalKind.Analog, SignalKind.Calculation, SignalKind.Statistic, SignalKind.Alarm, SignalKind.Quality, SignalKind.Unknown}
	types := [12]string{"VPHA", "VPHM", "FREQ", "DFDT", "FLAG", "DIGI", "ALOG", "CALC", "STAT", "ALRM", "QUAL", "NULL"}
	for i := 0; i < 12; i++ {
		vpEnsures("acronym", kinds[i].Acronym() == acronyms[i])
		vpEnsures("kind of an acronym", ParseSignalKindAcronym(acronyms[i]) == kinds[i])
		vpEnsures("case does not matter", ParseSignalKindAcronym(lower[i]) == kinds[i])
		vpEnsures("type", kinds[i].SignalTypeAcronym('V') == types[i] && kinds[i].SignalTypeAcronym('v') == types[i])
		current := types[i]
		if i < 2 {
			current = "I" + types[i][1:]
		}
		vpEnsures("type of a current", kinds[i].SignalTypeAcronym('I') == current)
	}
}
