package data

import (
	"math"
	"math/rand"
)

//verif:with common_value.go

// D05: conversion of values between the expression value types.

func gen_D05_convert(r *rand.Rand) (vpVal, byte) { return vpRandom(r), byte(r.Intn(9)) }

func contract_D05_convert(v vpVal, to byte) {
	vpRequires(to <= vUndefined)
	for k := byte(0); k <= vUndefined; k++ {
		for t := byte(0); t <= vUndefined; t++ {
			if v.Kind == k && to == t {
				v.Kind = k
				vpConvert(v, int(t))
				return
			}
		}
	}
}

func vpConvert(v vpVal, to int) {
	ve := v.expr()

	got, err := ve.Convert(ExpressionValueTypeEnum(to))

	if v.Null || v.Kind == vUndefined {
		vpEnsures("null stays null", is(got, err, to, nil))
		return
	}
	if v.Kind == vDouble && to == vDecimal && (math.IsNaN(v.F) || math.IsInf(v.F, 0)) {
		vpEnsures("a number that is not finite has no decimal", err != nil)
		return
	}
	w, ok := specConvert(v, to)
	if !ok {
		vpEnsures("types without conversion are an error", err != nil)
		return
	}
	vpEnsures("converted value", is(got, err, to, w))
	same, err := ve.Convert(ExpressionValueTypeEnum(v.Kind))
	vpEnsures("conversion leaves the value as it was", err == nil && is(same, err, int(v.Kind), ve.Value()))
}
