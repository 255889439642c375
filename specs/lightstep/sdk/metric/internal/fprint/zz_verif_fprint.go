package fprint

import (
	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

// Fingerprints are deterministic functions of their inputs.
//
//vf:contract github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func vfMix(x uint64, y uint64) uint64 {
	return vf.Pure[[2]uint64, uint64]("mix", [2]uint64{x, y})
}

// Equal inputs have equal fingerprints.
func VF_C05_fingerprints() {
	x, y := vf.Any[uint64]("x"), vf.Any[uint64]("y")
	vf.Ensure(Mix(x, y) == Mix(x, y), "Mix is a function")
	s := vf.Any[string]("s")
	vf.Ensure(FingerprintString(s) == FingerprintString(s), "FingerprintString is a function")
	f := vf.Any[float64]("f")
	vf.Ensure(FingerprintFloat64(f) == FingerprintFloat64(f), "FingerprintFloat64 is a function")
	i := vf.Any[int64]("i")
	vf.Ensure(FingerprintInt64(i) == FingerprintInt64(i), "FingerprintInt64 is a function")
	b := vf.Any[bool]("b")
	vf.Ensure(FingerprintBool(b) == FingerprintBool(b), "FingerprintBool is a function")
}
