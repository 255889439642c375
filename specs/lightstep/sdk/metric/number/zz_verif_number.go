package number

import (
	"math"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

// Numbers keep their value through every conversion.
//vf:props C01 C02 C03
func VF_C12_number_conversions() {
	i := vf.Any[int64]("i")
	f := vf.Any[float64]("f")
	var it Int64Traits
	var ft Float64Traits
	vf.Ensure(it.FromNumber(it.ToNumber(i)) == i && ToInt64(it.ToNumber(i)) == i, "int64 round trip")
	vf.Ensure(vf.Same(ft.FromNumber(ft.ToNumber(f)), f) && vf.Same(ToFloat64(ft.ToNumber(f)), f), "float64 round trip")
	vf.Ensure(it.ToNumber(i).CoerceToFloat64(Int64Kind) == float64(i), "int64 coerced to float64 by value")
	vf.Ensure(vf.Same(ft.ToNumber(f).CoerceToFloat64(Float64Kind), f), "float64 coerced to itself")
	vf.Ensure(it.Kind() == Int64Kind && ft.Kind() == Float64Kind, "kinds")
	vf.Ensure(!it.IsNaN(i) && !it.IsInf(i) && ft.IsNaN(f) == (f != f), "NaN test")
	vf.Ensure(ft.IsInf(f) == (f == math.Inf(1) || f == math.Inf(-1)), "infinity test")
}
