package sum

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

func vfSumOps[N number.Any, T number.Traits[N], M Monotonicity]() {
	var m Methods[N, T, M]
	var t T
	get := func(s *State[N, T, M]) N { return t.FromNumber(s.Sum()) }
	a := vf.AnyPtr[State[N, T, M]]("a")
	b := vf.AnyPtr[State[N, T, M]]("b")
	a0, b0 := get(a), get(b)
	v := vf.Any[N]("v")
	switch vf.Choose("op", 6) {
	case 0:
		m.Update(a, v)
		vf.Ensure(vf.Same(get(a), a0+v), "Update adds exactly the value")
		vf.Ensure(vf.Same(get(b), b0), "Update touches no other state")
	case 1:
		m.Merge(a, b)
		vf.Ensure(vf.Same(get(b), b0+a0), "Merge adds the input")
		vf.Ensure(vf.Same(get(a), a0), "Merge leaves the input")
	case 2:
		m.Move(a, b)
		vf.Ensure(vf.Same(get(b), a0), "Move transfers the value")
		vf.Ensure(get(a) == 0, "Move resets the input")
	case 3:
		m.Copy(a, b)
		vf.Ensure(vf.Same(get(b), a0) && vf.Same(get(a), a0), "Copy copies")
	case 4:
		m.SubtractSwap(a, b)
		vf.Ensure(vf.Same(get(a), b0-a0), "SubtractSwap leaves argument minus operand")
		vf.Ensure(vf.Same(get(b), b0), "SubtractSwap leaves the argument")
	case 5:
		vf.Ensure(m.HasChange(a) == (a0 != 0), "HasChange is a nonzero sum")
		agg := m.ToAggregation(a)
		p, ok := m.ToStorage(agg)
		vf.Ensure(ok && p == a, "storage round trip")
		_, isSum := agg.(aggregation.Sum)
		vf.Ensure(isSum, "output is a sum")
		vf.Ensure(agg.Kind() == m.Kind(), "kind agrees")
		var z State[N, T, M]
		m.Init(&z, aggregator.Config{})
		vf.Ensure(get(&z) == 0 && !m.HasChange(&z), "initial state is empty")
		var mm M
		vf.Ensure(agg.(aggregation.Sum).IsMonotonic() == (mm.kind() == aggregation.MonotonicSumKind), "monotonicity agrees")
	}
}

// Each operation of the sum aggregator for int64 is exact arithmetic on the running sum.
//vf:props C08
func VF_C01_sum_ops_int64() {
	if vf.Choose("mono", 2) == 0 {
		vfSumOps[int64, number.Int64Traits, Monotonic]()
	} else {
		vfSumOps[int64, number.Int64Traits, NonMonotonic]()
	}
}

// The same for float64 (IEEE addition).
//vf:props C08
func VF_C01_sum_ops_float64() {
	if vf.Choose("mono", 2) == 0 {
		vfSumOps[float64, number.Float64Traits, Monotonic]()
	} else {
		vfSumOps[float64, number.Float64Traits, NonMonotonic]()
	}
}

// Concurrent updates and moves: whatever other goroutines do to the cell between our atomic steps,
// our own effect on it is exactly one addition of the value.
func vfSumShared[N number.Any, T number.Traits[N]]() {
	var m Methods[N, T, Monotonic]
	s := vf.AnyPtr[State[N, T, Monotonic]]("s")
	from := vf.AnyPtr[State[N, T, Monotonic]]("from")
	v := vf.Any[N]("v")
	f0 := from.value
	writes := 0
	good := true
	switch vf.Choose("op", 3) {
	case 0:
		vf.Shared(&s.value, nil, func(o, n N) {
			writes++
			good = good && vf.Same(n, o+v)
		})
		m.Update(s, v)
		vf.Ensure(writes == 1 && good || !vf.Symbolic(), "a concurrent Update adds its value exactly once")
	case 1:
		vf.Shared(&s.value, nil, func(o, n N) {
			writes++
			good = good && vf.Same(n, o+f0)
		})
		m.Merge(from, s)
		vf.Ensure(writes == 1 && good || !vf.Symbolic(), "a concurrent Merge adds its input exactly once")
	case 2:
		var taken N
		vf.Shared(&s.value, nil, func(o, n N) {
			writes++
			taken = o
			good = good && n == 0
		})
		var to State[N, T, Monotonic]
		m.Move(s, &to)
		vf.Ensure(writes == 1 && good && vf.Same(to.value, taken) || !vf.Symbolic(), "a concurrent Move takes what it resets")
	}
}

func VF_C01_sum_shared_int64()   { vfSumShared[int64, number.Int64Traits]() }
func VF_C01_sum_shared_float64() { vfSumShared[float64, number.Float64Traits]() }
