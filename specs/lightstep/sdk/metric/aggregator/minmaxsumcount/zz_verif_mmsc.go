package minmaxsumcount

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

func vfInv[N number.Any, T number.Traits[N]](s *State[N, T]) bool {
	var t T
	return s.count == 0 && s.sum == 0 && s.min == 0 && s.max == 0 || s.count != 0 && s.min <= s.max && !t.IsNaN(s.min) && !t.IsNaN(s.max)
}

func vfOps[N number.Any, T number.Traits[N]]() {
	var m Methods[N, T]
	var t T
	a := &State[N, T]{fields: vf.Any[fields[N, T]]("a")}
	b := &State[N, T]{fields: vf.Any[fields[N, T]]("b")}
	vf.Assume(vfInv(a) && vfInv(b))
	vf.Assume(a.count < 1<<62 && b.count < 1<<62)
	fa, fb := a.fields, b.fields
	v := vf.Any[N]("v")
	vf.Assume(!t.IsNaN(v))
	get := t.FromNumber
	switch vf.Choose("op", 5) {
	case 0:
		m.Update(a, v)
		vf.Ensure(a.Count() == fa.count+1, "Update counts one")
		vf.Ensure(vf.Same(get(a.Sum()), fa.sum+v), "Update adds to the sum")
		mn, mx := get(a.Min()), get(a.Max())
		vf.Ensure(mn <= v && v <= mx, "min and max bound the new value")
		vf.Ensure(vf.Implies(fa.count == 0, mn == v && mx == v), "the first value is both extremes")
		vf.Ensure(vf.Implies(fa.count != 0, mn <= fa.min && (mn == fa.min || mn == v)), "min is an attained lower bound")
		vf.Ensure(vf.Implies(fa.count != 0, mx >= fa.max && (mx == fa.max || mx == v)), "max is an attained upper bound")
		vf.Ensure(vfInv(a) && vf.Same(b.fields, fb), "the summary stays well formed, others unchanged")
	case 1:
		m.Merge(a, b)
		vf.Ensure(b.Count() == fa.count+fb.count, "Merge adds counts")
		vf.Ensure(vf.Same(get(b.Sum()), fb.sum+fa.sum), "Merge adds sums")
		mn, mx := get(b.Min()), get(b.Max())
		ea, eb := fa.count == 0, fb.count == 0
		vf.Ensure(vf.Implies(!ea && !eb, mn <= fa.min && mn <= fb.min && (mn == fa.min || mn == fb.min)), "merged min")
		vf.Ensure(vf.Implies(!ea && !eb, mx >= fa.max && mx >= fb.max && (mx == fa.max || mx == fb.max)), "merged max")
		vf.Ensure(vf.Implies(ea, mn == fb.min && mx == fb.max), "merging an empty summary changes no extreme")
		vf.Ensure(vf.Implies(eb && !ea, mn == fa.min && mx == fa.max), "merging into an empty summary takes the extremes")
		vf.Ensure(vfInv(b) && vf.Same(a.fields, fa), "well formed, input unchanged")
	case 2:
		m.Move(a, b)
		vf.Ensure(vf.Same(b.fields, fa), "Move transfers everything")
		vf.Ensure(!m.HasChange(a) && a.Count() == 0 && get(a.Sum()) == 0 && vfInv(a), "Move resets the input")
	case 3:
		m.Copy(a, b)
		vf.Ensure(vf.Same(b.fields, fa) && vf.Same(a.fields, fa), "Copy copies everything")
	case 4:
		vf.Ensure(m.HasChange(a) == (fa.count != 0), "HasChange iff something was recorded")
		p, ok := m.ToStorage(m.ToAggregation(a))
		vf.Ensure(ok && p == a && m.ToAggregation(a).Kind() == m.Kind(), "storage round trip")
	}
}

// Each min/max/sum/count operation describes exactly the recorded values.
func VF_C02_mmsc_ops_int64()   { vfOps[int64, number.Int64Traits]() }
func VF_C02_mmsc_ops_float64() { vfOps[float64, number.Float64Traits]() }

// State shared with concurrent operations is only touched under its lock.
//vf:props C22
func VF_C02_mmsc_locked() {
	var m Float64Methods
	a := &Float64{fields: vf.Any[fields[float64, number.Float64Traits]]("a")}
	var o Float64
	vf.Guard(&a.lock, &a.fields, "min/max/sum/count fields")
	switch vf.Choose("op", 4) {
	case 0:
		m.Update(a, vf.Any[float64]("v"))
	case 1:
		m.Move(a, &o)
	case 2:
		m.Copy(a, &o)
	case 3:
		m.Merge(&o, a)
	}
	vf.Ensure(vf.LocksHeld() == 0, "no lock remains held")
}
