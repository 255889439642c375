package gauge

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

func vfGaugeOps[N number.Any, T number.Traits[N]]() {
	var m Methods[N, T]
	var t T
	get := func(s *State[N, T]) N { return t.FromNumber(s.Gauge()) }
	a := &State[N, T]{value: vf.Any[N]("av"), seq: vf.Any[uint64]("as")}
	b := &State[N, T]{value: vf.Any[N]("bv"), seq: vf.Any[uint64]("bs")}
	v := vf.Any[N]("v")
	av, bv, as, bs := a.value, b.value, a.seq, b.seq
	switch vf.Choose("op", 5) {
	case 0:
		vf.Assume(sequenceVar != ^uint64(0)) // the sequence has not wrapped
		q := sequenceVar
		m.Update(a, v)
		vf.Ensure(m.HasChange(a) && vf.Same(get(a), v), "Update sets the value")
		vf.Ensure(a.seq > q, "Update is newer than everything before it")
		vf.Ensure(vf.Same(b.value, bv) && b.seq == bs, "Update touches no other gauge")
	case 1:
		m.Move(a, b)
		vf.Ensure(!m.HasChange(a), "Move unsets the input")
		vf.Ensure(m.HasChange(b) == (as != 0), "Move transfers set-ness")
		vf.Ensure(vf.Implies(as != 0, vf.Same(get(b), av) && b.seq == as), "Move transfers value and recording order")
	case 2:
		m.Copy(a, b)
		vf.Ensure(m.HasChange(b) == (as != 0) && vf.Implies(as != 0, vf.Same(get(b), av) && b.seq == as), "Copy copies value and recording order")
		vf.Ensure(a.seq == as && vf.Same(a.value, av), "Copy leaves the input")
	case 3:
		m.Merge(a, b)
		newer := as > bs
		vf.Ensure(vf.Implies(newer, b.seq == as && vf.Same(b.value, av)), "Merge takes the more recent value")
		vf.Ensure(vf.Implies(!newer, b.seq == bs && vf.Same(b.value, bv)), "Merge keeps the more recent value")
		vf.Ensure(a.seq == as && vf.Same(a.value, av), "Merge leaves the input")
	case 4:
		vf.Ensure(m.HasChange(a) == (as != 0), "HasChange iff a value was recorded")
		p, ok := m.ToStorage(m.ToAggregation(a))
		vf.Ensure(ok && p == a && m.ToAggregation(a).Kind() == m.Kind(), "storage round trip")
	}
}

// Every gauge operation orders values by when they were recorded.
func VF_C03_gauge_ops_int64()   { vfGaugeOps[int64, number.Int64Traits]() }
func VF_C03_gauge_ops_float64() { vfGaugeOps[float64, number.Float64Traits]() }

// Any sequence of two updates to different gauges merged in either order yields the later one.
func VF_C03_gauge_merge_order() {
	var m Int64Methods
	var a, b, t Int64
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	vf.Assume(sequenceVar < 1<<62)
	m.Update(&a, x)
	m.Update(&b, y)
	if vf.Choose("order", 2) == 0 {
		m.Merge(&a, &t)
		m.Merge(&b, &t)
	} else {
		m.Merge(&b, &t)
		m.Merge(&a, &t)
	}
	vf.Ensure(vf.Same(number.Int64Traits{}.FromNumber(t.Gauge()), y), "the last recorded value wins in any merge order")
}

// Gauge state is only touched under its lock by the operations that may run concurrently.
//vf:props C22
func VF_C03_gauge_locked() {
	var m Int64Methods
	a := &Int64{value: vf.Any[int64]("av"), seq: vf.Any[uint64]("as")}
	var o Int64
	vf.Guard(&a.lock, &a.value, "gauge value")
	vf.Guard(&a.lock, &a.seq, "gauge sequence")
	switch vf.Choose("op", 4) {
	case 0:
		m.Update(a, vf.Any[int64]("v"))
	case 1:
		m.Move(a, &o)
	case 2:
		m.Copy(a, &o)
	case 3:
		m.Merge(&o, a)
	}
	vf.Ensure(vf.LocksHeld() == 0, "no lock remains held")
}

// VfSequenceOK: fewer than 2^62 gauge measurements have been made by this process.
func VfSequenceOK() { vf.Assume(sequenceVar < 1<<62) }
