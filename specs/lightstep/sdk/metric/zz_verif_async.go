package metric

import (
	"context"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

func vfGaugeInt(p data.Point) int64 {
	return number.ToInt64(p.Aggregation.(aggregation.Gauge).Gauge())
}

func vfPoints(m data.Metrics, scope, inst int) []data.Point {
	return m.Scopes[scope].Instruments[inst].Points
}

// What asynchronous sums report over two collections by one reader, while another reader collects
// at other times.
//
//vf:props C07 C19
func VF_C08_async_flow() {
	vf.Bounded("one asynchronous sum, two attribute sets, two collections")
	vf.Unroll(4)
	vf.Coarse()
	tempo := vfTempo()
	r, other := NewManualReader("r"), NewManualReader("other")
	mp := NewMeterProvider(WithReader(other, vfTempoOpt(aggregation.DeltaTemporality)), WithReader(r, vfTempoOpt(tempo)))
	m := mp.Meter("lib")
	var inst metric.Int64Observable
	if vf.Choose("kind", 2) == 0 {
		inst, _ = m.Int64ObservableCounter("c")
	} else {
		inst, _ = m.Int64ObservableUpDownCounter("c")
	}
	a, b := vfAttrs()
	va, vb := vf.Any[int64]("va"), vf.Any[int64]("vb")
	hasB := true
	old := vf.Any[int64]("old")
	calls := 0
	_, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		calls++
		o.ObserveInt64(inst, old, metric.WithAttributes(a))
		o.ObserveInt64(inst, va, metric.WithAttributes(a))
		if hasB {
			o.ObserveInt64(inst, vb, metric.WithAttributes(b))
		}
		return nil
	}, inst)
	vf.Ensure(err == nil, "registered")
	if vf.Choose("other", 2) == 1 {
		x := other.Produce(nil)
		n, p := vfFind(vfPoints(x, 0, 0), attribute.NewSet(a))
		vf.Ensure(n == 1 && vfInt(p) == va, "the other reader")
		calls = 0
	}
	o1 := r.Produce(nil)
	vf.Ensure(calls == 1, "the callback runs once")
	pts := vfPoints(o1, 0, 0)
	na, pa := vfFind(pts, attribute.NewSet(a))
	nb, pb := vfFind(pts, attribute.NewSet(b))
	vf.Ensure(na == 1 && nb == 1 && len(pts) == 2, "one point per observed attribute set")
	vf.Ensure(vfInt(pa) == va && vfInt(pb) == vb, "the last observed value")
	vf.Ensure(pa.Temporality == tempo && pb.Temporality == tempo, "temporality")
	va0 := va
	va = vf.Any[int64]("va2")
	hasB = false
	o2 := r.Produce(nil)
	vf.Ensure(calls == 2, "the callback runs once per collection")
	pts = vfPoints(o2, 0, 0)
	na, pa = vfFind(pts, attribute.NewSet(a))
	if tempo == aggregation.CumulativeTemporality {
		vf.Ensure(na == 1 && len(pts) == 1 && vfInt(pa) == va, "only what was observed in this collection")
	} else {
		vf.Ensure(na == 1 && len(pts) == 1 && vfInt(pa) == va-va0 || len(pts) == 0 && va == va0, "the change since the last collection")
	}
}

// Asynchronous gauges report the last observation of each collection, for every temporality.
//
//vf:props C03
func VF_C08_async_gauge() {
	vf.Bounded("one asynchronous gauge, two collections")
	gauge.VfSequenceOK()
	vf.Unroll(4)
	vf.Coarse()
	tempo := vfTempo()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(tempo)))
	m := mp.Meter("lib")
	v, old := vf.Any[int64]("v"), vf.Any[int64]("old")
	a, b := vfAttrs()
	observe := true
	_, err := m.Int64ObservableGauge("g", metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
		if observe {
			o.Observe(old, metric.WithAttributes(a))
			o.Observe(v, metric.WithAttributes(a))
			o.Observe(old, metric.WithAttributes(b))
		}
		return nil
	}))
	vf.Ensure(err == nil, "created")
	pts := vfPoints(r.Produce(nil), 0, 0)
	na, pa := vfFind(pts, attribute.NewSet(a))
	nb, pb := vfFind(pts, attribute.NewSet(b))
	vf.Ensure(na == 1 && nb == 1 && len(pts) == 2 && vfGaugeInt(pa) == v && vfGaugeInt(pb) == old, "the last observation")
	v = vf.Any[int64]("v2")
	pts = vfPoints(r.Produce(nil), 0, 0)
	na, pa = vfFind(pts, attribute.NewSet(a))
	vf.Ensure(na == 1 && len(pts) == 2 && vfGaugeInt(pa) == v, "the last observation of the second collection")
	observe = false
	vf.Ensure(len(vfPoints(r.Produce(nil), 0, 0)) == 0, "nothing is reported when nothing is observed")
}

// Observations that a view maps to the same attributes add up.
func VF_C08_async_view() {
	vf.Bounded("one asynchronous sum with a view, two collections")
	vf.Unroll(4)
	vf.Coarse()
	tempo := vfTempo()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(tempo), view.WithClause(view.MatchInstrumentName("c"), view.WithKeys([]attribute.Key{"k"}))))
	m := mp.Meter("lib")
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	_, err := m.Int64ObservableUpDownCounter("c", metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
		o.Observe(x, metric.WithAttributes(attribute.Int("k", 1), attribute.Int("u", 1)))
		o.Observe(y, metric.WithAttributes(attribute.Int("k", 1), attribute.Int("u", 2)))
		return nil
	}))
	vf.Ensure(err == nil, "created")
	pts := vfPoints(r.Produce(nil), 0, 0)
	n, p := vfFind(pts, attribute.NewSet(attribute.Int("k", 1)))
	vf.Ensure(n == 1 && len(pts) == 1 && vfInt(p) == x+y, "mapped observations add up")
	x0, y0 := x, y
	x, y = vf.Any[int64]("x2"), vf.Any[int64]("y2")
	pts = vfPoints(r.Produce(nil), 0, 0)
	n, p = vfFind(pts, attribute.NewSet(attribute.Int("k", 1)))
	want := x + y
	if tempo == aggregation.DeltaTemporality {
		want -= x0 + y0
	}
	vf.Ensure(n == 1 && len(pts) == 1 && vfInt(p) == want || tempo == aggregation.DeltaTemporality && want == 0 && len(pts) == 0, "the second collection")
}

// Observations of undeclared or foreign instruments and late observations have no effect.
//
//vf:props C19
func VF_C08_misuse() {
	vf.Bounded("one misuse, two instruments, two providers")
	vf.Unroll(4)
	vf.Coarse()
	r, r2 := NewManualReader("r"), NewManualReader("r2")
	mp, mp2 := NewMeterProvider(WithReader(r)), NewMeterProvider(WithReader(r2))
	m, m2 := mp.Meter("lib"), mp2.Meter("lib")
	declared, _ := m.Int64ObservableCounter("declared")
	other, _ := m.Int64ObservableCounter("other")
	foreign, _ := m2.Int64ObservableCounter("declared")
	var saved metric.Observer
	v := vf.Any[int64]("v")
	var failure error
	if vf.Choose("fails", 2) == 1 {
		failure = vfNewErr("callback")
	}
	_, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		saved = o
		o.ObserveInt64(declared, v)
		o.ObserveInt64(other, v)
		o.ObserveInt64(foreign, v)
		return failure
	}, declared)
	vf.Ensure(err == nil, "registered")
	late := 0
	_, err = m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		late++
		if saved != nil {
			saved.ObserveInt64(declared, 77, metric.WithAttributes(attribute.Int("late", 1)))
		}
		return nil
	}, declared)
	vf.Ensure(err == nil, "registered")
	_, err = m.RegisterCallback(func(context.Context, metric.Observer) error { return nil }, foreign)
	vf.Ensure(err != nil, "a foreign instrument is refused")
	_, err = m.RegisterCallback(func(context.Context, metric.Observer) error { return nil })
	vf.Ensure(err != nil, "no instruments is refused")
	_, err = m.RegisterCallback(nil, declared)
	vf.Ensure(err != nil, "no function is refused")
	out := r.Produce(nil)
	vf.Ensure(late == 1, "both callbacks ran once")
	pts := vfPoints(out, 0, 0)
	vf.Ensure(len(pts) == 1 && vfInt(pts[0]) == v, "only the declared instrument is observed")
	vf.Ensure(len(vfPoints(out, 0, 1)) == 0, "undeclared instruments have no data")
	saved.ObserveInt64(declared, 78, metric.WithAttributes(attribute.Int("late", 2)))
	out2 := r2.Produce(nil)
	vf.Ensure(len(vfPoints(out2, 0, 0)) == 0, "foreign instruments have no data")
	pts = vfPoints(r.Produce(nil), 0, 0)
	vf.Ensure(len(pts) == 1 && vfInt(pts[0]) == v, "late observations have no effect")
}

// Registering and unregistering callbacks, also from within a collection.
func VF_C19_registration() {
	vf.Bounded("up to four callbacks, one unregistered (possibly twice, possibly during a collection)")
	vf.Unroll(6)
	vf.Coarse()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r))
	m := mp.Meter("lib")
	inst, _ := m.Int64ObservableCounter("c")
	n := 1 + vf.Choose("n", 4)
	which := vf.Choose("which", 4)
	vf.Assume(which < n)
	at := vf.Choose("at", 5)
	vf.Assume(at <= n)
	var calls [4]int
	var regs [4]metric.Registration
	first := true
	for i := 0; i < n; i++ {
		i := i
		reg, err := m.RegisterCallback(func(context.Context, metric.Observer) error {
			calls[i]++
			if first && at == i {
				first = false
				vf.Ensure(regs[which].Unregister() == nil, "unregistered during a collection")
			}
			return nil
		}, inst)
		vf.Ensure(err == nil && reg != nil, "registered")
		regs[i] = reg
	}
	r.Produce(nil)
	for i := 0; i < n; i++ {
		vf.Ensure(calls[i] == 1 || at < n && i == which && calls[i] == 0, "every registered callback runs once")
	}
	if at == n {
		vf.Ensure(regs[which].Unregister() == nil, "unregistered")
	}
	vf.Ensure(regs[which].Unregister() != nil, "a second unregistration is an error")
	calls = [4]int{}
	r.Produce(nil)
	for i := 0; i < n; i++ {
		vf.Ensure(calls[i] == vf.Ite(i == which, 0, 1), "exactly the registered callbacks run")
	}
	added := 0
	_, err := m.RegisterCallback(func(context.Context, metric.Observer) error { added++; return nil }, inst)
	vf.Ensure(err == nil, "registered again")
	calls = [4]int{}
	r.Produce(nil)
	vf.Ensure(added == 1, "a new callback runs")
	for i := 0; i < n; i++ {
		vf.Ensure(calls[i] == vf.Ite(i == which, 0, 1), "the others are unaffected")
	}
}

// Observed attributes are truncated, at every size; the caller's are not modified.
//
//vf:props C08
func VF_C18_async() {
	vf.Bounded("one asynchronous instrument, up to two attributes")
	vf.Unroll(4)
	vf.Coarse()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r), WithPerformance(sdkinstrument.Performance{AttributeSizeLimit: 3}))
	m := mp.Meter("lib")
	v := vf.Any[int64]("v")
	kvs := []attribute.KeyValue{attribute.String("abcd", "wxyz"), attribute.String("a", "vwxyz")}[:vf.Choose("n", 3)]
	short := []attribute.KeyValue{attribute.String("abc", "wxy"), attribute.String("a", "vwx")}[:len(kvs)]
	given := attribute.NewSet(kvs...)
	same := given
	_, err := m.Int64ObservableUpDownCounter("c", metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
		o.Observe(v, metric.WithAttributeSet(given))
		return nil
	}))
	vf.Ensure(err == nil, "created")
	pts := vfPoints(r.Produce(nil), 0, 0)
	n, p := vfFind(pts, attribute.NewSet(short...))
	vf.Ensure(n == 1 && len(pts) == 1 && vfInt(p) == v, "the attributes are truncated")
	vf.Ensure(given == same && given == attribute.NewSet(kvs...), "the caller's attributes are unchanged")
}

// Measurements through every kind of synchronous instrument truncate attributes and leave the
// caller's list alone.
//
//vf:props C05
func VF_C18_sync() {
	vf.Bounded("one instrument of each kind, two attributes")
	gauge.VfSequenceOK()
	vf.Unroll(8)
	vf.Coarse()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r), WithPerformance(sdkinstrument.Performance{AttributeSizeLimit: 3}))
	m := mp.Meter("lib")
	ctx := context.Background()
	x, y := attribute.String("xyzw", "wxyz"), attribute.Int("a", 1)
	kvs := []attribute.KeyValue{x, y}
	opt := metric.WithAttributeSet(attribute.NewSet(x, y))
	fast := vf.Choose("fast", 2) == 1
	switch vf.Choose("kind", 8) {
	case 0:
		if c, _ := m.Int64Counter("c"); fast {
			c.(bypass.FastInt64Adder).AddWithKeyValues(ctx, 1, kvs...)
		} else {
			c.Add(ctx, 1, opt)
		}
	case 1:
		if c, _ := m.Int64UpDownCounter("c"); fast {
			c.(bypass.FastInt64Adder).AddWithKeyValues(ctx, 1, kvs...)
		} else {
			c.Add(ctx, 1, opt)
		}
	case 2:
		if c, _ := m.Int64Histogram("c"); fast {
			c.(bypass.FastInt64Recorder).RecordWithKeyValues(ctx, 1, kvs...)
		} else {
			c.Record(ctx, 1, opt)
		}
	case 3:
		if c, _ := m.Float64Counter("c"); fast {
			c.(bypass.FastFloat64Adder).AddWithKeyValues(ctx, 1, kvs...)
		} else {
			c.Add(ctx, 1, opt)
		}
	case 4:
		if c, _ := m.Float64UpDownCounter("c"); fast {
			c.(bypass.FastFloat64Adder).AddWithKeyValues(ctx, 1, kvs...)
		} else {
			c.Add(ctx, 1, opt)
		}
	case 5:
		if c, _ := m.Float64Histogram("c"); fast {
			c.(bypass.FastFloat64Recorder).RecordWithKeyValues(ctx, 1, kvs...)
		} else {
			c.Record(ctx, 1, opt)
		}
	case 6:
		c, _ := m.(*meter).Int64Gauge("c")
		c.Record(ctx, 1, opt)
	case 7:
		c, _ := m.(*meter).Float64Gauge("c")
		c.Record(ctx, 1, opt)
	}
	vf.Ensure(kvs[0] == x && kvs[1] == y, "the caller's list is unchanged")
	pts := vfPoints(r.Produce(nil), 0, 0)
	n, _ := vfFind(pts, attribute.NewSet(attribute.String("xyz", "wxy"), y))
	vf.Ensure(n == 1 && len(pts) == 1, "the attributes are truncated")
}
