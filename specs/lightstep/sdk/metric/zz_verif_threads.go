package metric

import (
	"context"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

// vfSum is the sum of the points with these attributes in all scopes and instruments with the name.
func vfSum(m data.Metrics, name string, s attribute.Set) (total int64, n int) {
	for _, sc := range m.Scopes {
		for _, i := range sc.Instruments {
			if i.Descriptor.Name != name {
				continue
			}
			for _, p := range i.Points {
				if p.Attributes == s {
					total += vfInt(p)
					n++
				}
			}
		}
	}
	return
}

// A measurement concurrent with the collections of a delta and a cumulative reader: each reader
// reports it exactly once.
//
//vf:props C04 C07 C22
func VF_C01_record_and_collect() {
	vf.Bounded("one counter, one measurement, one collection by each of two readers concurrently")
	vf.Unroll(5)
	vf.Coarse()
	r1, r2 := NewManualReader("r1"), NewManualReader("r2")
	mp := NewMeterProvider(WithReader(r1, vfTempoOpt(aggregation.DeltaTemporality)), WithReader(r2, vfTempoOpt(aggregation.CumulativeTemporality)))
	c, _ := mp.Meter("lib").Int64Counter("c")
	ctx := context.Background()
	a, _ := vfAttrs()
	s := attribute.NewSet(a)
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	vf.Assume(x > 0 && y > 0)
	want := x
	if vf.Choose("before", 2) == 1 {
		c.Add(ctx, y, metric.WithAttributes(a))
		want += y
	}
	var o1, o2 data.Metrics
	vf.Par(vf.Tier(1, 2),
		func() { c.Add(ctx, x, metric.WithAttributes(a)) },
		func() { o1 = r1.Produce(nil) },
		func() { o2 = r2.Produce(nil) },
	)
	first, n1 := vfSum(o1, "c", s)
	cum, n2 := vfSum(o2, "c", s)
	vf.Ensure(n1 <= 1 && n2 <= 1, "one point at most")
	vf.Ensure(cum == 0 || cum == want || cum == want-x, "a cumulative value is a total of measurements made so far")
	last, _ := vfSum(r1.Produce(nil), "c", s)
	vf.Ensure(first+last == want, "the deltas add up to the total")
	cum, n2 = vfSum(r2.Produce(nil), "c", s)
	vf.Ensure(n2 == 1 && cum == want, "the cumulative value is the total")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// Instruments are created by two goroutines while a reader collects.
//
//vf:props C11
func VF_C22_create_and_collect() {
	vf.Bounded("the same or different instruments created by two goroutines during a collection")
	vf.Unroll(5)
	vf.Coarse()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(aggregation.CumulativeTemporality)))
	ctx := context.Background()
	names := []string{"c", "c", "c", "d"}
	descs := []string{"", "", "x", ""}
	how := vf.Choose("how", 4)
	var c1, c2 metric.Int64Counter
	vf.Par(vf.Tier(1, 2),
		func() {
			c1, _ = mp.Meter("lib").Int64Counter("c")
			c1.Add(ctx, 1)
		},
		func() {
			c2, _ = mp.Meter("lib").Int64Counter(names[how], metric.WithDescription(descs[how]))
			c2.Add(ctx, 2)
		},
		func() { r.Produce(nil) },
	)
	none := attribute.NewSet()
	out := r.Produce(nil)
	vf.Ensure(len(out.Scopes) == 1, "one meter")
	t, n := vfSum(out, "c", none)
	if how == 3 {
		vf.Ensure(n == 1 && t == 1, "the first instrument")
		t, n = vfSum(out, "d", none)
		vf.Ensure(n == 1 && t == 2, "the second instrument")
	} else {
		vf.Ensure(n == 1 && t == 3, "both goroutines use one output")
		vf.Ensure(how == 2 || c1 == c2, "the same instrument")
	}
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// Callbacks are registered and unregistered while a reader collects.
//
//vf:props C08 C22
func VF_C19_register_and_collect() {
	vf.Bounded("three callbacks, one unregistered and one registered during a collection by one of two readers")
	vf.Unroll(6)
	vf.Coarse()
	r, other := NewManualReader("r"), NewManualReader("other")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(aggregation.CumulativeTemporality)), WithReader(other, vfTempoOpt(aggregation.CumulativeTemporality)))
	m := mp.Meter("lib")
	inst, _ := m.Int64ObservableUpDownCounter("c")
	calls := make([]int, 4)
	cb := func(i int) metric.Callback {
		return func(_ context.Context, o metric.Observer) error {
			vf.Atomic(func() { calls[i]++ })
			vf.Yield()
			o.ObserveInt64(inst, int64(1+i), metric.WithAttributes(attribute.Int("cb", i)))
			return nil
		}
	}
	var regs [3]metric.Registration
	for i := range regs {
		regs[i], _ = m.RegisterCallback(cb(i), inst)
	}
	gone := vf.Choose("gone", 3)
	var out data.Metrics
	var err1, err2 error
	twice := vf.Choose("twice", 2) == 1
	collect := func() { out = r.Produce(nil) }
	unreg := func() { err1 = regs[gone].Unregister() }
	third := func() { m.RegisterCallback(cb(3), inst) }
	if twice {
		third = func() { err2 = regs[gone].Unregister() }
	}
	vf.Par(vf.Tier(1, 2), collect, unreg, third)
	for i := 0; i < 4; i++ {
		_, n := vfSum(out, "c", attribute.NewSet(attribute.Int("cb", i)))
		vf.Ensure(calls[i] <= 1 && n == calls[i], "a callback runs at most once per collection, observing for that collection")
		vf.Ensure(i == gone || i == 3 || calls[i] == 1, "registered callbacks run once")
	}
	if twice {
		vf.Ensure((err1 == nil) != (err2 == nil), "unregistering takes effect once")
	} else {
		vf.Ensure(err1 == nil, "unregistered")
	}
	for i := range calls {
		calls[i] = 0
	}
	out = other.Produce(nil)
	for i := 0; i < 4; i++ {
		want := 1
		if i == gone || i == 3 && twice {
			want = 0
		}
		t, n := vfSum(out, "c", attribute.NewSet(attribute.Int("cb", i)))
		vf.Ensure(calls[i] == want && n == want && t == int64(want*(1+i)), "exactly the registered callbacks run")
	}
	vf.Ensure(regs[gone].Unregister() != nil, "a second unregistration fails")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// Two readers run the callbacks at the same time.
//
//vf:props C19 C22
func VF_C08_two_readers() {
	vf.Bounded("two readers collecting one asynchronous instrument concurrently")
	vf.Unroll(5)
	vf.Coarse()
	r, other := NewManualReader("r"), NewManualReader("other")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(aggregation.DeltaTemporality)), WithReader(other, vfTempoOpt(aggregation.CumulativeTemporality)))
	m := mp.Meter("lib")
	inst, _ := m.Int64ObservableCounter("c")
	a, _ := vfAttrs()
	s := attribute.NewSet(a)
	var n int64
	m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		var v int64
		vf.Atomic(func() { n++; v = n })
		vf.Yield()
		o.ObserveInt64(inst, v, metric.WithAttributes(a))
		return nil
	}, inst)
	var o1, o2 data.Metrics
	vf.Par(3,
		func() { o1 = r.Produce(nil) },
		func() { o2 = other.Produce(nil) },
	)
	v1, n1 := vfSum(o1, "c", s)
	v2, n2 := vfSum(o2, "c", s)
	vf.Ensure(n1 == 1 && n2 == 1 && n == 2, "each reader's collection ran the callback once")
	vf.Ensure(v1+v2 == 3 && v1 != v2, "observations go to the collection that ran the callback")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// Other aggregations: a measurement concurrent with two collections of one reader.
//
//vf:props C02 C03 C04
func VF_C22_aggregators() {
	vf.Bounded("one measurement of each kind of synchronous instrument during two collections")
	vf.Unroll(8)
	vf.Coarse()
	gauge.VfSequenceOK()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(vfTempo())))
	m := mp.Meter("lib")
	ctx := context.Background()
	var record func()
	switch vf.Choose("kind", 3) {
	case 0:
		h, _ := m.Int64Histogram("h")
		record = func() { h.Record(ctx, 3) }
	case 1:
		u, _ := m.Float64UpDownCounter("u")
		record = func() { u.Add(ctx, -1.5) }
	case 2:
		h, _ := m.Float64Histogram("h", metric.WithDescription(`{"aggregation":"minmaxsumcount"}`))
		record = func() { h.Record(ctx, 2.5) }
	}
	record()
	var o1, o2 data.Metrics
	vf.Par(vf.Tier(1, 2), record, func() { o1 = r.Produce(nil); o2 = r.Produce(&o1) })
	o3 := r.Produce(&o2)
	vf.Ensure(len(o3.Scopes) == 1, "collected")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// Meters are requested while the provider is flushed, shut down and collected.
//
//vf:props C15
func VF_C22_provider() {
	vf.Bounded("two requests for a meter, a collection, a flush and two shutdowns concurrently")
	vf.Unroll(5)
	vf.Coarse()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r))
	ctx := context.Background()
	mp.Meter("first")
	var m1, m2 metric.Meter
	var e1, e2 error
	vf.Par(vf.Tier(1, 2),
		func() { m1 = mp.Meter("lib") },
		func() { m2 = mp.Meter("lib"); r.Produce(nil) },
		func() { mp.ForceFlush(ctx); e1 = mp.Shutdown(ctx) },
		func() { e2 = mp.Shutdown(ctx) },
	)
	_, ok1 := m1.(*meter)
	_, ok2 := m2.(*meter)
	vf.Ensure(!ok1 || !ok2 || m1 == m2, "one meter per scope")
	vf.Ensure((e1 == nil) != (e2 == nil) && (e1 == ErrAlreadyShutdown || e2 == ErrAlreadyShutdown), "one shutdown acts")
	_, ok := mp.Meter("late").(*meter)
	vf.Ensure(!ok, "meters requested after shutdown do nothing")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// A callback that observes from two goroutines, one of them possibly after the callback returned.
//
//vf:props C08 C19
func VF_C22_observe() {
	vf.Bounded("two observations by two goroutines of one callback")
	vf.Unroll(6)
	vf.Coarse()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(aggregation.CumulativeTemporality)))
	m := mp.Meter("lib")
	inst, _ := m.Int64ObservableUpDownCounter("c")
	a, _ := vfAttrs()
	s := attribute.NewSet(a)
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	leak := vf.Choose("leak", 2) == 1
	var saved metric.Observer
	_, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		if leak {
			o.ObserveInt64(inst, x, metric.WithAttributes(a))
			vf.Atomic(func() { saved = o })
			return nil
		}
		vf.Par(2,
			func() { o.ObserveInt64(inst, x, metric.WithAttributes(a)) },
			func() { o.ObserveInt64(inst, y, metric.WithAttributes(a)) },
		)
		return nil
	}, inst)
	vf.Ensure(err == nil, "registered")
	var out data.Metrics
	if leak {
		vf.Par(2,
			func() { out = r.Produce(nil) },
			func() {
				var o metric.Observer
				vf.Atomic(func() { o = saved })
				if o != nil {
					o.ObserveInt64(inst, y, metric.WithAttributes(a))
				}
			},
		)
	} else {
		out = r.Produce(nil)
	}
	v, n := vfSum(out, "c", s)
	vf.Ensure(n == 1 && (v == x || v == y), "one of the observations")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}
