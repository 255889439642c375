package metric

import (
	"context"
	"regexp"

	"github.com/lightstep/go-expohisto/structure"
	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/viewstate"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

// vfMatchers is a way of matching (or not) the instrument "a" (an int64 counter) of library lib/v1/u1.
func vfMatchers(i int) (opts []view.ClauseOption, matches bool) {
	lib := func(n, v, u string) view.ClauseOption {
		return view.MatchInstrumentationLibrary(instrumentation.Scope{Name: n, Version: v, SchemaURL: u})
	}
	one := func(o view.ClauseOption, m bool) ([]view.ClauseOption, bool) { return []view.ClauseOption{o}, m }
	switch i {
	case 0:
		return nil, true
	case 1:
		return one(view.MatchInstrumentName("a"), true)
	case 2:
		return one(view.MatchInstrumentName("aa"), false)
	case 3:
		return one(view.MatchInstrumentKind(sdkinstrument.SyncCounter), true)
	case 4:
		return one(view.MatchInstrumentKind(sdkinstrument.SyncHistogram), false)
	case 5:
		return one(view.MatchNumberKind(number.Int64Kind), true)
	case 6:
		return one(view.MatchNumberKind(number.Float64Kind), false)
	case 7:
		return one(lib("lib", "", ""), true)
	case 8:
		return one(lib("", "v2", ""), false)
	case 9:
		return one(lib("lib", "v1", "u2"), false)
	case 10:
		return one(lib("lib", "v1", "u1"), true)
	case 11:
		return one(lib("bil", "v1", ""), false)
	case 12:
		return []view.ClauseOption{view.MatchInstrumentName("a"), view.MatchNumberKind(number.Float64Kind)}, false
	case 13:
		return one(view.MatchInstrumentNameRegexp(regexp.MustCompile("^a+$")), true)
	default:
		return one(view.MatchInstrumentNameRegexp(regexp.MustCompile("^b+$")), false)
	}
}

type vfOutput struct {
	name, desc string
	kind       aggregation.Kind
	keys       []attribute.Key
}

// vfProps is a way of modifying the output.
func vfProps(i int) (opts []view.ClauseOption, out vfOutput, drops bool) {
	out = vfOutput{name: "a", desc: "desc", kind: aggregation.MonotonicSumKind}
	switch i {
	case 0:
		return
	case 1:
		out.name = "x"
		return []view.ClauseOption{view.WithName("x")}, out, false
	case 2:
		out.desc = "other"
		return []view.ClauseOption{view.WithDescription("other")}, out, false
	case 3:
		return []view.ClauseOption{view.WithAggregation(aggregation.DropKind), view.WithName("x")}, out, true
	case 4:
		out.kind = aggregation.NonMonotonicSumKind
		return []view.ClauseOption{view.WithAggregation(aggregation.NonMonotonicSumKind)}, out, false
	case 5:
		out.keys = []attribute.Key{"k"}
		return []view.ClauseOption{view.WithKeys([]attribute.Key{"k", ""})}, out, false
	case 6:
		out.keys = []attribute.Key{}
		return []view.ClauseOption{view.WithKeys([]attribute.Key{})}, out, false
	default:
		out.name, out.desc, out.kind, out.keys = "a_renamed", "d2", aggregation.MinMaxSumCountKind, []attribute.Key{"u", "z"}
		return []view.ClauseOption{view.WithRenameFunction(func(s string) string { return s + "_renamed" }), view.WithDescription("d2"),
			view.WithAggregation(aggregation.MinMaxSumCountKind), view.WithKeys([]attribute.Key{"u", "z"})}, out, false
	}
}

func vfFilter(keys []attribute.Key, kvs ...attribute.KeyValue) attribute.Set {
	if keys == nil {
		return attribute.NewSet(kvs...)
	}
	var r []attribute.KeyValue
	for _, kv := range kvs {
		for _, k := range keys {
			if kv.Key == k {
				r = append(r, kv)
			}
		}
	}
	return attribute.NewSet(r...)
}

func vfByName(m data.Metrics, name string) (n int, inst data.Instrument) {
	for _, s := range m.Scopes {
		for _, i := range s.Instruments {
			if i.Descriptor.Name == name {
				n++
				inst = i
			}
		}
	}
	return
}

// Two clauses of every form applied to one instrument.
func VF_C10_clauses() {
	vf.Bounded("two clauses out of 15x8 and one that does not match, one counter, one measurement")
	vf.Unroll(8)
	vf.Coarse()
	vfClauses(vf.Choose("m1", 15), vf.Choose("p1", 8), 0, 1)
}

// Two matching clauses.
func VF_C10_two_clauses() {
	vf.Bounded("two matching clauses out of 8 and 3, one counter, one measurement")
	vf.Unroll(8)
	vf.Coarse()
	vfClauses(1, vf.Choose("p1", 8), 1, vf.Choose("p2", 3))
}

func vfClauses(m1, p1, m2, p2 int) {
	c1, match1 := vfMatchers(m1)
	o1, out1, drop1 := vfProps(p1)
	out2 := vfOutput{name: "y", desc: "desc", kind: aggregation.MonotonicSumKind}
	match2, drop2 := m2 == 1, p2 == 2
	var c2 []view.ClauseOption
	if match2 {
		c2 = append(c2, view.MatchInstrumentName("a"))
	} else {
		c2 = append(c2, view.MatchInstrumentName("b"))
	}
	c2 = append(c2, view.WithName("y"))
	if p2 == 1 {
		c2 = append(c2, view.WithKeys([]attribute.Key{"u"}))
		out2.keys = []attribute.Key{"u"}
	} else if drop2 {
		c2 = append(c2, view.WithAggregation(aggregation.DropKind))
	}
	var want []vfOutput
	if !match1 && !match2 {
		want = []vfOutput{{name: "a", desc: "desc", kind: aggregation.MonotonicSumKind}}
	} else {
		if match1 && !drop1 {
			want = append(want, out1)
		}
		if match2 && !drop2 {
			want = append(want, out2)
		}
	}
	r, plain := NewManualReader("r"), NewManualReader("plain")
	mp := NewMeterProvider(WithReader(plain), WithReader(r, view.WithClause(append(c1, o1...)...), view.WithClause(c2...)))
	m := mp.Meter("lib", metric.WithInstrumentationVersion("v1"), metric.WithSchemaURL("u1"))
	c, err := m.Int64Counter("a", metric.WithDescription("desc"), metric.WithUnit("By"))
	vf.Ensure(err == nil, "no conflict")
	k, u, e := attribute.Int("k", 1), attribute.Int("u", 2), attribute.Int("", 3)
	v := vf.Any[int64]("v")
	vf.Assume(v > 0)
	c.Add(context.Background(), v, metric.WithAttributes(k, u, e))
	out := r.Produce(nil)
	total := 0
	for _, s := range out.Scopes {
		total += len(s.Instruments)
	}
	vf.Ensure(total == len(want), "one output per matching clause that does not drop")
	for _, w := range want {
		n, inst := vfByName(out, w.name)
		vf.Ensure(n == 1, "an output with the clause's name")
		d := inst.Descriptor
		vf.Ensure(d.Description == w.desc && d.Unit == "By" && d.Kind == sdkinstrument.SyncCounter && d.NumberKind == number.Int64Kind, "the clause's description")
		vf.Ensure(len(inst.Points) == 1, "one series")
		p := inst.Points[0]
		vf.Ensure(p.Attributes == vfFilter(w.keys, k, u), "the clause's attributes")
		vf.Ensure(p.Aggregation.Kind() == w.kind, "the clause's aggregation")
		switch s := p.Aggregation.(type) {
		case aggregation.Sum:
			vf.Ensure(number.ToInt64(s.Sum()) == v, "the value")
		case aggregation.MinMaxSumCount:
			vf.Ensure(number.ToInt64(s.Sum()) == v && s.Count() == 1, "the value")
		}
	}
	n, inst := vfByName(plain.Produce(nil), "a")
	vf.Ensure(n == 1 && len(inst.Points) == 1 && vfInt(inst.Points[0]) == v && inst.Points[0].Attributes == attribute.NewSet(k, u), "the other reader is unaffected")
}

// Instruments that are dropped never disturb collection.
func VF_C10_drop() {
	vf.Bounded("two readers, one instrument of each kind")
	vf.Unroll(8)
	vf.Coarse()
	gauge.VfSequenceOK()
	drop := []view.Option{view.WithClause(view.MatchInstrumentName("x"), view.WithAggregation(aggregation.DropKind))}
	if vf.Choose("how", 2) == 1 {
		drop = []view.Option{view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind { return aggregation.DropKind })}
	}
	r1, r2 := NewManualReader("r1"), NewManualReader("r2")
	all := vf.Choose("all", 2) == 1
	o2 := drop
	if !all {
		o2 = nil
	}
	mp := NewMeterProvider(WithReader(r1, drop...), WithReader(r2, o2...))
	m := mp.Meter("lib")
	ctx := context.Background()
	var err error
	called := 0
	cbi := func(_ context.Context, o metric.Int64Observer) error { called++; o.Observe(1); return nil }
	cbf := func(_ context.Context, o metric.Float64Observer) error { called++; o.Observe(1); return nil }
	kind := vf.Choose("kind", 14)
	switch kind {
	case 0:
		c, e := m.Int64Counter("x")
		c.Add(ctx, 1)
		err = e
	case 1:
		c, e := m.Float64Counter("x")
		c.Add(ctx, 1)
		err = e
	case 2:
		c, e := m.Int64UpDownCounter("x")
		c.Add(ctx, 1)
		err = e
	case 3:
		c, e := m.Float64UpDownCounter("x")
		c.Add(ctx, 1)
		err = e
	case 4:
		c, e := m.Int64Histogram("x")
		c.Record(ctx, 1)
		err = e
	case 5:
		c, e := m.Float64Histogram("x")
		c.Record(ctx, 1)
		err = e
	case 6:
		c, e := m.(*meter).Int64Gauge("x")
		c.Record(ctx, 1)
		err = e
	case 7:
		c, e := m.(*meter).Float64Gauge("x")
		c.Record(ctx, 1)
		err = e
	case 8:
		_, err = m.Int64ObservableCounter("x", metric.WithInt64Callback(cbi))
	case 9:
		_, err = m.Float64ObservableCounter("x", metric.WithFloat64Callback(cbf))
	case 10:
		_, err = m.Int64ObservableUpDownCounter("x", metric.WithInt64Callback(cbi))
	case 11:
		_, err = m.Float64ObservableUpDownCounter("x", metric.WithFloat64Callback(cbf))
	case 12:
		_, err = m.Int64ObservableGauge("x", metric.WithInt64Callback(cbi))
	case 13:
		_, err = m.Float64ObservableGauge("x", metric.WithFloat64Callback(cbf))
	}
	vf.Ensure(err == nil, "dropping is no error")
	y, err := m.Int64Counter("y")
	vf.Ensure(err == nil, "created")
	y.Add(ctx, 5)
	for i := 0; i < 2; i++ {
		out1 := r1.Produce(nil)
		n, _ := vfByName(out1, "x")
		vf.Ensure(n == 0, "dropped")
		out2 := r2.Produce(nil)
		n, inst := vfByName(out2, "x")
		if all {
			vf.Ensure(n == 0, "dropped for all")
		} else {
			vf.Ensure(n == 1 && len(inst.Points) == 1, "not dropped for the other reader")
			n, inst = vfByName(out2, "y")
			vf.Ensure(n == 1 && len(inst.Points) == 1 && vfInt(inst.Points[0]) == 5, "other instruments")
		}
	}
}

// Same-name definitions: shared, or separate and reported.
func VF_C11_identity() {
	vf.Bounded("two definitions of one name that differ in one aspect, one measurement each")
	vf.Unroll(8)
	vf.Coarse()
	gauge.VfSequenceOK()
	r := NewManualReader("r")
	var opts []view.Option
	diff := vf.Choose("diff", 13)
	second := "a"
	switch diff {
	case 6: // another attribute filter
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a"), view.WithKeys([]attribute.Key{"k"})))
		second = "b"
	case 9: // other attribute filters of the same size
		opts = append(opts, view.WithClause(view.MatchInstrumentName("a"), view.WithKeys([]attribute.Key{"k"})))
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a"), view.WithKeys([]attribute.Key{"j"})))
		second = "b"
	case 10: // no attributes
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a"), view.WithKeys([]attribute.Key{})))
		second = "b"
	case 11: // the same attribute filter
		opts = append(opts, view.WithClause(view.MatchInstrumentName("a"), view.WithKeys([]attribute.Key{"k", "j"})))
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a"), view.WithKeys([]attribute.Key{"j", "k"})))
		second = "b"
	case 7: // another configuration
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a"), view.WithAggregatorConfig(aggregator.Config{CardinalityLimit: 7})))
		second = "b"
	case 12: // another histogram size
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a"), view.WithAggregatorConfig(aggregator.Config{Histogram: structure.NewConfig(structure.WithMaxSize(16))})))
		second = "b"
	case 8: // another aggregation
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a"), view.WithAggregation(aggregation.MinMaxSumCountKind)))
		second = "b"
	case 2: // renamed to the same
		opts = append(opts, view.WithClause(view.MatchInstrumentName("b"), view.WithName("a")))
		second = "b"
	}
	mp := NewMeterProvider(WithReader(r, opts...), WithReader(NewManualReader("r2"), opts...))
	m := mp.Meter("lib")
	ctx := context.Background()
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	vf.Assume(x > 0 && y > 0 && x+y > 0)
	k := attribute.Int("k", 1)
	c1, err := m.Int64Counter("a", metric.WithUnit("By"), metric.WithDescription("short"))
	vf.Ensure(err == nil, "no conflict")
	c1.Add(ctx, x, metric.WithAttributes(k))
	shared := diff <= 2 || diff == 11
	desc := "short"
	switch diff {
	case 3: // unit
		c2, e := m.Int64Counter(second, metric.WithUnit("ms"), metric.WithDescription("short"))
		c2.Add(ctx, y, metric.WithAttributes(k))
		err = e
	case 4: // number kind
		c2, e := m.Float64Counter(second, metric.WithUnit("By"), metric.WithDescription("short"))
		c2.Add(ctx, 1.5, metric.WithAttributes(k))
		err = e
	case 5: // synchronicity
		_, err = m.Int64ObservableCounter(second, metric.WithUnit("By"), metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
			o.Observe(y, metric.WithAttributes(k))
			return nil
		}))
	case 1: // description
		desc = "longer text"
		c2, e := m.Int64Counter(second, metric.WithUnit("By"), metric.WithDescription(desc))
		c2.Add(ctx, y, metric.WithAttributes(k))
		err = e
	default:
		c2, e := m.Int64Counter(second, metric.WithUnit("By"), metric.WithDescription("short"))
		c2.Add(ctx, y, metric.WithAttributes(k))
		err = e
		if diff == 0 {
			vf.Ensure(c1 == c2, "the same instrument")
		}
	}
	insts := r.Produce(nil).Scopes[0].Instruments
	if shared {
		vf.Ensure(err == nil, "no conflict")
		vf.Ensure(len(insts) == 1 && len(insts[0].Points) == 1 && vfInt(insts[0].Points[0]) == x+y, "one shared output")
		vf.Ensure(insts[0].Descriptor.Description == desc, "the longer description")
		return
	}
	ce, ok := err.(viewstate.ViewConflictsError)
	vf.Ensure(ok && len(ce["r"]) != 0 && len(ce["r2"]) != 0, "a conflict is reported for both readers")
	vf.Ensure(len(insts) == 2 && len(insts[0].Points) == 1 && len(insts[1].Points) == 1, "separate outputs")
	vf.Ensure(insts[0].Descriptor.Name == "a" && insts[1].Descriptor.Name == "a", "the same name")
	vf.Ensure(vfInt(insts[0].Points[0]) == x, "the first value")
	p := insts[1].Points[0]
	set, none := attribute.NewSet(k), attribute.NewSet()
	vf.Ensure(insts[0].Points[0].Attributes == set && p.Attributes == vf.Ite(diff == 9 || diff == 10, none, set), "the attributes")
	switch s := p.Aggregation.(type) {
	case aggregation.Sum:
		if diff == 4 {
			vf.Ensure(number.ToFloat64(s.Sum()) == 1.5, "the second value")
		} else {
			vf.Ensure(number.ToInt64(s.Sum()) == y, "the second value")
		}
	case aggregation.MinMaxSumCount:
		vf.Ensure(diff == 8 && number.ToInt64(s.Sum()) == y, "the second value")
	}
	// requesting the first again still reports the conflict and yields the same instrument
	c3, err := m.Int64Counter("a", metric.WithUnit("By"), metric.WithDescription("short"))
	ce, ok = err.(viewstate.ViewConflictsError)
	vf.Ensure(ok && len(ce["r"]) != 0 && len(ce["r2"]) != 0 && c3 == c1, "the same instrument, in conflict for both readers")
}

// Incompatible aggregations are reported and replaced.
func VF_C11_semantic() {
	vf.Bounded("every instrument kind with every aggregation")
	vf.Unroll(16)
	vf.Coarse()
	gauge.VfSequenceOK()
	agg := []aggregation.Kind{aggregation.AnySumKind, aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind, aggregation.GaugeKind,
		aggregation.HistogramKind, aggregation.MinMaxSumCountKind}[vf.Choose("agg", 6)]
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, view.WithClause(view.MatchInstrumentName("x"), view.WithAggregation(agg))))
	m := mp.Meter("lib")
	ctx := context.Background()
	cbi := func(_ context.Context, o metric.Int64Observer) error { o.Observe(3); return nil }
	kind := sdkinstrument.Kind(vf.Choose("kind", int(sdkinstrument.NumKinds)))
	var err error
	switch kind {
	case sdkinstrument.SyncCounter:
		c, e := m.Int64Counter("x")
		c.Add(ctx, 3)
		err = e
	case sdkinstrument.SyncUpDownCounter:
		c, e := m.Int64UpDownCounter("x")
		c.Add(ctx, 3)
		err = e
	case sdkinstrument.SyncHistogram:
		c, e := m.Int64Histogram("x")
		c.Record(ctx, 3)
		err = e
	case sdkinstrument.SyncGauge:
		c, e := m.(*meter).Int64Gauge("x")
		c.Record(ctx, 3)
		err = e
	case sdkinstrument.AsyncCounter:
		_, err = m.Int64ObservableCounter("x", metric.WithInt64Callback(cbi))
	case sdkinstrument.AsyncUpDownCounter:
		_, err = m.Int64ObservableUpDownCounter("x", metric.WithInt64Callback(cbi))
	case sdkinstrument.AsyncGauge:
		_, err = m.Int64ObservableGauge("x", metric.WithInt64Callback(cbi))
	}
	compatible, want := false, agg
	switch kind {
	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
		compatible = agg != aggregation.GaugeKind
	case sdkinstrument.AsyncCounter:
		compatible = agg == aggregation.AnySumKind || agg == aggregation.MonotonicSumKind || agg == aggregation.NonMonotonicSumKind
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		compatible = agg == aggregation.AnySumKind || agg == aggregation.NonMonotonicSumKind
	case sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge:
		compatible = agg == aggregation.GaugeKind
	}
	if agg == aggregation.AnySumKind {
		want = aggregation.MonotonicSumKind
		if kind == sdkinstrument.SyncUpDownCounter || kind == sdkinstrument.AsyncUpDownCounter {
			want = aggregation.NonMonotonicSumKind
		}
	}
	if !compatible {
		switch kind {
		case sdkinstrument.SyncCounter, sdkinstrument.AsyncCounter:
			want = aggregation.MonotonicSumKind
		case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
			want = aggregation.NonMonotonicSumKind
		case sdkinstrument.SyncHistogram:
			want = aggregation.HistogramKind
		default:
			want = aggregation.GaugeKind
		}
	}
	vf.Ensure((err == nil) == compatible, "incompatible aggregations are reported")
	n, inst := vfByName(r.Produce(nil), "x")
	vf.Ensure(n == 1 && len(inst.Points) == 1 && inst.Points[0].Aggregation.Kind() == want, "the aggregation")
}
