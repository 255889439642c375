package metric

import (
	"context"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

func vfFloat(p data.Point) float64 {
	return number.ToFloat64(p.Aggregation.(aggregation.Sum).Sum())
}

// Every kind of sum instrument, through both ways of passing attributes.
//
//vf:props C05
func VF_C01_api_kinds() {
	vf.Bounded("one instrument of each kind, one series, three measurements, two collections")
	vf.Unroll(4)
	vf.Coarse()
	tempo := vfTempo()
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(tempo)))
	m := mp.Meter("lib")
	ctx := context.Background()
	a, _ := vfAttrs()
	x, y, z := vf.Any[int64]("x"), vf.Any[int64]("y"), vf.Any[int64]("z")
	fx, fy := 0.1, 2.5
	vf.Assume(x > 0 && y > 0 && z > 0 && x != y && x+y != 0)
	kind := vf.Choose("kind", 4)
	var add func(n int64, f float64)
	var fast func(n int64, f float64)
	switch kind {
	case 0:
		c, err := m.Int64Counter("c")
		vf.Ensure(err == nil, "created")
		add = func(n int64, _ float64) { c.Add(ctx, n, metric.WithAttributes(a)) }
		fast = func(n int64, _ float64) { c.(bypass.FastInt64Adder).AddWithKeyValues(ctx, n, a) }
	case 1:
		c, err := m.Int64UpDownCounter("c")
		vf.Ensure(err == nil, "created")
		x, y, z = -x, y, -z
		add = func(n int64, _ float64) { c.Add(ctx, n, metric.WithAttributes(a)) }
		fast = func(n int64, _ float64) { c.(bypass.FastInt64Adder).AddWithKeyValues(ctx, n, a) }
	case 2:
		c, err := m.Float64Counter("c")
		vf.Ensure(err == nil, "created")
		add = func(_ int64, f float64) { c.Add(ctx, f, metric.WithAttributes(a)) }
		fast = func(_ int64, f float64) { c.(bypass.FastFloat64Adder).AddWithKeyValues(ctx, f, a) }
	case 3:
		c, err := m.Float64UpDownCounter("c")
		vf.Ensure(err == nil, "created")
		fx = -fx
		add = func(_ int64, f float64) { c.Add(ctx, f, metric.WithAttributes(a)) }
		fast = func(_ int64, f float64) { c.(bypass.FastFloat64Adder).AddWithKeyValues(ctx, f, a) }
	}
	add(x, fx)
	fast(y, fy)
	pts := vfPoints(r.Produce(nil), 0, 0)
	n, p := vfFind(pts, attribute.NewSet(a))
	vf.Ensure(n == 1 && len(pts) == 1, "one series")
	if kind < 2 {
		vf.Ensure(vfInt(p) == x+y, "the first sum")
	} else {
		vf.Ensure(vfFloat(p) == fx+fy, "the first sum")
	}
	vf.Ensure((p.Aggregation.Kind() == aggregation.MonotonicSumKind) == (kind == 0 || kind == 2), "only counters are monotonic")
	vf.Ensure(p.Temporality == tempo, "temporality")
	fast(z, fy)
	pts = vfPoints(r.Produce(nil), 0, 0)
	n, p = vfFind(pts, attribute.NewSet(a))
	vf.Ensure(n == 1 && len(pts) == 1, "one series")
	cum := tempo == aggregation.CumulativeTemporality
	if kind < 2 {
		vf.Ensure(vfInt(p) == vf.Ite(cum, x+y+z, z), "the second sum")
	} else {
		vf.Ensure(vfFloat(p) == vf.Ite(cum, fx+fy+fy, fy), "the second sum")
	}
	pts = vfPoints(r.Produce(nil), 0, 0)
	if cum {
		vf.Ensure(len(pts) == 1, "cumulative sums are repeated")
	} else {
		vf.Ensure(len(pts) == 0, "no change, no delta")
	}
}

// A gauge reports the most recent value, also when a view maps several series to one.
func VF_C03_api_gauge() {
	vf.Bounded("one gauge, three measurements of two series, three collections")
	gauge.VfSequenceOK()
	vf.Unroll(4)
	vf.Coarse()
	tempo := vfTempo()
	merged := vf.Choose("merged", 2) == 1
	var opts = []view.Option{vfTempoOpt(tempo)}
	if merged {
		opts = append(opts, view.WithClause(view.MatchInstrumentName("g"), view.WithKeys([]attribute.Key{"k"})))
	}
	r := NewManualReader("r")
	mp := NewMeterProvider(WithReader(r, opts...))
	m := mp.Meter("lib")
	ctx := context.Background()
	isInt := vf.Choose("int", 2) == 1
	var set func(v int64, kvs ...attribute.KeyValue)
	var get func(p data.Point) int64
	if isInt {
		g, err := m.(interface {
			Int64Gauge(string, ...metric.Int64GaugeOption) (metric.Int64Gauge, error)
		}).Int64Gauge("g")
		vf.Ensure(err == nil, "created")
		set = func(v int64, kvs ...attribute.KeyValue) { g.Record(ctx, v, metric.WithAttributes(kvs...)) }
		get = vfGaugeInt
	} else {
		g, err := m.(interface {
			Float64Gauge(string, ...metric.Float64GaugeOption) (metric.Float64Gauge, error)
		}).Float64Gauge("g")
		vf.Ensure(err == nil, "created")
		set = func(v int64, kvs ...attribute.KeyValue) { g.Record(ctx, float64(v), metric.WithAttributes(kvs...)) }
		get = func(p data.Point) int64 { return int64(number.ToFloat64(p.Aggregation.(aggregation.Gauge).Gauge())) }
	}
	k1, u1, u2 := attribute.Int("k", 1), attribute.Int("u", 1), attribute.Int("u", 2)
	vals := []int64{5, -7, 9}
	a := vals[vf.Choose("a", 3)]
	set(3, k1, u1)
	set(4, k1, u2)
	if vf.Choose("again", 2) == 1 {
		set(a, k1, u1)
	} else {
		set(a, k1, u2)
		k1, u1, u2 = attribute.Int("k", 1), u2, u1
	}
	other := int64(3)
	if u1 == attribute.Int("u", 1) {
		other = 4
	}
	pts := vfPoints(r.Produce(nil), 0, 0)
	if merged {
		n, p := vfFind(pts, attribute.NewSet(k1))
		vf.Ensure(n == 1 && len(pts) == 1 && get(p) == a, "the most recent of all mapped series")
	} else {
		n, p := vfFind(pts, attribute.NewSet(k1, u1))
		n2, p2 := vfFind(pts, attribute.NewSet(k1, u2))
		vf.Ensure(n == 1 && n2 == 1 && len(pts) == 2 && get(p) == a && get(p2) == other, "the most recent of each series")
	}
	pts = vfPoints(r.Produce(nil), 0, 0)
	if tempo == aggregation.DeltaTemporality {
		vf.Ensure(len(pts) == 0, "nothing was recorded")
	} else {
		n, p := vfFind(pts, attribute.NewSet(k1, u1))
		n2, p2 := vfFind(pts, attribute.NewSet(k1))
		vf.Ensure(n == 1 && get(p) == a || n2 == 1 && get(p2) == a, "the last value is repeated")
	}
	set(11, k1, u2)
	pts = vfPoints(r.Produce(nil), 0, 0)
	if merged {
		n, p := vfFind(pts, attribute.NewSet(k1))
		vf.Ensure(n == 1 && len(pts) == 1 && get(p) == 11, "the newest")
	} else {
		n, p := vfFind(pts, attribute.NewSet(k1, u2))
		vf.Ensure(n == 1 && get(p) == 11 && (len(pts) == 1) == (tempo == aggregation.DeltaTemporality), "the newest of its series")
	}
}

// Histograms and min/max/sum/count summaries through the public API.
func VF_C02_api_summaries() {
	vf.Bounded("up to three recorded values out of three, two collections")
	vf.Unroll(400)
	vf.Coarse()
	tempo := vfTempo()
	r := NewManualReader("r")
	var cfg aggregator.Config
	cfg.Histogram = histogram.NewConfig(histogram.WithMaxSize(4))
	mp := NewMeterProvider(WithReader(r, vfTempoOpt(tempo),
		view.WithClause(view.MatchInstrumentName("h"), view.WithAggregatorConfig(cfg)),
		view.WithClause(view.MatchInstrumentName("h"), view.WithName("m"), view.WithAggregation(aggregation.MinMaxSumCountKind))))
	m := mp.Meter("lib")
	ctx := context.Background()
	a, b := vfAttrs()
	h, err := m.Float64Histogram("h")
	vf.Ensure(err == nil, "created")
	vals := []float64{1, 3, 1e10}
	x, y, z := vals[vf.Choose("x", 3)], vals[vf.Choose("y", 3)], vals[vf.Choose("z", 3)]
	h.Record(ctx, x, metric.WithAttributes(a))
	h.(bypass.FastFloat64Recorder).RecordWithKeyValues(ctx, y, a)
	h.Record(ctx, 8, metric.WithAttributes(b))
	check := func(out data.Metrics, vs ...float64) {
		want := histogram.NewFloat64(cfg.Histogram, vs...)
		n, p := vfFind(vfPoints(out, 0, 0), attribute.NewSet(a))
		vf.Ensure(n == 1 && histogram.VfSameHistogram(p.Aggregation.(aggregation.Histogram), want), "the histogram")
		n, p = vfFind(vfPoints(out, 0, 1), attribute.NewSet(a))
		s := p.Aggregation.(aggregation.MinMaxSumCount)
		vf.Ensure(n == 1 && s.Count() == want.Count() && s.Sum() == want.Sum() && s.Min() == want.Min() && s.Max() == want.Max(), "the summary")
	}
	check(r.Produce(nil), x, y)
	h.Record(ctx, z, metric.WithAttributes(a))
	if tempo == aggregation.DeltaTemporality {
		check(r.Produce(nil), z)
	} else {
		check(r.Produce(nil), x, y, z)
	}
	pts := vfPoints(r.Produce(nil), 0, 0)
	vf.Ensure((len(pts) == 0) == (tempo == aggregation.DeltaTemporality), "deltas only report changes")
}

// Intervals of two readers that collect at different times.
func VF_C07_intervals() {
	vf.Bounded("one counter and one observable, two readers, up to six collections")
	vf.Unroll(4)
	vf.Coarse()
	dr, cr := NewManualReader("d"), NewManualReader("c")
	mp := NewMeterProvider(WithReader(dr, vfTempoOpt(aggregation.DeltaTemporality)), WithReader(cr, vfTempoOpt(aggregation.CumulativeTemporality)))
	m := mp.Meter("lib")
	ctx := context.Background()
	c, _ := m.Int64Counter("c")
	obs := int64(0)
	_, err := m.Int64ObservableCounter("o", metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
		obs++
		o.Observe(obs)
		return nil
	}))
	vf.Ensure(err == nil, "created")
	one := func(r *ManualReader, tempo aggregation.Temporality) data.Point {
		c.Add(ctx, 1)
		out := r.Produce(nil)
		ps, po := vfPoints(out, 0, 0), vfPoints(out, 0, 1)
		vf.Ensure(len(ps) == 1 && len(po) == 1, "one point each")
		vf.Ensure(ps[0].Start == po[0].Start && ps[0].End == po[0].End, "one interval per collection")
		vf.Ensure(ps[0].Temporality == tempo && po[0].Temporality == tempo, "temporality")
		return ps[0]
	}
	mid := func() {
		if vf.Choose("mid", 2) == 1 {
			one(cr, aggregation.CumulativeTemporality)
		}
	}
	start := one(cr, aggregation.CumulativeTemporality)
	d1 := one(dr, aggregation.DeltaTemporality)
	mid()
	d2 := one(dr, aggregation.DeltaTemporality)
	d3 := one(dr, aggregation.DeltaTemporality)
	end := one(cr, aggregation.CumulativeTemporality)
	vf.Ensure(start.Start == end.Start, "cumulative points keep their start")
	vf.Ensure(d1.Start == start.Start, "the first delta starts with the provider")
	vf.Ensure(d2.Start == d1.End && d3.Start == d2.End, "deltas are contiguous")
}
