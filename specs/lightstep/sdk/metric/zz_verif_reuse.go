package metric

import (
	"context"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

// vfDirty is memory from some earlier collection, possibly of another provider.
func vfDirty(shape int) *data.Metrics {
	old := data.Metrics{Resource: &resource.Resource{}}
	point := func(v int64) data.Point {
		return data.Point{Attributes: attribute.NewSet(attribute.Int("stale", 1)), Temporality: aggregation.DeltaTemporality, Aggregation: gauge.NewInt64(v)}
	}
	inst := func(n int) data.Instrument {
		i := data.Instrument{Descriptor: sdkinstrument.NewDescriptor("stale", sdkinstrument.SyncGauge, number.Float64Kind, "stale", "stale")}
		for k := 0; k < n; k++ {
			i.Points = append(i.Points, point(int64(n)))
		}
		return i
	}
	scope := func(ns ...int) data.Scope {
		s := data.Scope{}
		s.Library.Name, s.Library.Version, s.Library.SchemaURL = "stale", "stale", "stale"
		for _, n := range ns {
			s.Instruments = append(s.Instruments, inst(n))
		}
		return s
	}
	switch shape {
	case 0:
		old.Scopes = append(old.Scopes, scope(1))
	case 1:
		old.Scopes = append(old.Scopes, scope(3, 0, 1, 2), scope(), scope(2))
	case 2:
		old.Scopes = append(old.Scopes, scope(0, 5))
		old.Reset() // an empty collection follows
		old.Scopes = append(old.Scopes, data.Scope{})[:0]
	case 3:
		old.Scopes = make([]data.Scope, 0, 4)
	}
	return &old
}

func vfSameAgg(a, b aggregation.Aggregation) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch x := a.(type) {
	case aggregation.Sum:
		return x.Sum() == b.(aggregation.Sum).Sum()
	case aggregation.Gauge:
		return x.Gauge() == b.(aggregation.Gauge).Gauge()
	case aggregation.MinMaxSumCount:
		y := b.(aggregation.MinMaxSumCount)
		return x.Sum() == y.Sum() && x.Count() == y.Count() && x.Min() == y.Min() && x.Max() == y.Max()
	case aggregation.Histogram:
		return histogram.VfSameHistogram(x, b.(aggregation.Histogram))
	}
	return false
}

// vfSameMetrics compares two collections up to the order of points and their times.
func vfSameMetrics(a, b data.Metrics, times bool) bool {
	if a.Resource != b.Resource || len(a.Scopes) != len(b.Scopes) {
		return false
	}
	for i := range a.Scopes {
		x, y := a.Scopes[i], b.Scopes[i]
		if x.Library != y.Library || len(x.Instruments) != len(y.Instruments) {
			return false
		}
		for j := range x.Instruments {
			p, q := x.Instruments[j], y.Instruments[j]
			if p.Descriptor != q.Descriptor || len(p.Points) != len(q.Points) {
				return false
			}
			for _, z := range p.Points {
				n, w := vfFind(q.Points, z.Attributes)
				if n != 1 || z.Temporality != w.Temporality || !vfSameAgg(z.Aggregation, w.Aggregation) || times && (z.Start != w.Start || z.End != w.End) {
					return false
				}
			}
		}
	}
	return true
}

// vfWorld is a provider with one instrument of each sort, used identically by several readers.
func vfWorld(opts []view.Option, rs ...*ManualReader) (use func(i int64), n int) {
	gauge.VfSequenceOK()
	var os []Option
	for _, r := range rs {
		os = append(os, WithReader(r, opts...))
	}
	mp := NewMeterProvider(os...)
	m, m2 := mp.Meter("lib1", metric.WithInstrumentationVersion("1")), mp.Meter("lib2")
	ctx := context.Background()
	a, b := vfAttrs()
	c, _ := m.Int64Counter("c")
	h, _ := m.Float64Histogram("h")
	s, _ := m.Float64Histogram("s")
	cur := int64(0)
	_, err := m2.Int64ObservableUpDownCounter("o", metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
		o.Observe(cur, metric.WithAttributes(a))
		o.Observe(-cur, metric.WithAttributes(b))
		return nil
	}))
	vf.Ensure(err == nil, "created")
	g, _ := m2.(*meter).Int64Gauge("g")
	return func(i int64) {
		cur = i
		c.Add(ctx, i, metric.WithAttributes(a))
		c.Add(ctx, i+1, metric.WithAttributes(b))
		h.Record(ctx, float64(i), metric.WithAttributes(a))
		h.Record(ctx, float64(2*i), metric.WithAttributes(b))
		s.Record(ctx, float64(i), metric.WithAttributes(a))
		g.Record(ctx, i, metric.WithAttributes(a))
	}, 5
}

func vfWorldOpts(tempo aggregation.Temporality) []view.Option {
	return []view.Option{vfTempoOpt(tempo), view.WithClause(view.MatchInstrumentName("s"), view.WithAggregation(aggregation.MinMaxSumCountKind))}
}

// What is collected into re-used memory is what is collected into new memory.
func VF_C14_reuse() {
	vf.Bounded("five instruments in two scopes, two collections, four shapes of re-used memory")
	vf.Unroll(400)
	vf.Coarse()
	opts := vfWorldOpts(vfTempo())
	r1, r2 := NewManualReader("r1"), NewManualReader("r2")
	use, _ := vfWorld(opts, r1, r2)
	use(3)
	want := r1.Produce(nil)
	mem := vfDirty(vf.Choose("dirty", 4))
	got := r2.Produce(mem)
	vf.Ensure(vfSameMetrics(want, got, false), "re-used memory makes no difference")
	if vf.Choose("quiet", 2) == 0 {
		use(5)
	}
	want = r1.Produce(nil)
	got = r2.Produce(&got)
	vf.Ensure(vfSameMetrics(want, got, false), "re-used memory makes no difference again")
	got = r2.Produce(&got)
	vf.Ensure(vfSameMetrics(r1.Produce(nil), got, false), "re-used memory makes no difference when nothing happens")
}

// Collected data does not change afterwards.
func VF_C14_aliasing() {
	vf.Bounded("five instruments in two scopes, three collections")
	vf.Unroll(400)
	vf.Coarse()
	opts := vfWorldOpts(vfTempo())
	// two readers see the same; the first one's data is kept, the second one's compared at once
	r := NewManualReader("r")
	use, _ := vfWorld(opts, r)
	use(3)
	if vf.Choose("before", 2) == 1 {
		r.Produce(nil)
		use(2)
	}
	one := r.Produce(nil)
	var sum int64
	snap := make([]number.Number, 0, 32)
	read := func(m data.Metrics) {
		snap = snap[:0]
		for _, s := range m.Scopes {
			for _, i := range s.Instruments {
				for _, p := range i.Points {
					switch x := p.Aggregation.(type) {
					case aggregation.Sum:
						snap = append(snap, x.Sum())
					case aggregation.Gauge:
						snap = append(snap, x.Gauge())
					case aggregation.Histogram:
						snap = append(snap, x.Sum(), number.Number(x.Count()), x.Min(), x.Max(), number.Number(x.Positive().Len()), number.Number(x.Positive().At(0)))
					case aggregation.MinMaxSumCount:
						snap = append(snap, x.Sum(), number.Number(x.Count()), x.Min(), x.Max())
					}
				}
			}
		}
	}
	_ = sum
	read(one)
	before := append([]number.Number(nil), snap...)
	use(7)
	r.Produce(nil)
	use(9)
	r.Produce(nil)
	read(one)
	vf.Ensure(len(before) == len(snap) && len(before) > 10, "all points")
	same := true
	for i := range before {
		same = same && before[i] == snap[i]
	}
	vf.Ensure(same, "collected data stays")
	// storage is not shared within a collection
	for i, s := range one.Scopes {
		for j, t := range one.Scopes {
			vf.Ensure(i == j || !vf.SameArray(s.Instruments, t.Instruments), "scopes have their own instruments")
		}
		for k, x := range s.Instruments {
			for l, y := range s.Instruments {
				vf.Ensure(k == l || !vf.SameArray(x.Points, y.Points), "instruments have their own points")
			}
			for u, p := range x.Points {
				for v, q := range x.Points {
					vf.Ensure(u == v || p.Aggregation != q.Aggregation, "points have their own storage")
				}
			}
		}
	}
}
