package export

import (
	"context"
	"errors"
	"math"
	"time"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/minmaxsumcount"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/collector/exporter"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel/attribute"
	otelcodes "go.opentelemetry.io/otel/codes"
	metricapi "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
)

const vfKinds = 10

// vfAgg is an aggregation of the chosen kind.
func vfAgg(kind int, name string) aggregation.Aggregation {
	switch kind {
	case 0:
		return sum.NewMonotonicInt64(vf.Any[int64](name))
	case 1:
		return sum.NewNonMonotonicInt64(vf.Any[int64](name))
	case 2:
		return sum.NewMonotonicFloat64(vf.Any[float64](name))
	case 3:
		return sum.NewNonMonotonicFloat64(vf.Any[float64](name))
	case 4:
		return gauge.NewInt64(vf.Any[int64](name))
	case 5:
		return gauge.NewFloat64(vf.Any[float64](name))
	case 6:
		return minmaxsumcount.NewInt64(vf.Any[int64](name), vf.Any[int64](name+"'"))
	case 7:
		return minmaxsumcount.NewFloat64(vf.Any[float64](name), vf.Any[float64](name+"'"))
	case 8:
		return histogram.NewInt64(histogram.NewConfig(histogram.WithMaxSize(4)), vfInts[vf.Choose(name+".values", len(vfInts))]...)
	default:
		return histogram.NewFloat64(histogram.NewConfig(histogram.WithMaxSize(4)), vfFloats[vf.Choose(name+".values", len(vfFloats))]...)
	}
}

var (
	vfInts   = [][]int64{{}, {0}, {5}, {1, 3, 3, 0, 1000}, {-2, 7}}
	vfFloats = [][]float64{{}, {0}, {0.25}, {1.5, 1.5, 1.5625, 0, 2}, {1e300, 1e-300}, {-0.5, -0.75, 4, 0}}
)

func vfTemporality(t aggregation.Temporality) pmetric.AggregationTemporality {
	switch t {
	case aggregation.CumulativeTemporality:
		return pmetric.AggregationTemporalityCumulative
	case aggregation.DeltaTemporality:
		return pmetric.AggregationTemporalityDelta
	}
	return pmetric.AggregationTemporalityUnspecified
}

func vfI(n number.Number) int64   { return int64(n) }
func vfF(n number.Number) float64 { return math.Float64frombits(uint64(n)) }

func vfStamp(t time.Time) pcommon.Timestamp { return pcommon.Timestamp(t.UnixNano()) }

func vfSameBuckets(o pmetric.ExponentialHistogramDataPointBuckets, b aggregation.Buckets) bool {
	if o.BucketCounts().Len() != int(b.Len()) || b.Len() != 0 && o.Offset() != b.Offset() {
		return false
	}
	for i := 0; i < int(b.Len()); i++ {
		if o.BucketCounts().At(i) != b.At(uint32(i)) {
			return false
		}
	}
	return true
}

type vfSummary interface {
	HasMin() bool
	HasMax() bool
	HasSum() bool
	Min() float64
	Max() float64
	Sum() float64
	Count() uint64
}

// vfSummarised: the data point summarises count values with these extremes and total.
func vfSummarised(p vfSummary, count uint64, sum, min, max float64) {
	vf.Ensure(p.Count() == count, "the count")
	vf.Ensure(p.HasSum() && vf.Same(p.Sum(), sum), "the sum")
	vf.Ensure(p.HasMin() == (count != 0) && p.HasMax() == (count != 0), "extremes of nothing")
	if count != 0 {
		vf.Ensure(vf.Same(p.Min(), min) && vf.Same(p.Max(), max), "the extremes")
	}
}

func vfHistogram(a aggregation.Aggregation) (h aggregation.Histogram, sum, min, max float64) {
	switch t := a.(type) {
	case *histogram.Int64:
		return t, float64(vfI(t.Sum())), float64(vfI(t.Min())), float64(vfI(t.Max()))
	case *histogram.Float64:
		return t, vfF(t.Sum()), vfF(t.Min()), vfF(t.Max())
	}
	return nil, 0, 0, 0
}

// vfExplicit: explicit buckets with increasing bounds that hold the positive buckets.
func vfExplicit(p pmetric.HistogramDataPoint, h aggregation.Histogram, max float64) {
	n := p.BucketCounts().Len()
	vf.Ensure(p.ExplicitBounds().Len()+1 == n, "one count per bucket")
	total := uint64(0)
	for i := 0; i < n; i++ {
		total += p.BucketCounts().At(i)
	}
	want := h.ZeroCount()
	for i := uint32(0); i < h.Positive().Len(); i++ {
		want += h.Positive().At(i)
	}
	vf.Ensure(total == want, "the buckets hold all values")
	for i := 0; i+1 < n-1; i++ {
		vf.Ensure(p.ExplicitBounds().At(i) < p.ExplicitBounds().At(i+1), "the bounds increase")
	}
	vf.Ensure(p.ExplicitBounds().At(0) == 0 && p.BucketCounts().At(0) == h.ZeroCount(), "the bucket of zeros")
	if k := int(h.Positive().Len()); k != 0 {
		for i := 0; i < k; i++ {
			vf.Ensure(p.BucketCounts().At(i+2) == h.Positive().At(uint32(i)), "the positive buckets in order")
		}
		vf.Ensure(p.BucketCounts().At(1) == 0 && p.ExplicitBounds().At(k+1) >= max, "the largest value is inside")
	}
}

// vfSamePoints: the metric holds exactly these points.
func vfSamePoints(m pmetric.Metric, kind int, in []data.Point, expo bool) {
	temp := vfTemporality(in[0].Temporality)
	switch {
	case kind < 4:
		vf.Ensure(m.Type() == pmetric.MetricTypeSum, "a sum")
		s := m.Sum()
		vf.Ensure(s.IsMonotonic() == (kind%2 == 0) && s.AggregationTemporality() == temp, "monotonicity and temporality")
		vf.Ensure(s.DataPoints().Len() == len(in), "every point once")
		for i, x := range in {
			p := s.DataPoints().At(i)
			vf.Ensure(p.StartTimestamp() == vfStamp(x.Start) && p.Timestamp() == vfStamp(x.End), "the interval")
			vf.Ensure(internal.VfSameAttributes(p.Attributes(), x.Attributes.ToSlice()...), "the attributes")
			a := x.Aggregation.(aggregation.Sum).Sum()
			if kind < 2 {
				vf.Ensure(p.ValueType() == pmetric.NumberDataPointValueTypeInt && p.IntValue() == vfI(a), "the integer")
			} else {
				vf.Ensure(p.ValueType() == pmetric.NumberDataPointValueTypeDouble && vf.Same(p.DoubleValue(), vfF(a)), "the float")
			}
		}
	case kind < 6:
		vf.Ensure(m.Type() == pmetric.MetricTypeGauge, "a gauge")
		s := m.Gauge()
		vf.Ensure(s.DataPoints().Len() == len(in), "every point once")
		for i, x := range in {
			p := s.DataPoints().At(i)
			vf.Ensure(p.Timestamp() == vfStamp(x.End), "the time")
			vf.Ensure(internal.VfSameAttributes(p.Attributes(), x.Attributes.ToSlice()...), "the attributes")
			a := x.Aggregation.(aggregation.Gauge).Gauge()
			if kind == 4 {
				vf.Ensure(p.ValueType() == pmetric.NumberDataPointValueTypeInt && p.IntValue() == vfI(a), "the integer")
			} else {
				vf.Ensure(p.ValueType() == pmetric.NumberDataPointValueTypeDouble && vf.Same(p.DoubleValue(), vfF(a)), "the float")
			}
		}
	case kind < 8 || !expo:
		vf.Ensure(m.Type() == pmetric.MetricTypeHistogram, "a histogram")
		s := m.Histogram()
		vf.Ensure(s.AggregationTemporality() == temp, "temporality")
		vf.Ensure(s.DataPoints().Len() == len(in), "every point once")
		for i, x := range in {
			p := s.DataPoints().At(i)
			vf.Ensure(p.StartTimestamp() == vfStamp(x.Start) && p.Timestamp() == vfStamp(x.End), "the interval")
			vf.Ensure(internal.VfSameAttributes(p.Attributes(), x.Attributes.ToSlice()...), "the attributes")
			switch t := x.Aggregation.(type) {
			case *minmaxsumcount.Int64:
				vfSummarised(p, t.Count(), float64(vfI(t.Sum())), float64(vfI(t.Min())), float64(vfI(t.Max())))
			case *minmaxsumcount.Float64:
				vfSummarised(p, t.Count(), vfF(t.Sum()), vfF(t.Min()), vfF(t.Max()))
			default:
				h, sum, min, max := vfHistogram(x.Aggregation)
				vfSummarised(p, h.Count(), sum, min, max)
				vfExplicit(p, h, max)
			}
		}
	default:
		vf.Ensure(m.Type() == pmetric.MetricTypeExponentialHistogram, "an exponential histogram")
		s := m.ExponentialHistogram()
		vf.Ensure(s.AggregationTemporality() == temp, "temporality")
		vf.Ensure(s.DataPoints().Len() == len(in), "every point once")
		for i, x := range in {
			p := s.DataPoints().At(i)
			vf.Ensure(p.StartTimestamp() == vfStamp(x.Start) && p.Timestamp() == vfStamp(x.End), "the interval")
			vf.Ensure(internal.VfSameAttributes(p.Attributes(), x.Attributes.ToSlice()...), "the attributes")
			h, sum, min, max := vfHistogram(x.Aggregation)
			vfSummarised(p, h.Count(), sum, min, max)
			vf.Ensure(p.Scale() == h.Scale() && p.ZeroCount() == h.ZeroCount(), "scale and zeros")
			vf.Ensure(vfSameBuckets(p.Positive(), h.Positive()) && vfSameBuckets(p.Negative(), h.Negative()), "buckets")
		}
	}
}

func vfTimes(name string) (start, end time.Time) {
	return vf.Any[time.Time](name + ".start"), vf.Any[time.Time](name + ".end")
}

// Every kind of aggregation.
func VF_C12_points() {
	vf.Bounded("one instrument of each kind with up to two points; histograms of the listed values")
	vf.Unroll(16)
	vf.Coarse()
	gauge.VfSequenceOK()
	kind := vf.Choose("kind", vfKinds)
	n := 1 + vf.Choose("points", 2)
	expo := vf.Choose("expo", 2) == 1
	temp := []aggregation.Temporality{aggregation.CumulativeTemporality, aggregation.DeltaTemporality, aggregation.UndefinedTemporality}[vf.Choose("temporality", 3)]
	sets := []attribute.Set{attribute.NewSet(attribute.Int64("a", 1)), attribute.NewSet()}
	names := []string{"p0", "p1"}
	var points []data.Point
	for i := 0; i < n; i++ {
		start, end := vfTimes(names[i])
		points = append(points, data.Point{Attributes: sets[i], Temporality: temp, Aggregation: vfAgg(kind, names[i]), Start: start, End: end})
	}
	kv := attribute.Int64("r", vf.Any[int64]("r"))
	desc := sdkinstrument.Descriptor{Name: vf.Any[string]("name"), Unit: vf.Any[string]("unit"), Description: vf.Any[string]("desc")}
	lib := instrumentation.Scope{Name: vf.Any[string]("lib"), Version: vf.Any[string]("version"), SchemaURL: vf.Any[string]("url")}
	in := data.Metrics{Resource: resource.NewSchemaless(kv), Scopes: []data.Scope{{Library: lib, Instruments: []data.Instrument{{Descriptor: desc, Points: points}}}}}
	out := d2pd(&internal.ResourceMap{}, in, expo)
	vf.Ensure(out.ResourceMetrics().Len() == 1, "one resource")
	rm := out.ResourceMetrics().At(0)
	vf.Ensure(internal.VfSameAttributes(rm.Resource().Attributes(), kv), "the resource")
	vf.Ensure(rm.ScopeMetrics().Len() == 1, "one scope")
	sm := rm.ScopeMetrics().At(0)
	vf.Ensure(sm.Scope().Name() == lib.Name && sm.Scope().Version() == lib.Version && sm.SchemaUrl() == lib.SchemaURL, "the scope")
	vf.Ensure(sm.Metrics().Len() == 1, "one metric")
	m := sm.Metrics().At(0)
	vf.Ensure(m.Name() == desc.Name && m.Unit() == desc.Unit && m.Description() == desc.Description, "the descriptor")
	vfSamePoints(m, kind, points, expo)
}

// Scopes, instruments with and without points.
//
//vf:props C20
func VF_C12_structure() {
	vf.Bounded("up to two scopes of up to two instruments with or without points (thorough: up to two points each)")
	vf.Unroll(16)
	vf.Coarse()
	gauge.VfSequenceOK()
	cache := &internal.ResourceMap{}
	r, r2 := attribute.Int64("r", vf.Any[int64]("r")), attribute.Int64("r", vf.Any[int64]("r2"))
	if vf.Choose("earlier", 2) == 1 {
		d2pd(cache, data.Metrics{Resource: resource.NewSchemaless(r2)}, true)
	}
	libs := []instrumentation.Scope{{Name: "l", Version: "1"}, {Name: "l", Version: "2"}}
	descs := []sdkinstrument.Descriptor{{Name: "x"}, {Name: "y"}}
	sets := []attribute.Set{attribute.NewSet(attribute.Int64("a", 1)), attribute.NewSet(attribute.Int64("a", 2))}
	kinds := [][]int{{0, 4}, {3, 6}}
	in := data.Metrics{Resource: resource.NewSchemaless(r)}
	scopes := vf.Choose("scopes", 3)
	for i := 0; i < scopes; i++ {
		s := data.Scope{Library: libs[i]}
		insts := vf.Choose("instruments", 3)
		for j := 0; j < insts; j++ {
			x := data.Instrument{Descriptor: descs[j]}
			points := vf.Choose("points", vf.Tier(2, 3))
			for k := 0; k < points; k++ {
				x.Points = append(x.Points, data.Point{Attributes: sets[k], Temporality: aggregation.DeltaTemporality, Aggregation: vfAgg(kinds[i][j], "v"), End: time.Unix(5, 0)})
			}
			s.Instruments = append(s.Instruments, x)
		}
		in.Scopes = append(in.Scopes, s)
	}
	out := d2pd(cache, in, true)
	vf.Ensure(out.ResourceMetrics().Len() == 1 || scopes == 0, "one resource")
	total := 0
	for i := range in.Scopes {
		rm := out.ResourceMetrics().At(0)
		vf.Ensure(internal.VfSameAttributes(rm.Resource().Attributes(), r), "the resource")
		for j := range in.Scopes[i].Instruments {
			x := in.Scopes[i].Instruments[j]
			found := 0
			for a := 0; a < rm.ScopeMetrics().Len(); a++ {
				sm := rm.ScopeMetrics().At(a)
				if sm.Scope().Name() != libs[i].Name || sm.Scope().Version() != libs[i].Version {
					continue
				}
				for b := 0; b < sm.Metrics().Len(); b++ {
					if sm.Metrics().At(b).Name() == x.Descriptor.Name {
						found++
						if len(x.Points) != 0 {
							vfSamePoints(sm.Metrics().At(b), kinds[i][j], x.Points, true)
						}
					}
				}
			}
			if len(x.Points) != 0 {
				vf.Ensure(found == 1, "one metric for every instrument with points")
			} else {
				vf.Ensure(found == 0, "none for others")
			}
			total += len(x.Points)
		}
	}
	vf.Ensure(out.DataPointCount() == total, "nothing else")
}

// ---- ExportMetrics

type vfTracer struct {
	trace.Tracer
	span vfSelf
	n    int
}

func (t *vfTracer) Start(ctx context.Context, _ string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	t.n++
	return ctx, &t.span
}

type vfSelf struct {
	trace.Span
	ended int
	code  otelcodes.Code
}

func (s *vfSelf) End(...trace.SpanEndOption)           { s.ended++ }
func (s *vfSelf) SetStatus(c otelcodes.Code, _ string) { s.code = c }
func (s *vfSelf) SetAttributes(...attribute.KeyValue)  {}

type vfCounter struct {
	metricapi.Int64Counter
	n     int64
	calls int
	set   attribute.Set
}

func (c *vfCounter) Add(_ context.Context, n int64, opts ...metricapi.AddOption) {
	c.n += n
	c.calls++
	c.set = metricapi.NewAddConfig(opts).Attributes()
}

type vfExporter struct {
	exporter.Metrics
	err   error
	calls int
	got   int
	bad   bool // the exporter drops what it was given
}

func (e *vfExporter) ConsumeMetrics(_ context.Context, m pmetric.Metrics) error {
	e.calls++
	e.got += m.DataPointCount()
	if e.bad {
		m.ResourceMetrics().RemoveIf(func(pmetric.ResourceMetrics) bool { return true })
	}
	return e.err
}

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

// The outcome of an export is returned and counted.
func VF_C12_export() {
	vf.Bounded("up to two points")
	vf.Unroll(8)
	vf.Coarse()
	tr, cnt, e := &vfTracer{}, &vfCounter{}, &vfExporter{bad: vf.Choose("owns", 2) == 1}
	state := "ok"
	switch vf.Choose("err", 4) {
	case 1:
		e.err, state = context.Canceled, "canceled"
		vf.Assume(e.err != nil)
	case 2:
		e.err, state = context.DeadlineExceeded, "timeout"
		vf.Assume(e.err != nil && !errors.Is(e.err, context.Canceled))
	case 3:
		e.err, state = &vfErr{"other"}, "error"
	}
	n := vf.Choose("n", 3)
	points := []data.Point{{Aggregation: sum.NewMonotonicInt64(1)}, {Aggregation: sum.NewMonotonicInt64(2)}}[:n]
	in := data.Metrics{Resource: resource.Empty(), Scopes: []data.Scope{{Instruments: []data.Instrument{{Points: points}}}}}
	err := ExportMetrics(context.Background(), in, tr, cnt, &internal.ResourceMap{}, e, true)
	vf.Ensure(err == e.err, "the outcome is returned")
	vf.Ensure(e.calls == 1 && e.got == n && cnt.n == int64(n) && cnt.calls == 1, "every point is exported and counted")
	vf.Ensure(cnt.set == attribute.NewSet(attribute.Bool("success", e.err == nil), attribute.String("state", state)), "counted with the outcome")
	want := otelcodes.Ok
	if e.err != nil {
		want = otelcodes.Error
	}
	vf.Ensure(tr.n == 1 && tr.span.ended == 1 && tr.span.code == want, "the export span")
}
