package metric

import (
	"context"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

func vfTempoOpt(tempo aggregation.Temporality) view.Option {
	return view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return tempo })
}

func vfTempo() aggregation.Temporality {
	if vf.Choose("tempo", 2) == 0 {
		return aggregation.DeltaTemporality
	}
	return aggregation.CumulativeTemporality
}

// vfAttrs are two different attributes.
func vfAttrs() (attribute.KeyValue, attribute.KeyValue) {
	return attribute.Int64("a", 1), attribute.Int64("a", 2)
}

func vfInt(p data.Point) int64 {
	return number.ToInt64(p.Aggregation.(aggregation.Sum).Sum())
}

func vfFind(ps []data.Point, s attribute.Set) (n int, p data.Point) {
	for _, x := range ps {
		if x.Attributes == s {
			n++
			p = x
		}
	}
	return
}

// Measurements through the public API to two readers.
//
//vf:props C05 C07
func VF_C01_api_flow() {
	vf.Bounded("one counter, two series, two readers, three measurements")
	vf.Unroll(4)
	vf.Coarse()
	r1, r2 := NewManualReader("r1"), NewManualReader("r2")
	mp := NewMeterProvider(WithReader(r1, vfTempoOpt(aggregation.DeltaTemporality)), WithReader(r2, vfTempoOpt(aggregation.CumulativeTemporality)))
	m := mp.Meter("lib")
	c, err := m.Int64Counter("c")
	vf.Ensure(err == nil, "no error")
	ctx := context.Background()
	a, b := vfAttrs()
	x, y, z := vf.Any[int64]("x"), vf.Any[int64]("y"), vf.Any[int64]("z")
	vf.Assume(x > 0 && y > 0 && z > 0)
	c.Add(ctx, x, metric.WithAttributes(a))
	c.Add(ctx, y, metric.WithAttributes(b))
	o1 := r1.Produce(nil)
	vf.Ensure(len(o1.Scopes) == 1 && len(o1.Scopes[0].Instruments) == 1, "one instrument")
	pts := o1.Scopes[0].Instruments[0].Points
	n, p := vfFind(pts, attribute.NewSet(a))
	vf.Ensure(n == 1 && vfInt(p) == x, "first series")
	n, p = vfFind(pts, attribute.NewSet(b))
	vf.Ensure(n == 1 && vfInt(p) == y, "second series")
	vf.Ensure(len(pts) == 2, "no other series")
	c.Add(ctx, z, metric.WithAttributes(a))
	o2 := r1.Produce(nil)
	pts = o2.Scopes[0].Instruments[0].Points
	n, p = vfFind(pts, attribute.NewSet(a))
	vf.Ensure(n == 1 && vfInt(p) == z && len(pts) == 1, "the second delta")
	o3 := r2.Produce(nil)
	pts = o3.Scopes[0].Instruments[0].Points
	n, p = vfFind(pts, attribute.NewSet(a))
	vf.Ensure(n == 1 && vfInt(p) == x+z, "the cumulative value")
	n, p = vfFind(pts, attribute.NewSet(b))
	vf.Ensure(n == 1 && vfInt(p) == y && len(pts) == 2, "the other cumulative value")
}
