package viewstate

import (
	"github.com/lightstep/go-expohisto/structure"
	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
)

// A series is released, collected and used anew at the same time: no value is lost or repeated.
//
//vf:props C04 C07 C22
func VF_C01_viewstate_concurrent() {
	vf.Bounded("one series released and re-created during a collection")
	vf.Unroll(4)
	tempo := vfTempo()
	kind, _ := vfSyncKind()
	c := vfCompiler(vfTempoOpt(tempo))
	inst := vfCompile(c, kind, number.Int64Kind)
	s, _ := vfSets()
	acc := inst.NewAccumulator(s)
	a, b, d := vf.Any[int64]("a"), vf.Any[int64]("b"), vf.Any[int64]("d")
	if kind == sdkinstrument.SyncCounter {
		vf.Assume(a > 0 && b > 0 && d > 0)
	}
	want := b + d
	if vf.Choose("before", 2) == 1 {
		acc.(Updater[int64]).Update(a)
		acc.SnapshotAndProcess(false)
		want += a
	}
	coll := c.Collectors()[0]
	var out1, out2 []data.Instrument
	vf.Par(2,
		func() {
			acc.(Updater[int64]).Update(b)
			acc.SnapshotAndProcess(true)
		},
		func() { coll.Collect(vfSeq("q1"), &out1) },
		func() {
			acc2 := inst.NewAccumulator(s)
			acc2.(Updater[int64]).Update(d)
			acc2.SnapshotAndProcess(false)
		},
	)
	coll.Collect(vfSeq("q2"), &out2)
	var got int64
	for _, o := range [][]data.Instrument{out1, out2} {
		vf.Ensure(len(o) == 1, "one instrument")
		n, p := vfFind(o[0].Points, s)
		vf.Ensure(n == len(o[0].Points) && n <= 1, "one series")
		if tempo == aggregation.CumulativeTemporality {
			got = 0
		}
		if n == 1 {
			got += vfInt(p)
		}
	}
	vf.Ensure(got == want, "every value is reported exactly once")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// Two values and the processing of an accumulator concurrent with a collection, for every kind
// of aggregation.
//
//vf:props C01 C03 C07 C22
func VF_C02_aggregations_concurrent() {
	vf.Bounded("two values recorded during a collection")
	vf.Unroll(8)
	gauge.VfSequenceOK()
	tempo := vfTempo()
	which := vf.Choose("aggregation", 3)
	agg := []aggregation.Kind{aggregation.HistogramKind, aggregation.MinMaxSumCountKind, aggregation.GaugeKind}[which]
	c := vfCompiler(vfTempoOpt(tempo), view.WithDefaultAggregationKindSelector(func(sdkinstrument.Kind) aggregation.Kind { return agg }), view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) {
		cfg := aggregator.Config{Histogram: structure.NewConfig(structure.WithMaxSize(4))}
		return cfg, cfg
	}))
	kind := sdkinstrument.SyncHistogram
	if agg == aggregation.GaugeKind {
		kind = sdkinstrument.SyncGauge
	}
	inst := vfCompile(c, kind, number.Float64Kind)
	s, _ := vfSets()
	acc := inst.NewAccumulator(s)
	coll := c.Collectors()[0]
	var out1, out2 []data.Instrument
	vf.Par(2,
		func() {
			acc.(Updater[float64]).Update(2)
			acc.(Updater[float64]).Update(5)
		},
		func() {
			acc.SnapshotAndProcess(false)
			coll.Collect(vfSeq("q1"), &out1)
		},
	)
	acc.SnapshotAndProcess(false)
	coll.Collect(vfSeq("q2"), &out2)
	var count uint64
	var sum, low, high, last float64
	for _, o := range [][]data.Instrument{out1, out2} {
		vf.Ensure(len(o) == 1, "one instrument")
		n, p := vfFind(o[0].Points, s)
		vf.Ensure(n == len(o[0].Points) && n <= 1, "one series")
		if n == 0 {
			continue
		}
		if tempo == aggregation.CumulativeTemporality {
			count, sum, low = 0, 0, 0
		}
		switch x := p.Aggregation.(type) {
		case aggregation.Histogram:
			count += x.Count()
			sum += x.Sum().CoerceToFloat64(number.Float64Kind)
			vf.Ensure(x.Count() == x.ZeroCount()+vfBuckets(x.Positive()) && x.Negative().Len() == 0, "the buckets add up to the count")
		case aggregation.MinMaxSumCount:
			count += x.Count()
			sum += x.Sum().CoerceToFloat64(number.Float64Kind)
			if x.Count() != 0 {
				if low == 0 || x.Min().CoerceToFloat64(number.Float64Kind) < low {
					low = x.Min().CoerceToFloat64(number.Float64Kind)
				}
				if h := x.Max().CoerceToFloat64(number.Float64Kind); h > high {
					high = h
				}
			}
		case aggregation.Gauge:
			last = x.Gauge().CoerceToFloat64(number.Float64Kind)
			vf.Ensure(last == 5 || last == 2, "a gauge reports recorded values")
		}
	}
	switch which {
	case 0:
		vf.Ensure(count == 2 && sum == 7, "histogram values are reported exactly once")
	case 1:
		vf.Ensure(count == 2 && sum == 7 && low == 2 && high == 5, "values are summarised exactly once")
	case 2:
		vf.Ensure(last == 5, "the last value is reported")
	}
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

func vfBuckets(b aggregation.Buckets) (n uint64) {
	for i := uint32(0); i < b.Len(); i++ {
		n += b.At(i)
	}
	return
}
