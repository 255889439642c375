package viewstate

import (
	"time"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/pipeline"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

var vfLib = instrumentation.Scope{Name: "lib", Version: "v1"}

func vfTempoOpt(tempo aggregation.Temporality) view.Option {
	return view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return tempo })
}

func vfLimitOpt(limit uint32) view.Option {
	return view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) {
		cfg := aggregator.Config{CardinalityLimit: limit}
		return cfg, cfg
	})
}

func vfCompiler(opts ...view.Option) *Compiler {
	return New(vfLib, view.New("reader", sdkinstrument.Performance{}.Validate(), opts...))
}

func vfDesc(kind sdkinstrument.Kind, nk number.Kind) sdkinstrument.Descriptor {
	return sdkinstrument.NewDescriptor("inst", kind, nk, "desc", "unit")
}

func vfCompile(c *Compiler, kind sdkinstrument.Kind, nk number.Kind) Instrument {
	inst, _ := c.Compile(vfDesc(kind, nk))
	return inst
}

func vfSeq(name string) data.Sequence {
	return data.Sequence{Start: vf.Any[time.Time](name + ".start"), Last: vf.Any[time.Time](name + ".last"), Now: vf.Any[time.Time](name + ".now")}
}

// vfSets are two different attribute sets without empty keys.
func vfSets() (attribute.Set, attribute.Set) {
	a, b := vf.AnyKV("a"), vf.AnyKV("b")
	vf.Assume(a.Key != "" && b.Key != "" && vf.Implies(!vf.Symbolic(), a != b))
	s, t := attribute.NewSet(a), attribute.NewSet(b)
	vf.Assume(s != t)
	return s, t
}

func vfInt(p data.Point) int64 {
	return number.ToInt64(p.Aggregation.(aggregation.Sum).Sum())
}

// vfFind counts the points with these attributes and returns the last one.
func vfFind(ps []data.Point, s attribute.Set) (n int, p data.Point) {
	for _, x := range ps {
		if x.Attributes == s {
			n++
			p = x
		}
	}
	return
}

// vfTimes says that the interval and temporality of a point are right.
func vfTimes(p data.Point, tempo aggregation.Temporality, seq data.Sequence) bool {
	start := seq.Start
	if tempo == aggregation.DeltaTemporality {
		start = seq.Last
	}
	return p.Temporality == tempo && vf.Same(p.Start, start) && vf.Same(p.End, seq.Now)
}

func vfTempo() aggregation.Temporality {
	if vf.Choose("tempo", 2) == 0 {
		return aggregation.DeltaTemporality
	}
	return aggregation.CumulativeTemporality
}

func vfSyncKind() (sdkinstrument.Kind, aggregation.Kind) {
	switch vf.Choose("kind", 2) {
	case 0:
		return sdkinstrument.SyncCounter, aggregation.MonotonicSumKind
	}
	return sdkinstrument.SyncUpDownCounter, aggregation.NonMonotonicSumKind
}

// Two series of a synchronous sum through two collections: every value is reported exactly once,
// under its own attributes, with the right temporality and interval; memory passed in for re-use
// and later measurements do not disturb what is or was returned.
//
//vf:props C05 C07 C14
func VF_C01_sync_flow() {
	vf.Bounded("two series, two collections, four measurements")
	tempo := vfTempo()
	kind, akind := vfSyncKind()
	c := vfCompiler(vfTempoOpt(tempo))
	inst := vfCompile(c, kind, number.Int64Kind)
	s, t := vfSets()
	as, at := inst.NewAccumulator(s), inst.NewAccumulator(t)
	a, b, d, e := vf.Any[int64]("a"), vf.Any[int64]("b"), vf.Any[int64]("d"), vf.Any[int64]("e")
	as.(Updater[int64]).Update(a)
	as.(Updater[int64]).Update(b)
	at.(Updater[int64]).Update(d)
	as.SnapshotAndProcess(false)
	at.SnapshotAndProcess(vf.Choose("release", 2) == 1)
	var out []data.Instrument
	q := vfSeq("q1")
	c.Collectors()[0].Collect(q, &out)
	vf.Ensure(len(out) == 1 && out[0].Descriptor == vfDesc(kind, number.Int64Kind), "one instrument with its descriptor")
	delta := tempo == aggregation.DeltaTemporality
	pts := out[0].Points
	ns, ps := vfFind(pts, s)
	nt, pt := vfFind(pts, t)
	vf.Ensure(ns+nt == len(pts), "no other series")
	vf.Ensure(ns == 1 || ns == 0 && delta && a+b == 0, "the first series is reported once (delta: if it changed)")
	vf.Ensure(nt == 1 || nt == 0 && delta && d == 0, "the second series is reported once (delta: if it changed)")
	vf.Ensure(ns == 0 || vfInt(ps) == a+b && vfTimes(ps, tempo, q) && ps.Aggregation.Kind() == akind, "the first series has its total")
	vf.Ensure(nt == 0 || vfInt(pt) == d && vfTimes(pt, tempo, q) && pt.Aggregation.Kind() == akind, "the second series has its total")

	// later measurements do not change returned data
	as.(Updater[int64]).Update(e)
	as.SnapshotAndProcess(false)
	vf.Ensure(ns == 0 || vfInt(ps) == a+b, "returned data is not changed by later measurements")

	// second collection, in re-used or new memory
	var out2 []data.Instrument
	if vf.Choose("reuse", 2) == 1 {
		for i := range out {
			out[i].Reset()
		}
		out2 = out[:0]
	}
	q2 := vfSeq("q2")
	c.Collectors()[0].Collect(q2, &out2)
	vf.Ensure(len(out2) == 1, "one instrument")
	ns, ps = vfFind(out2[0].Points, s)
	nt, pt = vfFind(out2[0].Points, t)
	want := e
	if !delta {
		want = a + b + e
	}
	vf.Ensure(ns+nt == len(out2[0].Points), "no other series")
	vf.Ensure(ns == 1 || ns == 0 && delta && e == 0, "the changed series is reported once")
	vf.Ensure(ns == 0 || vfInt(ps) == want && vfTimes(ps, tempo, q2), "the changed series has its total")
	vf.Ensure(nt == 0 && delta || nt == 1 && !delta && vfInt(pt) == d && vfTimes(pt, tempo, q2), "the unchanged series: omitted (delta) or repeated (cumulative)")
	vf.Ensure(ns == 0 || nt == 0 || ps.Aggregation != pt.Aggregation, "points own their storage")
}

// A released series of a delta reader is forgotten only once its data has been reported.
//
//vf:props C04 C06
func VF_C01_sync_release() {
	vf.Bounded("one series released and re-created, three collections")
	c := vfCompiler(vfTempoOpt(aggregation.DeltaTemporality))
	inst := vfCompile(c, sdkinstrument.SyncCounter, number.Int64Kind)
	s, _ := vfSets()
	acc := inst.NewAccumulator(s)
	a, b := vf.Any[int64]("a"), vf.Any[int64]("b")
	vf.Assume(a != 0 && b != 0)
	acc.(Updater[int64]).Update(a)
	acc.SnapshotAndProcess(true)
	early := vf.Choose("early", 2) == 1
	var acc2 Accumulator
	if early {
		acc2 = inst.NewAccumulator(s)
	}
	coll := c.Collectors()[0]
	var out []data.Instrument
	coll.Collect(vfSeq("q1"), &out)
	n, p := vfFind(out[0].Points, s)
	vf.Ensure(n == 1 && vfInt(p) == a, "the released data is reported")
	vf.Ensure(coll.InMemorySize() == 1, "the entry is kept while it reported data")
	var out2 []data.Instrument
	coll.Collect(vfSeq("q2"), &out2)
	vf.Ensure(len(out2) == 1 && len(out2[0].Points) == 0, "nothing is reported twice")
	vf.Ensure(coll.InMemorySize() == vf.Ite(early, 1, 0), "an unreferenced, unchanged entry is removed, a referenced one is not")
	if !early {
		acc2 = inst.NewAccumulator(s)
	}
	acc2.(Updater[int64]).Update(b)
	acc2.SnapshotAndProcess(false)
	var out3 []data.Instrument
	coll.Collect(vfSeq("q3"), &out3)
	n, p = vfFind(out3[0].Points, s)
	vf.Ensure(n == 1 && vfInt(p) == b, "a new series with the same attributes reports its data")
}

// getOrCreateEntry on a map of any size: the limit holds and overflow keeps the data.
func VF_C06_entry() {
	limit := vf.Any[uint32]("limit")
	vf.Assume(limit >= 1)
	vf.Assume(vf.Implies(!vf.Symbolic(), limit < 6))
	c := vfCompiler(vfTempoOpt(aggregation.DeltaTemporality), vfLimitOpt(limit))
	inst := vfCompile(c, sdkinstrument.SyncCounter, number.Int64Kind)
	type leaf = lowmemorySyncInstrument[int64, sumState, sumMethods]
	p := inst.(*leaf)
	if vf.Symbolic() {
		p.data = vf.AnyMap[attribute.Set, *storageHolder[sumState, int64]]("data")
		vf.Assume(len(p.data) <= int(limit))
		if len(p.data) == int(limit) {
			h, has := p.data[pipeline.OverflowAttributeSet]
			vf.Assume(has && h != nil)
		}
	} else {
		for i := vf.Choose("native", 6); i > 0; i-- {
			p.findStorage(vf.AnySet("x"))
		}
	}
	k, other := vf.AnySet("k"), vf.AnySet("other")
	old, had := p.data[k]
	ooth, ohad := p.data[other]
	oof, ofhad := p.data[pipeline.OverflowAttributeSet]
	n0 := len(p.data)
	e := p.getOrCreateEntry(k)
	now, has := p.data[k]
	of, ofhas := p.data[pipeline.OverflowAttributeSet]
	n1 := len(p.data)
	vf.Ensure(n1 <= int(limit), "the number of series stays within the limit")
	vf.Ensure(n1 == int(limit) && !ofhas == false || n1 < int(limit), "a full map has the overflow series")
	vf.Ensure(vf.Implies(had, e == old && n1 == n0), "an existing series is used")
	vf.Ensure(vf.Implies(has, e == now) && vf.Implies(!has, ofhas && e == of), "a new series, or the overflow series")
	vf.Ensure(vf.Implies(!had && has && k != pipeline.OverflowAttributeSet, n0 < int(limit)), "no series above the limit")
	vf.Ensure(vf.Implies(!had && !has, n0 >= int(limit)-1), "overflow only when the limit is reached")
	vf.Ensure(vf.Implies(ohad, vf.Eval(func() bool { x, ok := p.data[other]; return ok && x == ooth })), "existing series are kept")
	vf.Ensure(vf.Implies(ofhad, ofhas && of == oof), "the overflow series is kept")
	vf.Ensure(n1-n0 <= 1, "at most one series is added")
}

// A gauge whose first measurement has not been processed is not reported.
func VF_C03_unset() {
	vf.Bounded("one series, two collections")
	gauge.VfSequenceOK()
	c := vfCompiler(vfTempoOpt(vfTempo()))
	inst := vfCompile(c, sdkinstrument.SyncGauge, number.Int64Kind)
	s, _ := vfSets()
	acc := inst.NewAccumulator(s)
	if vf.Choose("processed", 2) == 1 {
		acc.SnapshotAndProcess(false)
	}
	var out, out2 []data.Instrument
	c.Collectors()[0].Collect(vfSeq("q1"), &out)
	vf.Ensure(len(out) == 1 && len(out[0].Points) == 0, "no value was recorded")
	a := vf.Any[int64]("a")
	acc.(Updater[int64]).Update(a)
	acc.SnapshotAndProcess(false)
	c.Collectors()[0].Collect(vfSeq("q2"), &out2)
	vf.Ensure(len(out2) == 1 && len(out2[0].Points) == 1 && out2[0].Points[0].Attributes == s, "one series")
	vf.Ensure(number.ToInt64(out2[0].Points[0].Aggregation.(aggregation.Gauge).Gauge()) == a, "the recorded value")
}
