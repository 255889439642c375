package viewstate

import (
	"strings"

	"github.com/lightstep/go-expohisto/structure"
	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
)

// The parser's result for a description, and what was reported.
var (
	vfHint     view.Hint
	vfHintErr  error
	vfReported int
)

type vfParseErr struct{}

func (*vfParseErr) Error() string { return "parse error" }

// vfUnmarshal may fill the hint even when it fails.
//
//vf:stub encoding/json.Unmarshal
func vfUnmarshal(_ []byte, v any) error {
	*(v.(*view.Hint)) = vfHint
	return vfHintErr
}

//vf:stub go.opentelemetry.io/otel.Handle
func vfHandle(error) { vfReported++ }

var vfAllKinds = []sdkinstrument.Kind{
	sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncGauge,
	sdkinstrument.AsyncCounter, sdkinstrument.AsyncUpDownCounter, sdkinstrument.AsyncGauge,
}

// vfParsedKind is the aggregation a hint names.
func vfParsedKind(s string) (aggregation.Kind, bool) {
	switch strings.ToLower(s) {
	case "drop":
		return aggregation.DropKind, true
	case "sum":
		return aggregation.AnySumKind, true
	case "monotonic_sum":
		return aggregation.MonotonicSumKind, true
	case "nonmonotonic_sum":
		return aggregation.NonMonotonicSumKind, true
	case "gauge":
		return aggregation.GaugeKind, true
	case "histogram", "exponential_histogram":
		return aggregation.HistogramKind, true
	case "minmaxsumcount":
		return aggregation.MinMaxSumCountKind, true
	}
	return aggregation.UndefinedKind, false
}

func vfHistogramConfig(size int32) structure.Config {
	return structure.NewConfig(structure.WithMaxSize(size))
}

// vfAnyHint is any hint with the given contents.
func vfAnyHint() {
	vfHint = view.Hint{Description: vf.Any[string]("text"), Aggregation: vf.Any[string]("aggregation"), Temporality: vf.Any[string]("temporality")}
	vfHint.Config.Histogram.MaxSize = vf.Any[int32]("size")
	vfHint.Config.CardinalityLimit = vf.Any[uint32]("limit")
}

// vfDefaults are any valid configured defaults.
func vfDefaults() (cfgI, cfgF aggregator.Config, opt view.Option) {
	one := func(name string) aggregator.Config {
		size, limit := vf.Any[int32](name+".size"), vf.Any[uint32](name+".limit")
		vf.Assume(size >= structure.MinSize && size <= structure.MaximumMaxSize && limit != 0)
		return aggregator.Config{Histogram: vfHistogramConfig(size), CardinalityLimit: limit}
	}
	cfgI, cfgF = one("int"), one("float")
	return cfgI, cfgF, view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) { return cfgI, cfgF })
}

type vfSettings struct {
	kind     sdkinstrument.Kind
	desc     sdkinstrument.Descriptor
	cfg      aggregator.Config
	c        *Compiler
	leaf     leafInstrument
	conflict error
}

// vfSetup is an instrument with any description and any defaults.
func vfSetup(kinds int) *vfSettings {
	s := &vfSettings{kind: vfAllKinds[vf.Choose("kind", kinds)]}
	nk := number.Kind(vf.Choose("number", 2))
	cfgI, cfgF, opt := vfDefaults()
	s.cfg = cfgI
	if nk == number.Float64Kind {
		s.cfg = cfgF
	}
	s.c = vfCompiler(opt)
	s.desc = vfDesc(s.kind, nk)
	s.desc.Description = vf.Any[string]("description")
	vfHintErr, vfReported = nil, 0
	return s
}

func (s *vfSettings) run() {
	inst, conflicts := s.c.Compile(s.desc)
	vf.Ensure(conflicts.AsError() == nil, "no conflict")
	s.leaf = nil
	if inst == nil {
		vf.Ensure(len(s.c.Collectors()) == 0, "dropped")
		return
	}
	vf.Ensure(len(s.c.Collectors()) == 1, "one output")
	s.leaf = inst.(leafInstrument)
	d := s.leaf.Descriptor()
	vf.Ensure(d.Name == s.desc.Name && d.Kind == s.desc.Kind && d.NumberKind == s.desc.NumberKind && d.Unit == s.desc.Unit, "the instrument")
}

// A description that is not a hint is untouched, and reported if it looks like one.
func VF_C21_not_a_hint() {
	vf.Coarse()
	vfAnyHint()
	s := vfSetup(len(vfAllKinds))
	vfHintErr = &vfParseErr{}
	s.run()
	vf.Ensure(s.leaf.Descriptor() == s.desc && s.leaf.Aggregation() == view.StandardAggregationKind(s.kind) && s.leaf.Config() == s.cfg, "untouched")
	n := 0
	if strings.Contains(s.desc.Description, "{") {
		n = 1
	}
	vf.Ensure(vfReported == n, "reported")
}

// vfWanted is the aggregation of an instrument with a hint, if it has one.
func vfWanted(kind sdkinstrument.Kind, hint string) aggregation.Kind {
	k, ok := vfParsedKind(hint)
	if !ok {
		return view.StandardAggregationKind(kind)
	}
	if k == aggregation.AnySumKind {
		return vfSum(kind)
	}
	return k
}

// Not every instrument kind has every aggregation.
func vfSupported(kind sdkinstrument.Kind, a aggregation.Kind) bool {
	return a != aggregation.UndefinedKind && (kind.Synchronous() || a != aggregation.HistogramKind && a != aggregation.MinMaxSumCountKind)
}

// The hint's description and aggregation.
func VF_C21_aggregation() {
	vf.Coarse()
	s := vfSetup(vf.Tier(2, len(vfAllKinds)))
	vf.Assume(strings.Contains(s.desc.Description, "{"))
	vfHint = view.Hint{Description: vf.Any[string]("text"), Aggregation: vf.Any[string]("aggregation")}
	want := vfWanted(s.kind, vfHint.Aggregation)
	vf.Assume(vfSupported(s.kind, want))
	s.run()
	_, ok := vfParsedKind(vfHint.Aggregation)
	vf.Ensure(vfReported == vf.Ite(ok || vfHint.Aggregation == "", 0, 1), "a wrong name is reported")
	if want == aggregation.DropKind {
		vf.Ensure(s.leaf == nil, "dropped")
		return
	}
	vf.Ensure(s.leaf.Descriptor().Description == vfHint.Description, "the hint's description")
	vf.Ensure(s.leaf.Config() == s.cfg, "the default configuration")
	vf.Ensure(s.leaf.Aggregation() == want, "the hint's aggregation, or the default one")
}

// The hint's configuration, after invalid names too.
func VF_C21_config() {
	vf.Coarse()
	s := vfSetup(vf.Tier(2, len(vfAllKinds)))
	vf.Assume(strings.Contains(s.desc.Description, "{"))
	vfAnyHint()
	bad := vf.Choose("bad names", 2)
	if bad == 1 {
		vfHint.Aggregation, vfHint.Temporality = "bogus", "bogus"
	} else {
		vfHint.Aggregation, vfHint.Temporality = "", ""
	}
	s.run()
	vf.Ensure(s.leaf.Aggregation() == view.StandardAggregationKind(s.kind), "the default aggregation")
	reports := 2 * bad
	size := vfHint.Config.Histogram.MaxSize
	acfg := s.leaf.Config()
	switch {
	case size == 0:
		vf.Ensure(acfg.Histogram == s.cfg.Histogram, "the default size")
	case size >= structure.MinSize && size <= structure.MaximumMaxSize:
		vf.Ensure(acfg.Histogram == vfHistogramConfig(size), "the hint's size")
	default:
		vf.Ensure(acfg.Histogram.Valid(), "a valid size")
		reports++
	}
	if vfHint.Config.CardinalityLimit == 0 {
		vf.Ensure(acfg.CardinalityLimit == s.cfg.CardinalityLimit, "the default limit")
	} else {
		vf.Ensure(acfg.CardinalityLimit == vfHint.Config.CardinalityLimit, "the hint's limit")
	}
	vf.Ensure(vfReported == reports, "every invalid field is reported, and nothing else")
}

var (
	vfHintKinds = []string{"", "sum", "monotonic_sum", "nonmonotonic_sum", "gauge", "histogram", "minmaxsumcount", "Drop", "bogus"}
)

// vfSum is the kind of sum of an instrument kind.
func vfSum(k sdkinstrument.Kind) aggregation.Kind {
	switch k {
	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram, sdkinstrument.AsyncCounter:
		return aggregation.MonotonicSumKind
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		return aggregation.NonMonotonicSumKind
	}
	return aggregation.UndefinedKind
}

// The outputs of an instrument with a hint, for every kind and number, and
// view clauses that choose everything, something or nothing.
//
//vf:props C10 C11
func VF_C21_outputs() {
	vf.Bounded("up to one matching clause of five forms")
	vf.Unroll(8)
	vf.Coarse()
	kind := vfAllKinds[vf.Choose("kind", len(vfAllKinds))]
	nk := number.Kind(vf.Tier(int(kind)%2, vf.Choose("number", 2)))
	cfgI, cfgF, opt := vfDefaults()
	cfg := cfgI
	if nk == number.Float64Kind {
		cfg = cfgF
	}
	vfAnyHint()
	vfHint.Aggregation = vfHintKinds[vf.Choose("aggregation", len(vfHintKinds))]
	vfHint.Temporality = ""
	vfHintErr, vfReported = nil, 0
	opts := []view.Option{opt}
	vcfg := aggregator.Config{Histogram: vfHistogramConfig(7), CardinalityLimit: 77}
	clause := vf.Choose("clause", 6)
	desc, name := vfHint.Description, "inst"
	match := view.MatchInstrumentName("inst")
	want := vfWanted(kind, vfHint.Aggregation)
	wcfg := cfg
	if s := vfHint.Config.Histogram.MaxSize; s != 0 {
		vf.Assume(s >= structure.MinSize && s <= structure.MaximumMaxSize)
		wcfg.Histogram = vfHistogramConfig(s)
	}
	if l := vfHint.Config.CardinalityLimit; l != 0 {
		wcfg.CardinalityLimit = l
	}
	compatible := true
	switch clause {
	case 1: // chooses nothing
		opts = append(opts, view.WithClause(match))
	case 2: // chooses a name and description
		opts = append(opts, view.WithClause(match, view.WithName("other"), view.WithDescription("mine")))
		desc, name = "mine", "other"
	case 3: // chooses an aggregation for histograms only
		opts = append(opts, view.WithClause(match, view.WithAggregation(aggregation.MinMaxSumCountKind)))
		want = aggregation.MinMaxSumCountKind
		if kind != sdkinstrument.SyncCounter && kind != sdkinstrument.SyncHistogram {
			want, compatible = view.StandardAggregationKind(kind), false
		}
	case 4: // chooses a configuration
		opts = append(opts, view.WithClause(match, view.WithAggregatorConfig(vcfg)))
		wcfg = vcfg
	case 5: // drops
		opts = append(opts, view.WithClause(match, view.WithAggregation(aggregation.DropKind)))
		want = aggregation.DropKind
	}
	vf.Assume(vfSupported(kind, want))
	views, err := view.Validate(view.New("reader", sdkinstrument.Performance{}, opts...))
	vf.Ensure(err == nil, "the views are valid")
	c := New(vfLib, views)
	d := vfDesc(kind, nk)
	d.Description = "{"
	inst, conflicts := c.Compile(d)
	vf.Ensure((conflicts.AsError() == nil) == compatible, "only an incompatible view is reported")
	if want == aggregation.DropKind {
		vf.Ensure(inst == nil && len(c.Collectors()) == 0, "dropped")
		return
	}
	vf.Ensure(len(c.Collectors()) == 1, "one output")
	leaf := inst.(leafInstrument)
	vf.Ensure(leaf.Descriptor() == sdkinstrument.NewDescriptor(name, kind, nk, desc, "unit"), "its descriptor")
	vf.Ensure(leaf.Aggregation() == want, "its aggregation")
	vf.Ensure(leaf.Config() == wcfg, "its configuration")
	invalid := 0
	if vfHint.Aggregation == "bogus" {
		invalid = 1
	}
	vf.Ensure(vfReported == invalid, "what is invalid is reported")
}

// The hint's temporality, or the default one, is that of the data.
func VF_C21_temporality() {
	vf.Bounded("one measurement")
	vf.Unroll(8)
	vf.Coarse()
	gauge.VfSequenceOK()
	kind := vfAllKinds[vf.Choose("kind", len(vfAllKinds))]
	vfHint = view.Hint{Temporality: vf.Any[string]("temporality")}
	vfHintErr, vfReported = nil, 0
	tempo := vfTempo()
	c := vfCompiler(vfTempoOpt(tempo), view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) {
		cfg := aggregator.Config{CardinalityLimit: 10, Histogram: vfHistogramConfig(4)}
		return cfg, cfg
	}))
	d := vfDesc(kind, number.Int64Kind)
	d.Description = vf.Any[string]("description")
	vf.Assume(strings.Contains(d.Description, "{"))
	inst, _ := c.Compile(d)
	acc := inst.NewAccumulator(attribute.NewSet())
	acc.(Updater[int64]).Update(3)
	acc.SnapshotAndProcess(true)
	n := 0
	switch strings.ToLower(vfHint.Temporality) {
	case "delta":
		tempo = aggregation.DeltaTemporality
	case "cumulative":
		tempo = aggregation.CumulativeTemporality
	case "":
	default:
		n = 1
	}
	vf.Ensure(vfReported == n, "a wrong name is reported")
	if kind == sdkinstrument.AsyncGauge {
		tempo = aggregation.CumulativeTemporality
	}
	seq := vfSeq("seq")
	var out []data.Instrument
	c.Collectors()[0].Collect(seq, &out)
	vf.Ensure(len(out) == 1 && len(out[0].Points) == 1 && vfTimes(out[0].Points[0], tempo, seq), "the temporality")
}
