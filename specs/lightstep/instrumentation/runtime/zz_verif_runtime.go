package runtime

import (
	"context"
	"errors"
	"runtime/metrics"
	"strings"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

// ---- matching

// vfMatches: a pattern stands for its own name, or with a wildcard for all names
// that have something in its place.
func vfMatches(pat, name string) bool {
	if strings.Count(pat, "*") == 0 {
		return name == pat
	}
	pfx, sfx, _ := strings.Cut(pat, "*")
	return len(name) >= len(pat) && strings.HasPrefix(name, pfx) && strings.HasSuffix(name, sfx)
}

// vfFamilies is any list of descriptions.
func vfFamilies() (*builtinDescriptor, []*builtinMetricFamily, int, int) {
	n := vf.Len("n")
	bd := &builtinDescriptor{families: vf.AnySlice[*builtinMetricFamily]("families", n)}
	fs := bd.families
	vf.Assume(vf.All(n, func(k int) bool { return fs[k] != nil }))
	i := vf.Pick("i", n)
	vf.Assume(0 <= i && i < n && fs[i] != nil)
	return bd, fs, n, i
}

// The family of any name in any list of patterns is one that matches.
func VF_C23_family() {
	name := vf.Any[string]("name")
	bd, _, _, _ := vfFamilies()
	vf.LoopInv(func(_ int, matches int) bool { return matches >= 0 })
	vf.LoopInv(func(_ int, matches int, f *builtinMetricFamily) bool { return (matches == 0) == (f == nil) })
	vf.LoopInv(func(_ int, f *builtinMetricFamily) bool { return f == nil || vfMatches(f.pattern, name) })
	f, err := bd.findFamily(name)
	vf.Ensure((err == nil) == (f != nil), "found or an error")
	if err == nil {
		vf.Ensure(vfMatches(f.pattern, name), "what is found matches")
	}
}

// It is the only one that matches.
func VF_C23_family_unique() {
	name := vf.Any[string]("name")
	bd, fs, _, i := vfFamilies()
	vf.Assume(vfMatches(fs[i].pattern, name))
	vf.LoopInv(func(_ int, matches int) bool { return matches >= 0 })
	vf.LoopInv(func(k int, matches int) bool { return vf.Implies(i < k, matches >= 1) })
	vf.LoopInv(func(k int, matches int, f *builtinMetricFamily) bool {
		return vf.Implies(matches == 1 && i < k, f == fs[i])
	})
	f, err := bd.findFamily(name)
	vf.Ensure(vf.Implies(err == nil, f == fs[i]), "what is found is the only one that matches")
}

// A name that matches once is recognised.
func VF_C23_family_found() {
	name := vf.Any[string]("name")
	bd, fs, n, i := vfFamilies()
	vf.Assume(vf.All(n, func(k int) bool { return strings.Count(fs[k].pattern, "*") <= 1 }))
	vf.Assume(vfMatches(fs[i].pattern, name))
	vf.Assume(vf.All(n, func(k int) bool { return k == i || !vfMatches(fs[k].pattern, name) }))
	vf.LoopInv(func(k int, matches int) bool { return matches == vf.Ite(i < k, 1, 0) })
	vf.LoopInv(func(k int, f *builtinMetricFamily) bool { return vf.Implies(i < k, f == fs[i]) })
	f, err := bd.findFamily(name)
	vf.Ensure(err == nil && f == fs[i], "a name that matches once is recognised")
}

type vfEntry struct {
	pfx, sfx string // the pattern, with a wildcard between if wild
	wild     bool
	kind     builtinKind
}

var vfTable = []vfEntry{
	{"/godebug/non-default-behavior/", ":events", true, builtinSkip},
	{"/cpu/classes/", ":cpu-seconds", true, builtinCounter},
	{"/gc/cycles/", ":gc-cycles", true, builtinCounter},
	{"/memory/classes/", ":bytes", true, builtinUpDownCounter},
	{"/gc/scan/", ":bytes", true, builtinUpDownCounter},
	{"/gc/heap/allocs-by-size:bytes", "", false, builtinHistogram},
	{"/gc/heap/frees-by-size:bytes", "", false, builtinHistogram},
	{"/gc/pauses:seconds", "", false, builtinHistogram},
	{"/sched/latencies:seconds", "", false, builtinHistogram},
	{"/sched/pauses/stopping/gc:seconds", "", false, builtinHistogram},
	{"/sched/pauses/stopping/other:seconds", "", false, builtinHistogram},
	{"/sched/pauses/total/gc:seconds", "", false, builtinHistogram},
	{"/sched/pauses/total/other:seconds", "", false, builtinHistogram},
	{"/gc/heap/allocs:", "", true, builtinObjectBytesCounter},
	{"/gc/heap/frees:", "", true, builtinObjectBytesCounter},
	{"/cgo/go-to-c-calls:calls", "", false, builtinCounter},
	{"/gc/heap/tiny/allocs:objects", "", false, builtinCounter},
	{"/sync/mutex/wait/total:seconds", "", false, builtinCounter},
	{"/gc/gogc:percent", "", false, builtinGauge},
	{"/gc/gomemlimit:bytes", "", false, builtinGauge},
	{"/gc/heap/goal:bytes", "", false, builtinGauge},
	{"/gc/heap/live:bytes", "", false, builtinGauge},
	{"/gc/limiter/last-enabled:gc-cycle", "", false, builtinGauge},
	{"/gc/stack/starting-size:bytes", "", false, builtinGauge},
	{"/sched/gomaxprocs:threads", "", false, builtinGauge},
	{"/gc/heap/objects:objects", "", false, builtinUpDownCounter},
	{"/sched/goroutines:goroutines", "", false, builtinUpDownCounter},
}

// Any runtime metric name is given the kind of its description, and no other.
func VF_C23_kinds() {
	vf.Unroll(32)
	vf.Coarse()
	e := vfTable[vf.Choose("entry", len(vfTable))]
	name := e.pfx
	if e.wild {
		mid := vf.Any[string]("middle")
		vf.Assume(len(mid) > 0)
		name = e.pfx + mid + e.sfx
	}
	bd := expectRuntimeMetrics()
	vf.Ensure(len(bd.families) == len(vfTable), "the descriptions")
	f, err := bd.findFamily(name)
	vf.Ensure(err == nil && f.kind == e.kind, "the kind described")
}

type vfName struct {
	name, mname, unit string
	attrs             []string
	kind              builtinKind
	err               bool
}

var vfNames = []vfName{
	{"/cgo/go-to-c-calls:calls", "process.runtime.go.cgo.go-to-c-calls", "{calls}", nil, builtinCounter, false},
	{"/gc/heap/allocs:bytes", "process.runtime.go.gc.heap.allocs", "By", nil, builtinCounter, false},
	{"/gc/heap/allocs:objects", "process.runtime.go.gc.heap.allocs.objects", "", nil, builtinCounter, false},
	{"/gc/heap/frees:bytes", "process.runtime.go.gc.heap.frees", "By", nil, builtinCounter, false},
	{"/gc/heap/frees:objects", "process.runtime.go.gc.heap.frees.objects", "", nil, builtinCounter, false},
	{"/gc/cycles/automatic:gc-cycles", "process.runtime.go.gc.cycles", "{gc-cycles}", []string{"automatic"}, builtinCounter, false},
	{"/gc/cycles/forced:gc-cycles", "process.runtime.go.gc.cycles", "{gc-cycles}", []string{"forced"}, builtinCounter, false},
	{"/gc/cycles/total:gc-cycles", "", "", nil, builtinSkip, false},
	{"/cpu/classes/gc/mark/assist:cpu-seconds", "process.runtime.go.cpu.time", "{cpu-seconds}", []string{"gc", "mark", "assist"}, builtinCounter, false},
	{"/cpu/classes/gc/pause:cpu-seconds", "process.runtime.go.cpu.time", "{cpu-seconds}", []string{"gc", "pause"}, builtinCounter, false},
	{"/cpu/classes/gc/total:cpu-seconds", "", "", nil, builtinSkip, false},
	{"/cpu/classes/total:cpu-seconds", "", "", nil, builtinSkip, false},
	{"/cpu/classes/total/x:cpu-seconds", "process.runtime.go.cpu.time", "{cpu-seconds}", []string{"total", "x"}, builtinCounter, false},
	{"/cpu/classes/idle:cpu-seconds", "process.runtime.go.cpu.time", "{cpu-seconds}", []string{"idle"}, builtinCounter, false},
	{"/cpu/classes/u:cpu-seconds", "process.runtime.go.cpu.time", "{cpu-seconds}", []string{"u"}, builtinCounter, false},
	{"/memory/classes/heap/free:bytes", "process.runtime.go.memory.usage", "By", []string{"heap", "free"}, builtinUpDownCounter, false},
	{"/memory/classes/metadata/mcache/inuse:bytes", "process.runtime.go.memory.usage", "By", []string{"metadata", "mcache", "inuse"}, builtinUpDownCounter, false},
	{"/memory/classes/a/b/c/d:bytes", "process.runtime.go.memory.usage", "By", []string{"a", "b", "c", "d"}, builtinUpDownCounter, false},
	{"/memory/classes/total:bytes", "", "", nil, builtinSkip, false},
	{"/gc/scan/globals:bytes", "process.runtime.go.gc.scan", "By", []string{"globals"}, builtinUpDownCounter, false},
	{"/gc/scan/total:bytes", "", "", nil, builtinSkip, false},
	{"/gc/gogc:percent", "process.runtime.go.gc.gogc", "{percent}", nil, builtinGauge, false},
	{"/gc/gomemlimit:bytes", "process.runtime.go.gc.gomemlimit", "By", nil, builtinGauge, false},
	{"/gc/heap/objects:objects", "process.runtime.go.gc.heap.objects", "{objects}", nil, builtinUpDownCounter, false},
	{"/gc/heap/tiny/allocs:objects", "process.runtime.go.gc.heap.tiny.allocs", "{objects}", nil, builtinCounter, false},
	{"/gc/limiter/last-enabled:gc-cycle", "process.runtime.go.gc.limiter.last-enabled", "{gc-cycle}", nil, builtinGauge, false},
	{"/sync/mutex/wait/total:seconds", "process.runtime.go.sync.mutex.wait.total", "s", nil, builtinCounter, false},
	{"/sched/gomaxprocs:threads", "process.runtime.go.sched.gomaxprocs", "{threads}", nil, builtinGauge, false},
	{"/sched/goroutines:goroutines", "process.runtime.go.sched.goroutines", "{goroutines}", nil, builtinUpDownCounter, false},
	{"/sched/latencies:seconds", "process.runtime.go.sched.latencies", "s", nil, builtinHistogram, false},
	{"/gc/heap/allocs-by-size:bytes", "process.runtime.go.gc.heap.allocs-by-size", "By", nil, builtinHistogram, false},
	{"/godebug/non-default-behavior/gocachehash:events", "process.runtime.go.godebug.non-default-behavior", "{events}", []string{"gocachehash"}, builtinSkip, false},
	{"/gc/gogc:percentage", "", "", nil, builtinSkip, true},
	{"/gc/gogc", "", "", nil, builtinSkip, true},
	{"/sched/goroutines:goroutines/x", "", "", nil, builtinSkip, true},
	{"/cpu/classes/:cpu-seconds", "", "", nil, builtinSkip, true},
	{"/cpu/classes/idle:seconds", "", "", nil, builtinSkip, true},
	{"/memory/classes/heap/free:objects", "", "", nil, builtinSkip, true},
	{"/new/metric:bytes", "", "", nil, builtinSkip, true},
	{"", "", "", nil, builtinSkip, true},
}

func vfSameAttrs(got []attribute.KeyValue, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	keys := []attribute.Key{"class", "class2", "class3", "class4"}
	for i, w := range want {
		if got[i] != keys[i].String(w) {
			return false
		}
	}
	return true
}

// Names, units and attributes as documented.
func VF_C23_names() {
	vf.Bounded("forty names, known and unknown")
	vf.Unroll(64)
	vf.Coarse()
	e := vfNames[vf.Choose("name", len(vfNames))]
	mname, unit, _, attrs, kind, err := expectRuntimeMetrics().findMatch(e.name)
	vf.Ensure((err != nil) == e.err, "unknown names are errors")
	vf.Ensure(kind == e.kind, "kind")
	vf.Ensure(mname == e.mname && unit == e.unit, "name and unit")
	vf.Ensure(vfSameAttrs(attrs, e.attrs), "attributes")
}

// Any class is reported under its name, totals are skipped.
func VF_C23_objects_and_bytes() {
	vf.Unroll(32)
	vf.Coarse()
	unit := vf.Any[string]("unit")
	vf.Assume(len(unit) > 0 && strings.Count(unit, ":") == 0)
	name := "/gc/heap/frees:" + unit
	_, _, _, attrs, kind, err := expectRuntimeMetrics().findMatch(name)
	vf.Ensure(err == nil && kind == builtinCounter && len(attrs) == 0, "a counter without attributes")
}

// ---- registration and observation

type vfInst struct {
	metric.Float64Observable
	metric.Int64Observable
	name, unit string
	float      bool
	kind       builtinKind
}

type vfIntC struct {
	metric.Int64ObservableCounter
	i *vfInst
}
type vfIntU struct {
	metric.Int64ObservableUpDownCounter
	i *vfInst
}
type vfIntG struct {
	metric.Int64ObservableGauge
	i *vfInst
}
type vfFloatC struct {
	metric.Float64ObservableCounter
	i *vfInst
}
type vfFloatU struct {
	metric.Float64ObservableUpDownCounter
	i *vfInst
}
type vfFloatG struct {
	metric.Float64ObservableGauge
	i *vfInst
}

type vfMeter struct {
	metric.Meter
	insts []*vfInst
	cb    metric.Callback
	cbs   int
	regd  []metric.Observable
	err   error // of the next instrument
	cberr error
}

func (m *vfMeter) add(name, unit string, float bool, kind builtinKind) *vfInst {
	i := &vfInst{name: name, unit: unit, float: float, kind: kind}
	m.insts = append(m.insts, i)
	return i
}

func (m *vfMeter) Int64ObservableCounter(name string, o ...metric.Int64ObservableCounterOption) (metric.Int64ObservableCounter, error) {
	if m.err != nil {
		return nil, m.err
	}
	return &vfIntC{i: m.add(name, metric.NewInt64ObservableCounterConfig(o...).Unit(), false, builtinCounter)}, nil
}
func (m *vfMeter) Int64ObservableUpDownCounter(name string, o ...metric.Int64ObservableUpDownCounterOption) (metric.Int64ObservableUpDownCounter, error) {
	if m.err != nil {
		return nil, m.err
	}
	return &vfIntU{i: m.add(name, metric.NewInt64ObservableUpDownCounterConfig(o...).Unit(), false, builtinUpDownCounter)}, nil
}
func (m *vfMeter) Int64ObservableGauge(name string, o ...metric.Int64ObservableGaugeOption) (metric.Int64ObservableGauge, error) {
	if m.err != nil {
		return nil, m.err
	}
	return &vfIntG{i: m.add(name, metric.NewInt64ObservableGaugeConfig(o...).Unit(), false, builtinGauge)}, nil
}
func (m *vfMeter) Float64ObservableCounter(name string, o ...metric.Float64ObservableCounterOption) (metric.Float64ObservableCounter, error) {
	if m.err != nil {
		return nil, m.err
	}
	return &vfFloatC{i: m.add(name, metric.NewFloat64ObservableCounterConfig(o...).Unit(), true, builtinCounter)}, nil
}
func (m *vfMeter) Float64ObservableUpDownCounter(name string, o ...metric.Float64ObservableUpDownCounterOption) (metric.Float64ObservableUpDownCounter, error) {
	if m.err != nil {
		return nil, m.err
	}
	return &vfFloatU{i: m.add(name, metric.NewFloat64ObservableUpDownCounterConfig(o...).Unit(), true, builtinUpDownCounter)}, nil
}
func (m *vfMeter) Float64ObservableGauge(name string, o ...metric.Float64ObservableGaugeOption) (metric.Float64ObservableGauge, error) {
	if m.err != nil {
		return nil, m.err
	}
	return &vfFloatG{i: m.add(name, metric.NewFloat64ObservableGaugeConfig(o...).Unit(), true, builtinGauge)}, nil
}
func (m *vfMeter) RegisterCallback(f metric.Callback, insts ...metric.Observable) (metric.Registration, error) {
	m.cb = f
	m.cbs++
	m.regd = insts
	return nil, m.cberr
}

func vfInstOf(o metric.Observable) *vfInst {
	switch o := o.(type) {
	case *vfIntC:
		return o.i
	case *vfIntU:
		return o.i
	case *vfIntG:
		return o.i
	case *vfFloatC:
		return o.i
	case *vfFloatU:
		return o.i
	case *vfFloatG:
		return o.i
	}
	return nil
}

type vfObs struct {
	inst *vfInst
	i    int64
	f    float64
	set  attribute.Set
}

type vfObserver struct {
	metric.Observer
	got []vfObs
}

func (o *vfObserver) ObserveInt64(x metric.Int64Observable, v int64, opts ...metric.ObserveOption) {
	o.got = append(o.got, vfObs{inst: vfInstOf(x), i: v, set: metric.NewObserveConfig(opts).Attributes()})
}
func (o *vfObserver) ObserveFloat64(x metric.Float64Observable, v float64, opts ...metric.ObserveOption) {
	o.got = append(o.got, vfObs{inst: vfInstOf(x), f: v, set: metric.NewObserveConfig(opts).Attributes()})
}

var vfHandled int

//vf:stub go.opentelemetry.io/otel.Handle
func vfHandle(error) { vfHandled++ }

// vfReal are real metrics, read to obtain values when the contract is executed.
var vfReal = map[metrics.ValueKind][]string{
	metrics.KindUint64:  {"/gc/heap/allocs:bytes", "/gc/heap/allocs:objects", "/sched/gomaxprocs:threads"},
	metrics.KindFloat64: {"/cpu/classes/user:cpu-seconds", "/cpu/classes/idle:cpu-seconds", "/cpu/classes/total:cpu-seconds"},
}

func vfValue(name string, k metrics.ValueKind, n int) metrics.Value {
	if vf.Symbolic() {
		v := vf.Any[metrics.Value](name)
		vf.Assume(v.Kind() == k)
		return v
	}
	if k != metrics.KindUint64 && k != metrics.KindFloat64 {
		return metrics.Value{}
	}
	s := []metrics.Sample{{Name: vfReal[k][n]}}
	metrics.Read(s)
	return s[0].Value
}

// Each metric recognised is observed with its own value, name, unit and attributes.
func VF_C23_register() {
	vf.Bounded("up to two runtime metrics out of thirteen names, integer, float or other, read twice")
	vf.Unroll(64)
	vf.Coarse()
	vfHandled = 0
	idx := []int{0, 2, 5, 8, 10, 15, 21, 23, 29, 31, 32}
	n := vf.Choose("n", 3)
	var all []metrics.Description
	var want []vfName
	var values, values2 []metrics.Value
	labels := []string{"v0", "v1"}
	labels2 := []string{"w0", "w1"}
	errs := 0
	read := map[string]int{}
	for i := 0; i < n; i++ {
		e := vfNames[idx[vf.Choose("name", len(idx))]]
		if _, ok := read[e.name]; ok {
			return // the runtime offers each name once
		}
		read[e.name] = i
		k := []metrics.ValueKind{metrics.KindUint64, metrics.KindFloat64, metrics.KindFloat64Histogram}[vf.Choose("kind", 3)]
		all = append(all, metrics.Description{Name: e.name, Kind: k})
		values = append(values, vfValue(labels[i], k, i))
		values2 = append(values2, vfValue(labels2[i], k, i))
		switch {
		case e.err:
			errs++
		case e.kind == builtinSkip:
		case e.kind == builtinHistogram:
			if k != metrics.KindFloat64Histogram {
				errs++
			}
		case k == metrics.KindFloat64Histogram:
			errs++
		default:
			want = append(want, e)
		}
	}
	now := values
	m := &vfMeter{}
	r := newBuiltinRuntime(m, func() []metrics.Description { return all }, func(s []metrics.Sample) {
		for i := range s {
			s[i].Value = now[read[s[i].Name]]
		}
	})
	err := r.register(expectRuntimeMetrics())
	vf.Ensure(err == nil, "no error")
	vf.Ensure(vfHandled == errs, "what is not recognised is reported")
	vf.Ensure(len(m.insts) == len(want) && len(m.regd) == len(want) && m.cbs == 1, "an instrument for each metric recognised")
	for i, w := range want {
		inst := m.insts[i]
		vf.Ensure(inst.name == w.mname && inst.unit == w.unit && inst.kind == w.kind, "name, unit and kind")
		vf.Ensure(inst.float == (all[read[w.name]].Kind == metrics.KindFloat64), "integer or float")
		vf.Ensure(vfInstOf(m.regd[i]) == inst, "observed by the callback")
	}
	for round := 0; round < 2; round++ {
		o := &vfObserver{}
		err := m.cb(context.Background(), o)
		vf.Ensure(err == nil && len(o.got) == len(want), "one observation of each")
		for i, w := range want {
			g := o.got[i]
			v := now[read[w.name]]
			vf.Ensure(g.inst == m.insts[i], "by its instrument")
			if v.Kind() == metrics.KindUint64 {
				vf.Ensure(g.i == int64(v.Uint64()), "with its value")
			} else {
				vf.Ensure(vf.Same(g.f, v.Float64()), "with its value")
			}
			var kvs []attribute.KeyValue
			keys := []attribute.Key{"class", "class2", "class3"}
			for j, a := range w.attrs {
				kvs = append(kvs, keys[j].String(a))
			}
			vf.Ensure(g.set == attribute.NewSet(kvs...), "with its attributes")
		}
		now = values2
	}
}

// Failures of the meter are returned.
func VF_C23_failures() {
	m := &vfMeter{}
	if vf.Choose("instrument", 2) == 1 {
		m.err = &vfErr{"instrument"}
	}
	if vf.Choose("callback", 2) == 1 {
		m.cberr = &vfErr{"callback"}
	}
	vf.Unroll(64)
	vf.Coarse()
	k := []metrics.ValueKind{metrics.KindUint64, metrics.KindFloat64}[vf.Choose("kind", 2)]
	all := []metrics.Description{{Name: vfNames[[]int{0, 15, 21}[vf.Choose("name", 3)]].name, Kind: k}}
	r := newBuiltinRuntime(m, func() []metrics.Description { return all }, func(s []metrics.Sample) {})
	err := r.register(expectRuntimeMetrics())
	vf.Ensure((err != nil) == (m.err != nil || m.cberr != nil), "errors are returned")
	vf.Ensure(m.err == nil || errors.Is(err, m.err), "the first error")
}

type vfQuietObserver struct {
	metric.Observer
	n int
	v int64
}

func (o *vfQuietObserver) ObserveInt64(_ metric.Int64Observable, v int64, _ ...metric.ObserveOption) {
	o.n++
	o.v = v
}

// Two readers may collect at the same time.
func VF_C23_two_readers() {
	vf.Unroll(64)
	vf.Coarse()
	m := &vfMeter{}
	all := []metrics.Description{{Name: "/sched/gomaxprocs:threads", Kind: metrics.KindUint64}}
	v, w := vfValue("v", metrics.KindUint64, 0), vfValue("w", metrics.KindUint64, 1)
	vf.Assume(v.Uint64() != w.Uint64())
	reads := 0
	r := newBuiltinRuntime(m, func() []metrics.Description { return all }, func(s []metrics.Sample) {
		var x metrics.Value
		vf.Atomic(func() {
			reads++
			x = vf.Ite(reads == 1, v, w)
		})
		for i := range s {
			s[i].Value = x
		}
		vf.Yield()
	})
	if r.register(expectRuntimeMetrics()) != nil {
		return
	}
	a, b := &vfQuietObserver{}, &vfQuietObserver{}
	vf.Par(vf.Tier(1, 2), func() { m.cb(context.Background(), a) }, func() { m.cb(context.Background(), b) })
	vf.Ensure(a.n == 1 && b.n == 1, "both readers observe")
	first, second := int64(v.Uint64()), int64(w.Uint64())
	vf.Ensure(a.v == first && b.v == second || a.v == second && b.v == first, "what they read themselves")
}
