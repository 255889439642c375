package syncstate

import (
	"context"
	"math"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/pipeline"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/viewstate"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/otel/attribute"
)

// vfInst is a specification of the viewstate instrument below an Observer: it hands out ghost
// accumulators that record what reaches the output, and checks how they are used.
type vfInst struct {
	accs []*vfAcc
	// during is run in the middle of the next update: what other goroutines do meanwhile.
	during func()
}

type vfAcc struct {
	inst     *vfInst
	set      attribute.Set
	pending  int64
	out      int64
	updates  int
	snaps    int
	released bool
}

func (g *vfInst) NewAccumulator(s attribute.Set) viewstate.Accumulator {
	a := &vfAcc{inst: g, set: s}
	g.accs = append(g.accs, a)
	return a
}

func (a *vfAcc) Update(v int64) {
	if f := a.inst.during; f != nil {
		a.inst.during = nil
		f()
	}
	vf.Ensure(!a.released, "no measurement after the final snapshot of its series")
	a.pending += v
	a.updates++
}

func (a *vfAcc) SnapshotAndProcess(release bool) {
	vf.Ensure(!a.released, "no snapshot after the final one")
	a.out += a.pending
	a.pending = 0
	a.snaps++
	a.released = release
}

// vfOut is the total that reached the output for an attribute set.
func (g *vfInst) vfOut(s attribute.Set) (total int64, live int) {
	for _, a := range g.accs {
		if a.set == s {
			total += a.out
			if !a.released {
				live++
			}
		}
	}
	return
}

func vfObserver(g *vfInst, p sdkinstrument.Performance) *Observer {
	desc := sdkinstrument.NewDescriptor("c", sdkinstrument.SyncUpDownCounter, number.Int64Kind, "", "")
	return New(desc, p, nil, pipeline.Register[viewstate.Instrument]{g})
}

// A measurement during which any number of collections and other measurements happen is not lost,
// and an idle series is removed after the configured number of collections, once.
//
//vf:props C01
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C04_reclaim() {
	vf.Bounded("one series, up to three collections during a measurement, inactivity limit of one or two")
	g := &vfInst{}
	n := 1 + vf.Choose("limit", 2)
	o := vfObserver(g, sdkinstrument.Performance{InactiveCollectionPeriods: uint32(n)})
	ctx := context.Background()
	x, y, z := vf.Any[int64]("x"), vf.Any[int64]("y"), vf.Any[int64]("z")
	cfg := OpConfig{KeyValues: []attribute.KeyValue{attribute.String("a", "b")}}
	set := attribute.NewSet(attribute.String("a", "b"))
	k, other := vf.Choose("during", 4), vf.Choose("other", 2) == 1
	g.during = func() {
		for i := 0; i < k; i++ {
			o.SnapshotAndProcess()
		}
		if other {
			o.ObserveInt64(ctx, y, cfg)
		}
		for i := 0; i < k; i++ {
			o.SnapshotAndProcess()
		}
	}
	o.ObserveInt64(ctx, x, cfg)
	want := x
	if other {
		want += y
	}
	o.SnapshotAndProcess()
	got, live := g.vfOut(set)
	vf.Ensure(got == want, "every measurement is collected")
	vf.Ensure(live == 1 && len(g.accs) == 1, "the series is live and was created once")
	for i := 1; i < n; i++ {
		o.SnapshotAndProcess()
		_, live = g.vfOut(set)
		vf.Ensure(live == 1, "the series is kept for the configured number of collections")
	}
	o.SnapshotAndProcess()
	_, live = g.vfOut(set)
	vf.Ensure(live == 0 && len(o.currentFP) == 0, "the idle series is reclaimed")
	o.SnapshotAndProcess()
	o.ObserveInt64(ctx, z, cfg)
	o.SnapshotAndProcess()
	got, live = g.vfOut(set)
	vf.Ensure(got == want+z && live == 1 && len(g.accs) == 2, "a new measurement uses a new series")
}

// Three series with the same fingerprint, any of which are active: exactly the idle ones are
// reclaimed, and every measurement reaches the output under its own attributes.
//
//vf:props C01 C05
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C04_collisions() {
	vf.Bounded("three series with equal fingerprints, two rounds")
	g := &vfInst{}
	o := vfObserver(g, sdkinstrument.Performance{InactiveCollectionPeriods: 1})
	ctx := context.Background()
	kvs := []attribute.KeyValue{
		attribute.Int64Slice("a", []int64{1, 2, 3}),
		attribute.Int64Slice("a", []int64{2, 1, 3}),
		attribute.Int64Slice("a", []int64{3, 2, 1}),
	}
	var want [3]int64
	add := func(i int, v int64) {
		o.ObserveInt64(ctx, v, OpConfig{KeyValues: []attribute.KeyValue{kvs[i]}})
		want[i] += v
	}
	for i := range kvs {
		add(i, vf.Any[int64]("v"))
	}
	o.SnapshotAndProcess()
	check := func() {
		for i := range kvs {
			got, _ := g.vfOut(attribute.NewSet(kvs[i]))
			vf.Ensure(got == want[i], "every measurement is collected under its own attributes")
		}
	}
	check()
	vf.Ensure(len(g.accs) == 3, "one accumulator per series")
	for r := 0; r < 2; r++ {
		active := vf.Choose("active", 8)
		for i := range kvs {
			if active&(1<<i) != 0 {
				add(i, vf.Any[int64]("v"))
			}
		}
		o.SnapshotAndProcess()
		check()
		for i := range kvs {
			_, live := g.vfOut(attribute.NewSet(kvs[i]))
			vf.Ensure(live == active>>i&1, "exactly the active series are kept")
		}
	}
}

// vfKV is an attribute of the given type with any value (slices of n elements).
func vfKV(name string, typ, n int) attribute.KeyValue {
	k := attribute.Key(vfString(name + ".key"))
	switch typ {
	case 0:
		return k.Bool(vf.Any[bool](name + ".v"))
	case 1:
		return k.Int64(vf.Any[int64](name + ".v"))
	case 2:
		return k.Float64(vfFloat(name + ".v"))
	case 3:
		return k.String(vfString(name + ".v"))
	case 4:
		return k.BoolSlice(vf.AnySlice[bool](name+".v", n))
	case 5:
		return k.Int64Slice(vf.AnySlice[int64](name+".v", n))
	case 6:
		v := vf.AnySlice[float64](name+".v", n)
		for i := range v {
			vf.Assume(v[i] == v[i])
			vf.Assume(math.Float64bits(v[i]) != 1<<63) // negative zero equals zero
		}
		return k.Float64Slice(v)
	}
	v := vf.AnySlice[string](name+".v", n)
	for i := range v {
		vf.Assume(len(v[i]) <= 16)
	}
	return k.StringSlice(v)
}

func vfString(name string) string {
	s := vf.Any[string](name)
	vf.Assume(len(s) <= 16)
	return s
}

func vfFloat(name string) float64 {
	f := vf.Any[float64](name)
	vf.Assume(f == f)
	return f
}

// Two measurements with arbitrary attributes share a series exactly if their attributes are the same.
//
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C05_series() {
	vf.Bounded("two measurements with up to one attribute each, slice values of up to two elements")
	vf.Unroll(4)
	g := &vfInst{}
	o := vfObserver(g, sdkinstrument.Performance{})
	ctx := context.Background()
	ta := vf.Choose("a.type", 8)
	tb, nb := ta, 2
	if vf.Choose("same", 2) == 0 {
		tb = (ta + 1 + vf.Choose("b.type", 7)) % 8
	} else if ta >= 4 {
		nb = vf.Choose("b.len", 3)
	}
	a, b := vfKV("a", ta, 2), vfKV("b", tb, nb)
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	la, lb := []attribute.KeyValue{a}, []attribute.KeyValue{b}
	o.ObserveInt64(ctx, x, OpConfig{KeyValues: la})
	la[0] = attribute.Bool("other", true)
	o.ObserveInt64(ctx, y, OpConfig{KeyValues: lb})
	vf.Ensure(len(g.accs) == 1 || len(g.accs) == 2, "one or two series")
	vf.Ensure(g.accs[0].set == attribute.NewSet(a), "the first measurement has its own attributes")
	if len(g.accs) == 1 {
		vf.Ensure(attribute.NewSet(a) == attribute.NewSet(b), "measurements are not conflated")
		vf.Ensure(g.accs[0].pending == x+y, "shared series")
	} else {
		vf.Ensure(g.accs[1].set == attribute.NewSet(b), "the second measurement has its own attributes")
		vf.Ensure(g.accs[0].pending == x && g.accs[1].pending == y, "separate series")
		vf.Ensure(a != b, "equal measurements share a series")
	}
}

// attributesEqual on lists of any length: at every index the keys, types and values agree.
func VF_C05_attributes_equal() {
	n, m := vf.Len("n"), vf.Len("m")
	a, b := vf.AnyKVs("a", n), vf.AnyKVs("b", m)
	if vf.Choose("alike", 2) == 1 {
		vf.Assume(n == m)
		if !vf.Symbolic() {
			copy(b, a)
			if n > 0 {
				b[vf.Pick("differ", n)] = vf.AnyKV("x")
			}
		}
	}
	i := vf.Pick("i", n)
	vf.Assume(0 <= i && i < n)
	vf.LoopInv(func(k int) bool {
		return vf.Implies(i < k && i < m, a[i].Key == b[i].Key && a[i].Value.Type() == b[i].Value.Type())
	})
	scalar := func() bool { return vf.Implies(a[i].Value.Type() >= attribute.INVALID && a[i].Value.Type() <= attribute.STRING, a[i].Value == b[i].Value) }
	vf.LoopInv(func(k int) bool { return vf.Implies(i < k && i < m, scalar()) })
	r := attributesEqual(a, b)
	vf.Ensure(vf.Implies(r, n == m), "lists of different length differ")
	if r {
		vf.Ensure(a[i].Key == b[i].Key && a[i].Value.Type() == b[i].Value.Type(), "equal lists have equal keys and types")
		vf.Ensure(scalar(), "equal lists have equal values")
	}
}

// Only valid measurements have an effect.
//
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C09_observe() {
	g, gf := &vfInst{}, &vfFloatInst{}
	kind := []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncGauge}[vf.Choose("kind", 4)]
	di := sdkinstrument.NewDescriptor("c", kind, number.Int64Kind, "", "")
	df := sdkinstrument.NewDescriptor("c", kind, number.Float64Kind, "", "")
	oi := New(di, sdkinstrument.Performance{}, nil, pipeline.Register[viewstate.Instrument]{g})
	of := New(df, sdkinstrument.Performance{}, nil, pipeline.Register[viewstate.Instrument]{gf})
	ctx := context.Background()
	x, y := vf.Any[int64]("x"), vf.Any[float64]("y")
	cfg := OpConfig{KeyValues: []attribute.KeyValue{attribute.String("a", "b")}}
	signed := kind == sdkinstrument.SyncUpDownCounter || kind == sdkinstrument.SyncGauge
	oi.ObserveInt64(ctx, x, cfg)
	if x >= 0 || signed {
		vf.Ensure(len(g.accs) == 1 && g.accs[0].pending == x, "a valid integer is recorded")
	} else {
		vf.Ensure(len(g.accs) == 0 && len(oi.currentFP) == 0, "a negative integer has no effect")
	}
	of.ObserveFloat64(ctx, y, cfg)
	if y == y && y-y == 0 && (signed || y >= 0) {
		vf.Ensure(len(gf.accs) == 1 && vf.Same(gf.accs[0].last, y), "a valid float is recorded")
	} else {
		vf.Ensure(len(gf.accs) == 0 && len(of.currentFP) == 0, "an invalid float has no effect")
	}
}

type vfFloatInst struct{ accs []*vfFloatAcc }
type vfFloatAcc struct{ last float64 }

func (g *vfFloatInst) NewAccumulator(s attribute.Set) viewstate.Accumulator {
	a := &vfFloatAcc{}
	g.accs = append(g.accs, a)
	return a
}
func (a *vfFloatAcc) Update(v float64)              { a.last = v }
func (a *vfFloatAcc) SnapshotAndProcess(bool)       {}

// When the number of series reaches the instrument's limit, new attribute sets are recorded in the
// overflow series; present ones keep their own.
//
//vf:props C01
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C06_instrument_overflow() {
	vf.Bounded("limits of two to four, five attribute sets")
	g := &vfInst{}
	limit := 2 + vf.Choose("limit", 3)
	ignore := vf.Choose("ignore", 2) == 1
	o := vfObserver(g, sdkinstrument.Performance{InstrumentCardinalityLimit: uint32(limit), IgnoreCollisions: ignore})
	ctx := context.Background()
	// Values with different fingerprints.
	var total int64
	add := func(i int) {
		v := vf.Any[int64]("v")
		total += v
		o.ObserveInt64(ctx, v, OpConfig{KeyValues: []attribute.KeyValue{attribute.Int("a", i)}})
	}
	distinct := func(i, j int) {
		vf.Assume(fingerprintAttributes([]attribute.KeyValue{attribute.Int("a", i)}) != fingerprintAttributes([]attribute.KeyValue{attribute.Int("a", j)}))
	}
	for i := 0; i < 4; i++ {
		vf.Assume(fingerprintAttributes([]attribute.KeyValue{attribute.Int("a", i)}) != overflowAttributesFingerprint)
		for j := 0; j < i; j++ {
			distinct(i, j)
		}
	}
	for i := 0; i < 4; i++ {
		add(i)
	}
	add(0)
	add(3)
	o.SnapshotAndProcess()
	vf.Ensure(len(g.accs) == vf.Ite(limit < 5, limit, 4), "the number of series is limited")
	var sum int64
	for _, a := range g.accs {
		sum += a.out
	}
	vf.Ensure(sum == total, "no measurement is dropped")
	for i := 0; i < 4; i++ {
		_, live := g.vfOut(attribute.NewSet(attribute.Int("a", i)))
		vf.Ensure(live == vf.Ite(i < limit-1, 1, 0), "the first attribute sets have their own series")
	}
	_, live := g.vfOut(pipeline.OverflowAttributeSet)
	vf.Ensure(live == 1, "the others are in the overflow series")
}

// With collisions ignored, the caller's attributes still reach the output unchanged and are not
// kept, and the processor and the size limit are applied before the series is chosen.
//
//vf:props C05
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C18_observe() {
	vf.Bounded("one attribute")
	g := &vfInst{}
	ignore := vf.Choose("ignore", 2) == 1
	var proc sdkinstrument.MeasurementProcessor
	if vf.Choose("proc", 2) == 1 {
		proc = vfProc{}
	}
	o := vfObserver(g, sdkinstrument.Performance{AttributeSizeLimit: 3, IgnoreCollisions: ignore, MeasurementProcessor: proc})
	kv := attribute.String("abcd", "wxyz")
	kvs := []attribute.KeyValue{kv}
	var cfg OpConfig
	if vf.Choose("cfg", 2) == 0 {
		cfg.KeyValues = kvs
	} else {
		cfg.Attributes = attribute.NewSet(kv)
	}
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	ctx := context.Background()
	o.ObserveInt64(ctx, x, cfg)
	vf.Ensure(kvs[0] == kv, "the caller's list is unchanged")
	kvs[0] = attribute.Bool("changed", true)
	o.ObserveInt64(ctx, y, OpConfig{KeyValues: []attribute.KeyValue{attribute.String("abc", "wxy")}})
	o.SnapshotAndProcess()
	want := attribute.NewSet(attribute.String("abc", "wxy"))
	if proc != nil {
		want = attribute.NewSet(attribute.String("abc", "wxy"), attribute.Bool("p", true))
	}
	vf.Ensure(len(g.accs) == 1 && g.accs[0].set == want, "the attributes are truncated and processed")
	vf.Ensure(g.accs[0].out == x+y, "both measurements are recorded")
}

type vfProc struct{}

func (vfProc) Process(ctx context.Context, in []attribute.KeyValue) []attribute.KeyValue {
	return append(append([]attribute.KeyValue(nil), in...), attribute.Bool("p", true))
}
