package syncstate

import (
	"context"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/pipeline"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/viewstate"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/otel/attribute"
)

// vfTInst is the specification of a thread-safe viewstate instrument.
type vfTInst struct {
	accs []*vfTAcc
}

type vfTAcc struct {
	set      attribute.Set
	pending  int64
	out      int64
	released bool
}

func (g *vfTInst) NewAccumulator(s attribute.Set) viewstate.Accumulator {
	a := &vfTAcc{set: s}
	vf.Atomic(func() { g.accs = append(g.accs, a) })
	return a
}

func (a *vfTAcc) Update(v int64) {
	vf.Yield()
	vf.Atomic(func() {
		vf.Ensure(!a.released, "no measurement after the final snapshot of its series")
		a.pending += v
	})
	vf.Yield()
}

func (a *vfTAcc) SnapshotAndProcess(release bool) {
	vf.Yield()
	vf.Atomic(func() {
		vf.Ensure(!a.released, "no snapshot after the final one")
		a.out += a.pending
		a.pending = 0
		a.released = release
	})
	vf.Yield()
}

func (g *vfTInst) result() (total int64, live int) {
	for _, a := range g.accs {
		total += a.out
		if !a.released {
			live++
		}
	}
	return
}

func vfTObserver(g *vfTInst, n int) *Observer {
	desc := sdkinstrument.NewDescriptor("c", sdkinstrument.SyncUpDownCounter, number.Int64Kind, "", "")
	return New(desc, sdkinstrument.Performance{InactiveCollectionPeriods: uint32(n)}, nil, pipeline.Register[viewstate.Instrument]{g})
}

// A measurement concurrent with collections reaches the output, whatever state its series is in.
//
//vf:props C04 C22
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C01_concurrent() {
	vf.Bounded("one measurement concurrent with two collections of one series")
	vf.Unroll(6)
	vf.Coarse()
	g := &vfTInst{}
	limit := 1 + vf.Choose("limit", 2)
	o := vfTObserver(g, limit)
	ctx := context.Background()
	cfg := OpConfig{KeyValues: []attribute.KeyValue{attribute.String("a", "b")}}
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	before := vf.Choose("before", 3) // no series, one with news, an idle one
	want := x
	if before > 0 {
		o.ObserveInt64(ctx, y, cfg)
		want += y
	}
	if before > 1 {
		o.SnapshotAndProcess()
	}
	collections := 1 + vf.Choose("collections", 2)
	vf.Par(3,
		func() { o.ObserveInt64(ctx, x, cfg) },
		func() {
			for i := 0; i < collections; i++ {
				o.SnapshotAndProcess()
			}
		},
	)
	o.SnapshotAndProcess()
	got, live := g.result()
	vf.Ensure(got == want, "every measurement is collected")
	vf.Ensure(live <= 1 && live == len(o.currentFP), "one live series at most, known to the instrument")
	for i := 0; i < limit; i++ {
		o.SnapshotAndProcess()
	}
	_, live = g.result()
	vf.Ensure(live == 0 && len(o.currentFP) == 0, "the idle series is reclaimed")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

// Two measurements of one new series and a collection at the same time.
//
//vf:props C04 C05 C22
//vf:use github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix
func VF_C01_concurrent_measurements() {
	vf.Bounded("two measurements of one series and a collection concurrently")
	vf.Unroll(6)
	vf.Coarse()
	g := &vfTInst{}
	limit := 1 + vf.Choose("limit", 2)
	o := vfTObserver(g, limit)
	ctx := context.Background()
	kvs := []attribute.KeyValue{attribute.String("a", "b")}
	x, y, z := vf.Any[int64]("x"), vf.Any[int64]("y"), vf.Any[int64]("z")
	want := x + y
	if vf.Choose("before", 2) == 1 {
		o.ObserveInt64(ctx, z, OpConfig{KeyValues: kvs})
		o.SnapshotAndProcess()
		want += z
	}
	vf.Par(2,
		func() { o.ObserveInt64(ctx, x, OpConfig{KeyValues: kvs}) },
		func() { o.ObserveInt64(ctx, y, OpConfig{KeyValues: kvs}) },
		func() { o.SnapshotAndProcess() },
	)
	o.SnapshotAndProcess()
	got, live := g.result()
	vf.Ensure(got == want, "every measurement is collected")
	vf.Ensure(live <= 1 && live == len(o.currentFP), "one live series at most, known to the instrument")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}
