package metric

import (
	"context"
	"errors"
	"time"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"go.opentelemetry.io/otel/attribute"
)

// ---- contexts and tickers of the standard library

type vfCtx struct {
	context.Context
	done chan struct{}
	off  bool
}

func (c *vfCtx) Done() <-chan struct{} { return c.done }

func (c *vfCtx) Err() error {
	if c.off {
		return context.Canceled
	}
	return c.Context.Err()
}

// The background context is never cancelled.
//
//vf:model context.Background
func vfBackground() context.Context { return &vfBg{} }

type vfBg struct{ context.Context }

func (*vfBg) Err() error            { return nil }
func (*vfBg) Done() <-chan struct{} { return nil }

// A context is cancelled by its cancel function or with its parent.
//
//vf:model context.WithCancel
func vfWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &vfCtx{Context: parent, done: make(chan struct{})}
	return c, func() {
		first := false
		vf.Atomic(func() { first = !c.off; c.off = true })
		if first {
			close(c.done)
		}
	}
}

// Timeouts do not expire by themselves here.
//
//vf:model context.WithTimeout
func vfWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return vfWithCancel(parent)
}

// A ticker that ticks twice, at any time.
//
//vf:model time.NewTicker
func vfNewTicker(d time.Duration) *time.Ticker {
	vf.Ensure(d > 0, "a positive interval")
	c := make(chan time.Time, 2)
	c <- time.Time{}
	c <- time.Time{}
	return &time.Ticker{C: c}
}

// ---- readers

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }
func vfNewErr(s string) error  { return &vfErr{s} }

type vfReader struct {
	name                            string
	registered, flushed, shut       int
	ferr, serr                      error
	flushCtx, shutCtx, wantF, wantS context.Context
}

func (r *vfReader) String() string      { return r.name }
func (r *vfReader) Register(_ Producer) { r.registered++ }
func (r *vfReader) ForceFlush(ctx context.Context) error {
	r.flushed++
	r.flushCtx = ctx
	return r.ferr
}
func (r *vfReader) Shutdown(ctx context.Context) error {
	r.shut++
	r.shutCtx = ctx
	return r.serr
}

// Flush and shutdown reach every reader, whatever the others answer.
func VF_C15_provider_readers() {
	vf.Bounded("up to three readers, failing or not, with a cancelled context or not")
	vf.Unroll(4)
	vf.Coarse()
	n := vf.Choose("readers", 4)
	var opts []Option
	rs := make([]*vfReader, n)
	for i := range rs {
		rs[i] = &vfReader{name: "r"}
		fails := vf.Choose("fails", 4)
		if fails&1 != 0 {
			rs[i].ferr = vfNewErr("flush")
		}
		if fails&2 != 0 {
			rs[i].serr = vfNewErr("shutdown")
		}
		opts = append(opts, WithReader(rs[i]))
	}
	mp := NewMeterProvider(opts...)
	for _, r := range rs {
		vf.Ensure(r.registered == 1, "registered once")
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if vf.Choose("meter", 2) == 1 {
		_, ok := mp.Meter("lib").(*meter)
		vf.Ensure(ok, "a meter")
	}
	if vf.Choose("cancelled", 2) == 1 {
		cancel()
	}
	err := mp.ForceFlush(ctx)
	anyErr := false
	for _, r := range rs {
		vf.Ensure(r.flushed == 1 && r.shut == 0 && r.flushCtx == ctx, "flushed once with the given context")
		if r.ferr != nil {
			anyErr = true
			vf.Ensure(errors.Is(err, r.ferr), "every reader's error is returned")
		}
	}
	vf.Ensure((err != nil) == anyErr, "an error only if a reader failed")
	err = mp.Shutdown(ctx)
	anyErr = false
	for _, r := range rs {
		vf.Ensure(r.shut == 1 && r.flushed == 1 && r.shutCtx == ctx, "shut down once with the given context")
		if r.serr != nil {
			anyErr = true
			vf.Ensure(errors.Is(err, r.serr), "every reader's error is returned")
		}
	}
	vf.Ensure((err != nil) == anyErr, "an error only if a reader failed")
	vf.Ensure(mp.Shutdown(ctx) == ErrAlreadyShutdown, "a second shutdown is refused")
	vf.Ensure(mp.Shutdown(ctx) == ErrAlreadyShutdown, "a third shutdown is refused")
	for _, r := range rs {
		vf.Ensure(r.shut == 1, "later shutdowns do nothing")
	}
	_, ok := mp.Meter("lib").(*meter)
	vf.Ensure(!ok, "meters requested after shutdown do nothing")
	_, ok = mp.Meter("other").(*meter)
	vf.Ensure(!ok, "meters requested after shutdown do nothing")
	vf.Ensure(len(mp.ordered) <= 1, "no meter is added")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

type vfProducer struct {
	calls int
	ret   data.Metrics
}

func (p *vfProducer) Produce(in *data.Metrics) data.Metrics {
	n := 0
	vf.Atomic(func() { p.calls++; n = p.calls })
	return data.Metrics{Scopes: make([]data.Scope, n)}
}

// A manual reader keeps its first producer and does nothing on flush and shutdown.
func VF_C15_manual() {
	r := NewManualReader("m")
	p, q := &vfProducer{}, &vfProducer{}
	r.Register(p)
	r.Register(q)
	in := data.Metrics{}
	out := r.Produce(&in)
	vf.Ensure(p.calls == 1 && q.calls == 0 && len(out.Scopes) == 1, "the first producer is used")
	ctx := context.Background()
	vf.Ensure(r.ForceFlush(ctx) == nil && r.Shutdown(ctx) == nil, "no error")
	vf.Ensure(p.calls == 1, "flush and shutdown do not collect")
}

// vfPush is an exporter that notes what it is given.
type vfPush struct {
	active                 int
	exports, flushes, shut int
	last                   int // number of the last data seen
	prod                   *vfProducer
	eerr, ferr, serr       error
	late                   bool
	cancelled              bool // the final export got a cancelled context
}

func (e *vfPush) String() string { return "push" }

func (e *vfPush) run(ctx context.Context, m data.Metrics, count *int) {
	vf.Atomic(func() {
		e.active++
		vf.Ensure(e.active == 1, "one export at a time")
		vf.Ensure(len(m.Scopes) == e.prod.calls && len(m.Scopes) > e.last, "fresh data")
		e.last = len(m.Scopes)
		if e.shut > 0 && count == &e.exports {
			e.late = true
		}
		*count++
	})
	vf.Yield()
	vf.Atomic(func() {
		vf.Ensure(e.active == 1, "one export at a time")
		e.active--
	})
}

func (e *vfPush) ExportMetrics(ctx context.Context, m data.Metrics) error {
	e.run(ctx, m, &e.exports)
	return e.eerr
}

func (e *vfPush) ForceFlushMetrics(ctx context.Context, m data.Metrics) error {
	e.run(ctx, m, &e.flushes)
	return e.ferr
}

func (e *vfPush) ShutdownMetrics(ctx context.Context, m data.Metrics) error {
	e.cancelled = ctx.Err() != nil
	e.run(ctx, m, &e.shut)
	return e.serr
}

// A periodic reader that is flushed and shut down while its loop runs.
//
//vf:props C22
func VF_C15_periodic() {
	vf.Bounded("a flush and a shutdown concurrent with two ticks of the loop")
	vf.Unroll(6)
	p, q := &vfProducer{}, &vfProducer{}
	e := &vfPush{prod: p}
	if vf.Choose("fails", 2) == 1 {
		e.eerr, e.ferr, e.serr = vfNewErr("export"), vfNewErr("flush"), vfNewErr("shutdown")
	}
	interval := 50 * time.Microsecond
	pr := NewPeriodicReader(e, interval)
	pr.Register(p)
	pr.Register(q)
	vf.Ensure(!vf.Symbolic() || vf.Spawned() == 1, "one export loop")
	ctx := context.Background()
	var ferr, serr error
	vf.Par(2,
		func() { ferr = pr.ForceFlush(ctx) },
		func() { serr = pr.Shutdown(ctx) },
	)
	vf.Ensure(e.shut == 1, "final data is exported once")
	vf.Ensure(e.flushes == 1, "flushed once")
	vf.Ensure(!e.late, "the loop has stopped before the final export")
	vf.Ensure(!e.cancelled, "the final export is not cancelled")
	vf.Ensure(ferr == e.ferr && serr == e.serr, "the exporter's errors are returned")
	vf.Ensure(q.calls == 0, "a second registration is refused")
	vf.Ensure(p.calls == e.exports+e.flushes+e.shut, "data is collected once per export")
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}

type vfTotal struct {
	total int64
	n     int
	last  bool
}

func (e *vfTotal) String() string { return "total" }
func (e *vfTotal) add(m data.Metrics) error {
	t, _ := vfSum(m, "c", attribute.NewSet())
	vf.Yield()
	e.total += t
	e.n++
	return nil
}
func (e *vfTotal) ExportMetrics(_ context.Context, m data.Metrics) error {
	vf.Ensure(!e.last, "nothing is exported after the final data")
	return e.add(m)
}
func (e *vfTotal) ForceFlushMetrics(_ context.Context, m data.Metrics) error { return e.add(m) }
func (e *vfTotal) ShutdownMetrics(_ context.Context, m data.Metrics) error {
	e.last = true
	return e.add(m)
}

// Everything measured before shutdown is exported.
//
//vf:props C01
func VF_C15_final_data() {
	vf.Bounded("a measurement before and one during the loop, one shutdown")
	vf.Unroll(6)
	vf.Coarse()
	e := &vfTotal{}
	mp := NewMeterProvider(WithReader(NewPeriodicReader(e, 50*time.Microsecond), vfTempoOpt(aggregation.DeltaTemporality)))
	c, _ := mp.Meter("lib").Int64Counter("c")
	ctx := context.Background()
	x, y := vf.Any[int64]("x"), vf.Any[int64]("y")
	vf.Assume(x > 0 && y > 0)
	c.Add(ctx, x)
	var err error
	vf.Par(vf.Tier(1, 2), func() {
		c.Add(ctx, y)
		err = mp.Shutdown(ctx)
	})
	vf.Ensure(err == nil && e.last, "shut down")
	vf.Ensure(e.total == x+y, "everything measured before the shutdown is exported exactly once")
}
