package cputime

import (
	"context"
	"syscall"
	"time"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

type vfProcess struct {
	usage   syscall.Rusage
	err     error
	since   time.Duration
	start   time.Time
	who     int
	handled int
}

var vfP *vfProcess

//vf:stub syscall.Getrusage
func vfGetrusage(who int, r *syscall.Rusage) error {
	vfP.who = who
	if vfP.err != nil {
		return vfP.err
	}
	*r = vfP.usage
	return nil
}

//vf:stub time.Since
func vfSince(t time.Time) time.Duration {
	vfP.start = t
	return vfP.since
}

//vf:stub go.opentelemetry.io/otel.Handle
func vfHandle(error) { vfP.handled++ }

type vfInst struct{ name, unit string }

type vfFloatC struct {
	metric.Float64ObservableCounter
	i vfInst
}
type vfFloatU struct {
	metric.Float64ObservableUpDownCounter
	i vfInst
}

type vfMeter struct {
	metric.Meter
	fail, n int
	cb      metric.Callback
	regd    []metric.Observable
	cberr   error
}

func (m *vfMeter) next() error {
	m.n++
	if m.n == m.fail {
		return &vfErr{"instrument"}
	}
	return nil
}

func (m *vfMeter) Float64ObservableCounter(name string, o ...metric.Float64ObservableCounterOption) (metric.Float64ObservableCounter, error) {
	if err := m.next(); err != nil {
		return nil, err
	}
	return &vfFloatC{i: vfInst{name, metric.NewFloat64ObservableCounterConfig(o...).Unit()}}, nil
}
func (m *vfMeter) Float64ObservableUpDownCounter(name string, o ...metric.Float64ObservableUpDownCounterOption) (metric.Float64ObservableUpDownCounter, error) {
	if err := m.next(); err != nil {
		return nil, err
	}
	return &vfFloatU{i: vfInst{name, metric.NewFloat64ObservableUpDownCounterConfig(o...).Unit()}}, nil
}
func (m *vfMeter) RegisterCallback(f metric.Callback, insts ...metric.Observable) (metric.Registration, error) {
	m.cb, m.regd = f, insts
	return nil, m.cberr
}

type vfProvider struct {
	metric.MeterProvider
	m *vfMeter
}

func (p *vfProvider) Meter(string, ...metric.MeterOption) metric.Meter { return p.m }

type vfObs struct {
	inst vfInst
	f    float64
	set  attribute.Set
}

type vfObserver struct {
	metric.Observer
	got []vfObs
}

func (o *vfObserver) ObserveFloat64(x metric.Float64Observable, v float64, opts ...metric.ObserveOption) {
	var i vfInst
	switch x := x.(type) {
	case *vfFloatC:
		i = x.i
	case *vfFloatU:
		i = x.i
	}
	o.got = append(o.got, vfObs{inst: i, f: v, set: metric.NewObserveConfig(opts).Attributes()})
}

func (o *vfObserver) is(i vfInst, set attribute.Set, f float64) bool {
	n := 0
	for _, g := range o.got {
		if g.inst == i && g.set == set {
			n++
			if !vf.Same(g.f, f) {
				return false
			}
		}
	}
	return n == 1
}

func vfSeconds(t syscall.Timeval) float64 {
	return (time.Duration(t.Sec)*time.Second + time.Duration(t.Usec)*time.Microsecond).Seconds()
}

// User and system time and the uptime are observed as such.
func VF_C23_process() {
	vf.Unroll(32)
	vf.Coarse()
	p := &vfProcess{since: vf.Any[time.Duration]("since")}
	vfP = p
	us, uu, ss, su := vf.Any[int64]("user.s"), vf.Any[int64]("user.us"), vf.Any[int64]("sys.s"), vf.Any[int64]("sys.us")
	vf.Assume(us >= 0 && us < 1<<30 && ss >= 0 && ss < 1<<30 && uu >= 0 && uu < 1000000 && su >= 0 && su < 1000000)
	p.usage.Utime, p.usage.Stime = syscall.Timeval{Sec: us, Usec: uu}, syscall.Timeval{Sec: ss, Usec: su}
	p.usage.Maxrss = 17
	m := &vfMeter{fail: vf.Choose("instrument", 3)}
	if vf.Choose("callback", 2) == 1 {
		m.cberr = &vfErr{"callback"}
	}
	if vf.Choose("usage", 2) == 1 {
		p.err = &vfErr{"usage"}
	}
	err := Start(WithMeterProvider(&vfProvider{m: m}))
	vf.Ensure((err != nil) == (m.fail > 0 || m.cberr != nil || p.err != nil), "errors are returned")
	if err != nil {
		return
	}
	vf.Ensure(len(m.regd) == 2, "two instruments")
	fails := vf.Choose("later", 2) == 1
	if fails {
		p.err = &vfErr{"usage"}
	}
	o := &vfObserver{}
	vf.Ensure(m.cb(context.Background(), o) == nil && len(o.got) == 3, "every state")
	vf.Ensure(o.is(vfInst{"process.uptime", "s"}, *attribute.EmptySet(), p.since.Seconds()) && p.start == processStartTime, "uptime")
	if fails {
		vf.Ensure(p.handled == 1, "a failure is reported")
		for _, g := range o.got {
			vf.Ensure(g.inst.name != "process.cpu.time" || g.f != g.f, "and no time made up")
		}
		return
	}
	c := vfInst{"process.cpu.time", "s"}
	vf.Ensure(p.who == syscall.RUSAGE_SELF && p.handled == 0, "of this process")
	vf.Ensure(o.is(c, attribute.NewSet(attribute.String("state", "user")), vfSeconds(p.usage.Utime)), "user time")
	vf.Ensure(o.is(c, attribute.NewSet(attribute.String("state", "system")), vfSeconds(p.usage.Stime)), "system time")
}
