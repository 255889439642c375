package host

import (
	"context"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/shirou/gopsutil/v3/cpu"
	"github.com/shirou/gopsutil/v3/mem"
	"github.com/shirou/gopsutil/v3/net"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

// ---- the machine

type vfHost struct {
	cpu                    []cpu.TimesStat
	mem                    *mem.VirtualMemoryStat
	net                    []net.IOCountersStat
	cpuErr, memErr, netErr error
	perCPU, perNIC         bool
}

var vfH *vfHost

//vf:stub github.com/shirou/gopsutil/v3/cpu.TimesWithContext
func vfTimes(_ context.Context, per bool) ([]cpu.TimesStat, error) {
	vfH.perCPU = per
	return vfH.cpu, vfH.cpuErr
}

//vf:stub github.com/shirou/gopsutil/v3/mem.VirtualMemoryWithContext
func vfMem(context.Context) (*mem.VirtualMemoryStat, error) { return vfH.mem, vfH.memErr }

//vf:stub github.com/shirou/gopsutil/v3/net.IOCountersWithContext
func vfNet(_ context.Context, per bool) ([]net.IOCountersStat, error) {
	vfH.perNIC = per
	return vfH.net, vfH.netErr
}

// ---- the meter

type vfInst struct{ name, unit, kind string }

type vfIntC struct {
	metric.Int64ObservableCounter
	i vfInst
}
type vfIntU struct {
	metric.Int64ObservableUpDownCounter
	i vfInst
}
type vfFloatC struct {
	metric.Float64ObservableCounter
	i vfInst
}
type vfFloatG struct {
	metric.Float64ObservableGauge
	i vfInst
}

type vfMeter struct {
	metric.Meter
	fail  int // the instrument that cannot be made
	n     int
	cb    metric.Callback
	regd  []metric.Observable
	cberr error
}

func (m *vfMeter) next() error {
	m.n++
	if m.n == m.fail {
		return &vfErr{"instrument"}
	}
	return nil
}

func (m *vfMeter) Int64ObservableCounter(name string, o ...metric.Int64ObservableCounterOption) (metric.Int64ObservableCounter, error) {
	if err := m.next(); err != nil {
		return nil, err
	}
	return &vfIntC{i: vfInst{name, metric.NewInt64ObservableCounterConfig(o...).Unit(), "counter"}}, nil
}
func (m *vfMeter) Int64ObservableUpDownCounter(name string, o ...metric.Int64ObservableUpDownCounterOption) (metric.Int64ObservableUpDownCounter, error) {
	if err := m.next(); err != nil {
		return nil, err
	}
	return &vfIntU{i: vfInst{name, metric.NewInt64ObservableUpDownCounterConfig(o...).Unit(), "updown"}}, nil
}
func (m *vfMeter) Float64ObservableCounter(name string, o ...metric.Float64ObservableCounterOption) (metric.Float64ObservableCounter, error) {
	if err := m.next(); err != nil {
		return nil, err
	}
	return &vfFloatC{i: vfInst{name, metric.NewFloat64ObservableCounterConfig(o...).Unit(), "counter"}}, nil
}
func (m *vfMeter) Float64ObservableGauge(name string, o ...metric.Float64ObservableGaugeOption) (metric.Float64ObservableGauge, error) {
	if err := m.next(); err != nil {
		return nil, err
	}
	return &vfFloatG{i: vfInst{name, metric.NewFloat64ObservableGaugeConfig(o...).Unit(), "gauge"}}, nil
}
func (m *vfMeter) RegisterCallback(f metric.Callback, insts ...metric.Observable) (metric.Registration, error) {
	m.cb, m.regd = f, insts
	return nil, m.cberr
}

func vfInstOf(o metric.Observable) vfInst {
	switch o := o.(type) {
	case *vfIntC:
		return o.i
	case *vfIntU:
		return o.i
	case *vfFloatC:
		return o.i
	case *vfFloatG:
		return o.i
	}
	return vfInst{}
}

type vfObs struct {
	inst vfInst
	i    int64
	f    float64
	set  attribute.Set
}

type vfObserver struct {
	metric.Observer
	got []vfObs
}

func (o *vfObserver) ObserveInt64(x metric.Int64Observable, v int64, opts ...metric.ObserveOption) {
	o.got = append(o.got, vfObs{inst: vfInstOf(x), i: v, set: metric.NewObserveConfig(opts).Attributes()})
}
func (o *vfObserver) ObserveFloat64(x metric.Float64Observable, v float64, opts ...metric.ObserveOption) {
	o.got = append(o.got, vfObs{inst: vfInstOf(x), f: v, set: metric.NewObserveConfig(opts).Attributes()})
}

// is: exactly one observation of the instrument and state, with this value.
func (o *vfObserver) is(i vfInst, key attribute.Key, state string, v int64, f float64) bool {
	n := 0
	set := attribute.NewSet(key.String(state))
	for _, g := range o.got {
		if g.inst == i && g.set == set {
			n++
			if g.i != v || !vf.Same(g.f, f) {
				return false
			}
		}
	}
	return n == 1
}

// Each state of the machine is observed by its own instrument and attribute.
func VF_C23_host() {
	vf.Unroll(32)
	vf.Coarse()
	h := &vfHost{}
	vfH = h
	h.cpu = []cpu.TimesStat{{CPU: "all", User: 100, System: 20, Idle: 3000, Nice: 1, Iowait: 2, Irq: 4, Softirq: 8, Steal: 16, Guest: 32, GuestNice: 64}}
	total := []uint64{1000, 1 << 40}[vf.Choose("total", 2)]
	used, avail := vf.Any[uint64]("used"), vf.Any[uint64]("available")
	vf.Assume(used < 1<<62 && avail < 1<<62)
	h.mem = &mem.VirtualMemoryStat{Total: total, Used: used, Available: avail, Free: vf.Any[uint64]("free")}
	sent, recv := vf.Any[uint64]("sent"), vf.Any[uint64]("recv")
	vf.Assume(sent < 1<<62 && recv < 1<<62)
	h.net = []net.IOCountersStat{{Name: "all", BytesSent: sent, BytesRecv: recv, PacketsSent: 5, PacketsRecv: 6}}
	fail := vf.Choose("fails", 7)
	switch fail {
	case 1:
		h.cpuErr, h.cpu = &vfErr{"cpu"}, nil
	case 2:
		h.memErr, h.mem = &vfErr{"mem"}, nil
	case 3:
		h.netErr, h.net = &vfErr{"net"}, nil
	case 4:
		h.cpu = append(h.cpu, h.cpu[0])
	case 5:
		h.cpu = nil
	case 6:
		h.net = nil
	}
	m := &vfMeter{}
	vf.Ensure((&host{meter: m}).register() == nil, "no error")
	vf.Ensure(len(m.regd) == 4, "four instruments")
	for round := 0; round < 2; round++ {
		o := &vfObserver{}
		err := m.cb(context.Background(), o)
		if fail > 0 {
			vf.Ensure(len(o.got) == 0 && err != nil, "nothing is observed when something cannot be read")
			continue
		}
		vf.Ensure(err == nil && len(o.got) == 10 && !h.perCPU && !h.perNIC, "every state, over all devices")
		c := vfInst{"system.cpu.time", "s", "counter"}
		vf.Ensure(o.is(c, "state", "user", 0, 100) && o.is(c, "state", "system", 0, 20) && o.is(c, "state", "other", 0, 127) && o.is(c, "state", "idle", 0, 3000), "CPU time")
		u := vfInst{"system.memory.usage", "By", "updown"}
		vf.Ensure(o.is(u, "state", "used", int64(used), 0) && o.is(u, "state", "available", int64(avail), 0), "memory")
		g := vfInst{"system.memory.utilization", "", "gauge"}
		vf.Ensure(o.is(g, "state", "used", 0, float64(used)/float64(total)) && o.is(g, "state", "available", 0, float64(avail)/float64(total)), "memory utilization")
		n := vfInst{"system.network.io", "By", "counter"}
		vf.Ensure(o.is(n, "direction", "transmit", int64(sent), 0) && o.is(n, "direction", "receive", int64(recv), 0), "network")
	}
}

// Failures of the meter are returned.
func VF_C23_host_failures() {
	m := &vfMeter{fail: vf.Choose("instrument", 5)}
	if vf.Choose("callback", 2) == 1 {
		m.cberr = &vfErr{"callback"}
	}
	err := (&host{meter: m}).register()
	vf.Ensure((err != nil) == (m.fail > 0 || m.cberr != nil), "errors are returned")
}
