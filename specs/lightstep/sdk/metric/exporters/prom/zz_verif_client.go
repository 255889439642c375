package prom

import (
	"context"
	"errors"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"go.opentelemetry.io/collector/exporter"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel/attribute"
	otelcodes "go.opentelemetry.io/otel/codes"
	metricapi "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
)

type vfTracer struct {
	trace.Tracer
	span vfSelf
	n    int
}

func (t *vfTracer) Start(ctx context.Context, _ string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	t.n++
	return ctx, &t.span
}

type vfSelf struct {
	trace.Span
	ended int
	code  otelcodes.Code
}

func (s *vfSelf) End(...trace.SpanEndOption)           { s.ended++ }
func (s *vfSelf) SetStatus(c otelcodes.Code, _ string) { s.code = c }
func (s *vfSelf) SetAttributes(...attribute.KeyValue)  {}

type vfCounter struct {
	metricapi.Int64Counter
	n     int64
	calls int
}

func (c *vfCounter) Add(_ context.Context, n int64, _ ...metricapi.AddOption) {
	c.n += n
	c.calls++
}

type vfSink struct {
	err, serr error
	calls     int
	shut      int
	value     int64
	histogram bool // the last histogram was an exponential one
	attrs     bool
	want      attribute.KeyValue
	after     *vfSink // must be shut down before
}

func (s *vfSink) consume(m pmetric.Metrics) error {
	s.calls++
	vf.Ensure(s.shut == 0, "exported before the shutdown")
	vf.Ensure(m.ResourceMetrics().Len() == 1 && m.ResourceMetrics().At(0).ScopeMetrics().Len() == 1, "one scope")
	s.attrs = internal.VfSameAttributes(m.ResourceMetrics().At(0).Resource().Attributes(), s.want)
	ms := m.ResourceMetrics().At(0).ScopeMetrics().At(0).Metrics()
	vf.Ensure(ms.Len() == 2, "two instruments")
	s.value = ms.At(0).Sum().DataPoints().At(0).IntValue()
	s.histogram = ms.At(1).Type() == pmetric.MetricTypeExponentialHistogram
	return s.err
}

func (s *vfSink) shutdown() error {
	s.shut++
	vf.Ensure(s.after == nil || s.after.shut == 1, "in order")
	return s.serr
}

type vfExp struct {
	exporter.Metrics
	s *vfSink
}

func (p vfExp) ConsumeMetrics(_ context.Context, m pmetric.Metrics) error { return p.s.consume(m) }
func (p vfExp) Shutdown(context.Context) error                            { return p.s.shutdown() }

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

func vfMetrics(kv attribute.KeyValue, v int64) data.Metrics {
	return data.Metrics{Resource: resource.NewSchemaless(kv), Scopes: []data.Scope{{Instruments: []data.Instrument{
		{Points: []data.Point{{Aggregation: sum.NewMonotonicInt64(v)}}},
		{Points: []data.Point{{Aggregation: histogram.NewInt64(histogram.NewConfig(histogram.WithMaxSize(4)), 1, 2)}}},
	}}}}
}

// Exports and flushes hand the data on; a shutdown exports the last data
// first and reaches everything below, whatever fails.
//
//vf:props C12
func VF_C15_prom_exporter() {
	vf.Unroll(8)
	vf.Coarse()
	kv := attribute.Int64("r", vf.Any[int64]("r"))
	v := vf.Any[int64]("v")
	e := &vfSink{want: kv}
	tr, cnt := &vfTracer{}, &vfCounter{}
	in := e
	c := &client{exporter: vfExp{s: e}, tracer: tr, counter: cnt}
	var xerr error
	if vf.Choose("export fails", 2) == 1 {
		xerr = &vfErr{"x"}
	}
	in.err = xerr
	if vf.Choose("exporter fails", 2) == 1 {
		e.serr = &vfErr{"e"}
	}
	var err error
	op := vf.Choose("op", 3)
	switch op {
	case 0:
		err = c.ExportMetrics(context.Background(), vfMetrics(kv, v))
	case 1:
		err = c.ForceFlushMetrics(context.Background(), vfMetrics(kv, v))
	case 2:
		err = c.ShutdownMetrics(context.Background(), vfMetrics(kv, v))
	}
	vf.Ensure(in.calls == 1 && in.value == v && in.attrs, "the data are exported")
	vf.Ensure(in.histogram == false, "histograms are explicit")
	vf.Ensure(cnt.calls == 1 && cnt.n == 2, "and counted")
	vf.Ensure(tr.n == 1 && tr.span.ended == 1, "and traced")
	vf.Ensure(xerr == nil || errors.Is(err, xerr), "a failed export is returned")
	if op != 2 {
		vf.Ensure(err == xerr && e.shut == 0, "the outcome")
		return
	}
	vf.Ensure(e.shut == 1, "everything is shut down")
	vf.Ensure(e.serr == nil || errors.Is(err, e.serr), "a failed shutdown is returned")
	vf.Ensure(err == nil || xerr != nil || e.serr != nil, "and nothing else")
}
