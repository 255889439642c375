package pipelines

import (
	"context"
	"strings"
	"time"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	lightstepCputime "github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime"
	lightstepHost "github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host"
	lightstepRuntime "github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime"
	sdkmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	otelcolmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	otelcoltrace "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
	"go.opentelemetry.io/collector/config/configtls"
	"go.opentelemetry.io/contrib/propagators/b3"
	"go.opentelemetry.io/contrib/propagators/ot"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/sdk/trace"
	traceapi "go.opentelemetry.io/otel/trace"
)

// ---- the world around the pipelines

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

type vfMetricExporter struct{ sdkmetric.PushExporter }

type vfSpanExporter struct{ trace.SpanExporter }

type vfReader struct {
	p             *sdkmetric.PeriodicReader
	producer      sdkmetric.Producer
	stops, stopsX int
}

func (r *vfReader) String() string                   { return "reader" }
func (r *vfReader) Register(p sdkmetric.Producer)    { r.producer = p }
func (r *vfReader) ForceFlush(context.Context) error { return nil }
func (r *vfReader) Shutdown(ctx context.Context) error {
	r.stops++
	return vfW.stopErr
}

type vfProcessor struct {
	exp   trace.SpanExporter
	stops int
}

func (p *vfProcessor) OnStart(context.Context, trace.ReadWriteSpan) {}
func (p *vfProcessor) OnEnd(trace.ReadOnlySpan)                     {}
func (p *vfProcessor) ForceFlush(context.Context) error             { return nil }
func (p *vfProcessor) Shutdown(context.Context) error {
	p.stops++
	return vfW.stopErr
}

type vfB3 struct{ propagation.TextMapPropagator }

type vfComposite struct{ propagation.TextMapPropagator }

type vfWorld struct {
	expErr, stopErr error

	mcfg      otelcolmetric.Config
	mexps     int
	mexp      *vfMetricExporter
	readerExp sdkmetric.PushExporter
	period    time.Duration
	preader   *sdkmetric.PeriodicReader
	reader    *vfReader
	readers   int
	provider  metric.MeterProvider
	nprovider int
	handled   int
	libs      []int
	libProv   []metric.MeterProvider
	libErr    error

	tcfg       otelcoltrace.Config
	texps      int
	texp       *vfSpanExporter
	bsp        *vfProcessor
	spanProc   trace.SpanProcessor
	res        *resource.Resource
	tp         *trace.TracerProvider
	tracer     traceapi.TracerProvider
	ntracer    int
	list       []propagation.TextMapPropagator
	composite  *vfComposite
	propagator propagation.TextMapPropagator
	nprop      int
}

var vfW *vfWorld

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol.NewExporter
func vfNewMetricExporter(_ context.Context, cfg otelcolmetric.Config) (sdkmetric.PushExporter, error) {
	vfW.mcfg = cfg
	vfW.mexps++
	if vfW.expErr != nil {
		return nil, vfW.expErr
	}
	vfW.mexp = &vfMetricExporter{}
	return vfW.mexp, nil
}

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol.NewExporter
func vfNewTraceExporter(_ context.Context, cfg otelcoltrace.Config, opts ...func(*otelcoltrace.ExporterOptions)) (trace.SpanExporter, error) {
	vfW.tcfg = cfg
	vfW.texps++
	if vfW.expErr != nil {
		return nil, vfW.expErr
	}
	vfW.texp = &vfSpanExporter{}
	return vfW.texp, nil
}

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/sdk/metric.NewPeriodicReader
func vfNewPeriodicReader(exp sdkmetric.PushExporter, period time.Duration, opts ...sdkmetric.PeriodicReaderOption) *sdkmetric.PeriodicReader {
	vfW.readerExp, vfW.period = exp, period
	vfW.preader = sdkmetric.NewPeriodicReader(exp, period, opts...)
	return vfW.preader
}

// vfWithReader replaces the periodic reader by one that can be looked at.
//
//vf:stub github.com/lightstep/otel-launcher-go/lightstep/sdk/metric.WithReader
func vfWithReader(r sdkmetric.Reader, opts ...view.Option) sdkmetric.Option {
	vfW.readers++
	p, _ := r.(*sdkmetric.PeriodicReader)
	vfW.reader = &vfReader{p: p}
	return sdkmetric.WithReader(vfW.reader, opts...)
}

//vf:stub go.opentelemetry.io/otel.SetMeterProvider
func vfSetMeterProvider(mp metric.MeterProvider) {
	vfW.provider = mp
	vfW.nprovider++
}

//vf:stub go.opentelemetry.io/otel.SetTracerProvider
func vfSetTracerProvider(tp traceapi.TracerProvider) {
	vfW.tracer = tp
	vfW.ntracer++
}

//vf:stub go.opentelemetry.io/otel.SetTextMapPropagator
func vfSetTextMapPropagator(p propagation.TextMapPropagator) {
	vfW.propagator = p
	vfW.nprop++
}

//vf:stub go.opentelemetry.io/otel.Handle
func vfHandle(error) { vfW.handled++ }

//vf:stub go.opentelemetry.io/otel/sdk/trace.NewBatchSpanProcessor
func vfNewBatchSpanProcessor(e trace.SpanExporter, _ ...trace.BatchSpanProcessorOption) trace.SpanProcessor {
	vfW.bsp = &vfProcessor{exp: e}
	return vfW.bsp
}

//vf:stub go.opentelemetry.io/otel/sdk/trace.WithSpanProcessor
func vfWithSpanProcessor(p trace.SpanProcessor) trace.TracerProviderOption {
	vfW.spanProc = p
	return nil
}

//vf:stub go.opentelemetry.io/otel/sdk/trace.WithResource
func vfWithTraceResource(r *resource.Resource) trace.TracerProviderOption {
	vfW.res = r
	return nil
}

//vf:stub go.opentelemetry.io/otel/sdk/trace.NewTracerProvider
func vfNewTracerProvider(...trace.TracerProviderOption) *trace.TracerProvider {
	vfW.tp = &trace.TracerProvider{}
	return vfW.tp
}

//vf:stub go.opentelemetry.io/otel/propagation.NewCompositeTextMapPropagator
func vfNewComposite(p ...propagation.TextMapPropagator) propagation.TextMapPropagator {
	vfW.list = append([]propagation.TextMapPropagator(nil), p...)
	vfW.composite = &vfComposite{}
	return vfW.composite
}

//vf:stub go.opentelemetry.io/contrib/propagators/b3.New
func vfNewB3(...b3.Option) propagation.TextMapPropagator { return vfB3{} }

func vfLib(k int, p metric.MeterProvider) error {
	vfW.libs = append(vfW.libs, k)
	vfW.libProv = append(vfW.libProv, p)
	return vfW.libErr
}

// vfStarted remembers the provider the next library is started with.
var vfStarted metric.MeterProvider

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host.WithMeterProvider
func vfHostProvider(p metric.MeterProvider) lightstepHost.Option {
	vfStarted = p
	return nil
}

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime.WithMeterProvider
func vfRuntimeProvider(p metric.MeterProvider) lightstepRuntime.Option {
	vfStarted = p
	return nil
}

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime.WithMeterProvider
func vfCputimeProvider(p metric.MeterProvider) lightstepCputime.Option {
	vfStarted = p
	return nil
}

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host.Start
func vfHostStart(...lightstepHost.Option) error { return vfLib(1, vfStarted) }

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime.Start
func vfRuntimeStart(...lightstepRuntime.Option) error { return vfLib(2, vfStarted) }

//vf:stub github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime.Start
func vfCputimeStart(...lightstepCputime.Option) error { return vfLib(4, vfStarted) }

// ---- temporality

// vfTemporality is the documented choice: delta for everything but up-down
// counters, or for synchronous counters and histograms only.
func vfTemporality(lower string, k sdkinstrument.Kind) aggregation.Temporality {
	switch k {
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		return aggregation.CumulativeTemporality
	}
	if lower == "delta" {
		return aggregation.DeltaTemporality
	}
	if (lower == "stateless" || lower == "lowmemory") && (k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram) {
		return aggregation.DeltaTemporality
	}
	return aggregation.CumulativeTemporality
}

func vfKnownPreference(lower string) bool {
	return lower == "" || lower == "cumulative" || lower == "delta" || lower == "stateless" || lower == "lowmemory"
}

// Any preference, any instrument kind.
func VF_C17_temporality() {
	vf.Unroll(8)
	pref := vf.Any[string]("preference")
	k := vf.Any[sdkinstrument.Kind]("kind")
	vf.Assume(k >= 0 && k < sdkinstrument.NumKinds)
	vfCheckTemporality(pref, k)
}

// The same for the documented names in any case.
func VF_C17_temporality_names() {
	vf.Bounded("the names of the documentation in lower, upper and mixed case, and some others")
	vf.Unroll(8)
	pref := []string{"", "cumulative", "Cumulative", "CUMULATIVE", "delta", "Delta", "DELTA", "dElTa", "stateless", "Stateless", "STATELESS",
		"lowmemory", "LowMemory", "LOWMEMORY", "lowMemory", " ", "low memory", "delta ", "deltas", "d", "standard", "undefined"}[vf.Choose("name", 22)]
	vfCheckTemporality(pref, sdkinstrument.Kind(vf.Choose("kind", int(sdkinstrument.NumKinds))))
}

func vfCheckTemporality(pref string, k sdkinstrument.Kind) {
	lower := strings.ToLower(pref)
	opt, err := tempoOptions(PipelineConfig{TemporalityPreference: pref})
	vf.Ensure((err == nil) == vfKnownPreference(lower), "an unknown preference is an error")
	if err != nil {
		return
	}
	cfg := view.NewConfig(sdkinstrument.Performance{}, opt)
	vf.Ensure(cfg.Defaults.Temporality(k) == vfTemporality(lower, k), "temporality")
}

// ---- security

// Insecure only if requested, otherwise with the given settings.
func VF_C17_security() {
	vf.Unroll(8)
	c := PipelineConfig{Insecure: vf.Any[bool]("insecure")}
	if vf.Choose("tls", 2) == 1 {
		c.TLSSetting = &configtls.ClientConfig{Insecure: vf.Any[bool]("tls.insecure"), InsecureSkipVerify: vf.Any[bool]("tls.skip"), ServerName: vf.Any[string]("tls.name")}
		c.TLSSetting.CAFile = vf.Any[string]("tls.ca")
	}
	var m otelcolmetric.Config
	var t otelcoltrace.Config
	c.secureMetricOption()(&m)
	c.secureTraceOption()(&t)
	vfCheckSecurity(c, m.Exporter.ClientConfig.TLSSetting)
	vfCheckSecurity(c, t.Exporter.ClientConfig.TLSSetting)
}

func vfCheckSecurity(c PipelineConfig, got configtls.ClientConfig) {
	if c.Insecure {
		vf.Ensure(got.Insecure, "insecure as requested")
		return
	}
	var want configtls.ClientConfig
	if c.TLSSetting != nil {
		want = *c.TLSSetting
	}
	vf.Ensure(got.Insecure == want.Insecure && got.InsecureSkipVerify == want.InsecureSkipVerify && got.ServerName == want.ServerName && got.CAFile == want.CAFile, "the given security settings")
}

// ---- the metric pipeline

func vfHeader(h string) map[string]string { return map[string]string{"k": h} }

func VF_C17_metrics() {
	vf.Bounded("one header; some reporting periods; the four temporality preferences in one spelling")
	vf.Coarse()
	vf.Unroll(16)
	w := &vfWorld{}
	vfW = w
	c := PipelineConfig{Endpoint: vf.Any[string]("endpoint"), Insecure: vf.Any[bool]("insecure"), Headers: vfHeader(vf.Any[string]("h"))}
	c.Resource = resource.Empty()
	if vf.Choose("tls", 2) == 1 {
		c.TLSSetting = &configtls.ClientConfig{InsecureSkipVerify: true}
	}
	p := vf.Choose("period", 7)
	c.ReportingPeriod = []string{"", "5s", "1m30s", "0s", "-3s", "soon", "10"}[p]
	want := []time.Duration{30 * time.Second, 5 * time.Second, 90 * time.Second, 0, 0, 0, 0}[p]
	q := vf.Choose("preference", 5)
	c.TemporalityPreference = []string{"", "delta", "lowmemory", "cumulative", "other"}[q]
	if vf.Choose("fails", 2) == 1 {
		w.expErr = &vfErr{"no exporter"}
	}
	if vf.Choose("stop fails", 2) == 1 {
		w.stopErr = &vfErr{"no stop"}
	}
	stop, err := NewMetricsPipeline(c)
	vf.Ensure((err == nil) == (want > 0 && q != 4 && w.expErr == nil), "errors are returned")
	if err != nil {
		vf.Ensure(stop == nil && w.nprovider == 0, "nothing is installed then")
		return
	}
	x := w.mcfg.Exporter.ClientConfig
	vf.Ensure(w.mexps == 1 && x.Endpoint == c.Endpoint && string(x.Compression) == "gzip", "one exporter for the endpoint")
	h, ok := x.Headers["k"]
	vf.Ensure(ok && len(x.Headers) == 1 && string(h) == c.Headers["k"], "headers")
	vfCheckSecurity(c, x.TLSSetting)
	vf.Ensure(w.readers == 1 && w.readerExp == w.mexp && w.period == want && w.reader.p == w.preader, "one reader, exporting at the period")
	vf.Ensure(w.nprovider == 1 && w.provider != nil && w.handled == 0 && len(w.libs) == 0, "one provider")

	// what an instrument of the installed provider produces
	m := w.provider.Meter("m")
	cnt, _ := m.Int64Counter("c")
	udc, _ := m.Int64UpDownCounter("u")
	ctx := context.Background()
	cnt.Add(ctx, 3)
	udc.Add(ctx, -4)
	d := w.reader.producer.Produce(nil)
	vf.Ensure(d.Resource == c.Resource, "the resource")
	vf.Ensure(len(d.Scopes) == 1 && len(d.Scopes[0].Instruments) == 2, "both instruments")
	for i, k := range []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter} {
		pts := d.Scopes[0].Instruments[i].Points
		vf.Ensure(len(pts) == 1 && pts[0].Temporality == vfTemporality(c.TemporalityPreference, k), "the temporality of the provider")
	}
	serr := stop()
	vf.Ensure(w.reader.stops == 1, "the reader is stopped")
	vf.Ensure((serr != nil) == (w.stopErr != nil), "and its error returned")
}

// Exactly the libraries named are started.
func VF_C17_libraries() {
	vf.Bounded("at most two libraries out of twelve names")
	vf.Coarse()
	vf.Unroll(16)
	w := &vfWorld{}
	vfW = w
	names := []string{"all", "host", "runtime", "cputime", "host:stable", "all:stable", "host:v0", "Host", "", ":stable", "runtime:", "cputime:stable:"}
	mean := []int{7, 1, 2, 4, 1, 7, 0, 0, 0, 0, 2, 0}
	c := PipelineConfig{Endpoint: "e", Resource: resource.Empty(), MetricsBuiltinsEnabled: vf.Choose("enabled", 2) == 1}
	want, bad, n := []int{0, 0, 0}, 0, 0
	for i := vf.Choose("libraries", 3); i > 0; i-- {
		k := vf.Choose("library", 12)
		c.MetricsBuiltinLibraries = append(c.MetricsBuiltinLibraries, names[k])
		for j := 0; j < 3; j++ {
			if mean[k]&(1<<j) != 0 {
				want[j]++
				n++
			}
		}
		if mean[k] == 0 {
			bad++
		}
	}
	if !c.MetricsBuiltinsEnabled {
		want, bad, n = []int{0, 0, 0}, 0, 0
	}
	if vf.Choose("fails", 2) == 1 {
		w.libErr = &vfErr{"no library"}
	}
	_, err := NewMetricsPipeline(c)
	vf.Ensure(err == nil && w.nprovider == 1, "a library does not stop the pipeline")
	got := []int{0, 0, 0}
	for i, k := range w.libs {
		vf.Ensure(w.libProv[i] == w.provider, "libraries use the new provider")
		for j := 0; j < 3; j++ {
			if k == 1<<j {
				got[j]++
			}
		}
	}
	vf.Ensure(got[0] == want[0] && got[1] == want[1] && got[2] == want[2], "the libraries named")
	if w.libErr != nil {
		bad += n
	}
	vf.Ensure(w.handled == bad, "the others are reported")
}

// ---- the trace pipeline

func VF_C17_trace() {
	vf.Bounded("one header, some lists of propagators")
	vf.Coarse()
	vf.Unroll(16)
	w := &vfWorld{}
	vfW = w
	c := PipelineConfig{Endpoint: vf.Any[string]("endpoint"), Insecure: vf.Any[bool]("insecure"), Headers: vfHeader(vf.Any[string]("h"))}
	c.Resource = resource.Empty()
	if vf.Choose("tls", 2) == 1 {
		c.TLSSetting = &configtls.ClientConfig{InsecureSkipVerify: true}
	}
	names := []string{"b3", "baggage", "tracecontext", "ottrace", "jaeger"}
	c.Propagators = names[vf.Choose("first", 5):]
	if vf.Choose("none", 2) == 1 {
		c.Propagators = nil
	}
	want := len(c.Propagators)
	if want > 0 {
		want-- // jaeger
	}
	if vf.Choose("fails", 2) == 1 {
		w.expErr = &vfErr{"no exporter"}
	}
	if vf.Choose("stop fails", 2) == 1 {
		w.stopErr = &vfErr{"no stop"}
	}
	stop, err := NewTracePipeline(c)
	vf.Ensure((err == nil) == (w.expErr == nil && want > 0), "errors are returned")
	if err != nil {
		vf.Ensure(stop == nil && w.ntracer == 0 && w.nprop == 0, "nothing is installed then")
		return
	}
	x := w.tcfg.Exporter.ClientConfig
	vf.Ensure(w.texps == 1 && x.Endpoint == c.Endpoint && string(x.Compression) == "gzip", "one exporter for the endpoint")
	h, ok := x.Headers["k"]
	vf.Ensure(ok && len(x.Headers) == 1 && string(h) == c.Headers["k"], "headers")
	vfCheckSecurity(c, x.TLSSetting)
	vf.Ensure(w.bsp.exp == w.texp && w.spanProc == w.bsp && w.res == c.Resource, "spans go to the exporter with the resource")
	vf.Ensure(w.ntracer == 1 && w.tracer == w.tp, "the provider is installed")
	vf.Ensure(w.nprop == 1 && w.propagator == w.composite && len(w.list) == want, "the propagators are installed")
	serr := stop()
	vf.Ensure(w.bsp.stops == 1, "the processor is stopped")
	vf.Ensure((serr != nil) == (w.stopErr != nil), "and its error returned")
}

// Exactly the supported propagators, in their order.
func VF_C17_propagators() {
	vf.Bounded("at most three propagators out of eight names")
	vf.Coarse()
	vf.Unroll(16)
	w := &vfWorld{}
	vfW = w
	var c PipelineConfig
	names := []string{"b3", "baggage", "tracecontext", "ottrace", "jaeger", "", "B3", "none"}
	var want []int
	for i := vf.Choose("propagators", 4); i > 0; i-- {
		k := vf.Choose("propagator", 8)
		c.Propagators = append(c.Propagators, names[k])
		if k < 4 {
			want = append(want, k)
		}
	}
	err := configurePropagators(c)
	vf.Ensure((err == nil) == (len(want) > 0), "none supported is an error")
	if err != nil {
		vf.Ensure(w.nprop == 0, "nothing is installed then")
		return
	}
	vf.Ensure(w.nprop == 1 && w.propagator == w.composite && len(w.list) == len(want), "the propagators are installed")
	for i, k := range want {
		var is bool
		switch k {
		case 0:
			_, is = w.list[i].(vfB3)
		case 1:
			_, is = w.list[i].(propagation.Baggage)
		case 2:
			_, is = w.list[i].(propagation.TraceContext)
		case 3:
			_, is = w.list[i].(ot.OT)
		}
		vf.Ensure(is, "in their order")
	}
}
