package launcher

import (
	"context"
	"time"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/pipelines"
	"github.com/sethvargo/go-envconfig"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
	semconv "go.opentelemetry.io/otel/semconv/v1.4.0"
)

// ---- the world around the launcher

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

type vfPipe struct {
	cfg           pipelines.PipelineConfig
	starts, stops int
	err, serr     error
	fatal         int // Fatalf calls before the start
}

type vfWorld struct {
	env           Config
	envErr        error
	token         string
	envRes        *resource.Resource
	host          string
	hostErr       error
	trace, metric vfPipe
	handler       otel.ErrorHandler
	fatal, debug  int
	stopsAtFatal  int
}

var vfW *vfWorld

func (p *vfPipe) start(c pipelines.PipelineConfig) (func() error, error) {
	p.starts++
	p.cfg = c
	p.fatal = vfW.fatal
	if p.err != nil {
		return nil, p.err
	}
	return func() error {
		p.stops++
		return p.serr
	}, nil
}

//vf:stub github.com/lightstep/otel-launcher-go/pipelines.NewTracePipeline
func vfNewTracePipeline(c pipelines.PipelineConfig) (func() error, error) { return vfW.trace.start(c) }

//vf:stub github.com/lightstep/otel-launcher-go/pipelines.NewMetricsPipeline
func vfNewMetricsPipeline(c pipelines.PipelineConfig) (func() error, error) {
	return vfW.metric.start(c)
}

//vf:stub github.com/sethvargo/go-envconfig.Process
func vfProcess(_ context.Context, i any, _ ...envconfig.Mutator) error {
	*i.(*Config) = vfW.env
	return vfW.envErr
}

//vf:stub os.Getenv
func vfGetenv(key string) string {
	if key == "LS_ACCESS_TOKEN" {
		return vfW.token
	}
	return ""
}

//vf:stub os.Hostname
func vfHostname() (string, error) { return vfW.host, vfW.hostErr }

//vf:stub go.opentelemetry.io/otel/sdk/resource.Environment
func vfEnvironment() *resource.Resource { return vfW.envRes }

//vf:stub go.opentelemetry.io/otel.SetErrorHandler
func vfSetErrorHandler(h otel.ErrorHandler) { vfW.handler = h }

type vfLogger struct{}

func (*vfLogger) Fatalf(string, ...interface{}) {
	vfW.fatal++
	vfW.stopsAtFatal = vfW.trace.stops + vfW.metric.stops
}
func (*vfLogger) Debugf(string, ...interface{}) { vfW.debug++ }

type vfHandler struct{}

func (*vfHandler) Handle(error) {}

// vfEnv is what the environment configures.
func vfEnv() Config {
	return Config{
		SpanExporterEndpoint: vf.Any[string]("env.span"), SpanExporterEndpointInsecure: vf.Any[bool]("env.spanInsecure"),
		ServiceName: vf.Any[string]("env.service"), ServiceVersion: vf.Any[string]("env.version"),
		MetricExporterEndpoint: vf.Any[string]("env.metric"), MetricExporterEndpointInsecure: vf.Any[bool]("env.metricInsecure"),
		MetricExporterTemporalityPreference: vf.Any[string]("env.pref"), MetricsEnabled: vf.Any[bool]("env.enabled"),
		MetricsBuiltinsEnabled: vf.Any[bool]("env.builtins"), MetricsBuiltinLibraries: []string{vf.Any[string]("env.lib")},
		LogLevel: vf.Any[string]("env.level"), Propagators: []string{vf.Any[string]("env.prop")}, MetricReportingPeriod: vf.Any[string]("env.period"),
	}
}

// vfOption is one option and what it is to change.
func vfOption(k int) (Option, func(*Config)) {
	s, b := vf.Any[string]("opt"), vf.Any[bool]("optb")
	switch k {
	case 1:
		return WithMetricExporterEndpoint(s), func(c *Config) { c.MetricExporterEndpoint = s }
	case 2:
		return WithSpanExporterEndpoint(s), func(c *Config) { c.SpanExporterEndpoint = s }
	case 3:
		return WithServiceName(s), func(c *Config) { c.ServiceName = s }
	case 4:
		return WithServiceVersion(s), func(c *Config) { c.ServiceVersion = s }
	case 5:
		return WithLogLevel(s), func(c *Config) { c.LogLevel = s }
	case 6:
		return WithSpanExporterInsecure(b), func(c *Config) { c.SpanExporterEndpointInsecure = b }
	case 7:
		return WithMetricExporterInsecure(b), func(c *Config) { c.MetricExporterEndpointInsecure = b }
	case 8:
		return WithPropagators([]string{s}), func(c *Config) { c.Propagators = []string{s} }
	case 9:
		return WithMetricExporterTemporalityPreference(s), func(c *Config) { c.MetricExporterTemporalityPreference = s }
	case 10:
		return WithMetricsEnabled(b), func(c *Config) { c.MetricsEnabled = b }
	case 11:
		return WithMetricsBuiltinsEnabled(b), func(c *Config) { c.MetricsBuiltinsEnabled = b }
	case 12:
		return WithMetricsBuiltinLibraries([]string{s}), func(c *Config) { c.MetricsBuiltinLibraries = []string{s} }
	case 13:
		return WithMetricReportingPeriod(5 * time.Second), func(c *Config) { c.MetricReportingPeriod = "5s" }
	case 14:
		return WithHeaders(map[string]string{"x": s}), func(c *Config) { c.Headers = map[string]string{"x": s} }
	case 15:
		return WithAccessToken(s), func(c *Config) { c.Headers = map[string]string{"lightstep-access-token": s} }
	case 16:
		return WithLightstepMetricsSDK(b), func(*Config) {}
	}
	return WithErrorHandler(&vfHandler{}), func(*Config) {}
}

const vfOptions = 17

func vfSetup() *vfWorld {
	vfW = &vfWorld{env: vfEnv(), token: vf.Any[string]("token"), envRes: resource.Empty(), host: "h"}
	return vfW
}

func vfSameStrings(a, b []string) bool {
	return len(a) == len(b) && vf.All(len(a), func(i int) bool { return a[i] == b[i] })
}

func vfSameHeaders(got, want map[string]string) bool {
	if len(got) != len(want) {
		return false
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return false
		}
	}
	return true
}

// Each option changes its own setting and no other.
func VF_C16_options() {
	vf.Unroll(4)
	c := vfEnv()
	k := 1 + vf.Choose("option", vfOptions)
	if k == 14 || k == 15 {
		return
	}
	want := c
	o, f := vfOption(k)
	f(&want)
	o(&c)
	vf.Ensure(c.SpanExporterEndpoint == want.SpanExporterEndpoint && c.SpanExporterEndpointInsecure == want.SpanExporterEndpointInsecure, "spans")
	vf.Ensure(c.MetricExporterEndpoint == want.MetricExporterEndpoint && c.MetricExporterEndpointInsecure == want.MetricExporterEndpointInsecure, "metrics")
	vf.Ensure(c.ServiceName == want.ServiceName && c.ServiceVersion == want.ServiceVersion && c.LogLevel == want.LogLevel, "names")
	vf.Ensure(c.MetricExporterTemporalityPreference == want.MetricExporterTemporalityPreference && c.MetricReportingPeriod == want.MetricReportingPeriod, "preference and period")
	vf.Ensure(c.MetricsEnabled == want.MetricsEnabled && c.MetricsBuiltinsEnabled == want.MetricsBuiltinsEnabled, "switches")
	vf.Ensure(len(c.MetricsBuiltinLibraries) == 1 && c.MetricsBuiltinLibraries[0] == want.MetricsBuiltinLibraries[0], "libraries")
	vf.Ensure(len(c.Propagators) == 1 && c.Propagators[0] == want.Propagators[0], "propagators")
}

// The pipelines get their settings, whatever the configuration.
func VF_C16_pipelines() {
	w := vfSetup()
	c := w.env
	c.logger = &vfLogger{}
	c.MetricsBuiltinLibraries, c.Propagators = vf.AnySlice[string]("libs", vf.Len("nlibs")), vf.AnySlice[string]("props", vf.Len("nprops"))
	c.Headers = vf.AnyMap[string, string]("headers")
	c.Resource = vf.AnyPtr[resource.Resource]("resource")
	t, m := &w.trace, &w.metric
	if vf.Choose("fails", 2) == 1 {
		t.err, m.err = &vfErr{"t"}, &vfErr{"m"}
	}
	k := vf.Any[string]("k")
	tf, terr := setupTracing(c)
	vf.Ensure(t.starts == vf.Ite(c.SpanExporterEndpoint != "", 1, 0) && m.starts == 0, "tracing is started exactly when it has an endpoint")
	mf, merr := setupMetrics(c)
	vf.Ensure(m.starts == vf.Ite(c.MetricsEnabled && c.MetricExporterEndpoint != "", 1, 0), "metrics are started exactly when enabled and with an endpoint")
	vf.Ensure((tf != nil) == (t.starts == 1 && t.err == nil) && (mf != nil) == (m.starts == 1 && m.err == nil), "what is started can be stopped")
	vf.Ensure((terr != nil) == (t.starts == 1 && t.err != nil) && (merr != nil) == (m.starts == 1 && m.err != nil), "errors are returned")
	if t.starts == 1 {
		vf.Ensure(t.cfg.Endpoint == c.SpanExporterEndpoint && t.cfg.Insecure == c.SpanExporterEndpointInsecure && t.cfg.Resource == c.Resource, "tracing")
		vf.Ensure(vfSameStrings(t.cfg.Propagators, c.Propagators) && t.cfg.Headers[k] == c.Headers[k], "propagators and headers")
	}
	if m.starts == 1 {
		vf.Ensure(m.cfg.Endpoint == c.MetricExporterEndpoint && m.cfg.Insecure == c.MetricExporterEndpointInsecure && m.cfg.Resource == c.Resource, "metrics")
		vf.Ensure(m.cfg.ReportingPeriod == c.MetricReportingPeriod && m.cfg.TemporalityPreference == c.MetricExporterTemporalityPreference, "period and preference")
		vf.Ensure(m.cfg.MetricsBuiltinsEnabled == c.MetricsBuiltinsEnabled, "switch")
		vf.Ensure(vfSameStrings(m.cfg.MetricsBuiltinLibraries, c.MetricsBuiltinLibraries) && m.cfg.Headers[k] == c.Headers[k], "libraries and headers")
	}
}

// A configuration with a service name is valid unless a default endpoint lacks the token.
func VF_C16_validate() {
	c := vfEnv()
	vf.Assume(len(c.ServiceName) > 0)
	c.Headers = vf.AnyMap[string, string]("headers")
	const def = "ingest.lightstep.com:443"
	bad := len(c.Headers["lightstep-access-token"]) == 0 && (c.SpanExporterEndpoint == def || c.MetricExporterEndpoint == def)
	vf.Ensure((validateConfiguration(c) != nil) == bad, "valid")
}

// Every setting reaches its pipeline, an option wins over the environment.
func VF_C16_settings() {
	vf.Bounded("at most one option besides the logger; one propagator and one library; up to one header in the environment")
	vf.Unroll(16)
	vf.Coarse()
	w := vfSetup()
	opts := []Option{WithLogger(&vfLogger{})}
	want := w.env
	switch vf.Choose("header", 3) {
	case 1:
		w.env.Headers = map[string]string{"y": vf.Any[string]("y")}
		want.Headers = map[string]string{"y": w.env.Headers["y"]}
	case 2:
		w.env.Headers = map[string]string{"lightstep-access-token": vf.Any[string]("htoken")}
		want.Headers = map[string]string{"lightstep-access-token": w.env.Headers["lightstep-access-token"]}
	}
	k := vf.Choose("option", vfOptions+1)
	if k > 0 {
		o, f := vfOption(k)
		opts = append(opts, o)
		before := want.Headers
		f(&want)
		for h, v := range before {
			if _, ok := want.Headers[h]; !ok {
				want.Headers[h] = v
			}
		}
	}
	if want.Headers == nil {
		want.Headers = map[string]string{}
	}
	if t, ok := want.Headers["lightstep-access-token"]; len(w.token) > 0 && (!ok || len(t) == 0) {
		want.Headers["lightstep-access-token"] = w.token
	}
	l := ConfigureOpentelemetry(opts...)
	noToken := len(want.Headers["lightstep-access-token"]) == 0
	const def = "ingest.lightstep.com:443"
	bad := len(want.ServiceName) == 0 || noToken && (want.SpanExporterEndpoint == def || want.MetricExporterEndpoint == def)
	vf.Ensure((w.fatal > 0) == bad, "refused exactly when the service name or a needed token is missing")

	t, m := &w.trace, &w.metric
	traced, metered := want.SpanExporterEndpoint != "", want.MetricsEnabled && want.MetricExporterEndpoint != ""
	vf.Ensure(t.starts == vf.Ite(traced, 1, 0) && m.starts == vf.Ite(metered, 1, 0), "a pipeline for every enabled signal only")
	if traced {
		vf.Ensure(t.fatal == w.fatal, "refused before tracing starts")
		vf.Ensure(t.cfg.Endpoint == want.SpanExporterEndpoint && t.cfg.Insecure == want.SpanExporterEndpointInsecure, "where spans go")
		vf.Ensure(vfSameHeaders(t.cfg.Headers, want.Headers), "headers of the span exporter")
		vf.Ensure(len(t.cfg.Propagators) == 1 && t.cfg.Propagators[0] == want.Propagators[0], "propagators")
		vf.Ensure(t.cfg.Resource != nil && t.cfg.Resource == l.config.Resource, "the resource of spans")
	}
	if metered {
		vf.Ensure(m.fatal == w.fatal, "refused before metrics start")
		vf.Ensure(m.cfg.Endpoint == want.MetricExporterEndpoint && m.cfg.Insecure == want.MetricExporterEndpointInsecure, "where metrics go")
		vf.Ensure(vfSameHeaders(m.cfg.Headers, want.Headers), "headers of the metric exporter")
		vf.Ensure(m.cfg.ReportingPeriod == want.MetricReportingPeriod && m.cfg.TemporalityPreference == want.MetricExporterTemporalityPreference, "period and preference")
		vf.Ensure(m.cfg.MetricsBuiltinsEnabled == want.MetricsBuiltinsEnabled && len(m.cfg.MetricsBuiltinLibraries) == 1 && m.cfg.MetricsBuiltinLibraries[0] == want.MetricsBuiltinLibraries[0], "libraries")
		vf.Ensure(m.cfg.Resource != nil && m.cfg.Resource == l.config.Resource, "the resource of metrics")
	}
	if k == vfOptions {
		_, ok := w.handler.(*vfHandler)
		vf.Ensure(ok, "the error handler is installed")
	}
	l.Shutdown()
	vf.Ensure(t.stops == t.starts && m.stops == m.starts, "everything started is stopped")
}

// Options are applied in order, headers accumulate.
func VF_C16_precedence() {
	vf.Bounded("three header options")
	vf.Unroll(16)
	w := vfSetup()
	w.env.SpanExporterEndpoint, w.env.MetricsEnabled, w.env.ServiceName = "e", true, "s"
	a, b, c := vf.Any[string]("a"), vf.Any[string]("b"), vf.Any[string]("c")
	mine := map[string]string{"k": a, "l": a}
	ConfigureOpentelemetry(WithLogger(&vfLogger{}), WithHeaders(mine), WithHeaders(map[string]string{"k": b}), WithAccessToken(c),
		WithServiceName("n"), WithServiceName("m"), WithSpanExporterEndpoint("f"), WithSpanExporterEndpoint("g"))
	want := c
	if len(c) == 0 {
		want = w.token
	}
	h := w.trace.cfg.Headers
	vf.Ensure(h["k"] == b && h["l"] == a && h["lightstep-access-token"] == want, "headers")
	vf.Ensure(w.trace.cfg.Endpoint == "g", "the last option wins")
	vf.Ensure(len(mine) == 2 && mine["k"] == a, "the caller's headers are not changed")
}

// A failed setup or environment is reported; the other pipeline works on.
func VF_C16_failures() {
	vf.Bounded("each of environment, setup and shutdown failing or not")
	vf.Unroll(16)
	vf.Coarse()
	w := vfSetup()
	w.env.SpanExporterEndpoint, w.env.MetricExporterEndpoint, w.env.ServiceName, w.env.MetricsEnabled = "e", "e", "s", true
	want := 0
	if vf.Choose("env", 2) == 1 {
		w.envErr = &vfErr{"env"}
		want++
	}
	if vf.Choose("trace", 2) == 1 {
		w.trace.err = &vfErr{"trace"}
		want++
	}
	if vf.Choose("metric", 2) == 1 {
		w.metric.err = &vfErr{"metric"}
		want++
	}
	l := ConfigureOpentelemetry(WithLogger(&vfLogger{}))
	vf.Ensure(w.fatal == want, "every failure is reported")
	vf.Ensure(w.trace.starts == 1 && w.metric.starts == 1, "both are tried")
	running := 0
	if w.trace.err == nil {
		running++
		if vf.Choose("stop trace", 2) == 1 {
			w.trace.serr = &vfErr{"stop"}
		}
	}
	if w.metric.err == nil {
		running++
		if vf.Choose("stop metric", 2) == 1 {
			w.metric.serr = &vfErr{"stop"}
		}
	}
	w.fatal = 0
	l.Shutdown()
	vf.Ensure(w.trace.stops+w.metric.stops == running && w.trace.stops <= 1 && w.metric.stops <= 1, "every pipeline is stopped once")
	vf.Ensure((w.fatal > 0) == (w.trace.serr != nil || w.metric.serr != nil), "failures are reported")
	vf.Ensure(w.fatal == 0 || w.stopsAtFatal == running, "and only when all are stopped, since reporting may exit")
}

// A service name of the resource is as good as a configured one.
func VF_C16_service_name() {
	vf.Bounded("one attribute")
	vf.Unroll(16)
	w := vfSetup()
	w.env.SpanExporterEndpoint, w.env.MetricExporterEndpoint, w.env.ServiceName = "e", "e", ""
	v := vf.Any[string]("name")
	opts := []Option{WithLogger(&vfLogger{})}
	switch vf.Choose("from", 3) {
	case 0:
		w.envRes = resource.NewSchemaless(attribute.String("service.name", v))
	case 1:
		opts = append(opts, WithResourceAttributes(map[string]string{"service.name": v}))
	case 2:
		w.envRes = resource.NewSchemaless(attribute.String("service.namespace", "x"))
		v = ""
	}
	ConfigureOpentelemetry(opts...)
	vf.Ensure((w.fatal == 0) == (len(v) > 0), "a service name is needed")
}

// vfValue is the value of an attribute of a resource, if there.
func vfValue(r *resource.Resource, key string) (string, bool) {
	v, ok := r.Set().Value(attribute.Key(key))
	return v.AsString(), ok
}

// The resource.
func VF_C20_launcher_resource() {
	vf.Bounded("up to two attributes in the environment and in the configuration")
	vf.Unroll(16)
	vf.Coarse()
	w := vfSetup()
	c := &Config{ServiceName: vf.Any[string]("service"), ServiceVersion: vf.Any[string]("version"), logger: &vfLogger{}}
	w.host = vf.Any[string]("host")
	if vf.Choose("no host", 2) == 1 {
		w.hostErr = &vfErr{"host"}
	}
	keys := []string{"a", "host.name", "service.name", "telemetry.sdk.name"}
	env, cfg := map[string]string{}, map[string]string{}
	if k := vf.Choose("env", len(keys)+1); k > 0 {
		env[keys[k-1]] = vf.Any[string]("ev")
		w.envRes = resource.NewSchemaless(attribute.String(keys[k-1], env[keys[k-1]]), attribute.String("z", "z"))
	}
	if k := vf.Choose("cfg", len(keys)+1); k > 0 {
		cfg[keys[k-1]] = vf.Any[string]("cv")
		c.ResourceAttributes = map[string]string{keys[k-1]: cfg[keys[k-1]], "b": "b"}
	}
	r := newResource(c)
	vf.Ensure(r.SchemaURL() == semconv.SchemaURL, "the schema")
	if len(env) > 0 {
		z, ok := vfValue(r, "z")
		vf.Ensure(ok && z == "z", "every attribute of the environment")
	}
	if len(cfg) > 0 {
		b, ok := vfValue(r, "b")
		vf.Ensure(ok && b == "b", "every configured attribute")
	}
	for _, k := range []string{"a", "host.name", "service.name", "service.version", "telemetry.sdk.name", "telemetry.sdk.language", "telemetry.sdk.version"} {
		want, has := env[k]
		switch {
		case k == "telemetry.sdk.name":
			want, has = "launcher", true
		case k == "telemetry.sdk.language":
			want, has = "go", true
		case k == "telemetry.sdk.version":
			want, has = version, true
		case k == "service.name" && len(c.ServiceName) > 0:
			want, has = c.ServiceName, true
		case k == "service.version" && len(c.ServiceVersion) > 0:
			want, has = c.ServiceVersion, true
		}
		if v := cfg[k]; len(v) > 0 {
			want, has = v, true
		}
		if k == "host.name" && len(want) == 0 && w.hostErr == nil {
			want, has = w.host, true
		}
		got, ok := vfValue(r, k)
		vf.Ensure(ok == has && (!ok || got == want), "attribute "+k)
	}
}
