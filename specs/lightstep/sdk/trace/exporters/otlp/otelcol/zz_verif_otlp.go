package otelcol

import (
	"context"
	"errors"
	"time"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"go.opentelemetry.io/collector/exporter"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/collector/processor"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	otelcodes "go.opentelemetry.io/otel/codes"
	metricapi "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/sdk/trace"
	apitrace "go.opentelemetry.io/otel/trace"
)

// vfSpan is a finished span.
type vfSpan struct {
	trace.ReadOnlySpan
	name             string
	sc, parent       apitrace.SpanContext
	kind             apitrace.SpanKind
	start, end       time.Time
	attrs            []attribute.KeyValue
	links            []trace.Link
	events           []trace.Event
	status           trace.Status
	scope            instrumentation.Scope
	res              *resource.Resource
	drops, dlks, dev int
}

func (s *vfSpan) Name() string                                { return s.name }
func (s *vfSpan) SpanContext() apitrace.SpanContext           { return s.sc }
func (s *vfSpan) Parent() apitrace.SpanContext                { return s.parent }
func (s *vfSpan) SpanKind() apitrace.SpanKind                 { return s.kind }
func (s *vfSpan) StartTime() time.Time                        { return s.start }
func (s *vfSpan) EndTime() time.Time                          { return s.end }
func (s *vfSpan) Attributes() []attribute.KeyValue            { return s.attrs }
func (s *vfSpan) Links() []trace.Link                         { return s.links }
func (s *vfSpan) Events() []trace.Event                       { return s.events }
func (s *vfSpan) Status() trace.Status                        { return s.status }
func (s *vfSpan) InstrumentationScope() instrumentation.Scope { return s.scope }
func (s *vfSpan) Resource() *resource.Resource                { return s.res }
func (s *vfSpan) DroppedAttributes() int                      { return s.drops }
func (s *vfSpan) DroppedLinks() int                           { return s.dlks }
func (s *vfSpan) DroppedEvents() int                          { return s.dev }

func vfSpanContext(name string) apitrace.SpanContext {
	return apitrace.NewSpanContext(apitrace.SpanContextConfig{TraceID: vf.Any[apitrace.TraceID](name + ".trace"), SpanID: vf.Any[apitrace.SpanID](name + ".span"),
		TraceFlags: vf.Any[apitrace.TraceFlags](name + ".flags"), TraceState: vf.Any[apitrace.TraceState](name + ".state"), Remote: vf.Any[bool](name + ".remote")})
}

func vfCount(name string) int {
	n := vf.Any[int](name)
	vf.Assume(n >= 0 && n < 1<<32)
	return n
}

// vfAnySpan has arbitrary fields and the given numbers of attributes, events and links.
func vfAnySpan(name string, attrs, events, links int) *vfSpan {
	s := &vfSpan{name: name, sc: vfSpanContext(name), parent: vfSpanContext(name + ".parent"), kind: vf.Any[apitrace.SpanKind](name + ".kind"),
		start: vf.Any[time.Time](name + ".start"), end: vf.Any[time.Time](name + ".end"),
		status: trace.Status{Code: vf.Any[codes.Code](name + ".code"), Description: vf.Any[string](name + ".desc")},
		drops:  vfCount(name + ".drops"), dlks: vfCount(name + ".dlks"), dev: vfCount(name + ".dev"),
	}
	keys := []attribute.Key{"a", "b"}
	for i := 0; i < attrs; i++ {
		s.attrs = append(s.attrs, keys[i].String(vf.Any[string](name+".attr")))
	}
	for i := 0; i < events; i++ {
		s.events = append(s.events, trace.Event{Name: vf.Any[string](name + ".event"), Time: vf.Any[time.Time](name + ".etime"),
			DroppedAttributeCount: vfCount(name + ".edrop"), Attributes: []attribute.KeyValue{attribute.Int64("e", vf.Any[int64](name+".eattr"))}})
	}
	for i := 0; i < links; i++ {
		s.links = append(s.links, trace.Link{SpanContext: vfSpanContext(name + ".link"), DroppedAttributeCount: vfCount(name + ".ldrop"),
			Attributes: []attribute.KeyValue{attribute.Bool("l", vf.Any[bool](name+".lattr"))}})
	}
	return s
}

func vfKind(k apitrace.SpanKind) ptrace.SpanKind {
	switch k {
	case apitrace.SpanKindInternal:
		return ptrace.SpanKindInternal
	case apitrace.SpanKindServer:
		return ptrace.SpanKindServer
	case apitrace.SpanKindClient:
		return ptrace.SpanKindClient
	case apitrace.SpanKindProducer:
		return ptrace.SpanKindProducer
	case apitrace.SpanKindConsumer:
		return ptrace.SpanKindConsumer
	}
	return ptrace.SpanKindUnspecified
}

// vfSameSpan: the exported span is the recorded one.
func vfSameSpan(o ptrace.Span, s *vfSpan) {
	vf.Ensure(o.SpanID() == pcommon.SpanID(s.sc.SpanID()) && o.TraceID() == pcommon.TraceID(s.sc.TraceID()) && o.ParentSpanID() == pcommon.SpanID(s.parent.SpanID()), "identifiers")
	vf.Ensure(o.TraceState().AsRaw() == s.sc.TraceState().String(), "trace state")
	vf.Ensure(o.Kind() == vfKind(s.kind), "kind")
	vf.Ensure(o.StartTimestamp() == pcommon.Timestamp(s.start.UnixNano()) && o.EndTimestamp() == pcommon.Timestamp(s.end.UnixNano()), "times")
	vf.Ensure(o.Status().Message() == s.status.Description, "status message")
	want := ptrace.StatusCodeUnset
	if s.status.Code == codes.Ok {
		want = ptrace.StatusCodeOk
	} else if s.status.Code == codes.Error {
		want = ptrace.StatusCodeError
	}
	vf.Ensure(o.Status().Code() == want, "status code")
	vf.Ensure(o.DroppedAttributesCount() == uint32(s.drops) && o.DroppedLinksCount() == uint32(s.dlks) && o.DroppedEventsCount() == uint32(s.dev), "dropped counts")
	vf.Ensure(internal.VfSameAttributes(o.Attributes(), s.attrs...), "attributes")
	vf.Ensure(o.Events().Len() == len(s.events) && o.Links().Len() == len(s.links), "numbers of events and links")
	for i, e := range s.events {
		x := o.Events().At(i)
		vf.Ensure(x.Name() == e.Name && x.Timestamp() == pcommon.Timestamp(e.Time.UnixNano()) && x.DroppedAttributesCount() == uint32(e.DroppedAttributeCount), "event")
		vf.Ensure(internal.VfSameAttributes(x.Attributes(), e.Attributes...), "event attributes")
	}
	for i, l := range s.links {
		x := o.Links().At(i)
		vf.Ensure(x.SpanID() == pcommon.SpanID(l.SpanContext.SpanID()) && x.TraceID() == pcommon.TraceID(l.SpanContext.TraceID()), "link identifiers")
		vf.Ensure(x.TraceState().AsRaw() == l.SpanContext.TraceState().String() && x.DroppedAttributesCount() == uint32(l.DroppedAttributeCount), "link")
		vf.Ensure(internal.VfSameAttributes(x.Attributes(), l.Attributes...), "link attributes")
	}
}

// One span with everything.
func VF_C13_span() {
	vf.Bounded("a span with up to two attributes, events and links")
	vf.Unroll(4)
	vf.Coarse()
	kv := attribute.Int64("r", vf.Any[int64]("r"))
	n := [][3]int{{0, 0, 0}, {1, 1, 1}, {2, 0, 1}, {0, 2, 0}, {1, 0, 2}, {2, 2, 2}}[vf.Choose("sizes", vf.Tier(4, 6))]
	s := vfAnySpan("s", n[0], n[1], n[2])
	s.scope = instrumentation.Scope{Name: vf.Any[string]("name"), Version: vf.Any[string]("version"), SchemaURL: vf.Any[string]("url")}
	s.res = resource.NewSchemaless(kv)
	c := &client{}
	out := c.d2pd([]trace.ReadOnlySpan{s})
	vf.Ensure(out.ResourceSpans().Len() == 1 && out.SpanCount() == 1, "one span")
	rs := out.ResourceSpans().At(0)
	vf.Ensure(internal.VfSameAttributes(rs.Resource().Attributes(), kv), "the resource")
	vf.Ensure(rs.ScopeSpans().Len() == 1 && rs.ScopeSpans().At(0).Spans().Len() == 1, "one scope")
	ss := rs.ScopeSpans().At(0)
	vf.Ensure(ss.Scope().Name() == s.scope.Name && ss.Scope().Version() == s.scope.Version && ss.SchemaUrl() == s.scope.SchemaURL, "the scope")
	vf.Ensure(ss.Spans().At(0).Name() == "s", "the name")
	vfSameSpan(ss.Spans().At(0), s)
}

// Batches of spans of different scopes.
//
//vf:props C20
func VF_C13_batch() {
	vf.Bounded("two batches of up to three spans of four scopes in any order")
	vf.Unroll(8)
	vf.Coarse()
	scopes := []instrumentation.Scope{{}, {Name: "lib", Version: "1"}, {Name: "lib", Version: "2"}, {Name: "lib", Version: "1", SchemaURL: "u"}}
	names := []string{"s0", "s1", "s2"}
	c := &client{}
	kv, kv2 := attribute.Int64("r", vf.Any[int64]("r")), attribute.Int64("r", vf.Any[int64]("r2"))
	if vf.Choose("earlier", 2) == 1 {
		c.d2pd([]trace.ReadOnlySpan{&vfSpan{res: resource.NewSchemaless(kv2)}})
	}
	n := vf.Choose("n", 4)
	var in []trace.ReadOnlySpan
	spans := make([]*vfSpan, n)
	for i := 0; i < n; i++ {
		spans[i] = &vfSpan{name: names[i], sc: vfSpanContext(names[i]), scope: scopes[vf.Choose("scope", len(scopes))], res: resource.NewSchemaless(kv)}
		in = append(in, spans[i])
	}
	out := c.d2pd(in)
	vf.Ensure(out.SpanCount() == n, "every span")
	for i := 0; i < n; i++ {
		found := 0
		for r := 0; r < out.ResourceSpans().Len(); r++ {
			rs := out.ResourceSpans().At(r)
			vf.Ensure(internal.VfSameAttributes(rs.Resource().Attributes(), kv), "the resource")
			for j := 0; j < rs.ScopeSpans().Len(); j++ {
				ss := rs.ScopeSpans().At(j)
				for k := 0; k < ss.Spans().Len(); k++ {
					if o := ss.Spans().At(k); o.Name() == names[i] {
						found++
						vf.Ensure(o.SpanID() == pcommon.SpanID(spans[i].sc.SpanID()), "its identifier")
						sc := spans[i].scope
						vf.Ensure(ss.Scope().Name() == sc.Name && ss.Scope().Version() == sc.Version && ss.SchemaUrl() == sc.SchemaURL, "under its own scope")
					}
				}
			}
		}
		vf.Ensure(found == 1, "exactly once")
	}
}

// ---- ExportSpans

type vfTracer struct {
	apitrace.Tracer
	span vfSelf
	ctx  context.Context
	n    int
}

func (t *vfTracer) Start(ctx context.Context, _ string, _ ...apitrace.SpanStartOption) (context.Context, apitrace.Span) {
	t.n++
	t.ctx = ctx
	return ctx, &t.span
}

type vfSelf struct {
	apitrace.Span
	ended int
	code  otelcodes.Code
}

func (s *vfSelf) End(...apitrace.SpanEndOption)        { s.ended++ }
func (s *vfSelf) SetStatus(c otelcodes.Code, _ string) { s.code = c }
func (s *vfSelf) SetAttributes(...attribute.KeyValue)  {}

type vfCounter struct {
	metricapi.Int64Counter
	n     int64
	calls int
	set   attribute.Set
}

func (c *vfCounter) Add(_ context.Context, n int64, opts ...metricapi.AddOption) {
	c.n += n
	c.calls++
	c.set = metricapi.NewAddConfig(opts).Attributes()
}

type vfBatcher struct {
	err, serr error
	got       int
	shut      int
	after     *vfBatcher // must be shut down before
}

func (b *vfBatcher) ConsumeTraces(_ context.Context, t ptrace.Traces) error {
	b.got += t.SpanCount()
	return b.err
}

type vfProc struct {
	processor.Traces
	b *vfBatcher
}

func (p vfProc) ConsumeTraces(ctx context.Context, t ptrace.Traces) error {
	return p.b.ConsumeTraces(ctx, t)
}
func (p vfProc) Shutdown(ctx context.Context) error { return p.b.shutdown() }

type vfExp struct {
	exporter.Traces
	b *vfBatcher
}

func (p vfExp) Shutdown(ctx context.Context) error { return p.b.shutdown() }

func (b *vfBatcher) shutdown() error {
	b.shut++
	vf.Ensure(b.after == nil || b.after.shut == 1, "the batcher is shut down before the exporter")
	return b.serr
}

type vfErr struct{ s string }

func (e *vfErr) Error() string { return e.s }

// The outcome of an export is returned and counted.
func VF_C13_export() {
	vf.Bounded("batches of up to two spans")
	vf.Unroll(8)
	vf.Coarse()
	tr, cnt, b := &vfTracer{}, &vfCounter{}, &vfBatcher{}
	state := "ok"
	switch vf.Choose("err", 4) {
	case 1:
		b.err, state = context.Canceled, "canceled"
		vf.Assume(b.err != nil)
	case 2:
		b.err, state = context.DeadlineExceeded, "timeout"
		vf.Assume(b.err != nil && !errors.Is(b.err, context.Canceled))
	case 3:
		b.err, state = &vfErr{"other"}, "error"
	}
	c := &client{tracer: tr, counter: cnt, batcher: vfProc{b: b}}
	n := vf.Choose("n", 3)
	spans := []trace.ReadOnlySpan{&vfSpan{name: "a"}, &vfSpan{name: "b"}}[:n]
	err := c.ExportSpans(context.Background(), spans)
	vf.Ensure(err == b.err, "the outcome is returned")
	vf.Ensure(b.got == n && cnt.n == int64(n) && cnt.calls == 1, "every span is exported and counted")
	vf.Ensure(cnt.set == attribute.NewSet(attribute.Bool("success", b.err == nil), attribute.String("state", state)), "counted with the outcome")
	want := otelcodes.Ok
	if b.err != nil {
		want = otelcodes.Error
	}
	vf.Ensure(tr.n == 1 && tr.span.ended == 1 && tr.span.code == want, "the export span")
}

// Shutdown reaches batcher and exporter and returns their errors.
//
//vf:props C13
func VF_C15_trace_exporter() {
	b := &vfBatcher{}
	e := &vfBatcher{after: b}
	if vf.Choose("b", 2) == 1 {
		b.serr = &vfErr{"b"}
	}
	if vf.Choose("e", 2) == 1 {
		e.serr = &vfErr{"e"}
	}
	c := &client{batcher: vfProc{b: b}, exporter: vfExp{b: e}}
	err := c.Shutdown(context.Background())
	vf.Ensure(b.shut == 1 && e.shut == 1, "both are shut down")
	vf.Ensure((err == nil) == (b.serr == nil && e.serr == nil), "errors are returned")
}
