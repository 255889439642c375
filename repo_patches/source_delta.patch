From ce9c2b06026f1eb54cafcf7af8c879ae6b5558ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 01/20] fix: do not collect instruments that are dropped by
 every reader

configureInstrument appended a nil instrument to the list used by
collection, and collecting it dereferenced the nil pointer.
---
 lightstep/sdk/metric/meter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 90e877d..fb5376c 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -171,10 +171,11 @@ func configureInstrument[T any](
 	inst := ctor(desc, m.provider.cfg.performance, m, compiled)
 	err := conflicts.AsError()
 
+	// Note: inst is nil when every pipeline drops the instrument.
 	if inst != nil {
 		m.byDesc[desc] = inst
+		*listPtr = append(*listPtr, inst)
 	}
-	*listPtr = append(*listPtr, inst)
 	if err != nil {
 		// Handle instrument creation errors when they're new,
 		// not for repeat entries above.
-- 
2.43.0


From 4700753ecb10bfc90482d2088364502db1b94ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 02/20] fix: coerce negative int64 numbers to float64 by value

CoerceToFloat64 converted the unsigned bit pattern, exporting -2 as 1.8e19.
---
 lightstep/sdk/metric/number/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/number/number.go b/lightstep/sdk/metric/number/number.go
index ee4dd61..28d0272 100644
--- a/lightstep/sdk/metric/number/number.go
+++ b/lightstep/sdk/metric/number/number.go
@@ -40,7 +40,7 @@ type Any interface {
 // CoerceToFloat64 converts Number to float64 according to Kind.
 func (n Number) CoerceToFloat64(k Kind) float64 {
 	if k == Int64Kind {
-		return float64(n)
+		return float64(int64(n))
 	}
 	return math.Float64frombits(uint64(n))
 }
-- 
2.43.0


From 106f672ff861cb86b78dfe498ba5fa85e866fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 03/20] fix: export the min and max of int64 min/max/sum/count
 points by value

The int64 bits were re-interpreted as a float64.
---
 lightstep/sdk/metric/internal/export/export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index a226228..dde7b14 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -252,8 +252,8 @@ func copyMMSCPoints(m pmetric.Metric, inM data.Instrument) {
 			dp.SetSum(t.Sum().CoerceToFloat64(number.Int64Kind))
 			dp.SetCount(t.Count())
 			if t.Count() != 0 {
-				dp.SetMax(number.ToFloat64(t.Max()))
-				dp.SetMin(number.ToFloat64(t.Min()))
+				dp.SetMax(t.Max().CoerceToFloat64(number.Int64Kind))
+				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 		case *minmaxsumcount.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
-- 
2.43.0


From dab2816569bcfef2f0382025b540e166409004c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 04/20] fix: unregister callbacks under the meter lock without
 modifying the shared list

Unregister raced with RegisterCallback and with collection: a collection in
progress could run one callback twice or skip another.
---
 lightstep/sdk/metric/meter.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index fb5376c..9635a7f 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -99,12 +99,20 @@ func (mr *metricRegistration) Unregister() error {
 	}
 
 	mycb := mr.callback
+
+	mr.meter.lock.Lock()
+	defer mr.meter.lock.Unlock()
+
 	cbs := mr.meter.callbacks
 
 	for i := 0; i < len(cbs); i++ {
 		if mycb == cbs[i] {
-			cbs[i] = cbs[len(cbs)-1]
-			mr.meter.callbacks = cbs[:len(cbs)-1]
+			// Note: collectFor() uses a shallow copy of this
+			// list without a lock, do not modify in place.
+			ncbs := make([]*asyncstate.Callback, 0, len(cbs)-1)
+			ncbs = append(ncbs, cbs[:i]...)
+			ncbs = append(ncbs, cbs[i+1:]...)
+			mr.meter.callbacks = ncbs
 			break
 		}
 	}
-- 
2.43.0


From 4836112ba2857e04d6a0771fe894481b0859ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 05/20] fix: apply the description hint to every matching view

The first matching view erased the hint, so that further views of the same
instrument did not see it.
---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3bb06c0..aa47917 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -278,7 +278,6 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 		}
 
 		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
-		instrument = modified // the hint erases itself from the description
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
@@ -286,11 +285,12 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 		cf := singleBehavior{
 			fromName: instrument.Name,
-			desc:     viewDescriptor(instrument, view),
-			kind:     akind,
-			acfg:     pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
-			tempo:    tempo,
-			hinted:   hinted,
+			// the hint erases itself from the modified description
+			desc:   viewDescriptor(modified, view),
+			kind:   akind,
+			acfg:   pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
+			tempo:  tempo,
+			hinted: hinted,
 		}
 
 		keys := view.Keys()
-- 
2.43.0


From 41494d3bb7debb5ddaac7738e9a9d5da70402a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 06/20] fix: drop instruments when the default or hinted
 aggregation is drop and a view matches

A matching view that does not choose an aggregation turned the drop
aggregation into a sum or gauge.
---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index aa47917..4744143 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -282,6 +282,9 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
 		}
+		if akind == aggregation.DropKind {
+			continue
+		}
 
 		cf := singleBehavior{
 			fromName: instrument.Name,
-- 
2.43.0


From 1994a5a2eecdc4517a48222c67b3b92842b28533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 07/20] fix: resolve the hinted "sum" aggregation for the
 instrument kind

The hint left it unresolved, making up-down counters monotonic and
asynchronous counters gauges.
---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 4744143..b001273 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -634,11 +634,6 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // checkSemanticCompatibility checks whether an instrument /
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
-	if behavior.hinted {
-		// Anything goes!
-		return nil
-	}
-
 	agg := behavior.kind
 	cat := agg.Category(ik)
 
@@ -654,6 +649,11 @@ func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior)
 		behavior.kind = agg
 	}
 
+	if behavior.hinted {
+		// Anything goes!
+		return nil
+	}
+
 	switch ik {
 	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
 		switch cat {
-- 
2.43.0


From 54bc544c314c387da204883ec052a7307e22274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 08/20] fix: do not truncate attributes in the caller's slice

TruncateAttributes modified its argument in place.
---
 .../sdk/metric/sdkinstrument/performance.go     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lightstep/sdk/metric/sdkinstrument/performance.go b/lightstep/sdk/metric/sdkinstrument/performance.go
index fce29c5..ed1e07b 100644
--- a/lightstep/sdk/metric/sdkinstrument/performance.go
+++ b/lightstep/sdk/metric/sdkinstrument/performance.go
@@ -101,15 +101,24 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 	if sizeLimit == 0 {
 		return attrs
 	}
+	copied := false
+	modify := func(idx int) *attribute.KeyValue {
+		if !copied {
+			// Do not modify the caller's slice.
+			attrs = append([]attribute.KeyValue(nil), attrs...)
+			copied = true
+		}
+		return &attrs[idx]
+	}
 	for idx, kv := range attrs {
 		if len(kv.Key) > int(sizeLimit) {
-			attrs[idx].Key = kv.Key[:sizeLimit]
+			modify(idx).Key = kv.Key[:sizeLimit]
 		}
-		switch attrs[idx].Value.Type() {
+		switch kv.Value.Type() {
 		case attribute.STRING:
 			s := kv.Value.AsString()
 			if len(s) > int(sizeLimit) {
-				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
+				modify(idx).Value = attribute.StringValue(s[:sizeLimit])
 			}
 
 		case attribute.STRINGSLICE:
@@ -122,7 +131,7 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 				}
 			}
 			if any {
-				attrs[idx].Value = attribute.StringSliceValue(ss)
+				modify(idx).Value = attribute.StringSliceValue(ss)
 			}
 		}
 	}
-- 
2.43.0


From 8a80471a5b544223dfe6f9fc1a750cf610892170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 09/20] fix: export spans under their own instrumentation scope

A batch starting with a span of an unnamed scope crashed the exporter, and
spans of same-named scopes with different versions were merged.
---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 93a3048..66d2458 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -20,6 +20,7 @@ import (
 	"go.opentelemetry.io/collector/pdata/ptrace"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/sdk/instrumentation"
 	"go.opentelemetry.io/otel/sdk/trace"
 	apitrace "go.opentelemetry.io/otel/trace"
 )
@@ -85,13 +86,13 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 
 	c.ResourceMap.Get(in[0].Resource()).CopyTo(rs.Resource())
 
-	curName := ""
+	var curScope instrumentation.Scope
 	var ss ptrace.ScopeSpans
-	for _, tr := range in {
+	for i, tr := range in {
 		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope name is encountered.
-		if ssName := tr.InstrumentationScope().Name; ssName != curName {
-			curName = ssName
+		// until new scope is encountered.
+		if scope := tr.InstrumentationScope(); i == 0 || scope != curScope {
+			curScope = scope
 			ss = rs.ScopeSpans().AppendEmpty()
 			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
 			ss.Scope().SetName(tr.InstrumentationScope().Name)
-- 
2.43.0


From c8b11afdcca1a2a9be47b1a457e52086d0cd4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 10/20] fix: export explicit histogram buckets at non-positive
 scales

The logarithm mapping only exists for positive scales; its nil mapping was
dereferenced for histograms with a wide range of values.
---
 lightstep/sdk/metric/internal/export/export.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index dde7b14..c4851e1 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -18,6 +18,8 @@ import (
 	"context"
 	"errors"
 
+	"github.com/lightstep/go-expohisto/mapping"
+	"github.com/lightstep/go-expohisto/mapping/exponent"
 	"github.com/lightstep/go-expohisto/mapping/logarithm"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
@@ -149,7 +151,12 @@ func copyExplicitHistogramBuckets(
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
 		positiveNumElements := int32(sourcePositiveBuckets.Len())
-		mapping, _ := logarithm.NewMapping(sourceScale)
+		var mapping mapping.Mapping
+		if sourceScale <= 0 {
+			mapping, _ = exponent.NewMapping(sourceScale)
+		} else {
+			mapping, _ = logarithm.NewMapping(sourceScale)
+		}
 		leftBound, _ := mapping.LowerBoundary(positiveOffset)
 
 		for element := int32(0); element < positiveNumElements; element++ {
-- 
2.43.0


From acd11042e0b833c64fb09145edebe92ec66666ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:53 +0000
Subject: [PATCH 11/20] fix: export an increasing bound for the last explicit
 histogram bucket

The upper boundary of the bucket that holds the largest float64 values
overflows, and was exported as zero.
---
 lightstep/sdk/metric/internal/export/export.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index c4851e1..08145b5 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -17,6 +17,7 @@ package export
 import (
 	"context"
 	"errors"
+	"math"
 
 	"github.com/lightstep/go-expohisto/mapping"
 	"github.com/lightstep/go-expohisto/mapping/exponent"
@@ -162,7 +163,11 @@ func copyExplicitHistogramBuckets(
 		for element := int32(0); element < positiveNumElements; element++ {
 			index := element + positiveOffset
 
-			rightBound, _ := mapping.LowerBoundary(index + 1)
+			rightBound, err := mapping.LowerBoundary(index + 1)
+			if err != nil {
+				// The bound of the last bucket is not a float64.
+				rightBound = math.MaxFloat64
+			}
 
 			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
 			// This has no count.
-- 
2.43.0


From 83b17a3297c371d5a7cc74127f784eaad884415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 12/20] fix: do not report a synchronous gauge that was never
 set

---
 .../sdk/metric/internal/viewstate/collectors.go  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/collectors.go b/lightstep/sdk/metric/internal/viewstate/collectors.go
index dd2a7b3..2554858 100644
--- a/lightstep/sdk/metric/internal/viewstate/collectors.go
+++ b/lightstep/sdk/metric/internal/viewstate/collectors.go
@@ -32,6 +32,8 @@ type statefulSyncInstrument[N number.Any, Storage any, Methods aggregator.Method
 
 // Collect for synchronous cumulative temporality.
 func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence, output *[]data.Instrument) {
+	var methods Methods
+
 	p.instLock.Lock()
 	defer p.instLock.Unlock()
 
@@ -39,6 +41,20 @@ func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence,
 
 	for set, entry := range p.data {
 		p.appendPoint(ioutput, set, &entry.storage, aggregation.CumulativeTemporality, seq.Start, seq.Now, false)
+
+		if methods.Kind() != aggregation.GaugeKind {
+			continue
+		}
+
+		// A synchronous gauge has no value between the time its
+		// entry is created and the time its first measurement
+		// is processed.  Do not report a value for it.
+		ptsArr := ioutput.Points
+		cpy, _ := methods.ToStorage(ptsArr[len(ptsArr)-1].Aggregation)
+
+		if !methods.HasChange(cpy) {
+			ioutput.Points = ptsArr[0 : len(ptsArr)-1 : cap(ptsArr)]
+		}
 	}
 }
 
-- 
2.43.0


From 96ebaf60ab1bbe344def8f22a6a36bc3bb7718e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:47 +0000
Subject: [PATCH 13/20] fix: export attributes that have no value instead of
 crashing

---
 lightstep/sdk/internal/common.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lightstep/sdk/internal/common.go b/lightstep/sdk/internal/common.go
index bd40754..c73183a 100644
--- a/lightstep/sdk/internal/common.go
+++ b/lightstep/sdk/internal/common.go
@@ -105,6 +105,9 @@ func CopyAttributes(dest pcommon.Map, src attribute.Set) {
 			for _, v := range inA.Value.AsStringSlice() {
 				sl.AppendEmpty().SetStr(v)
 			}
+		case attribute.INVALID:
+			// The attribute has no value.
+			dest.PutEmpty(key)
 		default:
 			panic("unhandled case")
 		}
-- 
2.43.0


From dbc3801efe806e4eee2dbde8b62c61d42481db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:43 +0000
Subject: [PATCH 14/20] fix: an empty metric endpoint disables metrics instead
 of failing setup

validateConfiguration treats an empty endpoint as disabled and tracing
does too, but setupMetrics built an exporter that always fails.
---
 launcher/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launcher/config.go b/launcher/config.go
index c19ff12..a7b0d74 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -387,7 +387,7 @@ func setupTracing(c Config) (func() error, error) {
 type setupFunc func(Config) (func() error, error)
 
 func setupMetrics(c Config) (func() error, error) {
-	if !c.MetricsEnabled {
+	if !c.MetricsEnabled || c.MetricExporterEndpoint == "" {
 		c.logger.Debugf("metrics are disabled by configuration: no endpoint set")
 		return nil, nil
 	}
-- 
2.43.0


From dd7ee9ab4a380e936d0d8df4fbec0d17a648b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:43 +0000
Subject: [PATCH 15/20] fix: stop every pipeline before reporting a failed
 shutdown

The default logger's Fatalf exits the process, so an error from the
trace pipeline lost the final metrics.
---
 launcher/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/launcher/config.go b/launcher/config.go
index a7b0d74..c79a053 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -449,9 +449,14 @@ func ConfigureOpentelemetry(opts ...Option) Launcher {
 }
 
 func (ls Launcher) Shutdown() {
+	var errs []error
 	for _, shutdown := range ls.shutdownFuncs {
 		if err := shutdown(); err != nil {
-			ls.config.logger.Fatalf("failed to stop exporter: %v", err)
+			errs = append(errs, err)
 		}
 	}
+	// Note: Fatalf may exit, so this happens after everything is stopped.
+	for _, err := range errs {
+		ls.config.logger.Fatalf("failed to stop exporter: %v", err)
+	}
 }
-- 
2.43.0


From e14100b784074a7bad624ae018688652bc583164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 16/20] fix: match runtime metric names exactly, and one-letter
 wildcards

A pattern without a wildcard also matched every longer name starting
with it, so that an unknown runtime metric was reported under the
description of another one, and a wildcard did not match one letter.
---
 lightstep/instrumentation/runtime/descriptor.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lightstep/instrumentation/runtime/descriptor.go b/lightstep/instrumentation/runtime/descriptor.go
index 5c16e67..8be81f2 100644
--- a/lightstep/instrumentation/runtime/descriptor.go
+++ b/lightstep/instrumentation/runtime/descriptor.go
@@ -215,14 +215,18 @@ func (bd *builtinDescriptor) findFamily(name string) (family *builtinMetricFamil
 		if wilds > 1 {
 			return nil, fmt.Errorf("too many wildcards: %s", pat)
 		}
-		if wilds == 0 && name == pat {
-			matches++
-			family = f
+		if wilds == 0 {
+			// without a wildcard, only the name itself matches
+			if name == pat {
+				matches++
+				family = f
+			}
 			continue
 		}
 		pfx, sfx, _ := strings.Cut(pat, "*")
 
-		if len(name) > len(pat) && strings.HasPrefix(name, pfx) && strings.HasSuffix(name, sfx) {
+		// the wildcard stands for at least one character
+		if len(name) >= len(pat) && strings.HasPrefix(name, pfx) && strings.HasSuffix(name, sfx) {
 			matches++
 			family = f
 			continue
-- 
2.43.0


From c48740f4f6999d0d131138eec825071524fd0a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 17/20] fix: do not read runtime metrics into samples shared by
 concurrent callbacks

The callback runs once for each reader, possibly at the same time, and
metrics.Read requires that concurrent calls share no memory.
---
 lightstep/instrumentation/runtime/builtin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lightstep/instrumentation/runtime/builtin.go b/lightstep/instrumentation/runtime/builtin.go
index a5685de..82d11b2 100644
--- a/lightstep/instrumentation/runtime/builtin.go
+++ b/lightstep/instrumentation/runtime/builtin.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"runtime/metrics"
+	"sync"
 
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
@@ -184,7 +185,14 @@ func (r *builtinRuntime) register(desc *builtinDescriptor) error {
 		})
 	}
 
+	// lock protects samples: the callback runs once for every reader,
+	// possibly at the same time.
+	var lock sync.Mutex
+
 	if _, err := r.meter.RegisterCallback(func(ctx context.Context, obs metric.Observer) error {
+		lock.Lock()
+		defer lock.Unlock()
+
 		r.readFunc(samples)
 
 		for idx, samp := range samples {
-- 
2.43.0


From 9d8ff9d2a0f0c73da06d85b6ccac03714f6b7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 18/20] fix: report that the host's network usage cannot be
 observed

The callback returned the nil error of the successful read, so that all
host metrics were dropped silently.
---
 lightstep/instrumentation/host/host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/instrumentation/host/host.go b/lightstep/instrumentation/host/host.go
index fe43adc..ef8b07f 100644
--- a/lightstep/instrumentation/host/host.go
+++ b/lightstep/instrumentation/host/host.go
@@ -201,7 +201,7 @@ func (h *host) register() error {
 				return err
 			}
 			if len(ioStats) != 1 {
-				return err
+				return fmt.Errorf("host network usage: incorrect summary count")
 			}
 
 			// Host CPU time
-- 
2.43.0


From 2881614f8892d1a44b8b5198665d72f032631da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 19/20] fix: bypass the semantic compatibility check only for
 an aggregation chosen by a hint

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index b001273..8f123c9 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -220,9 +220,6 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 	// Replace the hint input with its embedded description.
 	instrument.Description = hint.Description
 
-	// Bypass semantic compatibility check.
-	hinted = true
-
 	// Potentially set the aggregation kind and aggregator config.
 	if hint.Aggregation != "" {
 		parseKind, ok := aggregation.ParseKind(hint.Aggregation)
@@ -230,6 +227,8 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 			otel.Handle(fmt.Errorf("hint invalid aggregation: %v", hint.Aggregation))
 		} else if parseKind != aggregation.UndefinedKind {
 			akind = parseKind
+			// Bypass semantic compatibility check.
+			hinted = true
 		}
 	}
 
@@ -281,6 +280,9 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
+		} else {
+			// The view's choice is checked.
+			hinted = false
 		}
 		if akind == aggregation.DropKind {
 			continue
-- 
2.43.0


From 6cc43261500d71f070073ca994e16ae65ec0bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 20/20] fix: a view clause without an aggregator configuration
 uses the configured defaults and hints

---
 .../metric/internal/viewstate/viewstate.go    | 23 +++++++++----------
 lightstep/sdk/metric/view/views.go            |  6 ++++-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 8f123c9..1b4d331 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -195,26 +195,25 @@ func (v *Compiler) Collectors() []data.Collector {
 // tryToApplyHint looks for a Lightstep-specified hint structure
 // encoded as JSON in the description.  If valid, returns the modified
 // configuration, otherwise returns the default for the instrument.
-func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg, defCfg aggregator.Config, hinted bool) {
+func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg aggregator.Config, hinted bool) {
 	// These are the default behaviors, we'll use them unless there's a valid hint.
 	akind = v.views.Defaults.Aggregation(instrument.Kind)
 	tempo = v.views.Defaults.Temporality(instrument.Kind)
-	defCfg = v.views.Defaults.AggregationConfig(
+	acfg = v.views.Defaults.AggregationConfig(
 		instrument.Kind,
 		instrument.NumberKind,
 	)
-	acfg = defCfg
 
 	// Check for required JSON symbols, empty strings, ...
 	if !strings.Contains(instrument.Description, "{") {
-		return instrument, akind, tempo, acfg, defCfg, hinted
+		return instrument, akind, tempo, acfg, hinted
 	}
 
 	var hint view.Hint
 	if err := json.Unmarshal([]byte(instrument.Description), &hint); err != nil {
 		// This could be noisy if valid descriptions contain spurious '{' chars.
 		otel.Handle(fmt.Errorf("hint parse error: %w", err))
-		return instrument, akind, tempo, acfg, defCfg, hinted
+		return instrument, akind, tempo, acfg, hinted
 	}
 
 	// Replace the hint input with its embedded description.
@@ -253,7 +252,7 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 		acfg.CardinalityLimit = hint.Config.CardinalityLimit
 	}
 
-	return instrument, akind, tempo, acfg, defCfg, hinted
+	return instrument, akind, tempo, acfg, hinted
 }
 
 // Compile is called during NewInstrument by the Meter
@@ -276,7 +275,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			continue
 		}
 
-		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
+		modified, hintAkind, tempo, hintAcfg, hinted := v.tryToApplyHint(instrument)
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
@@ -293,7 +292,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			// the hint erases itself from the modified description
 			desc:   viewDescriptor(modified, view),
 			kind:   akind,
-			acfg:   pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
+			acfg:   pickAggConfig(hintAcfg, view.AggregatorConfig()),
 			tempo:  tempo,
 			hinted: hinted,
 		}
@@ -308,7 +307,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 	// If there were no matching views, set the default aggregation.
 	if len(matches) == 0 {
-		modified, akind, tempo, acfg, _, hinted := v.tryToApplyHint(instrument)
+		modified, akind, tempo, acfg, hinted := v.tryToApplyHint(instrument)
 		instrument = modified // the hint erases itself from the description
 
 		if akind != aggregation.DropKind {
@@ -625,9 +624,9 @@ func equalConfigs(a, b aggregator.Config) bool {
 }
 
 // pickAggConfig returns the aggregator configuration prescribed by a
-// view clause when it not the default value, otherwise the hinted config.
-func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config {
-	if viewCfg != defCfg {
+// view clause when it has one, otherwise the hinted config.
+func pickAggConfig(hintCfg, viewCfg aggregator.Config) aggregator.Config {
+	if viewCfg != (aggregator.Config{}) {
 		return viewCfg
 	}
 	return hintCfg
diff --git a/lightstep/sdk/metric/view/views.go b/lightstep/sdk/metric/view/views.go
index 49bd207..2fb2bd7 100644
--- a/lightstep/sdk/metric/view/views.go
+++ b/lightstep/sdk/metric/view/views.go
@@ -107,7 +107,11 @@ func Validate(v *Views) (*Views, error) {
 		clause := &valid.Clauses[i]
 
 		err = v.checkAggregation(err, &clause.aggregation, aggregation.UndefinedKind)
-		err = v.checkAggConfig(err, &clause.acfg)
+		// A clause that does not set an aggregator config leaves
+		// the choice to the defaults.
+		if clause.acfg != (aggregator.Config{}) {
+			err = v.checkAggConfig(err, &clause.acfg)
+		}
 
 		if clause.instrumentName != "" && clause.instrumentNameRegexp != nil {
 			err = multierr.Append(err, fmt.Errorf("view has instrument name and regexp matches"))
-- 
2.43.0

