From ebe5948ccfef3e18df43307152929d46964c7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:55 +0000
Subject: [PATCH 01/23] fix: Unregister modifies the meter's callbacks under
 the meter lock, in a new slice

---
 lightstep/sdk/metric/meter.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 90e877d..4dd07a5 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -99,15 +99,19 @@ func (mr *metricRegistration) Unregister() error {
 	}
 
 	mycb := mr.callback
-	cbs := mr.meter.callbacks
 
-	for i := 0; i < len(cbs); i++ {
-		if mycb == cbs[i] {
-			cbs[i] = cbs[len(cbs)-1]
-			mr.meter.callbacks = cbs[:len(cbs)-1]
-			break
+	mr.meter.lock.Lock()
+	defer mr.meter.lock.Unlock()
+
+	// Note: collection iterates over the callbacks slice without
+	// holding the lock, therefore build a new slice.
+	cbs := make([]*asyncstate.Callback, 0, len(mr.meter.callbacks))
+	for _, cb := range mr.meter.callbacks {
+		if cb != mycb {
+			cbs = append(cbs, cb)
 		}
 	}
+	mr.meter.callbacks = cbs
 
 	mr.callback = nil
 
-- 
2.43.0


From 2426df1e1d92cbcbd5e044a5d39a09d748bfd1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:55 +0000
Subject: [PATCH 02/23] fix: read the view descriptor under the instrument
 lock, mergeDescription modifies it

---
 lightstep/sdk/metric/internal/viewstate/base_instrument.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index fdc6beb..63adcd0 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -77,6 +77,9 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) OriginalName() str
 }
 
 func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) Descriptor() sdkinstrument.Descriptor {
+	// mergeDescription() may modify the descriptor.
+	metric.instLock.Lock()
+	defer metric.instLock.Unlock()
 	return metric.desc
 }
 
-- 
2.43.0


From ac16fbba62e3a284a71e57cd4ee0ad0c696213c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:14 +0000
Subject: [PATCH 03/23] fix: resolve a hinted "sum" aggregation by instrument
 kind

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3bb06c0..3f18231 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -631,11 +631,6 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // checkSemanticCompatibility checks whether an instrument /
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
-	if behavior.hinted {
-		// Anything goes!
-		return nil
-	}
-
 	agg := behavior.kind
 	cat := agg.Category(ik)
 
@@ -651,6 +646,11 @@ func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior)
 		behavior.kind = agg
 	}
 
+	if behavior.hinted && agg != aggregation.UndefinedKind {
+		// Anything goes!
+		return nil
+	}
+
 	switch ik {
 	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
 		switch cat {
-- 
2.43.0


From ba56a3b384df1682abf6756ddaa422f9803f6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:16 +0000
Subject: [PATCH 04/23] fix: do not collect a synchronous instrument that every
 view drops

---
 lightstep/sdk/metric/meter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 4dd07a5..a5133bc 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -177,8 +177,8 @@ func configureInstrument[T any](
 
 	if inst != nil {
 		m.byDesc[desc] = inst
+		*listPtr = append(*listPtr, inst)
 	}
-	*listPtr = append(*listPtr, inst)
 	if err != nil {
 		// Handle instrument creation errors when they're new,
 		// not for repeat entries above.
-- 
2.43.0


From 5dbb5a5dc165cd2dd138c32774f59b2009a04d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:02 +0000
Subject: [PATCH 05/23] fix: apply measurements once when several views resolve
 to one output

---
 .../sdk/metric/internal/viewstate/viewstate.go   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3f18231..0bb7881 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -395,11 +395,25 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			}
 			conflicts.Add(v.views.Name, c)
 		}
-		compiled = append(compiled, leaf)
+		// When several views of the instrument resolve to the
+		// same output, its measurements are applied to it once.
+		if !containsInstrument(compiled, leaf) {
+			compiled = append(compiled, leaf)
+		}
 	}
 	return Combine(instrument, compiled...), conflicts
 }
 
+// containsInstrument returns true if inst is one of insts.
+func containsInstrument(insts []Instrument, inst Instrument) bool {
+	for _, other := range insts {
+		if other == inst {
+			return true
+		}
+	}
+	return false
+}
+
 // buildView compiles either a synchronous or asynchronous instrument
 // given its behavior and generic number type/traits.
 func buildView[N number.Any, Traits number.Traits[N]](behavior singleBehavior) leafInstrument {
-- 
2.43.0


From 508a712d4981854250d047ced6d3e61b3fa887c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 06/23] fix: keep the conflicts of every reader when readers
 share a name

---
 lightstep/sdk/metric/internal/viewstate/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/errors.go b/lightstep/sdk/metric/internal/viewstate/errors.go
index b395ab2..efa1d9e 100644
--- a/lightstep/sdk/metric/internal/viewstate/errors.go
+++ b/lightstep/sdk/metric/internal/viewstate/errors.go
@@ -87,7 +87,8 @@ func (vc *ViewConflictsBuilder) Combine(other ViewConflictsBuilder) {
 		*vc = ViewConflictsBuilder{}
 	}
 	for k, v := range other {
-		(*vc)[k] = v
+		// Readers can share a name: keep the conflicts of each.
+		(*vc)[k] = append((*vc)[k], v...)
 	}
 }
 
-- 
2.43.0


From 54a460bc52ba8e47fa129d9b26ae5cced44e8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:56 +0000
Subject: [PATCH 07/23] fix: convert negative int64 numbers to float64 with
 their sign

---
 lightstep/sdk/metric/number/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/number/number.go b/lightstep/sdk/metric/number/number.go
index ee4dd61..28d0272 100644
--- a/lightstep/sdk/metric/number/number.go
+++ b/lightstep/sdk/metric/number/number.go
@@ -40,7 +40,7 @@ type Any interface {
 // CoerceToFloat64 converts Number to float64 according to Kind.
 func (n Number) CoerceToFloat64(k Kind) float64 {
 	if k == Int64Kind {
-		return float64(n)
+		return float64(int64(n))
 	}
 	return math.Float64frombits(uint64(n))
 }
-- 
2.43.0


From b48fead4fde32709354feb1fc22b794c6be9df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:56 +0000
Subject: [PATCH 08/23] fix: export the min and max of int64 min-max-sum-count
 points as numbers, not bits

---
 lightstep/sdk/metric/internal/export/export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index a226228..dde7b14 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -252,8 +252,8 @@ func copyMMSCPoints(m pmetric.Metric, inM data.Instrument) {
 			dp.SetSum(t.Sum().CoerceToFloat64(number.Int64Kind))
 			dp.SetCount(t.Count())
 			if t.Count() != 0 {
-				dp.SetMax(number.ToFloat64(t.Max()))
-				dp.SetMin(number.ToFloat64(t.Min()))
+				dp.SetMax(t.Max().CoerceToFloat64(number.Int64Kind))
+				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 		case *minmaxsumcount.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
-- 
2.43.0


From 965e5759b4041226450314aa285c108896ace483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:51 +0000
Subject: [PATCH 09/23] fix: export explicit histograms of scale zero or less,
 and their last bucket

---
 lightstep/sdk/metric/internal/export/export.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index dde7b14..18260f1 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -17,7 +17,9 @@ package export
 import (
 	"context"
 	"errors"
+	"math"
 
+	"github.com/lightstep/go-expohisto/mapping/exponent"
 	"github.com/lightstep/go-expohisto/mapping/logarithm"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
@@ -149,13 +151,24 @@ func copyExplicitHistogramBuckets(
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
 		positiveNumElements := int32(sourcePositiveBuckets.Len())
-		mapping, _ := logarithm.NewMapping(sourceScale)
+		newMapping := logarithm.NewMapping
+		if sourceScale <= exponent.MaxScale {
+			newMapping = exponent.NewMapping
+		}
+		mapping, err := newMapping(sourceScale)
+		if err != nil {
+			panic("impossible scale")
+		}
 		leftBound, _ := mapping.LowerBoundary(positiveOffset)
 
 		for element := int32(0); element < positiveNumElements; element++ {
 			index := element + positiveOffset
 
-			rightBound, _ := mapping.LowerBoundary(index + 1)
+			rightBound, err := mapping.LowerBoundary(index + 1)
+			if err != nil {
+				// The last bucket extends past the largest value.
+				rightBound = math.MaxFloat64
+			}
 
 			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
 			// This has no count.
-- 
2.43.0


From b7d742dec3f6bf04242ec913782600df76d19cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:53 +0000
Subject: [PATCH 10/23] fix: count negative values in the lowest bucket of
 explicit histograms

---
 lightstep/sdk/metric/internal/export/export.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index 18260f1..6628935 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -119,7 +119,7 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 
 		case *histogram.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
@@ -129,7 +129,7 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(number.ToFloat64(t.Min()))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 		default:
 			panic("unhandled case")
 		}
@@ -140,13 +140,18 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 // explicitly defined buckets.
 func copyExplicitHistogramBuckets(
 	sourcePositiveBuckets aggregation.Buckets,
+	sourceNegativeBuckets aggregation.Buckets,
 	sourceZeroCount uint64,
 	sourceScale int32,
 	dest pmetric.HistogramDataPoint,
 ) {
-	// add the zero bucket in: (-Inf, 0]
+	// add the zero bucket in: (-Inf, 0], including negative values.
+	zeroCount := sourceZeroCount
+	for i := uint32(0); i < sourceNegativeBuckets.Len(); i++ {
+		zeroCount += sourceNegativeBuckets.At(i)
+	}
 	dest.ExplicitBounds().Append(0)
-	dest.BucketCounts().Append(sourceZeroCount)
+	dest.BucketCounts().Append(zeroCount)
 
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
-- 
2.43.0


From 7bef8b43cfaffb1312416a663a73a30d74cac4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:34 +0000
Subject: [PATCH 11/23] fix: export every span under its own resource and scope

---
 .../sdk/trace/exporters/otlp/otelcol/otlp.go  | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 93a3048..a5f75c7 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -20,6 +20,8 @@ import (
 	"go.opentelemetry.io/collector/pdata/ptrace"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/sdk/instrumentation"
+	"go.opentelemetry.io/otel/sdk/resource"
 	"go.opentelemetry.io/otel/sdk/trace"
 	apitrace "go.opentelemetry.io/otel/trace"
 )
@@ -78,24 +80,26 @@ func translateSpanKind(in apitrace.SpanKind) ptrace.SpanKind {
 func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 	out := ptrace.NewTraces()
 
-	if len(in) == 0 {
-		return out
-	}
-	rs := out.ResourceSpans().AppendEmpty()
-
-	c.ResourceMap.Get(in[0].Resource()).CopyTo(rs.Resource())
-
-	curName := ""
+	var rs ptrace.ResourceSpans
 	var ss ptrace.ScopeSpans
-	for _, tr := range in {
+	var curResource *resource.Resource
+	var curScope instrumentation.Scope
+	for i, tr := range in {
 		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope name is encountered.
-		if ssName := tr.InstrumentationScope().Name; ssName != curName {
-			curName = ssName
+		// until a new resource or scope is encountered.
+		res, scope := tr.Resource(), tr.InstrumentationScope()
+		newResource := i == 0 || !res.Equal(curResource)
+		if newResource {
+			curResource = res
+			rs = out.ResourceSpans().AppendEmpty()
+			c.ResourceMap.Get(res).CopyTo(rs.Resource())
+		}
+		if newResource || scope != curScope {
+			curScope = scope
 			ss = rs.ScopeSpans().AppendEmpty()
-			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
-			ss.Scope().SetName(tr.InstrumentationScope().Name)
-			ss.Scope().SetVersion(tr.InstrumentationScope().Version)
+			ss.SetSchemaUrl(scope.SchemaURL)
+			ss.Scope().SetName(scope.Name)
+			ss.Scope().SetVersion(scope.Version)
 		}
 
 		s := ss.Spans().AppendEmpty()
-- 
2.43.0


From c4529762f94b13dd5fea23b4b0847e67a7663830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:37 +0000
Subject: [PATCH 12/23] fix: export the attributes of a span's instrumentation
 scope

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index a5f75c7..6f94d40 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -100,6 +100,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 			ss.SetSchemaUrl(scope.SchemaURL)
 			ss.Scope().SetName(scope.Name)
 			ss.Scope().SetVersion(scope.Version)
+			internal.CopyAttributes(ss.Scope().Attributes(), scope.Attributes)
 		}
 
 		s := ss.Spans().AppendEmpty()
-- 
2.43.0


From ab90718c3fcf605a1e123b6e4fd2be66787d0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:42 +0000
Subject: [PATCH 13/23] fix: do not sort the attribute lists of exported spans
 in place

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 6f94d40..82a3133 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -15,6 +15,8 @@
 package otelcol
 
 import (
+	"slices"
+
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"go.opentelemetry.io/collector/pdata/pcommon"
 	"go.opentelemetry.io/collector/pdata/ptrace"
@@ -26,6 +28,12 @@ import (
 	apitrace "go.opentelemetry.io/otel/trace"
 )
 
+// copyAttributes converts a list of attributes.  The list belongs to the span
+// (the list of a link to the caller that added it): NewSet sorts a copy.
+func copyAttributes(dest pcommon.Map, kvs []attribute.KeyValue) {
+	internal.CopyAttributes(dest, attribute.NewSet(slices.Clone(kvs)...))
+}
+
 func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 	for _, event := range events {
 		e1 := dest.AppendEmpty()
@@ -33,7 +41,7 @@ func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 		e1.SetName(event.Name)
 		e1.SetTimestamp(pcommon.NewTimestampFromTime(event.Time))
 
-		internal.CopyAttributes(e1.Attributes(), attribute.NewSet(event.Attributes...))
+		copyAttributes(e1.Attributes(), event.Attributes)
 	}
 }
 
@@ -45,7 +53,7 @@ func copyLinks(dest ptrace.SpanLinkSlice, links []trace.Link) {
 		l1.SetTraceID(pcommon.TraceID(link.SpanContext.TraceID()))
 		l1.TraceState().FromRaw(link.SpanContext.TraceState().String())
 
-		internal.CopyAttributes(l1.Attributes(), attribute.NewSet(link.Attributes...))
+		copyAttributes(l1.Attributes(), link.Attributes)
 	}
 }
 
@@ -118,7 +126,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 		s.Status().SetCode(translateSpanStatusCode(tr.Status().Code))
 		s.Status().SetMessage(tr.Status().Description)
 
-		internal.CopyAttributes(s.Attributes(), attribute.NewSet(tr.Attributes()...))
+		copyAttributes(s.Attributes(), tr.Attributes())
 		copyEvents(s.Events(), tr.Events())
 		copyLinks(s.Links(), tr.Links())
 	}
-- 
2.43.0


From 07892b7d2fc782f5267e076349c385f50c798424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:25 +0000
Subject: [PATCH 14/23] fix: export attributes with an empty value instead of
 panicking

---
 lightstep/sdk/internal/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/internal/common.go b/lightstep/sdk/internal/common.go
index bd40754..092cf40 100644
--- a/lightstep/sdk/internal/common.go
+++ b/lightstep/sdk/internal/common.go
@@ -106,7 +106,8 @@ func CopyAttributes(dest pcommon.Map, src attribute.Set) {
 				sl.AppendEmpty().SetStr(v)
 			}
 		default:
-			panic("unhandled case")
+			// The zero Value (attribute.INVALID) is legal API input.
+			dest.PutEmpty(key)
 		}
 	}
 }
-- 
2.43.0


From 7753c01f67b15304d9fd80274f18d9b57cbf0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 15/23] fix: report the error of an asynchronous callback

---
 lightstep/sdk/metric/internal/asyncstate/callback.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/asyncstate/callback.go b/lightstep/sdk/metric/internal/asyncstate/callback.go
index 0721957..5e6552d 100644
--- a/lightstep/sdk/metric/internal/asyncstate/callback.go
+++ b/lightstep/sdk/metric/internal/asyncstate/callback.go
@@ -20,6 +20,7 @@ import (
 	"sync"
 
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
+	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
 )
 
@@ -77,7 +78,9 @@ func (c *Callback) Run(ctx context.Context, state *State) {
 		callback: c,
 		state:    state,
 	}
-	c.function(ctx, cp)
+	if err := c.function(ctx, cp); err != nil {
+		otel.Handle(err)
+	}
 	cp.invalidate()
 }
 
-- 
2.43.0


From ec73248cc9d8e86c8ed539a8226e30e5287bc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 16/23] fix: attribute truncation does not modify the caller's
 attributes or split characters

---
 .../sdk/metric/sdkinstrument/performance.go   | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/lightstep/sdk/metric/sdkinstrument/performance.go b/lightstep/sdk/metric/sdkinstrument/performance.go
index fce29c5..69e3322 100644
--- a/lightstep/sdk/metric/sdkinstrument/performance.go
+++ b/lightstep/sdk/metric/sdkinstrument/performance.go
@@ -16,6 +16,7 @@ package sdkinstrument
 
 import (
 	"context"
+	"unicode/utf8"
 
 	"go.opentelemetry.io/otel/attribute"
 )
@@ -96,35 +97,58 @@ func (p Performance) Validate() Performance {
 	return p
 }
 
+// TruncateAttributes returns attributes that respect the
+// AttributeSizeLimit.  The input belongs to the caller and is not
+// modified: it is returned when nothing is too long, otherwise a copy
+// is.
 func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.KeyValue {
-	sizeLimit := p.AttributeSizeLimit
+	sizeLimit := int(p.AttributeSizeLimit)
 	if sizeLimit == 0 {
 		return attrs
 	}
+	copied := false
+	modify := func(idx int) *attribute.KeyValue {
+		if !copied {
+			attrs = append([]attribute.KeyValue(nil), attrs...)
+			copied = true
+		}
+		return &attrs[idx]
+	}
 	for idx, kv := range attrs {
-		if len(kv.Key) > int(sizeLimit) {
-			attrs[idx].Key = kv.Key[:sizeLimit]
+		if len(kv.Key) > sizeLimit {
+			modify(idx).Key = attribute.Key(truncateString(string(kv.Key), sizeLimit))
 		}
-		switch attrs[idx].Value.Type() {
+		switch kv.Value.Type() {
 		case attribute.STRING:
 			s := kv.Value.AsString()
-			if len(s) > int(sizeLimit) {
-				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
+			if len(s) > sizeLimit {
+				modify(idx).Value = attribute.StringValue(truncateString(s, sizeLimit))
 			}
 
 		case attribute.STRINGSLICE:
 			any := false
 			ss := kv.Value.AsStringSlice()
 			for jdx := range ss {
-				if len(ss[jdx]) > int(sizeLimit) {
-					ss[jdx] = ss[jdx][:sizeLimit]
+				if len(ss[jdx]) > sizeLimit {
+					ss[jdx] = truncateString(ss[jdx], sizeLimit)
 					any = true
 				}
 			}
 			if any {
-				attrs[idx].Value = attribute.StringSliceValue(ss)
+				modify(idx).Value = attribute.StringSliceValue(ss)
 			}
 		}
 	}
 	return attrs
 }
+
+// truncateString shortens s, which is longer than limit, to at most
+// limit bytes without splitting a UTF-8 sequence.
+func truncateString(s string, limit int) string {
+	for back := 0; back < utf8.UTFMax && back <= limit; back++ {
+		if utf8.RuneStart(s[limit-back]) {
+			return s[:limit-back]
+		}
+	}
+	return s[:limit]
+}
-- 
2.43.0


From 439c660e98b0ae14a62f5f7248a052fca6c2e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 17/23] fix: nothing is exported after a periodic reader was
 shut down

---
 lightstep/sdk/metric/periodic.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index 54fef5d..535bf34 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -57,6 +57,7 @@ type PeriodicReader struct {
 	producer Producer
 	stop     context.CancelFunc
 	wait     sync.WaitGroup
+	shutdown bool // protected by lock
 }
 
 type PeriodicReaderOption func(*PeriodicReader)
@@ -128,7 +129,7 @@ func (pr *PeriodicReader) start(ctx context.Context) {
 func (pr *PeriodicReader) collectWithTimeout(ctx context.Context, method func(context.Context, data.Metrics) error) error {
 	ctx, cancel := context.WithTimeout(ctx, pr.timeout)
 	defer cancel()
-	return pr.collect(ctx, method)
+	return pr.collect(ctx, method, false)
 }
 
 // Shutdown stops the export loop, canceling its Context, and waits
@@ -138,7 +139,7 @@ func (pr *PeriodicReader) collectWithTimeout(ctx context.Context, method func(co
 func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
 	pr.stop()
 	pr.wait.Wait()
-	return pr.collect(ctx, pr.exporter.ShutdownMetrics)
+	return pr.collect(ctx, pr.exporter.ShutdownMetrics, true)
 }
 
 // ForceFlush immediately waits for an existing collection, otherwise
@@ -146,16 +147,22 @@ func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
 // ForceFlush with current data.  There is no automatic timeout; to
 // apply one, use context.WithTimeout.
 func (pr *PeriodicReader) ForceFlush(ctx context.Context) error {
-	return pr.collect(ctx, pr.exporter.ForceFlushMetrics)
+	return pr.collect(ctx, pr.exporter.ForceFlushMetrics, false)
 }
 
 // collect serializes access to re-usable metrics data, in each case
 // calling through to an underlying PushExporter method with current
-// data.
-func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Context, data.Metrics) error) error {
+// data.  The final collection is the last, after that nothing is
+// collected or exported and ErrAlreadyShutdown is returned.
+func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Context, data.Metrics) error, final bool) error {
 	pr.lock.Lock()
 	defer pr.lock.Unlock()
 
+	if pr.shutdown {
+		return ErrAlreadyShutdown
+	}
+	pr.shutdown = final
+
 	// The lock ensures that re-use of `pr.data` is successful, it
 	// means that shutdown, flush, and ordinary collection are
 	// exclusive.  Note that shutdown will cancel a concurrent
-- 
2.43.0


From 2e6fa4f9f72ce761cfebe804e95759778ccdfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:16 +0000
Subject: [PATCH 18/23] fix: Launcher.Shutdown shuts down every pipeline before
 reporting a failure

---
 launcher/config.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/launcher/config.go b/launcher/config.go
index c19ff12..4f77de1 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -449,9 +449,13 @@ func ConfigureOpentelemetry(opts ...Option) Launcher {
 }
 
 func (ls Launcher) Shutdown() {
+	// Every pipeline is shut down before a failure is reported,
+	// because the default logger exits.
+	var err error
 	for _, shutdown := range ls.shutdownFuncs {
-		if err := shutdown(); err != nil {
-			ls.config.logger.Fatalf("failed to stop exporter: %v", err)
-		}
+		err = errors.Join(err, shutdown())
+	}
+	if err != nil {
+		ls.config.logger.Fatalf("failed to stop exporter: %v", err)
 	}
 }
-- 
2.43.0


From 0a6a2c9c11cd80bfab42a9752d89c3f74d08f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:49 +0000
Subject: [PATCH 19/23] fix: stop the span processor and exporter when the
 trace pipeline cannot be set up

---
 pipelines/trace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipelines/trace.go b/pipelines/trace.go
index 694aebb..c3ea03c 100644
--- a/pipelines/trace.go
+++ b/pipelines/trace.go
@@ -16,6 +16,7 @@ package pipelines
 
 import (
 	"context"
+	"errors"
 	"fmt"
 
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
@@ -45,7 +46,8 @@ func NewTracePipeline(c PipelineConfig) (func() error, error) {
 	)
 
 	if err = configurePropagators(c); err != nil {
-		return nil, err
+		// Nothing is returned to stop the processor and exporter.
+		return nil, errors.Join(err, bsp.Shutdown(context.Background()))
 	}
 
 	otel.SetTracerProvider(tp)
-- 
2.43.0


From ef7455c3fe52f7a0c31773a971d56db693ec3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:49 +0000
Subject: [PATCH 20/23] fix: an empty metric endpoint disables metrics instead
 of ending the process

---
 launcher/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launcher/config.go b/launcher/config.go
index 4f77de1..f2af927 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -387,7 +387,7 @@ func setupTracing(c Config) (func() error, error) {
 type setupFunc func(Config) (func() error, error)
 
 func setupMetrics(c Config) (func() error, error) {
-	if !c.MetricsEnabled {
+	if !c.MetricsEnabled || c.MetricExporterEndpoint == "" {
 		c.logger.Debugf("metrics are disabled by configuration: no endpoint set")
 		return nil, nil
 	}
-- 
2.43.0


From 9d58b48c9ae0acccc40ba8665b1a2a82c0aa12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 21/23] fix: nothing is started with an invalid environment or
 configuration

---
 launcher/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launcher/config.go b/launcher/config.go
index f2af927..78d12a9 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -237,6 +237,7 @@ type Config struct {
 	Resource                            *resource.Resource
 	logger                              Logger
 	errorHandler                        otel.ErrorHandler
+	envError                            error
 }
 
 func checkEndpointDefault(value, defValue string) error {
@@ -299,6 +300,7 @@ func newConfig(opts ...Option) Config {
 	}
 	c.Resource = newResource(&c)
 
+	c.envError = envError
 	if envError != nil {
 		c.logger.Fatalf("environment error: %v", envError)
 	}
@@ -430,6 +432,10 @@ func ConfigureOpentelemetry(opts ...Option) Launcher {
 	if err != nil {
 		c.logger.Fatalf("configuration error: %v", err)
 	}
+	if err != nil || c.envError != nil {
+		// Not every logger exits: nothing is started.
+		return ls
+	}
 
 	if c.errorHandler != nil {
 		otel.SetErrorHandler(c.errorHandler)
-- 
2.43.0


From db3477018f19e1443f9abe018bdfa307b11d54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:11 +0000
Subject: [PATCH 22/23] fix: cputime: build on platforms other than linux and
 darwin

---
 lightstep/instrumentation/cputime/cputime_other.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lightstep/instrumentation/cputime/cputime_other.go b/lightstep/instrumentation/cputime/cputime_other.go
index 8b4e262..2514709 100644
--- a/lightstep/instrumentation/cputime/cputime_other.go
+++ b/lightstep/instrumentation/cputime/cputime_other.go
@@ -21,7 +21,6 @@ import (
 	"fmt"
 	"math"
 	"os"
-	"runtime"
 	"time"
 
 	"go.opentelemetry.io/otel"
@@ -47,15 +46,10 @@ func newCputime(c config) (*cputime, error) {
 	}, nil
 }
 
-// getProcessTimes calls ReadMemStats() for GCCPUFraction because as
-// of Go-1.19 there is no such runtime metric.  User and system sum to
-// 100% of CPU time; gc is an independent, comparable metric value.
-// These are correlated with uptime.
+// getProcessTimes returns the user and system CPU time of this process
+// and its uptime.
 func (c *cputime) getProcessTimes(ctx context.Context) (userSeconds, systemSeconds, uptimeSeconds float64) {
-	gomaxprocs := float64(runtime.GOMAXPROCS(0))
-
 	uptimeSeconds = time.Since(processStartTime).Seconds()
-	gcSeconds = memStats.GCCPUFraction * uptimeSeconds * gomaxprocs
 
 	processTimes, err := c.selfProc.TimesWithContext(ctx)
 	if err != nil {
-- 
2.43.0


From 4c3f8ee32bc9395773f35f67c19efda7bca4c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:11 +0000
Subject: [PATCH 23/23] fix: host: report an incorrect network summary count

---
 lightstep/instrumentation/host/host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/instrumentation/host/host.go b/lightstep/instrumentation/host/host.go
index fe43adc..ef8b07f 100644
--- a/lightstep/instrumentation/host/host.go
+++ b/lightstep/instrumentation/host/host.go
@@ -201,7 +201,7 @@ func (h *host) register() error {
 				return err
 			}
 			if len(ioStats) != 1 {
-				return err
+				return fmt.Errorf("host network usage: incorrect summary count")
 			}
 
 			// Host CPU time
-- 
2.43.0

