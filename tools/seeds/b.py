M = "lightstep/sdk/metric/"
SEEDS = [
 dict(id="s04-overflow-after-skip", property="P07",
  edits=[(M+"internal/viewstate/collectors.go", """		pval, has := p.prior[set]

		if set == pipeline.OverflowAttributeSet {
			ofe = entry
		}
		if has {
""", """		pval, has := p.prior[set]
		current := entry

		if has {
"""), (M+"internal/viewstate/collectors.go", """			entry = pval
		}
		p.appendPoint(ioutput, set, &entry.storage, aggregation.DeltaTemporality, seq.Last, seq.Now, false)
""", """			entry = pval
		}
		if set == pipeline.OverflowAttributeSet {
			ofe = current
		}
		p.appendPoint(ioutput, set, &entry.storage, aggregation.DeltaTemporality, seq.Last, seq.Now, false)
""")], pkg="lightstep/sdk/metric", timeout="60s",
  needs="an asynchronous counter read with delta temporality that reaches the cardinality limit, stays below it in the next collection, and reaches it again in the third",
  breaks="the cumulative value of the overflow series is forgotten while it does not change, so the next delta is too small",
  test='''
package metric

import (
	"context"
	"testing"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

func TestZZ(t *testing.T) {
	rdr := NewManualReader("zz")
	p := NewMeterProvider(
		WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: 4}),
		WithReader(rdr, view.WithDefaultAggregationTemporalitySelector(view.DeltaPreferredTemporality)))
	n, id := 0, 0
	p.Meter("m").Int64ObservableCounter("c", apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
		for i := 0; i < n; i++ {
			id++
			o.Observe(1, apimetric.WithAttributes(attribute.Int("k", id)))
		}
		return nil
	}))
	var total int64
	for _, n = range []int{10, 2, 10, 10} {
		for _, s := range rdr.Produce(nil).Scopes {
			for _, in := range s.Instruments {
				for _, pt := range in.Points {
					total += number.ToInt64(pt.Aggregation.(*sum.MonotonicInt64).Sum())
				}
			}
		}
		if total != int64(id) {
			t.Fatal(total, id)
		}
	}
}
'''),
 dict(id="s05-views-same-number-of-keys", property="P27",
  edits=[(M+"internal/viewstate/viewstate.go", "*instKeys != *confKeys", "instKeys.Len() != confKeys.Len()")],
  pkg="lightstep/sdk/metric",
  needs="two views of one instrument that differ only in which attribute keys they keep, and keep equally many",
  breaks="the second view is taken for a duplicate of the first and its output is missing",
  test='''
package metric

import (
	"context"
	"testing"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

func TestZZ(t *testing.T) {
	rdr := NewManualReader("zz")
	p := NewMeterProvider(WithReader(rdr,
		view.WithClause(view.MatchInstrumentName("c"), view.WithKeys([]attribute.Key{"a"})),
		view.WithClause(view.MatchInstrumentName("c"), view.WithKeys([]attribute.Key{"b"})),
	))
	c, _ := p.Meter("m").Int64Counter("c")
	c.Add(context.Background(), 1, apimetric.WithAttributes(attribute.Int("a", 1), attribute.Int("b", 2)))
	got := map[attribute.Distinct]int{}
	for _, s := range rdr.Produce(nil).Scopes {
		for _, in := range s.Instruments {
			for _, pt := range in.Points {
				got[pt.Attributes.Equivalent()]++
			}
		}
	}
	a, b := attribute.NewSet(attribute.Int("a", 1)), attribute.NewSet(attribute.Int("b", 2))
	if len(got) != 2 || got[a.Equivalent()] != 1 || got[b.Equivalent()] != 1 {
		t.Fatal(got)
	}
}
'''),
 dict(id="s06-doevery-two-sections", property="P29",
  edits=[(M+"internal/doevery/doevery.go", """		mu.Lock()
		defer mu.Unlock()

		prevInvocation, ok := mostRecentInvocationMap[key]

		invoking := !ok || time.Since(prevInvocation) > dur
		if invoking {
			mostRecentInvocationMap[key] = time.Now()
		}
		return invoking
""", """		mu.Lock()
		prevInvocation, ok := mostRecentInvocationMap[key]
		mu.Unlock()

		invoking := !ok || time.Since(prevInvocation) > dur
		if invoking {
			mu.Lock()
			defer mu.Unlock()
			mostRecentInvocationMap[key] = time.Now()
		}
		return invoking
""")], pkg="lightstep/sdk/metric/internal/doevery",
  needs="several goroutines reaching the same rate-limited line when its period has just passed",
  breaks="more than one of them runs the function in the same period",
  test='''
package doevery

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestZZ(t *testing.T) {
	const period = 10 * time.Millisecond
	var last, near atomic.Int64
	var wg sync.WaitGroup
	begin := time.Now()
	for g := 0; g < 64; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Since(begin) < 10*time.Second {
				TimePeriod(period, func() {
					now := time.Now().UnixNano()
					if now-last.Swap(now) < int64(period/10) {
						near.Add(1)
					}
				})
			}
		}()
	}
	wg.Wait()
	t.Log(near.Load())
	if near.Load() > 20 {
		t.Fatal("calls close together:", near.Load())
	}
}
'''),
 dict(id="s07-propagators-reversed", property="P28",
  edits=[("pipelines/trace.go", "			props = append(props, prop)\n", "			props = append([]propagation.TextMapPropagator{prop}, props...)\n")],
  pkg="pipelines",
  needs="two configured propagators and a carrier holding the headers of both",
  breaks="the propagators are installed in the reverse of the configured order, so the other one's context wins",
  test='''
package pipelines

import (
	"context"
	"testing"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
)

func TestZZ(t *testing.T) {
	for _, x := range []struct {
		order []string
		want  string
	}{
		{[]string{"b3", "tracecontext"}, "11111111111111111111111111111111"},
		{[]string{"tracecontext", "b3"}, "22222222222222222222222222222222"},
	} {
		stop, err := NewTracePipeline(PipelineConfig{
			Endpoint:    "127.0.0.1:1",
			Insecure:    true,
			Resource:    resource.Empty(),
			Propagators: x.order,
		})
		if err != nil {
			t.Fatal(err)
		}
		defer stop()
		ctx := otel.GetTextMapPropagator().Extract(context.Background(), propagation.MapCarrier{
			"traceparent":  "00-11111111111111111111111111111111-1111111111111111-01",
			"x-b3-traceid": "22222222222222222222222222222222",
			"x-b3-spanid":  "2222222222222222",
			"x-b3-sampled": "1",
		})
		if got := trace.SpanContextFromContext(ctx).TraceID().String(); got != x.want {
			t.Fatal(x.order, got)
		}
	}
}
'''),
 dict(id="s08-count-after-consume", property="P24",
  edits=[("lightstep/sdk/trace/exporters/otlp/otelcol/client.go", """	count := converted.SpanCount()

	err := c.batcher.ConsumeTraces(ctx, converted)
	success := err == nil
""", """
	err := c.batcher.ConsumeTraces(ctx, converted)
	count := converted.SpanCount()
	success := err == nil
""")], pkg="lightstep/sdk/trace/exporters/otlp/otelcol",
  needs="spans exported with the exporter's own metrics observed: the batcher takes the spans out of the data it is given",
  breaks="the exporter's telemetry counts no spans",
  test='''
package otelcol

import (
	"context"
	"testing"
	"time"

	"go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
)

func TestZZ(t *testing.T) {
	rdr := metric.NewManualReader()
	mp := metric.NewMeterProvider(metric.WithReader(rdr))
	ctx := context.Background()
	exp, err := NewExporter(ctx, NewConfig(WithInsecure(), WithEndpoint("127.0.0.1:1")), WithMeterProvider(mp))
	if err != nil {
		t.Fatal(err)
	}
	tctx, cancel := context.WithTimeout(ctx, time.Second)
	defer cancel()
	if err := exp.ExportSpans(tctx, tracetest.SpanStubs{{Name: "a"}, {Name: "b"}, {Name: "c"}}.Snapshots()); err == nil {
		t.Fatal("nobody listens")
	}
	var rm metricdata.ResourceMetrics
	if err := rdr.Collect(ctx, &rm); err != nil {
		t.Fatal(err)
	}
	var total int64
	for _, s := range rm.ScopeMetrics {
		for _, m := range s.Metrics {
			if d, ok := m.Data.(metricdata.Sum[int64]); ok && m.Name == "otelsdk.telemetry.items" {
				for _, p := range d.DataPoints {
					total += p.Value
				}
			}
		}
	}
	if total != 3 {
		t.Fatal(total)
	}
}
'''),
 dict(id="s09-system-seconds", property="P26",
  edits=[("lightstep/instrumentation/cputime/cputime_unix.go", "stime := time.Duration(ru.Stime.Sec)*time.Second + time.Duration(ru.Stime.Usec)*time.Microsecond", "stime := time.Duration(ru.Stime.Sec)*time.Second + time.Duration(ru.Utime.Usec)*time.Microsecond")],
  pkg="lightstep/instrumentation/cputime",
  needs="a process whose user and system times differ below the second",
  breaks="the reported system time takes its fraction of a second from the user time",
  test='''
package cputime

import (
	"context"
	"syscall"
	"testing"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
)

func system() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic(err)
	}
	return float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func TestZZ(t *testing.T) {
	rdr := metric.NewManualReader()
	if err := Start(WithMeterProvider(metric.NewMeterProvider(metric.WithReader(rdr)))); err != nil {
		t.Fatal(err)
	}
	seen := 0
	for i := 0; i < 20; i++ {
		for begin := time.Now(); time.Since(begin) < 50*time.Millisecond; {
		}
		before := system()
		var rm metricdata.ResourceMetrics
		if err := rdr.Collect(context.Background(), &rm); err != nil {
			t.Fatal(err)
		}
		after := system()
		for _, s := range rm.ScopeMetrics {
			for _, m := range s.Metrics {
				d, ok := m.Data.(metricdata.Sum[float64])
				if !ok || m.Name != "process.cpu.time" {
					continue
				}
				for _, p := range d.DataPoints {
					if v, _ := p.Attributes.Value(attribute.Key("state")); v.AsString() == "system" {
						seen++
						if p.Value < before-1e-5 || p.Value > after+1e-5 {
							t.Fatal(before, p.Value, after)
						}
					}
				}
			}
		}
	}
	if seen == 0 {
		t.Fatal("not found")
	}
}
'''),
 dict(id="s10-metric-insecure-from-span", property="P20",
  edits=[("launcher/config.go", "c.MetricExporterEndpointInsecure,", "c.SpanExporterEndpointInsecure,")],
  pkg="launcher",
  needs="insecure set for only one of the span and the metric exporter",
  breaks="the metric exporter uses TLS or not as the span exporter's setting says",
  test='''
package launcher

import (
	"net"
	"testing"
	"time"
)

func TestZZ(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	first := make(chan byte, 1)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 1)
			if n, _ := c.Read(b); n == 1 {
				select {
				case first <- b[0]:
				default:
				}
			}
			c.Close()
		}
	}()
	otel := ConfigureOpentelemetry(
		WithServiceName("zz"),
		WithSpanExporterEndpoint(""),
		WithSpanExporterInsecure(false),
		WithMetricExporterEndpoint(l.Addr().String()),
		WithMetricExporterInsecure(true),
		WithMetricReportingPeriod(time.Second),
	)
	_ = otel
	select {
	case b := <-first:
		if b == 0x16 {
			t.Fatal("TLS handshake on an insecure endpoint")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no connection")
	}
}
'''),
 dict(id="s11-shutdown-stops-early", property="P15",
  edits=[(M+"provider.go", """		err = multierr.Append(err, r.Shutdown(ctx))
	}

	return err
""", """		if err = r.Shutdown(ctx); err != nil {
			return err
		}
	}

	return nil
""")], pkg="lightstep/sdk/metric",
  needs="two readers, the first of which fails to shut down",
  breaks="the readers after it are never shut down and lose their last data",
  test='''
package metric

import (
	"context"
	"errors"
	"testing"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
)

type zz struct {
	err  error
	stop int
}

func (z *zz) String() string                                   { return "zz" }
func (z *zz) ExportMetrics(context.Context, data.Metrics) error { return nil }
func (z *zz) ForceFlushMetrics(context.Context, data.Metrics) error {
	return nil
}
func (z *zz) ShutdownMetrics(context.Context, data.Metrics) error {
	z.stop++
	return z.err
}

func TestZZ(t *testing.T) {
	a, b := &zz{err: errors.New("first")}, &zz{}
	p := NewMeterProvider(WithReader(NewPeriodicReader(a, 1e12)), WithReader(NewPeriodicReader(b, 1e12)))
	err := p.Shutdown(context.Background())
	if a.stop != 1 || b.stop != 1 || !errors.Is(err, a.err) {
		t.Fatal(a.stop, b.stop, err)
	}
}
'''),
 dict(id="s12-schema-url", property="P27",
  edits=[(M+"provider.go", """		Name:      name,
		Version:   cfg.InstrumentationVersion(),
		SchemaURL: cfg.SchemaURL(),
	}
""", """		Name:    name,
		Version: cfg.InstrumentationVersion(),
	}
""")], pkg="lightstep/sdk/metric",
  needs="two meters of the same name and version with different schema URLs",
  breaks="they are one meter and the schema URL is lost",
  test='''
package metric

import (
	"context"
	"testing"

	apimetric "go.opentelemetry.io/otel/metric"
)

func TestZZ(t *testing.T) {
	rdr := NewManualReader("zz")
	p := NewMeterProvider(WithReader(rdr))
	for _, u := range []string{"http://a/1", "http://a/2"} {
		c, err := p.Meter("m", apimetric.WithSchemaURL(u)).Int64Counter("c")
		if err != nil {
			t.Fatal(err)
		}
		c.Add(context.Background(), 1)
	}
	got := map[string]int{}
	for _, s := range rdr.Produce(nil).Scopes {
		got[s.Library.SchemaURL]++
	}
	if len(got) != 2 || got["http://a/1"] != 1 || got["http://a/2"] != 1 {
		t.Fatal(got)
	}
}
'''),
 dict(id="s13-link-trace-state", property="P13",
  edits=[("lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", """	for _, link := range links {
		l1 := dest.AppendEmpty()
""", """	for _, link := range links {
		if !link.SpanContext.IsValid() {
			continue
		}
		l1 := dest.AppendEmpty()
""")], pkg="lightstep/sdk/trace/exporters/otlp/otelcol",
  needs="a link whose span context is not valid but which has attributes or trace state",
  breaks="the link and its attributes are dropped without being counted",
  test='''
package otelcol

import (
	"testing"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
)

func TestZZ(t *testing.T) {
	c := &client{}
	out := c.d2pd(tracetest.SpanStubs{{Name: "a", Links: []trace.Link{{Attributes: []attribute.KeyValue{attribute.Int("x", 1)}}}}}.Snapshots())
	l := out.ResourceSpans().At(0).ScopeSpans().At(0).Spans().At(0).Links()
	if l.Len() != 1 || l.At(0).Attributes().Len() != 1 {
		t.Fatal(l.Len())
	}
}
'''),
 dict(id="s14-mmsc-merge-else", property="P19",
  edits=[(M+"aggregator/minmaxsumcount/minmaxsumcount.go", """			if from.fields.min < to.fields.min {
				to.fields.min = from.fields.min
			}
			if from.fields.max > to.fields.max {
				to.fields.max = from.fields.max
			}
""", """			if from.fields.min < to.fields.min {
				to.fields.min = from.fields.min
			} else if from.fields.max > to.fields.max {
				to.fields.max = from.fields.max
			}
""")], pkg="lightstep/sdk/metric/aggregator/minmaxsumcount",
  needs="merging a state that extends the range of the other at both ends",
  breaks="the maximum of the merged state is too small",
  test='''
package minmaxsumcount

import (
	"testing"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
)

func TestZZ(t *testing.T) {
	a, b := NewInt64(5, 6), NewInt64(1, 9)
	Int64Methods{}.Merge(b, a)
	if number.ToInt64(a.Min()) != 1 || number.ToInt64(a.Max()) != 9 || a.Count() != 4 || number.ToInt64(a.Sum()) != 21 {
		t.Fatal(a)
	}
}
'''),
]
