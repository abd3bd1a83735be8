#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "lightstep/sdk/metric/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], technique=technique, note=note, na=na))

prop("P01", "Every accepted synchronous measurement is counted exactly once",
 "Every measurement accepted by a synchronous instrument is aggregated exactly once into each view and reader output, whatever the interleaving with concurrent measurements, collections and the removal of idle attribute sets. A measurement made while a collection or a removal is in progress appears in that collection or a later one, never in both and never in none.",
 ["schedules", "histories"], "all interleavings of measurements, collections by any number of readers, and memory reclamation of idle series",
 "Losses need a measurement to land between two specific instructions of a collector; tests sample a few schedules.",
 [M+"internal/syncstate/sync.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/syncstate/refcount_mapped.go", M+"internal/viewstate/accumulators.go", M+"internal/viewstate/collectors.go", M+"producer.go"],
 [("reference-counted map entries", "internal/syncstate/refcount_mapped.go"), ("update/collected counters", "internal/syncstate/sync.go conditionalCollect"), ("move then merge under the accumulator lock", "internal/viewstate/accumulators.go SnapshotAndProcess"), ("output reference counts", "internal/viewstate/collectors.go lowmemorySyncInstrument.Collect")],
 technique="path-sensitive typestate over inlined SSA (reference, update, counter, snapshot and release automata)",
 note="Decides the ordering and pairing protocol on every path of the measurement and collection code: reference held across the update, counter after update, counter value loaded before the snapshot, removal only after a releasing snapshot, fan-out to all parts. The aggregators' own arithmetic is P19, lock discipline P02.")

prop("P02", "Shared SDK state is only accessed under its lock or atomically",
 "No two goroutines using the SDK's public API (measuring, registering instruments and callbacks, unregistering, collecting, shutting down) can access the same piece of SDK state without synchronization when at least one access is a write. A list handed out under a lock is never afterwards modified in place.",
 ["schedules"], "all interleavings of public API calls from any number of goroutines",
 "The race detector sees only the accesses and schedules a test happens to execute.",
 [M+"meter.go", M+"provider.go", M+"producer.go", M+"internal/syncstate/sync.go", M+"internal/asyncstate/async.go", M+"internal/viewstate/base_instrument.go", M+"internal/viewstate/viewstate.go", M+"periodic.go", M+"manual.go", M+"aggregator/sum/sum.go", M+"aggregator/gauge/gauge.go", M+"aggregator/histogram/histogram.go", M+"aggregator/minmaxsumcount/minmaxsumcount.go"],
 [("per-type mutexes", "the lock fields of meter, provider, producer, observer, view instruments, accumulators"), ("atomics", "sum, refcount and counter fields")],
 technique="interprocedural lockset analysis (guarded-by per field, caller-held intersection, construction exemption)",
 note="Lock identity is (type, field), not object; publication of freshly built objects is assumed safe when they are stored through a lock-protected or once-initialised field.")

prop("P03", "SDK locks are always released, ordered, and not held across user code",
 "Every lock the SDK takes is released on every path out of the operation, the locks are never acquired in cyclic order or re-acquired by their holder, and no user-supplied callback, measurement processor, exporter or reader is invoked while holding a lock that calls back into the SDK would need (the export lock of a periodic reader, which deliberately serializes its exporter, excepted). Waiting for a background goroutine never happens under a lock that goroutine needs. Hence no sequence of API calls, including calls made from callbacks, can deadlock.",
 ["schedules", "programs"], "all interleavings and all user callbacks that call back into the SDK",
 "A deadlock needs an unlucky interleaving or a callback that re-enters the SDK; tests exercise few of either.",
 [M+"meter.go", M+"provider.go", M+"producer.go", M+"periodic.go", M+"internal/syncstate/sync.go", M+"internal/asyncstate/callback.go", M+"internal/viewstate/viewstate.go", M+"internal/viewstate/base_instrument.go"],
 [("lock acquisitions", "all sync.Mutex and sync.RWMutex fields of the module")],
 technique="interprocedural lock-balance, lock-order graph and who-may-call-under-lock analysis over SSA")

prop("P04", "Cardinality limits hold and overflow goes to the overflow series",
 "The number of attribute sets an instrument keeps for a view never exceeds the configured cardinality limit, whatever attributes the application uses. When the limit is reached, measurements with new attribute sets are recorded under the overflow attribute set instead of being dropped, and attribute sets that already exist keep their own series.",
 ["inputs", "histories", "configurations"], "all sequences of attribute sets and all limits",
 "Boundary behaviour depends on the limit, the arrival order and whether overflow has already happened; tests try a few sizes.",
 [M+"internal/viewstate/base_instrument.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/asyncstate/async.go", M+"internal/pipeline/register.go", M+"sdkinstrument/performance.go", M+"aggregator/aggregator.go"],
 [("view limit", "base_instrument.go getOrCreateEntry"), ("instrument limit", "bykeyvalue.go acquireReadLockedKV"), ("limit defaults", "performance.go Validate, aggregator.go Config.Validate")],
 technique="path-sensitive interval analysis of map size against the limit at every insertion")

prop("P05", "Invalid measurement values never reach an aggregation",
 "A NaN or infinite value is rejected for every instrument, and a negative value is rejected for synchronous counters and histograms, for both number types. Every other value is accepted: a measurement reaches the aggregation, with exactly the value that was given, if and only if the range test accepted that value for that instrument.",
 ["inputs"], "all values of both number types on all instrument kinds",
 "Tests try a few values on a few instruments; the guarantee is that no path bypasses the check.",
 [M+"aggregator/aggregator.go", M+"internal/syncstate/sync.go", M+"internal/asyncstate/async.go", M+"number/traits.go", M+"sdkinstrument/kind.go"],
 [("RangeTest", "aggregator/aggregator.go"), ("number traits", "number/traits.go IsNaN/IsInf")],
 technique="dominance of every aggregator update by the range test plus exhaustive abstract evaluation of the test's decision table")

prop("P06", "Points carry the right time interval and temporality",
 "Every exported point of a delta output covers the interval from this reader's previous collection to this one, so that consecutive intervals are contiguous and do not overlap, and every cumulative point covers the interval from the provider's start to this collection. The temporality recorded on a point is the one of the output that produced it, and which instruments are delta or cumulative follows the reader's configured selector.",
 ["histories", "schedules", "configurations"], "all sequences of collections by all readers and all temporality selectors",
 "Interval contiguity is a relation between arbitrary successive collections, possibly concurrent.",
 [M+"producer.go", M+"internal/viewstate/collectors.go", M+"internal/viewstate/base_instrument.go", M+"internal/viewstate/viewstate.go", M+"view/standard.go"],
 [("sequence construction", "producer.go Produce"), ("points", "collectors.go, base_instrument.go appendPoint"), ("instrument choice by temporality", "viewstate.go newSyncView/newAsyncView")],
 technique="value-provenance (symbolic origin terms) of the time and temporality fields on every path, critical-section check of the last-collection time")

prop("P07", "Delta outputs reset and cumulative outputs accumulate",
 "A delta output reports each change once: synchronous data is moved out when reported, asynchronous data is reported as the difference from the same series' value in the previous collection (the value itself for a new series), and unchanged series are not reported. A cumulative output is never reset by being collected: synchronous totals persist across collections, and asynchronous values are those observed in the current collection only.",
 ["histories"], "all sequences of measurements and collections",
 "Wrong resets show only across several collections with particular series appearing, idling and reappearing.",
 [M+"internal/viewstate/collectors.go", M+"internal/viewstate/base_instrument.go", M+"internal/viewstate/viewstate.go", M+"internal/viewstate/accumulators.go"],
 [("collectors", "collectors.go"), ("Move vs Copy", "base_instrument.go appendPoint")],
 technique="path-sensitive symbolic accounting of each series' storage (move, copy, subtract, reset, emit) through every collector")

prop("P08", "Readers and meters are isolated from each other",
 "Each reader gets its own complete output of every instrument according to its own views and temporality: collecting through one reader never changes what another reader reports, and no instrument, callback or meter is skipped for some reader. Observations made in a collection for one reader are only reported to that reader.",
 ["histories", "configurations"], "any number of readers, meters, views and interleaved collections",
 "Tests use one or two readers and a fixed order of collections.",
 [M+"provider.go", M+"meter.go", M+"producer.go", M+"internal/asyncstate/async.go", M+"internal/asyncstate/callback.go", M+"internal/pipeline/register.go", M+"internal/viewstate/viewstate.go"],
 [("pipe index", "producer.go, pipeline.go, asyncstate State"), ("per-reader compilers", "provider.go Meter, meter.go configureInstrument")],
 technique="index-provenance analysis of every per-reader table access plus whole-collection iteration rules")

prop("P09", "Views match, rename, filter and drop exactly as configured",
 "An instrument is affected by exactly the view clauses whose every criterion it satisfies; each such clause yields one output with the clause's name, description, aggregation and attribute keys where set and the instrument's own otherwise, a dropping clause yields none, and an instrument no clause matches gets the reader's default. Attribute filtering keeps exactly the configured keys, and kept attributes are never altered.",
 ["inputs", "configurations"], "all instruments, view configurations and attribute sets",
 "The space of clause combinations is unbounded; tests fix a handful.",
 [M+"view/view.go", M+"view/clause.go", M+"internal/viewstate/viewstate.go", M+"internal/viewstate/base_instrument.go"],
 [("matching", "view ClauseConfig.Matches"), ("compilation", "viewstate.go Compile, viewDescriptor"), ("key filter", "base_instrument.go applyKeysFilter, viewstate.go keysToFilter")],
 technique="decision-table extraction over SSA paths and value-provenance of each output field")

prop("P10", "Each instrument kind gets its specified aggregation",
 "Every instrument kind maps to its specified default aggregation (sums for counters, last value for gauges, histogram for histograms) with the right monotonicity and synchrony, and the textual names of kinds, aggregations and temporalities parse and print consistently. Views that ask for an incompatible aggregation are reported and replaced by the default, compatible ones are honoured, and a bare \"sum\" (from a view or a hint) becomes the sum kind of the instrument.",
 ["inputs", "configurations"], "all instrument kinds, aggregation kinds and number kinds",
 "A table is only right if every entry is; tests check the entries they use.",
 [M+"sdkinstrument/kind.go", M+"view/standard.go", M+"aggregator/aggregation/aggregation.go", M+"internal/viewstate/viewstate.go"],
 [("kind predicates", "sdkinstrument/kind.go"), ("default tables", "view/standard.go"), ("semantic compatibility", "viewstate.go checkSemanticCompatibility"), ("implementation choice", "viewstate.go compileSync/compileAsync")],
 technique="exhaustive abstract evaluation of enum-to-enum functions by conditional constant propagation on SSA")

prop("P11", "API calls reach the instrument they name, unchanged",
 "Every instrument constructor creates an instrument of its own kind and number type with the caller's name, description and unit, every measurement call passes the caller's value, context and attributes unchanged to that instrument, and every callback attached at creation is registered for it. Errors from creating an instrument are returned to the caller.",
 ["inputs", "programs"], "all API methods, names, options, values and attributes",
 "There are dozens of near-identical forwarding methods; tests exercise some of them with fixed values.",
 [M+"meter.go", M+"syncinst.go", M+"asyncinst.go", "lightstep/sdk/internal/common.go"],
 [("constructors", "meter.go / syncinst.go / asyncinst.go"), ("renaming self-telemetry meter", "lightstep/sdk/internal/common.go")],
 technique="whole-API forwarding analysis: constant and argument provenance for every exported method")

prop("P12", "Metric export represents exactly the collected data",
 "Every collected scope, instrument and point appears exactly once in the exported payload with its own name, unit, description, attributes, timestamps, temporality, monotonicity and value of the right number type, and nothing else is exported. Histogram counts, sums, extrema, scale, offsets and buckets, positive and negative, are carried over field by field. Attributes of every type, resource attributes included, keep their key, type and value. Exponential histograms are asked for by an exporter exactly when its backend takes them (the Prometheus one does not).",
 ["inputs"], "all collected data: any kinds, number types, temporalities and sizes",
 "Payload tests compare a few fixed inputs; a swapped or dropped field shows only on the right kind of data.",
 [M+"internal/export/export.go", M+"exporters/otlp/otelcol/client.go"],
 [("conversion", "internal/export/export.go")],
 technique="effect summaries: the payload built on every path (loops to a bound) is compared as a tree with the collected data; case coverage of value types; cache invariant of the converted resource")

prop("P13", "Trace export represents exactly the finished spans",
 "Every span handed to the exporter appears exactly once in the exported payload under its own resource and instrumentation scope, with its own identifiers, parent, name, kind, status, timestamps, attributes, events and links, and its scope with its attributes and schema URL. Nothing is merged, reordered within a scope, or dropped, and the spans given (lists of attributes included) are left unchanged.",
 ["inputs"], "all batches of spans from any resources, scopes, with any events and links",
 "Grouping and field mistakes show only for particular batches (mixed scopes, unset names, links).",
 ["lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
 [("conversion", "otlp.go d2pd")],
 technique="effect summaries: the payload built on every path (batches up to a bound) is compared as a tree with the spans; grouping checked against the equalities decided on the path")

prop("P14", "Failures are reported, never silently swallowed",
 "When a step of collection, export, flush, shutdown, registration, configuration or setup fails, the error reaches the caller or the error handler; no operation reports success after an error in one of its steps, and an error in one step does not hide the errors of the others.",
 ["fault_sequences"], "every error return of every fallible call",
 "Each failure needs its own fault injection; tests inject a few.",
 [M+"provider.go", M+"periodic.go", M+"meter.go", M+"internal/asyncstate/callback.go", M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "pipelines/metrics.go", "pipelines/trace.go", "launcher/config.go", "lightstep/instrumentation/host/host.go"],
 [("error-returning calls", "every call in the module whose result includes an error")],
 technique="error-flow analysis: every error result must reach a return, the error handler, a combinator or be handled on every path where it is non-nil")

prop("P15", "Shutdown is final, complete and idempotent",
 "Shutting down a meter provider or a metric reader flushes and stops every reader exactly once, later shutdowns report that it already happened, and no goroutine started by the SDK outlives it. A flush or shutdown always covers every registered reader and exporter, even when one of them fails.",
 ["histories", "fault_sequences", "schedules"], "all sequences and interleavings of flush, shutdown and collection, with any of them failing",
 "Tests shut down once, in order, with healthy exporters.",
 [M+"provider.go", M+"periodic.go", M+"manual.go", M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
 [("provider lifecycle", "provider.go Shutdown/ForceFlush"), ("periodic reader lifecycle", "periodic.go")],
 technique="typestate of lifecycle operations on all paths plus goroutine-join analysis")

prop("P16", "The periodic reader exports every interval, one export at a time",
 "A periodic reader collects and exports once per configured interval and on flush and shutdown, bounds each export by the configured timeout, and never runs two exports at the same time or uses its buffer concurrently. An export failure is reported and does not stop later exports.",
 ["schedules", "fault_sequences", "configurations"], "all intervals, timeouts, failures and interleavings of ticks with flush and shutdown",
 "Overlap of a tick with a flush and failing exporters are timing dependent.",
 [M+"periodic.go"],
 [("export loop", "periodic.go start/runPeriodic"), ("export", "periodic.go collectAndExport")],
 technique="lock and context-provenance analysis of every export call site, loop-exit analysis of the export goroutine")

prop("P17", "Asynchronous observations count only inside a running callback",
 "An observation is recorded only when made from within a running callback, for an instrument that callback was registered with and of the matching type; any other observation is reported as an error and has no effect. Within one collection the last observation of each attribute set wins and each is reported once, and after unregistering, a callback is never run by a later collection.",
 ["programs", "histories"], "all callbacks, including ones that leak their observer, observe foreign instruments or re-register",
 "Misuse has many shapes; tests cover a few.",
 [M+"internal/asyncstate/async.go", M+"internal/asyncstate/callback.go", M+"meter.go"],
 [("callback state", "asyncstate/callback.go"), ("observation", "asyncstate/async.go ObserveInt64/ObserveFloat64"), ("registration", "meter.go RegisterCallback")],
 technique="dominance and typestate analysis of every path from an observation to the accumulator map")

prop("P18", "Attribute sets identify series; the caller's attributes stay untouched",
 "Two measurements with equal attributes always share a series and two with different attributes never do, even when their fingerprints collide, for every attribute type. The SDK neither modifies the caller's attribute slice nor keeps referring to it after the call when collisions are checked, and attribute limits shorten only values longer than the limit, leaving valid text.",
 ["inputs", "histories"], "all attribute lists of every value type, including colliding fingerprints and reused slices",
 "Collisions and slice reuse are practically never produced by tests.",
 [M+"internal/syncstate/bykeyvalue.go", M+"internal/syncstate/sync.go", M+"internal/fprint/fprint.go", M+"sdkinstrument/performance.go"],
 [("equality and fingerprint", "bykeyvalue.go"), ("copy before retention", "sync.go computeAttrsUnderLock"), ("truncation", "performance.go TruncateAttributes")],
 technique="ownership/escape analysis of caller slices and exhaustive per-type case coverage of equality and fingerprint")

prop("P19", "Aggregators combine, move, copy and subtract state without loss",
 "For every aggregator and number type, merging adds exactly the source's state to the destination, moving transfers it and leaves the source empty, copying leaves the source unchanged, subtracting yields current minus previous, and change detection is true exactly when there is something to report. All of these cover every part of the state.",
 ["inputs", "histories"], "all aggregator kinds, number types and states",
 "Algebraic laws range over all states; tests check a few examples per aggregator.",
 [M+"aggregator/sum/sum.go", M+"aggregator/gauge/gauge.go", M+"aggregator/histogram/histogram.go", M+"aggregator/minmaxsumcount/minmaxsumcount.go", M+"number/traits.go"],
 [("Methods", "aggregator/*/ Methods.Move, Copy, Merge, SubtractSwap, HasChange, Update")],
 technique="per-field effect summaries of each aggregator operation compared with its algebraic specification")

prop("P20", "Launcher configuration reaches the pipeline it is meant for",
 "Every launcher option and environment variable takes effect on exactly the setting it names, with explicit options overriding the environment and the environment overriding defaults, and every setting reaches the trace or metric pipeline it belongs to. Trace and metric endpoints, headers and security settings are never interchanged, transport security is on unless explicitly disabled, the reporting period is the one configured (30 s by default), and the temporality preference gives each instrument kind its documented temporality (an unknown preference is an error).",
 ["configurations"], "all combinations of options and environment variables",
 "There are dozens of options; a mix-up shows only when the two settings differ.",
 ["launcher/config.go", "pipelines/common.go", "pipelines/metrics.go", "pipelines/trace.go", M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
 [("options", "launcher/config.go With*"), ("pipeline config", "launcher/config.go setupTracing/setupMetrics"), ("exporters", "pipelines/*.go")],
 technique="source-to-sink field-flow analysis of every option and configuration field")

prop("P21", "Invalid launcher configuration is rejected before anything starts",
 "The launcher never starts a pipeline without a service name (its own or its resource's), without an access token when an endpoint is the default one, or with an environment that cannot be parsed: it reports the problem through its logger and starts nothing, whether or not the logger ends the process; a pipeline whose reporting period, temporality preference or propagators are invalid is not started, and the problem is reported. A valid configuration starts exactly the enabled pipelines. Headers and access token are handed to the pipelines only and, except for the configuration dump at debug level, to no log.",
 ["configurations", "inputs"], "all configurations",
 "Tests check one or two invalid configurations each.",
 ["launcher/config.go"],
 [("validation", "launcher/config.go validateConfiguration")],
 technique="must-precede analysis of validation before setup, decision-table extraction, taint analysis of credentials into logging")

prop("P22", "Launcher shutdown shuts down everything it started",
 "Shutting the launcher down runs the shutdown of every pipeline it started, including when an earlier one fails, before it reports a failure; a pipeline's shutdown stops the processor or provider that owns its exporter and returns the outcome, and a pipeline whose set-up fails leaves nothing running.",
 ["fault_sequences"], "all subsets of pipelines started and all subsets of shutdowns failing",
 "Tests shut down healthy pipelines.",
 ["launcher/config.go", "pipelines/metrics.go", "pipelines/trace.go"],
 [("shutdown list", "launcher/config.go Launcher.Shutdown"), ("pipeline shutdown functions", "pipelines/metrics.go, trace.go")],
 technique="whole-collection iteration and must-call analysis on all paths, including failure paths")

prop("P23", "Resource attributes follow the documented precedence",
 "Telemetry carries exactly one resource, the same for traces and metrics: the attributes the environment gives (OTEL_RESOURCE_ATTRIBUTES), overridden by the launcher's own (telemetry SDK and distribution, and the configured service name and version where not empty), overridden by every non-empty attribute set through options. host.name is the machine's unless the environment or the options give a non-empty one. Every attribute of the resource is exported with its value.",
 ["configurations", "inputs"], "all combinations of resource attributes from options, environment and defaults",
 "Precedence shows only when the same key comes from several sources.",
 ["launcher/config.go", M+"internal/export/export.go", "lightstep/sdk/internal/common.go", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go"],
 [("resource construction", "launcher/config.go newResource"), ("resource conversion", "lightstep/sdk/internal/common.go ResourceMap")],
 technique="merge-order and provenance analysis of the resource on every path")

prop("P24", "Exporters account for every batch and report its outcome",
 "Each export attempt is recorded in the exporter's own telemetry with its size and with success or failure according to its actual result, the attempt's span is always ended, and the result of the attempt is what the caller gets. With self metrics or self spans switched off, the exporter does not touch the global provider of that kind; switched on, it reports to the global provider unless the caller gave one.",
 ["fault_sequences", "inputs"], "all export outcomes",
 "Tests check successful exports.",
 [M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "lightstep/sdk/internal/common.go"],
 [("export", "client.go ExportMetrics / ExportSpans")],
 technique="effect summaries of every export method with the consumer succeeding and failing: outcome consistency of counter, span and result; provider selection")

prop("P25", "Reused collection memory never leaks stale data",
 "Collecting into previously used output memory gives exactly the data a fresh collection would: no scope, instrument, point or aggregation of an earlier collection remains, and storage handed to a reader is never shared with live aggregation state or between two points.",
 ["histories"], "all sequences of collections reusing output memory",
 "Stale data shows only when shapes change between collections.",
 [M+"data/data.go", M+"producer.go", M+"internal/viewstate/base_instrument.go", M+"internal/viewstate/collectors.go", M+"aggregator/histogram/histogram.go"],
 [("reset and reallocation", "data/data.go Reset/ReallocateFrom"), ("point reuse", "base_instrument.go appendPoint")],
 technique="definite-assignment analysis of every field of reused output objects and aliasing analysis of emitted storage")

prop("P26", "Built-in instrumentation reports each value under its own label",
 "The host, process and runtime instrumentation observes each documented measurement exactly once per collection, on the documented instrument (kind, unit) declared to its callback, with the attribute that describes it and in the documented unit, on every platform; an error reading one source is returned or reported. Each metric of the Go runtime is identified by the one family that matches its name (an unknown one is reported and the others are kept), is a counter exactly where the runtime says it is cumulative, and is observed with its own sample, unit and attributes.",
 ["inputs", "fault_sequences"], "all system readings and all read failures",
 "Values come from the operating system; tests only check plausibility.",
 ["lightstep/instrumentation/cputime/cputime.go", "lightstep/instrumentation/host/host.go", "lightstep/instrumentation/runtime/builtin.go", "lightstep/instrumentation/runtime/descriptor.go", "lightstep/instrumentation/runtime/defs.go"],
 [("callbacks", "RegisterCallback in each package")],
 technique="value-to-label provenance at every observation and registration-set coverage")

prop("P27", "The same instrument registered twice is one instrument",
 "Registering an instrument again with an identical definition returns the existing one and produces one output; a different definition under the same name produces its own output and a conflict report that names both. Meters with the same name, version and schema are one meter, and different ones are never merged.",
 ["histories", "schedules"], "all sequences and interleavings of meter and instrument registrations",
 "Tests register a few fixed duplicates.",
 [M+"meter.go", M+"provider.go", M+"internal/viewstate/viewstate.go", M+"internal/viewstate/errors.go"],
 [("meter identity", "provider.go Meter"), ("instrument identity", "meter.go configureInstrument"), ("output identity", "viewstate.go Compile")],
 technique="identity-key coverage and same-critical-section lookup/insert analysis")

prop("P28", "Selected propagators and built-in instrumentations are installed",
 "The trace pipeline installs as the global propagator exactly the propagators the configuration names, each under its documented name (b3, baggage, tracecontext, ottrace), in the configured order; names that are not known add nothing, and a list without any known name is an error. The metrics pipeline starts, with the provider it makes, every built-in library the configuration names (cputime, host, runtime, or all of them, in the named or else the stable version) unless built-in metrics are disabled; a name or version that is not known and an error starting a library are reported to the error handler, and keep neither the remaining libraries nor the pipeline from starting.",
 ["configurations"], "all lists of propagator names and built-in metric settings",
 "Tests use one or two lists.",
 ["pipelines/trace.go", "pipelines/metrics.go", "launcher/config.go"],
 [("propagators", "pipelines/trace.go"), ("built-in libraries", "pipelines/metrics.go")],
 technique="decision-table extraction and whole-collection iteration over SSA")

prop("P29", "Rate-limited reporting never loses the first report or floods",
 "A rate-limited action runs on the first occurrence and then at most once per period for each place in the code that limits it, independently of other places and however many goroutines call it at the same time.",
 ["schedules"], "all interleavings and call times",
 "Concurrent first calls and clock steps are not sampled by tests.",
 [M+"internal/doevery/doevery.go"],
 [("TimePeriod", "internal/doevery/doevery.go")],
 technique="path-sensitive check of the test-and-set on the last-run time under its lock")

prop("P30", "Histogram buckets approximate values within the documented error",
 "Exponential histogram quantiles derived from exported buckets are within the documented relative error of the recorded values at the configured maximum size.",
 ["inputs"], "all value distributions", "Numerical accuracy over all distributions.",
 [M+"aggregator/histogram/histogram.go"], [("structure", "github.com/lightstep/go-expohisto")],
 na="a numerical error bound over runtime values, computed in a dependency outside this repository; no static argument in reach bounds it")
prop("P31", "Telemetry reaches the backend despite transient network failures",
 "A batch rejected by a transient failure is retried until it is accepted or the configured limit is reached, and then reported as lost.",
 ["fault_sequences"], "all network fault sequences", "Network faults are not injected by tests.",
 [M+"exporters/otlp/otelcol/client.go"], [("retry settings", "client.go")],
 na="retry and queueing are implemented by the OpenTelemetry collector exporter dependency; the repository only configures it, and delivery depends on runtime network behaviour")
prop("P32", "Measuring never blocks for long",
 "A measurement completes in bounded time irrespective of concurrent collections and exports.",
 ["schedules"], "all schedules", "Latency bounds over schedules.",
 [M+"internal/syncstate/bykeyvalue.go"], [("retry loop with Gosched", "bykeyvalue.go acquireNotfoundKV")],
 na="a progress/timing bound: the retry loop's iteration count depends on the scheduler, which no static argument here bounds (lock-order and callback-under-lock, the structural part, is P03)")

READY = open(os.path.join(here, "tools", "ready.txt")).read().split() if os.path.exists(os.path.join(here, "tools", "ready.txt")) else []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in READY:
        checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
          "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other",
          "level_note": p["note"] or "Static analysis of the current source on every run; decides the structural obligations listed in DESIGN.md for this property."})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash run.sh none", "checks": checks, "not_applicable": na,
  "notes": "All checks are static analyses run by /verif/checker (Go, vendored x/tools) on the type-checked SSA of /repo's working tree."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
