#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git); edit here, run, commit.
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
M="lightstep/sdk/metric/"
prop("C01","Synchronous sums are conserved: every measurement counted exactly once",
 "Every value added to a synchronous counter or up-down counter contributes to each reader's output exactly once, with its exact value. The deltas a reader collects add up to, and the cumulative value it collects equals, the total of the measurements made so far for that attribute set. No interleaving of additions with each other or with snapshots and collections loses, duplicates or alters a value.",
 ["schedules","inputs","histories"],"for all values (int64 and float64), all interleavings of concurrent updates, snapshots and collections, all numbers of collections",
 "Unit tests sample a few values and lucky schedules; a lost update needs an update landing between two particular atomic steps of a concurrent snapshot or collection.",
 [M+"number/traits.go",M+"aggregator/sum/sum.go",M+"internal/viewstate/accumulators.go",M+"internal/viewstate/collectors.go",M+"internal/viewstate/base_instrument.go"],
 [("atomic add / swap of the running value",M+"number/traits.go"),("update, move, merge, copy of sum storage",M+"aggregator/sum/sum.go"),("snapshot-and-merge of an accumulator into its output series",M+"internal/viewstate/accumulators.go"),("delta and cumulative collection",M+"internal/viewstate/collectors.go")],
 observe=["collected data points","exported OTLP data points"])
prop("C02","Histogram and min/max/sum/count summaries describe exactly the recorded values",
 "For any sequence of recorded values, the count equals the number of values, the sum equals their sum in accumulation order, and minimum and maximum are attained bounds of the values. Merging or moving summaries is equivalent to having recorded all the values into one summary, and leaves an emptied source indistinguishable from a new one. This holds for int64 and float64 and under concurrent recording and collection.",
 ["inputs","schedules","histories"],"for all values, merge trees and interleavings of record, move, merge and copy",
 "Tests try small fixed value lists; first-value handling, empty-merge and concurrent cases are a matter of all states and schedules.",
 [M+"aggregator/minmaxsumcount/minmaxsumcount.go",M+"aggregator/histogram/histogram.go",M+"number/number.go"],
 [("locked update, move, merge and copy",M+"aggregator/minmaxsumcount/minmaxsumcount.go"),("locked delegation to the exponential histogram",M+"aggregator/histogram/histogram.go")],observe=["collected data points"])
prop("C03","A gauge reports the most recent value, and only if one was recorded",
 "The value a synchronous gauge outputs for an attribute set is the last value recorded for it, where values that reach the output from several sources are ordered by when they were recorded, not by when they are merged. A delta reader sees the gauge only in collection intervals in which it was recorded; a cumulative reader keeps seeing the last value.",
 ["inputs","schedules","histories"],"for all values, interleavings of record / snapshot / collect and merge orders",
 "Ordering between sources depends on the schedule; tests use a single goroutine and one source.",
 [M+"aggregator/gauge/gauge.go",M+"internal/viewstate/accumulators.go",M+"internal/viewstate/collectors.go"],
 [("global sequence number per update; merge keeps the higher one",M+"aggregator/gauge/gauge.go")],observe=["collected data points"])
prop("C04","Reclaiming idle series never loses or strands a measurement",
 "A measurement made while its series is being reclaimed for inactivity still reaches every reader: it is either included in the final snapshot of the old series or recorded in a series that remains known to the instrument. A series is reclaimed only when no measurement is in progress on it and it has been idle for the configured number of collections, its final snapshot is taken exactly once, and other series of the instrument are unaffected.",
 ["schedules","histories"],"for all interleavings of measurements with collection passes, any number of series, any inactivity setting",
 "The window lies between a lookup, a reference count change and the unmap inside a collection; unit tests cannot enumerate those schedules.",
 [M+"internal/syncstate/sync.go",M+"internal/syncstate/refcount_mapped.go",M+"internal/syncstate/bykeyvalue.go",M+"internal/viewstate/accumulators.go",M+"internal/viewstate/collectors.go"],
 [("reference count with unmapped bit",M+"internal/syncstate/refcount_mapped.go"),("update-count / collected-count comparison and scavenging",M+"internal/syncstate/sync.go"),("auxiliary reference count on output series",M+"internal/viewstate/accumulators.go")],observe=["collected data points"])
prop("C05","Measurements with different attributes are never conflated",
 "Unless the user opted to ignore collisions, two measurements share a series exactly when their attribute lists are equal in keys, types and values, regardless of hash collisions; a measurement is always aggregated under its own attributes (after configured processing). The caller may modify its attribute list after the call returns without affecting recorded series.",
 ["inputs","histories"],"for all attribute lists of all value types, including lists whose hashes collide, and all prior contents of the instrument",
 "Tests use one artificial collision at most; equality must hold for all pairs of lists, positions and value types.",
 [M+"internal/syncstate/bykeyvalue.go",M+"internal/syncstate/sync.go"],
 [("exact comparison after fingerprint match and collision chain",M+"internal/syncstate/bykeyvalue.go"),("defensive copy of attributes",M+"internal/syncstate/sync.go")],observe=["collected data points"])
prop("C06","Cardinality limits hold and overflow keeps the data",
 "An instrument's output never holds more series in memory, nor emits more in a collection, than its configured aggregator cardinality limit (for limits of at least one). Measurements for attribute sets that no longer fit are aggregated into the single overflow series and are not dropped, while attribute sets already present continue to use their own series. A series once created keeps its identity until it is removed.",
 ["inputs","histories","configurations"],"for all limits, all sequences of new and existing attribute sets, including the overflow set itself",
 "Boundary conditions (limit minus one, limit, overflow set already present) combine with arbitrary prior contents; tests pick a few.",
 [M+"internal/viewstate/base_instrument.go",M+"internal/syncstate/bykeyvalue.go",M+"internal/pipeline/overflow.go"],
 [("entry lookup/creation with overflow",M+"internal/viewstate/base_instrument.go"),("overflow substitution on lookup",M+"internal/syncstate/bykeyvalue.go")],observe=["collected data points"])
prop("C07","Temporality and time intervals of collected points are right",
 "Each collected point carries the temporality selected for its instrument. Cumulative points start at the provider's start time; delta points of successive collections by a reader cover abutting, non-overlapping intervals from the previous collection to this one; every point of one collection ends at that collection's time. Delta output omits unchanged series, cumulative output includes every live series exactly once.",
 ["histories","schedules","configurations"],"for all collection histories of each reader, all instrument kinds and temporality selections",
 "Tests check single collections with fixed clocks; abutting intervals is a property of all histories.",
 [M+"producer.go",M+"internal/viewstate/collectors.go",M+"internal/viewstate/base_instrument.go",M+"internal/viewstate/viewstate.go"],
 [("last-collect time exchanged under lock",M+"producer.go"),("choice of start time and temporality per collector",M+"internal/viewstate/collectors.go"),("choice of collector per temporality",M+"internal/viewstate/viewstate.go")],observe=["collected data points"])
prop("C08","Asynchronous instruments report exactly the last observation of each collection",
 "In every collection an asynchronous instrument reports, for each attribute set observed by that collection's callbacks, the last value observed (a set of observations that a view maps together adds up for sums), and nothing else; delta output is the difference from the reader's previous collection. Observations on instruments not declared by the running callback, from another provider's instruments, or made after the callback returned, have no effect.",
 ["inputs","histories","schedules"],"for all callbacks, observation sequences, attribute sets and collection histories",
 "Tests drive a few callbacks; the guarantee covers arbitrary observation sequences and misuse after return.",
 [M+"internal/asyncstate/async.go",M+"internal/asyncstate/callback.go",M+"internal/viewstate/accumulators.go",M+"internal/viewstate/collectors.go",M+"aggregator/sum/sum.go"],
 [("per-collection state and last-value accumulator",M+"internal/asyncstate/async.go"),("callback scope invalidation",M+"internal/asyncstate/callback.go"),("cumulative to delta subtraction",M+"internal/viewstate/collectors.go")],observe=["collected data points"])
prop("C09","Invalid measurements are rejected without effect",
 "NaN and infinite values are never recorded by any instrument, and negative values are never recorded by synchronous counters and histograms; a rejected measurement leaves all aggregation state unchanged and creates no series. All other values are accepted.",
 ["inputs"],"for all int64 and float64 values (including -0, subnormals, NaN payloads) and all instrument kinds",
 "Tests try a handful of values per kind.",
 [M+"aggregator/aggregator.go",M+"internal/syncstate/sync.go",M+"internal/asyncstate/async.go"],
 [("range test before recording",M+"aggregator/aggregator.go")],observe=["collected data points"])
prop("C10","Views select, rename, filter and drop exactly as configured",
 "Each instrument produces one output for every matching non-dropping view clause, with that clause's name, description, aggregation and attribute keys, or a single default output when no clause matches, and none when every matching clause (or the default) drops it. Attribute keys outside a clause's key list and empty keys never reach the output, all other attributes do, and an instrument that is dropped for some or all readers never disturbs or crashes collection.",
 ["inputs","configurations"],"for all view configurations, instruments, scopes and attribute sets",
 "Tests cover selected clause combinations; the match, filter and drop logic must hold for all.",
 [M+"view/clause.go",M+"view/views.go",M+"view/view.go",M+"internal/viewstate/viewstate.go",M+"internal/viewstate/base_instrument.go",M+"meter.go",M+"internal/syncstate/sync.go"],
 [("clause matching",M+"view/clause.go"),("compilation of behaviors",M+"internal/viewstate/viewstate.go"),("key filter",M+"internal/viewstate/base_instrument.go")],observe=["collected instruments and points"])
prop("C11","Instrument identity, semantic compatibility and conflicts",
 "Requesting the same instrument again yields the same instrument; outputs are shared only between definitions that agree in name, aggregation, synchronicity, unit, number kind, configuration and attribute filter, and every other same-name definition is reported as a conflict while still producing correct separate output. An aggregation that is incompatible with the instrument kind is reported and replaced by that kind's standard aggregation.",
 ["inputs","configurations","histories"],"for all sequences of instrument definitions and all view configurations",
 "The comparison has many independent fields and depends on history; tests sample pairs.",
 [M+"internal/viewstate/viewstate.go",M+"internal/viewstate/errors.go",M+"meter.go"],
 [("search among existing outputs of the name",M+"internal/viewstate/viewstate.go"),("semantic compatibility table",M+"internal/viewstate/viewstate.go"),("per-descriptor cache",M+"meter.go")],observe=["errors from instrument creation","collected instruments"])
prop("C12","Exported metrics say exactly what was collected",
 "The OTLP data handed to the exporter contains, for every scope and non-empty instrument collected, one metric with the same name, unit, description, scope, resource, temporality and monotonicity, and for every point one data point with the same attributes, timestamps and numeric values (int64 kept exact, or converted by value where OTLP requires a double); nothing is dropped, duplicated or misattributed. The export result is returned to the caller and reported with the right outcome.",
 ["inputs"],"for all collected data: any number of scopes, instruments and points, all aggregation and attribute types, all numeric values including negatives",
 "Tests export small positive samples; value conversion and copying must hold for all values and sizes.",
 [M+"internal/export/export.go","lightstep/sdk/internal/common.go",M+"number/number.go"],
 [("conversion of collected data to OTLP",M+"internal/export/export.go"),("attribute conversion","lightstep/sdk/internal/common.go"),("number coercion",M+"number/number.go")],observe=["OTLP request"])
prop("C13","Exported spans say exactly what was recorded",
 "The OTLP data handed to the trace exporter contains every given span exactly once, under a scope entry with that span's own instrumentation scope name, version and schema URL, and with its identifiers, parent, kind, status, names, times, dropped counts, attributes, events and links unchanged. No batch of spans, including an empty one or one with unnamed scopes, makes the export fail or crash.",
 ["inputs"],"for all batches of spans and orders of scopes",
 "Tests export a few spans with a single named scope.",
 ["lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go","lightstep/sdk/trace/exporters/otlp/otelcol/client.go","lightstep/sdk/internal/common.go"],
 [("conversion of spans to OTLP","lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go")],observe=["OTLP request"])
prop("C14","Re-used collection memory never leaks or aliases data",
 "Data returned by a collection depends only on what was collected, never on the previous contents of the memory passed in for re-use (the result of an earlier collection), and each point owns storage that later measurements do not change. Within one collection no two points, instruments or scopes share storage.",
 ["histories","inputs"],"for all previous contents and capacities of re-used output memory and all collection histories",
 "Tests re-use memory a few times with the same shape; stale content shows only for particular shapes and sizes.",
 [M+"data/data.go",M+"internal/viewstate/base_instrument.go",M+"internal/viewstate/collectors.go",M+"producer.go",M+"periodic.go"],
 [("reset and re-extension of slices",M+"data/data.go"),("overwriting of re-used points",M+"internal/viewstate/base_instrument.go")],observe=["collected data points"])
prop("C15","Provider and reader lifecycle is respected",
 "Flushing and shutting down the provider reaches every reader and returns every reader's error; only the first shutdown acts and later ones return the already-shut-down error, and meters requested after shutdown do nothing. A periodic reader exports final data exactly once on shutdown after its loop has stopped, exports only freshly collected data, never exports concurrently with itself, and a reader accepts only its first registration.",
 ["schedules","histories","fault_sequences"],"for all numbers of readers, failing readers, concurrent shutdown/flush calls and orders of lifecycle calls",
 "Tests use one or two readers without faults; concurrent shutdown and failing readers need all schedules.",
 [M+"provider.go",M+"periodic.go",M+"manual.go",M+"exporters/otlp/otelcol/client.go",M+"exporters/prom/client.go","lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
 [("meters map cleared under lock",M+"provider.go"),("cancel, wait, then final collection",M+"periodic.go")],observe=["returned errors","calls on readers and exporters"])
prop("C16","Launcher configuration is validated and applied with the right precedence",
 "The launcher refuses to run without a service name, and without an access token when either endpoint is the default Lightstep endpoint; options override environment values, the environment access token is used only if none is configured, and every configured endpoint, security setting, header, period and preference reaches the matching (trace or metric) pipeline. Disabled signals (no endpoint, or metrics switched off) create no pipeline and shutdown stops every started pipeline.",
 ["configurations"],"for all combinations of environment and options",
 "The configuration space is a product of many fields; tests sample a few rows.",
 ["launcher/config.go","pipelines/common.go"],
 [("configuration validation","launcher/config.go"),("pipeline setup","launcher/config.go")],observe=["logger fatal calls","pipeline configuration"])
prop("C17","Pipelines honour temporality, propagator, security and library settings",
 "The temporality preference (any letter case) selects cumulative or delta per instrument kind as documented, up-down counters always being cumulative, and an unknown preference or an invalid reporting period is an error. Exactly the supported propagators named are installed in order, and none supported is an error; transport is insecure only if requested, and otherwise uses the given TLS settings. Exactly the recognised builtin libraries named are started.",
 ["inputs","configurations"],"for all preference strings, instrument kinds, propagator lists, security settings and library lists",
 "Tests sample a few strings and kinds.",
 ["pipelines/metrics.go","pipelines/trace.go","pipelines/common.go",M+"view/standard.go",M+"aggregator/aggregation/temporality.go"],
 [("temporality selector","pipelines/metrics.go"),("propagator table","pipelines/trace.go"),("security options","pipelines/common.go")],observe=["view options","installed propagator","exporter configuration"])
prop("C18","Attribute size limits truncate oversized text and nothing else",
 "With a non-zero attribute size limit, every attribute key, string value and string-slice element longer than the limit is cut to exactly its first limit bytes, and everything else, including order, other value types and short text, passes unchanged; a zero limit in the settings means the default limit. The caller's own attribute list is never modified.",
 ["inputs","configurations"],"for all attribute lists and limits",
 "Tests use one list per case; boundary lengths, mixed types and positions are unbounded.",
 [M+"sdkinstrument/performance.go"],
 [("truncation",M+"sdkinstrument/performance.go"),("defaulting of settings",M+"sdkinstrument/performance.go")],observe=["collected point attributes"])
prop("C19","Callbacks run exactly once per collection while registered",
 "Every registered callback is invoked exactly once in each collection of each reader that starts after its registration and before its unregistration, with observations going to that reader's collection only. Unregistering one callback never affects any other callback, never disturbs a collection in progress, takes effect once, and a second unregistration returns an error; registration with no instruments, a nil function or foreign instruments fails without effect.",
 ["schedules","histories","inputs"],"for all numbers of callbacks and all interleavings of register, unregister and collect",
 "Losing or doubling a callback needs a concurrent unregister at a particular point; tests are sequential.",
 [M+"meter.go",M+"producer.go",M+"internal/asyncstate/callback.go"],
 [("callback list of the meter",M+"meter.go"),("shallow copy of the list during collection",M+"producer.go")],observe=["callback invocations","returned errors"])
prop("C20","Resource attributes are complete and correctly prioritised",
 "The resource attached to telemetry contains all attributes from the environment and all configured ones with a non-empty value, configuration winning over environment; unless configured otherwise it always carries the SDK identification, service name and version when configured, and a host name when none was provided. Each export carries exactly the resource of the data being exported, whatever resources were exported before.",
 ["configurations","histories"],"for all attribute maps and environments, all sequences of exported resources",
 "Precedence and caching depend on combinations and history; tests sample single configurations.",
 ["launcher/config.go","lightstep/sdk/internal/common.go"],
 [("resource construction","launcher/config.go"),("single-entry resource cache","lightstep/sdk/internal/common.go")],observe=["resource on exported data"])
prop("C21","Description hints configure the instrument and are removed",
 "A JSON hint in an instrument description selects the hinted aggregation (one the instrument kind supports), temporality and aggregator settings for that instrument in every view output that does not itself choose, and the exported description is the hint's description text unless the view has one. Only an aggregation chosen by the hint escapes the semantic compatibility check. A malformed hint is reported and ignored; an unknown aggregation or temporality name is reported and leaves the configured default, an out-of-range histogram size is reported and replaced by a valid one; descriptions without a hint are untouched.",
 ["inputs","configurations"],"for all descriptions, hints and view configurations",
 "Tests use single-view, well-formed hints.",
 [M+"internal/viewstate/viewstate.go",M+"view/hint.go",M+"aggregator/aggregation/aggregation.go",M+"aggregator/aggregation/temporality.go"],
 [("hint application",M+"internal/viewstate/viewstate.go")],observe=["collected instrument descriptor, aggregation and temporality"])
prop("C22","Shared state is only touched under its lock",
 "No two goroutines using the public API concurrently (creating instruments, recording, collecting, registering or unregistering callbacks, flushing, shutting down) ever access the SDK's shared mutable state without the synchronisation that protects it, and no path leaves a lock held or unlocks one it does not hold.",
 ["schedules"],"for all paths through the public operations and all interleavings",
 "Race-detector runs see only executed schedules; lock discipline must hold on all paths.",
 [M+"meter.go",M+"provider.go",M+"producer.go",M+"periodic.go",M+"internal/syncstate/sync.go",M+"internal/syncstate/bykeyvalue.go",M+"internal/asyncstate/async.go",M+"internal/viewstate/base_instrument.go",M+"internal/viewstate/collectors.go"],
 [("mutexes guarding shared fields",M+"meter.go")],observe=["data races"])
prop("C23","Runtime, host and process metrics report the documented readings",
 "Every Go runtime metric that is recognised is reported under the documented name, unit, kind and attributes of the only matching description (an exact name; a name that several descriptions match is not recognised), with the value of that very metric in each observation; unrecognised metrics are reported as errors and skipped without affecting the others. The host and process libraries observe every documented state with its own reading and attribute. Failures to read or to register are returned or reported, and concurrent readers are safe.",
 ["inputs","configurations"],"for all sets of runtime metric names and kinds a Go version may offer, and all readings of the host",
 "The available names depend on the Go version; tests see one, and one host.",
 ["lightstep/instrumentation/runtime/builtin.go","lightstep/instrumentation/runtime/descriptor.go","lightstep/instrumentation/host/host.go","lightstep/instrumentation/cputime/cputime.go"],
 [("pattern matching","lightstep/instrumentation/runtime/descriptor.go"),("registration","lightstep/instrumentation/runtime/builtin.go")],observe=["observed runtime, host and process metrics"])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
