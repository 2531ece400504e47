#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts are editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Every finished task is counted exactly once in its function's statistics",
  "Every monitored call that finishes is counted exactly once under its function: as a success, as an error under its error's name, or as a panic, with its duration recorded exactly once among the matching success or failure times. The running count equals calls started minus calls finished and is never negative, and the high-water mark is the largest number of calls that were ever running at once. Every statistics snapshot is consistent in itself (total is successes plus failures, and failures is errors plus panics), no matter how calls, collections and resets interleave, and a reset forgets the calls finished before it and no others.",
  ["schedules", "programs", "histories"],
  "every interleaving of concurrent, nested, failing and panicking calls with statistics collection",
  "The tests start one or two sequential tasks; lost updates, double counts or torn snapshots need particular interleavings of start, end and collection.",
  ["funcstats.go", "ctx.go", "func.go"],
  [("atomic running count and CAS high-water loop", "funcstats.go start"), ("one lock around outcome and duration", "funcstats.go end, Stats")],
  [("current/highwater", "running calls and their maximum", "funcstats.go"), ("errors/panics/times", "outcomes", "funcstats.go")],
  ["Func.Current/Highwater/Success/Errors/Panics/SuccessTimes/FailureTimes", "Registry.Stats"])

p("P02", "Monitoring never changes what the monitored function does",
  "A monitored call behaves exactly as it would unmonitored: a panic propagates with the same value (even if the call also set an error), a goroutine that ends itself is ended, the returned error is untouched, and the call finishes even when observers are attached or removed meanwhile. The context handed to the call carries every value, deadline and cancellation of the context it was derived from, at any nesting depth. A nil context or nil error pointer is accepted and behaves like a background context and a nil error.",
  ["schedules", "programs", "fault_sequences"],
  "every program of nested calls that return, fail, panic or are cancelled at any moment, under every schedule of observers and cancellations",
  "The tests cover one panic and one error path sequentially; panics and cancellations racing with observers and sibling spans are not sampled.",
  ["ctx.go", "span.go", "task.go", "funcstats.go"],
  [("recover and re-panic in the exit closure", "ctx.go newSpan"), ("embedded context delegation", "span.go Value"), ("nil context replacement", "ctx.go cleanCtx")],
  None, ["the panic value seen by the caller", "context values, deadline and Done of the task context"])

p("P03", "Live-span listings show exactly the running spans",
  "A span that is running, and whose ancestors do not change, during a whole listing of live spans is reported exactly once, under its parent or as a root; a span that had finished before the listing began is never reported. A span whose parent finished before it keeps being reported, as an orphaned root, until it finishes. Once every span has finished nothing is listed and every trace's span count is zero, and the count is never below the number of that trace's running spans.",
  ["schedules", "programs", "histories"],
  "every tree of spans over many goroutines, every order of starts, finishes and listings, including parents that finish first",
  "The one orphan test finishes a parent before a child sequentially; the races between orphaning, finishing and listing are never exercised.",
  ["ctx.go", "span.go", "spanbag.go", "registry.go", "trace.go"],
  [("children bag and done/orphaned flags under the span lock", "span.go addChild/orphan"), ("root and orphan sets", "registry.go rootSpanStart/orphanEnd")],
  [("spans/orphans", "live roots and orphans", "registry.go"), ("spanCount", "live spans per trace", "trace.go")],
  ["Registry.RootSpans/AllSpans", "Span.Children/Orphaned", "Trace.Spans"])

p("P04", "Spans are linked to the right parent and trace, and the call graph is exact",
  "Each span's parent is the innermost span of the context it was started from, and it shares that span's trace; a span started without one begins a new trace of its own, a trace reset begins a new root trace, and a remote start uses exactly the trace and parent id it was given. Clearing the span from a context hides it from later starts while keeping the context's other values. The callers recorded for a function are exactly the functions whose spans were parents of its spans, plus an entry marker exactly when some span had no local parent.",
  ["schedules", "programs", "inputs"],
  "every program of task, reset and remote starts over shared contexts and goroutines",
  "Tests check a couple of fixed single-goroutine trees; concurrent first-callers racing on the caller set are not sampled.",
  ["ctx.go", "span.go", "funcset.go", "func.go"],
  [("parent selection", "ctx.go newSpan"), ("CAS first caller then locked set", "funcset.go Add/Iterate")],
  [("first/rest", "caller set", "funcset.go")],
  ["Span.ParentId/Trace", "Func.Parents"])

p("P05", "Span observers see every span's start and finish exactly once",
  "An observer attached to a trace is told exactly once of the start of every span that begins after attaching returned and before detaching began, and exactly once of the finish of every span that finishes in that period, with the span's own error, panic flag and a finish time no earlier than its start. It is told of no start or finish that happens after detaching returned, and never twice of the same event. Attaching or detaching one observer never loses events of another, and contexts returned by context-aware observers are the ones the monitored code receives and that are passed back on finish.",
  ["schedules", "programs", "histories"],
  "every interleaving of observer attach and detach with concurrent starts and finishes on the same trace",
  "One sequential observer test exists; the lock-free observer list fails only for particular interleavings of insert, remove and traversal.",
  ["trace.go", "ctx.go", "cas_unsafe.go", "cas_safe.go"],
  [("lock-free observer list", "trace.go ObserveSpansCtx/removeObserver"), ("observer re-read at finish", "ctx.go newSpan")],
  [("spanObservers", "observer list", "trace.go")],
  ["SpanObserver/SpanCtxObserver callbacks"])

p("P06", "Trace watchers see every new trace once; observing all traces misses none",
  "A registered trace watcher is told exactly once of every trace that begins after registration returned and before cancellation began, and of none that begins after cancellation returned, independently of other watchers coming and going. Observing all traces covers every trace that has a span running while the call is made and every trace that begins during or after it, attaching to each trace once, so that no span started on such a trace after the call returned is missed. After cancelling, no further span is reported and nothing remains attached.",
  ["schedules", "histories"],
  "every interleaving of watcher registration, cancellation and trace starts",
  "No test runs watchers concurrently with trace starts.",
  ["registry.go", "collect/trace.go", "ctx.go"],
  [("copy-on-write watcher reference", "registry.go updateWatcher/ObserveTraces"), ("seen-trace set", "collect/trace.go ObserveAllTraces")],
  [("traceWatchers", "registered watchers", "registry.go")],
  ["ObserveTraces callback", "ObserveAllTraces observer"])

p("P07", "Span collection returns the complete subtree of the matched span",
  "Waiting for a matching span returns, once the first matched span finishes, exactly that span and every descendant that, like all its ancestors up to the match, finished before it, each once with its own error, panic flag and finish time, and nothing from other subtrees or traces. Collecting around a piece of work returns the same for that work, leaving the work's outcome unchanged. All waits end promptly when the match finishes or the caller cancels, and afterwards the collector receives no more events and slows nothing down.",
  ["schedules", "programs", "fault_sequences"],
  "every interleaving of matching, descendants, siblings, concurrent matches and cancellation",
  "Collection is untested; the check/root/stop hand-off fails only for particular interleavings.",
  ["collect/collect.go", "collect/ctx.go", "collect/trace.go"],
  [("atomic check pointer and root under lock", "collect/collect.go Start/Finish/Stop"), ("deferred stop and cancel", "collect/ctx.go")],
  [("check/root/spansByParent", "collection state", "collect/collect.go")],
  ["WatchForSpans", "CollectSpans", "FindSpan"])

p("P08", "A name denotes one metric; collection reports every metric exactly once",
  "All concurrent requests for the same scope, or for the same metric name and tags in a scope, receive the same object, and requests with different names or tags receive different ones; the scope obtained by Package is that named by the import path of the calling package, and a function or task obtained without a name is that of the calling function, however it is written. Using a name already taken by another kind of metric panics with that message and leaves the scope usable; a gauge may replace only a gauge, and chained sources accumulate. A collection reports every metric that existed before it began exactly once with its scope, name and tags, and function and scope listings contain each exactly once.",
  ["schedules", "inputs", "histories"],
  "every interleaving of lookups, conflicting kinds, gauges, chains and collections, over adversarial names and tags",
  "Tests look metrics up sequentially with two or three fixed names.",
  ["registry.go", "scope.go", "callers.go", "ctx.go"],
  [("double-checked get-or-create", "scope.go newSource"), ("source naming", "scope.go sourceName"), ("scope map lock", "registry.go ScopeNamed"), ("names of callers", "callers.go callerPackage, callerFunc")],
  [("sources/chains/scopes", "registered metrics", "scope.go, registry.go")],
  ["Scope accessors", "Registry.Stats/Scopes/Funcs"])

p("P09", "Counters, flags and trace values behave atomically",
  "Concurrent operations on one counter (set, increment, decrement, read current, highest and lowest, reset, collect) behave as if executed one at a time in some order consistent with real time, with no update lost and every returned value as in that order. Concurrent gets, sets and full reads of one trace's values do so as well. A boolean value's true and false counts never lose an observation and its most recent value is one observed last or concurrently with the last. A struct value's report is always one whole observed struct, the last or one concurrent with it.",
  ["schedules", "histories"],
  "every concurrent history of operations on one counter, one trace's values or one boolean value",
  "There is no concurrent test of these types.",
  ["counter.go", "trace.go", "val.go"],
  [("counter lock", "counter.go"), ("trace value lock", "trace.go Get/Set/GetAll"), ("atomic counters", "val.go BoolVal")],
  [("val/low/high/nonempty", "counter state", "counter.go")],
  ["Counter methods", "Trace.Get/Set/GetAll", "Collect"])

p("P10", "Meters never lose or double-count marks, and report true rates",
  "A meter's total is always its base total plus every mark made, across any number of background time steps, with marks concurrent to a step or a reading counted exactly once; resetting or setting the total takes effect exactly. The rate of a meter in its first hours is its marks divided by its age, and under steady activity for any length of time it stays close to the true recent rate, including after the activity level changes and for meters created late; it is never negative, infinite or not-a-number for non-negative marks, and a rarely marked meter's rate decays without becoming zero. A difference meter reports the difference of its two meters as of the reading.",
  ["schedules", "histories", "configurations"],
  "every interleaving of marks, resets and readings with the background time stepping over simulated days, idle gaps and clock jumps",
  "The stepping period is ten minutes and the window four hours: no test can wait for a single step.",
  ["meter.go", "monotime/monotime.go"],
  [("time buckets under the meter lock", "meter.go Mark/tick/stats"), ("background ticker", "meter.go ticker")],
  [("slices/total", "bucketed marks and spilled total", "meter.go")],
  ["Meter.Total/Rate/Stats", "DiffMeter.Stats"])

p("P11", "Value distributions report exact aggregates and truthful quantiles",
  "After any sequence of concurrent observations, an integer, float or duration value reports exactly their count, sum, minimum and maximum and a last observed value as most recent, and each collection is a consistent snapshot of a prefix of them. Quantiles are exact (to single precision) over all observations while there are at most 64, and otherwise are never outside, and at their extremes always equal to some of, the values observed; with sustained new observations old ones are eventually forgotten. A reset distribution is indistinguishable from a new one, and copies and originals evolve independently.",
  ["schedules", "inputs", "histories"],
  "every observation sequence and interleaving with collection, for any randomness",
  "No test observes concurrently or beyond the reservoir size.",
  ["intdist.go", "floatdist.go", "durdist.go", "distgen.go.m4", "val.go", "dist.go", "rng.go"],
  [("value lock and copy before reporting", "val.go"), ("reservoir replacement with window", "intdist.go Insert"), ("interpolated quantile", "intdist.go Query")],
  [("reservoir/Count/Sum/Low/High/Recent", "distribution state", "intdist.go")],
  ["IntVal/FloatVal/DurationVal Stats and Quantile", "Dist methods"])

p("P12", "Measured durations follow elapsed time, not the wall clock",
  "Every duration reported for a call, a running span, a timer or an uptime equals the time that actually elapsed between its start and its end or reading, even if the wall clock is set forwards or backwards meanwhile, and is never negative. A running timer that is stopped several times, even concurrently, records exactly one duration, and every stop returns the time elapsed so far.",
  ["schedules", "fault_sequences", "histories"],
  "every placement of wall-clock jumps and stalls relative to starts, stops and readings",
  "Tests cannot set the clock; the only timing test sleeps for one second.",
  ["monotime/monotime.go", "timer.go", "ctx.go", "span.go", "funcstats.go", "environment/process.go"],
  [("monotonic time base", "monotime/monotime.go"), ("stopped flag under the timer lock", "timer.go Stop")],
  None, ["Timer.Values", "Span.Duration", "Func.SuccessTimes", "process uptime"])

p("P13", "Reports are well-formed, truthful and never hide a failed write",
  "The text, DOT, JSON and SVG reports of spans, functions, statistics and collected traces are syntactically valid whatever names, arguments, annotations, errors and values exist and however the process changes while they are produced. A report contains each stable function, span and statistic exactly once with its true current data (for a struct value: the numeric and boolean fields of the struct observed, nested ones too, leaving out missing ones). Spans are shown with the span that called them: nested below it in text, linked to it in the graph and the JSON. If any write to the destination fails, even transiently, the report returns an error, and it never returns an error or panics otherwise.",
  ["schedules", "inputs", "fault_sequences"],
  "every registry state, concurrent activity and write-failure position",
  "The presentation package has no tests at all.",
  ["present/json.go", "present/spans.go", "present/funcs.go", "present/stats.go", "present/trace.go", "present/dot.go", "present/path.go", "struct.go"],
  [("list writer", "present/json.go"), ("label escaping", "present/dot.go"), ("error threading through callbacks", "present/funcs.go, spans.go")],
  None, ["bytes and error of each report function and of the HTTP endpoint"])

p("P14", "A trace query ends cleanly: match, broken client or failure, nothing leaks",
  "A pending trace query writes a keep-alive to its client at least every 30 seconds of waiting, and fails with the client's error soon after a keep-alive cannot be written, whether or not any span ever matches. When a matching span finishes it answers with that span's tree as one well-formed document (or, for a remote query, marks the matched trace sampled, runs its sampling callback once and answers with that trace's id, or with a page that leads to the named visualiser with that id added to its address), under its content type. Unless preselection is turned off, functions registered after the query was made never match it. A query naming a trace accepts every trace id, and a malformed query, or one no function can match, is refused at once. After it returns it never writes again and leaves no goroutine, watcher or observer behind.",
  ["schedules", "fault_sequences"],
  "every interleaving of matches, keep-alive ticks and write failures, panics and stalls of the client",
  "No test runs a trace query.",
  ["present/utils.go", "present/trace.go", "present/path.go", "present/http.go", "collect/ctx.go"],
  [("ticker loop and stop", "present/utils.go keepAlive"), ("deferred stop and cancel", "collect/ctx.go")],
  None, ["writes to the client", "return value", "live goroutines and observers"])

p("P15", "Trace identity crosses HTTP hops intact, whatever the network does",
  "Over any chain of traced clients and handlers, each handler of a sampled request runs in the caller's trace id with the parent id the caller sent, for every 64-bit id, and stays sampled; a request from an unsampled caller starts a fresh unsampled trace. Missing or malformed trace headers yield a fresh trace without affecting the request, only allowed baggage is imported, and a forced-sample request without a parent gets its trace and span ids back in the response. The response body, status and error pass through unchanged and are recorded as the call's status code or failure, next to the URI requested; the sampling callback of a sampled request's trace, if it has one, has run once, with that trace, when the handler begins; all this under lost, duplicated, reordered, delayed or failed requests.",
  ["schedules", "inputs", "fault_sequences"],
  "every hop chain, id, header corruption and network fault sequence",
  "Tests make single sequential hops with one or two fixed small ids.",
  ["http/client.go", "http/server.go", "http/info.go", "http/http.go"],
  [("header encoding and parsing", "http/info.go"), ("remote trace start", "http/server.go"), ("status observer", "http/http.go")],
  None, ["headers on the wire", "spans seen by each hop", "responses"])

p("P16", "Reported deltas add up to the change in the total",
  "For each series, the deltas reported through one delta transformer, over any number of sequential or concurrent collections, add up exactly to the difference between the last and the first total it saw, each total after the first yielding exactly one delta. Every original value passes through unchanged and in place, series never affect each other, and transformers given to a derived registry affect only collections made through it, applied in the order given.",
  ["schedules", "histories"],
  "every interleaving of collections and updates over many series",
  "Not tested.",
  ["transform.go", "registry.go"],
  [("last total under lock", "transform.go Transform"), ("transformer list copy", "registry.go WithTransformers")],
  [("lastTotals", "last total per series", "transform.go")],
  ["transformed Stats callbacks"])

p("P17", "Environment metrics survive operating-system failures",
  "When reading any operating-system source fails, at any point, only that source's values are omitted: no value derived from a failed or partial read is reported, every other source is reported, and a later collection after recovery reports it again, except that the executable checksum is computed at most once per process. Each garbage-collection pause the runtime still remembers is counted exactly once however often and concurrently metrics are collected. No file handle is left open.",
  ["schedules", "fault_sequences"],
  "every subset and position of OS call failures, over concurrent and repeated collections",
  "Tests only check that collection returns something on a healthy system.",
  ["environment/runtime.go", "environment/process.go", "environment/os.go", "environment/os_unix.go", "environment/proc_linux.go", "environment/rusage.go", "environment/env.go"],
  [("error checks before reporting", "environment/*.go"), ("once-cached checksum", "environment/process.go"), ("last GC number", "environment/runtime.go")],
  None, ["registry statistics", "simulated file system"])

p("P18", "User callbacks may panic or re-enter without wedging the library",
  "Any callback the user supplies (gauge, chained source, statistics, span, function and scope listing callbacks, error naming, matcher, sampling, observer, transformer, work function) may call back into the library or panic. A panic reaches the caller unchanged, and afterwards, or meanwhile from other goroutines, every operation of the library still completes and earlier recorded data is intact.",
  ["schedules", "programs", "fault_sequences"],
  "every callback, at every call position, panicking or re-entering any operation under any schedule",
  "No test panics inside or re-enters from a callback.",
  ["funcstats.go", "scope.go", "registry.go", "error_names.go", "funcset.go", "collect/trace.go", "span.go"],
  [("callbacks invoked outside locks", "scope.go Stats, registry.go RootSpans, funcset.go Iterate"), ("deferred unlocks", "collect/trace.go, scope.go Gauge")],
  None, ["completion of later operations"])

p("P19", "Any mix of concurrent API use is free of data races, deadlocks and crashes",
  "Any number of goroutines may use the whole public interface on shared objects at the same time - tasks, metrics, listings, observers, collection, reports, HTTP tracing, environment metrics - without a data race, deadlock, livelock or unexpected panic. Every operation completes once scheduled fairly.",
  ["schedules", "programs"],
  "every mix of concurrent operations on shared scopes, functions, traces, spans and metrics",
  "The suite is not concurrent; data races appear only for specific pairs of operations.",
  ["ctx.go", "span.go", "registry.go", "scope.go", "trace.go", "funcset.go", "tags.go", "meter.go", "val.go", "collect/collect.go", "present/utils.go", "environment/runtime.go"],
  [("all locks and atomics", "whole library")],
  None, ["race detector over simulated schedules", "deadlock and step-bound detection"])

p("P20", "Data handed out is a stable, independent snapshot",
  "Maps, slices and distributions returned by the library (error counts, trace values, annotations, arguments, duration distributions, collected spans) never change after they are returned and may be modified by the caller without affecting the library or other callers, and tag sets and series keys never change when others are derived from them. A span's annotations are returned in the order they were made, all those made before the call and none lost under concurrency.",
  ["schedules", "histories"],
  "every interleaving of readers that keep or modify results with concurrent updates",
  "Tests never keep a result across further updates.",
  ["funcstats.go", "trace.go", "span.go", "timer.go", "collect/collect.go", "intdist.go"],
  [("copies under lock", "funcstats.go Errors/SuccessTimes, trace.go GetAll, span.go Annotations, timer.go Values")],
  None, ["returned maps, slices and distributions"])

p("P21", "Generated ids are unique and non-negative",
  "All ids generated in a process - for spans, traces, functions or directly - are pairwise distinct and non-negative, under any concurrency, including when the system's randomness source fails or returns degenerate data (all zeros or all ones) at start-up. They also differ from those of a process started at another time, even when the randomness source fails in both.",
  ["schedules", "fault_sequences"],
  "every interleaving of generators and every outcome of the randomness source at start-up",
  "No test generates ids concurrently or with a failing randomness source.",
  ["id.go"],
  [("atomic addition of an odd increment", "id.go NewId"), ("fallback seeding", "id.go init")],
  [("idCounter/inc", "generator state", "id.go")],
  ["NewId", "Span.Id, Trace.Id, Func.Id"])

p("P22", "Series keys encode distinct series distinctly",
  "The string form of a series key escapes separators so that distinct measurements, tag sets and fields (free of backslashes) have distinct, canonically ordered string forms.",
  ["inputs"], "every measurement, tag set and field string",
  "Tests check a dozen strings.",
  ["stats.go", "tags.go"], [("escaping", "tags.go writeTag/writeMeasurement")], None, ["SeriesKey.String/WithField"])

p("P23", "Struct values are reported field by field",
  "Reporting a struct emits each exported numeric or boolean field (nested structs with dotted names), following pointers and honouring ignore tags.",
  ["inputs"], "every struct type and value",
  "One struct is tested.",
  ["struct.go"], [("reflection walk", "struct.go StatSourceFromStruct")], None, ["StatSourceFromStruct"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
