"""Single source for properties.jsonl and MANIFEST.json: python3 tools/catalog.py writes both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "aioreactive/"


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [A + f for f in files],
            "state": [{"name": n, "meaning": m, "where": A + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": A + w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    }


SCHED = ["schedules", "inputs", "fault_sequences"]

PROPS = [
    P(
        "C01",
        "Observers only ever see values, then at most one terminal event",
        "Every observer subscribed to an observable built from the library's sources and operators receives zero or more values followed by at most one terminal event (error or completion), and nothing at all after the terminal event. "
        "This holds for every composition of operators, any producer timing and any speed of the observer, also when sources fail, when user functions or the observer's own value handler raise, and when the subscription is disposed mid-stream. "
        "Operators that queue events for their observer (take/skip family, merge/concat/switch/combine family, distinct_until_changed, debounce, indexed operators) enforce it even against a source that keeps sending after it has terminated or that is driven by several producers at once; per-item operators assume a source that follows this rule itself.",
        SCHED + ["programs"],
        "every pipeline of sources and operators, every interleaving of producers, observer and dispose, every placement of source errors and raising user functions",
        "Tests check a handful of happy sequences with one producer and an instant observer; none drives two producers, a misbehaving source or a raising accumulator in the middle of a stream.",
        ["observers.py", "transform.py", "create.py", "combine.py", "filtering.py", "timeshift.py"],
        [("safe_observer mailbox loop stops at the first terminal", "observers.py"), ("scan stops after an accumulator error", "transform.py")],
        [("running", "whether the serialising worker still forwards", "observers.py:safe_observer")],
        ["asend/athrow/aclose calls on the subscribed observer"],
    ),
    P(
        "C02",
        "Calls to an observer never overlap",
        "Operators that merge, combine, limit or time-shift streams (merge/flat_map/concat/switch/combine family, take/skip family, take_until, distinct_until_changed, debounce, delay, indexed operators) and the library's own sources call their observer strictly one call at a time: the next asend, athrow or aclose begins only after the previous call has finished. "
        "This holds however slow the observer is, however many producers send at the same time, and also when a call raises.",
        SCHED,
        "all numbers of concurrent producers, all suspension points and durations inside the observer, all interleavings of the two",
        "No test suspends inside an observer while another producer sends, so overlap can never be seen by the suite.",
        ["observers.py", "combine.py", "transform.py", "filtering.py", "timeshift.py", "create.py"],
        [("one mailbox worker per subscription awaits each delivery", "observers.py:safe_observer")],
        [],
        ["begin/end of asend/athrow/aclose on the subscribed observer"],
    ),
    P(
        "C03",
        "Per-item operators deliver exactly the list-function result, in order",
        "For a source that emits a finite sequence and then completes or fails, any chain of map, mapi, starmap, map_async, mapi_async, filter, filteri, starfilter, filter_async, choose, choose_async, scan, scan_async, reduce, reduce_async, take, skip, take_last, skip_last, slice (non-negative start with larger positive stop, negative start, negative stop, positive step), distinct_until_changed and zip_seq delivers to the observer exactly the values, in exactly the order, that the corresponding function on Python lists gives, followed by the same completion or error. "
        "No value (including None and other falsy values) is lost, duplicated, altered or reordered, whatever the timing of the source, of async user functions and of the observer (with synchronous user functions also when the source does not wait for one send to finish before the next), and whether the chain is written with functions or with AsyncRx methods.",
        SCHED + ["programs"],
        "all chains of these operators, all finite value sequences, all emission timings, suspensions in async user functions and observer delays",
        "Tests try each operator alone with three to five integers and no delays; several operators (skip_last, take_last, choose, zip_seq, filter_async) have no test at all.",
        ["transform.py", "filtering.py", "combine.py", "__init__.py"],
        [("transform() forwards each item once", "transform.py"), ("per-subscription counters and queues", "filtering.py")],
        [("remaining / q / queue", "items still to take, skip or hold back", "filtering.py")],
        ["values delivered to the observer against a list model"],
    ),
    P(
        "C04",
        "Disposing a subscription cuts it off from all its sources",
        "After dispose_async() on a subscription has returned and the event loop has run the callbacks that were then ready, every subscription the pipeline held on its sources (outer, inner, secondary, queued and error-handler sources alike) has been disposed and no new one is ever opened. "
        "No value or terminal event produced after that point, and no value held back by a timer at that point, ever reaches the observer. "
        "This holds for dispose at any moment, including from inside the observer's own handler, twice, or concurrently with events, provided that subscribing to and disposing a source do not themselves wait.",
        ["schedules", "crash_points", "programs"],
        "every pipeline, every instant at which dispose is issued relative to every other event",
        "Tests dispose after the first item of one map pipeline and one delay pipeline; the moment of dispose and the operator are not varied and source-side release is never observed.",
        ["observers.py", "combine.py", "transform.py", "timeshift.py", "filtering.py", "create.py"],
        [("returned disposables cancel upstream subscriptions and agents", "combine.py, transform.py, timeshift.py, create.py")],
        [("subscriptions / current", "inner subscriptions held by merge and switch", "combine.py, transform.py")],
        ["active subscriptions on instrumented sources", "observer events after dispose"],
    ),
    P(
        "C05",
        "A terminated pipeline releases every upstream subscription",
        "When the observer of a pipeline has received its terminal event - because a limit was reached (take, take_until, zip_seq), a source or user function failed, the observer's own handler raised, or the sources completed - every subscription the pipeline still holds on any of its sources is disposed once the event loop has run the ready callbacks. "
        "This includes sibling inner streams of merge, flat_map and concat, the other inputs of combine_latest, with_latest_from and take_until, the latest inner stream of switch_latest, and sources that emit already while being subscribed. "
        "It applies to every operator that can terminate before its sources do, provided that subscribing to and disposing a source do not themselves wait.",
        SCHED + ["programs"],
        "every pipeline with an early-terminating operator, every order of terminal event, subscription completion and source emission",
        "No test inspects the source side after termination; the release path can be dead code without any test noticing.",
        ["observers.py", "combine.py", "filtering.py", "transform.py"],
        [("auto_detach_observer disposes collected disposables when the safe observer terminates", "observers.py"), ("agents dispose inner subscriptions", "combine.py:merge_inner, transform.py:switch_latest")],
        [("disposables", "upstream subscriptions to release", "observers.py:auto_detach_observer")],
        ["active subscriptions on instrumented sources after the terminal event"],
    ),
    P(
        "C06",
        "Errors are delivered once, unchanged, after all earlier values",
        "An error signalled by a source reaches the observer exactly once, as the same exception object, after every value the pipeline owes for the items emitted before it, through every operator except those that handle it (catch, retry). "
        "An exception raised by a user function (mapper, predicate, chooser, accumulator, catch handler, defer factory, flat_map selector), by a source iterable or async iterable while being iterated, by an awaited workflow, by subscribing to an inner stream, by comparing values (distinct_until_changed), or by the observer's own value handler behind a queueing operator is never swallowed: it reaches the observer as its one error event, or is raised out of the producer's awaited send when the items are pushed straight through. "
        "No pipeline hangs or completes normally instead.",
        SCHED + ["programs"],
        "every operator and source, every item index at which the failure occurs, every exception type derived from Exception, every timing",
        "Tests cover a raising mapper on a one-element source and a failing future only; failures inside iterables, inner subscriptions, accumulators and handlers are never injected.",
        ["create.py", "transform.py", "combine.py", "filtering.py", "timeshift.py", "observers.py"],
        [("safe_observer turns raised exceptions into athrow", "observers.py"), ("try/except around iteration, subscription and user calls", "create.py, combine.py, transform.py")],
        [],
        ["athrow on the observer, exceptions out of the producer's asend"],
    ),
    P(
        "C07",
        "merge and flat_map conserve values and complete exactly when all do",
        "merge, merge_seq, merge_inner and the flat_map family deliver every value of every inner stream exactly once, keeping each inner stream's own order and delivering values that were emitted at different times in that time order. "
        "The result completes exactly once, when the outer stream and all inner streams have completed and not before, in whatever order that happens; an error of any input ends it at once with that error. "
        "A value emitted by an inner stream is never withheld while other inner streams are idle.",
        SCHED,
        "all numbers of inner streams, all interleavings of outer items, inner items and completions, including inner streams that emit or complete during subscription",
        "Three merge tests with fixed timings and at most two inner streams; completion orders, empty inners and races between outer and inner completion are not explored.",
        ["combine.py", "transform.py", "__init__.py"],
        [("merge_inner agent counts active subscriptions by key", "combine.py:merge_inner")],
        [("Model.subscriptions, is_stopped", "active inner streams and outer completion", "combine.py")],
        ["observer events against the set of emitted items"],
    ),
    P(
        "C08",
        "concat runs sources one after another; max_concurrent is never exceeded",
        "concat, concat_seq, concat_map and merge_inner(1) subscribe to each source only after the previous one has completed, in order, and deliver all values of the first, then all of the second, and so on, then complete. "
        "merge_inner(n) never holds more than n inner subscriptions at a time, starts waiting inner streams in arrival order as soon as a slot is free, subscribes to every inner stream exactly once, and completes after all have completed.",
        SCHED + ["configurations"],
        "all numbers and lengths of sources, all limits n, all orders of outer arrival, inner completion and outer completion",
        "Two tests with two sources; no test observes when a source is subscribed or uses a limit above one.",
        ["combine.py", "transform.py", "__init__.py"],
        [("queue of waiting inner observables, started on inner completion", "combine.py:merge_inner")],
        [("Model.queue", "inner streams waiting for a slot", "combine.py")],
        ["subscribe/complete history of instrumented inner sources", "observer events"],
    ),
    P(
        "C09",
        "switch_latest follows only the newest inner stream",
        "switch_latest, flat_map_latest and flat_map_latest_async deliver values of an inner stream only while it is the newest one received: once a newer inner stream has been subscribed, the older one is disposed and none of its values, errors or its completion has any effect, even if it was in the middle of emitting. "
        "All values of an inner stream emitted while it is the newest are delivered in order. "
        "The result completes exactly when the outer stream has completed and the newest inner stream, if any, has completed, in either order; an error of the outer or newest inner stream ends it.",
        SCHED,
        "all interleavings of outer items, inner items, inner completions and outer completion",
        "The operator has no test at all.",
        ["transform.py"],
        [("agent numbers inner streams and ignores stale ones", "transform.py:switch_latest")],
        [("current, current_id, is_stopped", "newest inner subscription, its number, outer completed", "transform.py:switch_latest")],
        ["observer events, active inner subscriptions"],
    ),
    P(
        "C10",
        "combine_latest and with_latest_from pair each item with the latest other",
        "combine_latest emits, for each item of either input once both have produced one, the pair of that item with the latest item of the other input. "
        "with_latest_from emits, for each item of the first input once the second has produced one, the pair of that item with the latest item of the second, and nothing when only the second input emits. "
        "No pair is lost, duplicated, reordered or built from stale items for any interleaving up to the first completion of an input; an error of either input ends the result with that error, completion of the first input ends with_latest_from, and completion of both ends combine_latest.",
        SCHED,
        "all interleavings of the two inputs, including simultaneous items and slow observers, all item values",
        "The only test pairs never with never and asserts an empty list.",
        ["combine.py"],
        [("one agent serialises notifications of both inputs", "combine.py:combine_latest, with_latest_from")],
        [("source_value, other_value, latest", "latest item per input", "combine.py")],
        ["observer events against a two-register model"],
    ),
    P(
        "C11",
        "take_until stops the stream exactly at the other stream's first value",
        "take_until delivers every value its source emits before the other stream produces its first value, unchanged and in order, then completes and delivers nothing afterwards. "
        "If the other stream completes without a value the source is unaffected; an error of either stream ends the result with that error; completion of the source completes the result. "
        "This holds for any interleaving of the two streams and any observer speed.",
        SCHED,
        "all interleavings of source and other events, including an other stream that emits during subscription",
        "The operator has no test.",
        ["filtering.py"],
        [("other's first value closes the shared safe observer", "filtering.py:take_until")],
        [],
        ["observer events against the merged event order"],
    ),
    P(
        "C12",
        "catch and retry recover exactly as specified and stay disposable",
        "catch delivers the source's values and, if the source fails, continues with the values of the observable returned by the handler, which is called once with that very exception (an error of the handler's stream is handled in the same way); the failed source stays released. "
        "retry(n) subscribes to a failing source again up to n times per subscription, delivers the values of every attempt in order, completes if an attempt completes, and delivers the last error if all n retries fail. "
        "Completed attempts are never retried; an error raised by the handler or while subscribing to its stream is delivered to the observer; nothing that a stream still sends after it has failed or ended gets through; and disposing at any moment stops the current attempt or handler stream.",
        SCHED + ["configurations"],
        "all failure points and failure counts relative to n, synchronous and asynchronous failures, all dispose moments, repeated subscriptions",
        "Neither operator has a test.",
        ["transform.py"],
        [("recursive resubscription in action()", "transform.py:catch"), ("per-subscription attempt counter", "transform.py:retry")],
        [("count, disposable", "retries left; current subscription", "transform.py")],
        ["subscribe/dispose history of instrumented sources, handler calls, observer events"],
    ),
    P(
        "C13",
        "delay shifts every event by exactly the delay, in order",
        "delay(d) delivers each value, and the completion or error, exactly d seconds of event-loop time after the source produced it when the observer is idle by then, and otherwise as soon as the observer is free; relative intervals and order are preserved and nothing is lost or duplicated. "
        "The result does not depend on wall-clock adjustments, and concurrent subscriptions to the same delayed stream do not disturb each other.",
        ["schedules", "inputs", "fault_sequences", "configurations"],
        "all emission times and delays including several items within one delay, all observer durations, loop stalls, wall-clock jumps forward and backward, several subscribers",
        "Tests send items at least one delay apart so that no two are ever in flight together, with one subscriber and a steady clock.",
        ["timeshift.py"],
        [("agent holds (notification, due time) and sleeps until due", "timeshift.py:delay")],
        [("due_time", "when an event is to be delivered", "timeshift.py:delay")],
        ["simulated time of observer events"],
    ),
    P(
        "C14",
        "debounce emits exactly the values followed by a quiet period",
        "debounce(d) delivers a value exactly d seconds after it was emitted if no other value was emitted in between and the stream did not terminate in between, and never delivers a value that was followed by another value within d. "
        "Delivered values keep their order and appear once; source completion and error are passed on immediately; disposing discards a value whose quiet period has not ended, without signalling the observer.",
        SCHED,
        "all sequences of gaps around d, loop stalls that make timers late, slow observers, dispose at any time",
        "Two tests with two values each; bursts, long sequences and termination or dispose with a pending value are not covered.",
        ["timeshift.py"],
        [("index of newest value compared when the timer fires", "timeshift.py:debounce")],
        [("current_index", "newest value seen", "timeshift.py:debounce")],
        ["simulated time of observer events against an interval model"],
    ),
    P(
        "C15",
        "interval and timer tick on schedule with consecutive numbers",
        "interval(s, p) delivers 0, 1, 2, ... with the first tick s seconds after subscription and each next tick p seconds after the observer finished handling the previous one, never skipping, repeating or batching a number, until disposed. "
        "timer(s) and interval with period 0 deliver 0 after s seconds and then complete. "
        "Every subscription counts independently and, once disposed, never ticks again.",
        ["schedules", "inputs", "fault_sequences", "configurations"],
        "all start delays and periods, observer durations, loop stalls, dispose times and numbers of subscribers",
        "interval and timer have no tests.",
        ["create.py"],
        [("handler loop sleeping period and counting", "create.py:interval")],
        [("next", "number of the next tick", "create.py:interval")],
        ["simulated time and value of observer events"],
    ),
    P(
        "C16",
        "AsyncSubject delivers each send once to every current observer",
        "Each value sent to an AsyncSubject reaches, exactly once and in send order, every observer that is subscribed from before the send until it returns, and never an observer subscribed after the send returned or whose subscription was disposed before the send started, even if observers subscribe or dispose, themselves or each other, during delivery. "
        "A terminal event reaches the current observers exactly once, and after it sends have no effect. "
        "After the subject itself is disposed, sending or subscribing raises ObjectDisposedException and nothing is delivered.",
        ["schedules", "histories", "fault_sequences"],
        "all histories of subscribe, dispose, send, throw, close from any number of tasks and from within observer callbacks",
        "Tests use one observer and never change the observer set during delivery.",
        ["subject.py"],
        [("delivery iterates over a snapshot of the observer list", "subject.py:AsyncMultiSubject")],
        [("_observers, _is_stopped, _is_disposed", "current observers and state", "subject.py")],
        ["observer events against the operation history"],
    ),
    P(
        "C17",
        "AsyncSingleSubject waits for its observer and never loses or hangs",
        "Sends, throws and closes issued on an AsyncSingleSubject before an observer is attached wait, and take effect in issue order once one is attached; afterwards every awaited send is delivered exactly once in order, with nothing delivered after the first throw or close even if they are issued concurrently. "
        "Once the subject or its subscription is disposed, every later operation and every operation still waiting for an observer raises ObjectDisposedException: no call blocks forever or stalls the event loop.",
        ["schedules", "histories", "fault_sequences"],
        "all histories of send, throw, close, subscribe and dispose from any number of tasks, in any order relative to attachment",
        "Tests issue one early send, throw or close before attaching and never touch throw or close after dispose.",
        ["subject.py"],
        [("operations await a future resolved by subscribe_async", "subject.py:AsyncSingleSubject")],
        [("_wait, _observer, _is_stopped, _is_disposed", "attachment and state", "subject.py")],
        ["observer events, results of each operation, event-loop progress"],
    ),
    P(
        "C18",
        "Async iteration yields every item once, in order, with back-pressure",
        "Iterating an observable with async for (to_async_iterable or AsyncIteratorObserver) yields exactly the values the source sends, once each and in order, then stops on completion or raises the source's error. "
        "A producer's send returns only after the iterator has taken the item, so nothing is queued; when several producers send at once they are served in turn, and a producer that delivers the terminal event is released once the iteration has seen it. "
        "No combination of producer and consumer timing loses a wake-up; pulling again after the iteration has ended stops again at once instead of waiting; a failure to subscribe to the source is raised by the iteration; and disposing the iterator releases the source subscription.",
        SCHED,
        "all numbers of producers and all interleavings of sends, pulls and terminal events, all consumer delays",
        "Tests iterate from_iterable([1,2,3]) with a single producer and an eager consumer.",
        ["observers.py", "observables.py", "leave.py"],
        [("push/pull futures and an awaiter list", "observers.py:AsyncIteratorObserver")],
        [("_push, _pull, _busy, _awaiters", "hand-over state between producer and iterator", "observers.py")],
        ["items yielded, return of each send"],
    ),
    P(
        "C19",
        "run returns the last value and always releases the subscription",
        "run(source) returns the last value of a stream that completes after at least one value, raises the stream's error if it fails, raises (and never returns a value) if it completes empty, and raises a timeout error the given timeout seconds after subscribing if it does not end; an observer passed to run sees every event. "
        "In every case, including cancellation of the awaiting task at any moment, the subscription to the source has been disposed when run has finished and the event loop has run the ready callbacks. "
        "Awaiting an AsyncAwaitableObserver gives the same result; the observer hands each event to its callback once, returns from each send when the callback has finished, and ignores whatever is sent after its first terminal event or its dispose.",
        ["schedules", "crash_points", "fault_sequences"],
        "all streams, all end times relative to the timeout, all cancellation points",
        "Tests only use run on short immediate streams; timeouts and cancellation are never exercised.",
        ["subscription.py", "observers.py"],
        [("async with on the subscription around wait_for", "subscription.py:run")],
        [("_last_value, _has_value, _is_stopped", "result of the awaitable observer", "observers.py:AsyncAwaitableObserver")],
        ["result or exception of run, active source subscriptions"],
    ),
    P(
        "C20",
        "Subscriptions to the same observable do not influence each other",
        "All state of an operator (counters, accumulators, buffers, indices, attempts, pending timers, cancellation) belongs to one subscription: subscribing several times to the same observable built on a cold source, at the same or different times, gives each observer exactly the sequence it would have received alone. "
        "Disposing, slowness or failure of one subscriber does not change what the others receive. "
        "An operator function applied to two sources behaves as two independent operators.",
        SCHED + ["configurations"],
        "every operator, all numbers of subscribers, all overlaps in time and dispose moments",
        "No test subscribes twice to the same operator output.",
        ["transform.py", "filtering.py", "combine.py", "timeshift.py", "create.py"],
        [("state is created inside subscribe_async", "all operators")],
        [],
        ["events of each observer against a solo run"],
    ),
    P(
        "C21",
        "Pushed items apply back-pressure through per-item operators",
        "When a value is sent into a subject whose observers are reached only through map, map_async, starmap, filter, filter_async, starfilter, choose, choose_async, scan, scan_async or catch, the awaited send returns only after every attached observer has finished handling that value, however long it takes, and so does sending a terminal event. "
        "A producer that awaits its sends therefore never has more than one value in flight, and values are handled in the order sent; likewise from_async_iterable pulls its next item only after the previous one has been handled, and ticks of interval never overlap.",
        ["schedules", "inputs", "programs"],
        "all chains of these operators, all observer and async function durations, several observers",
        "Tests never suspend in the observer for longer than the producer, so a send that returns early looks the same.",
        ["transform.py", "subject.py", "observers.py"],
        [("each stage awaits the next stage's asend", "transform.py:transform, _scan, catch; subject.py")],
        [],
        ["return of each send relative to the end of the observer's handling"],
    ),
    P(
        "C22",
        "VirtualTimeEventLoop runs every program as a normal loop would",
        "On the virtual-time loop callbacks scheduled with call_soon run in FIFO order, callbacks scheduled with call_later or call_at run exactly once, in order of their due time, with loop.time() equal to the due time (or the current time if already past), never before callbacks that were already ready, and cancelled callbacks never run. "
        "Virtual time never goes backwards and advances only when nothing is ready, so sleeps and timeouts take exactly their nominal virtual time. "
        "Tasks, futures, sleeps and cancellation give the same results and order as on the standard asyncio loop for programs whose timers are due at distinct times.",
        ["schedules", "programs", "histories"],
        "all programs of nested call_soon, call_later, call_at, sleep, wait_for and cancel operations, including hundreds of timers with most cancelled",
        "Five tests with at most three timers; the cleanup of cancelled timers and nested scheduling are never reached.",
        ["testing/virtual_events.py"],
        [("_run_once advances time to the next timer only when nothing is ready", "testing/virtual_events.py")],
        [("_time, _scheduled, _ready", "virtual clock and queues", "testing/virtual_events.py")],
        ["order and virtual time of callbacks"],
    ),
    P(
        "C23",
        "Source constructors emit exactly their input to every subscriber",
        "from_iterable, from_async_iterable (and AsyncRx / iterable-module variants), single, empty, never, fail, from_async/of_async, defer and timer-free create deliver exactly the items of their input in order and then the matching terminal event (completion, the given error, the workflow's result and completion, or nothing for never), whatever the timing of the iterable, the workflow and the observer. "
        "After a subscription to an async iterable or workflow is disposed nothing more is pulled from it and the observer is not signalled; defer calls its factory once per subscription.",
        SCHED,
        "all inputs, all suspension patterns of async iterables and workflows, all dispose moments, repeated subscription",
        "Tests cover three-element iterables and an immediately resolved future.",
        ["create.py", "iterable/to_async_observable.py", "__init__.py"],
        [("worker task with safe observer and cancellation token", "create.py:of_async_worker, of_async_iterable")],
        [],
        ["observer events, items pulled from the iterable"],
    ),
    P(
        "C24",
        "The reactivex bridge carries the whole stream and releases its source",
        "An observer of to_observable(source) receives exactly the source's values in order, each as the source sends it, followed by its completion or error, once, for every kind of source and every timing; subscribers of one bridged observable are independent. A failure to subscribe to the source arrives as the observer's error. "
        "After the reactivex subscription is disposed, at any moment including before the bridge has finished subscribing, from inside a callback or through a reactivex operator such as take, the observer gets nothing more and the source subscription is released; it is also released after a terminal event. No exception is left behind in the event loop's callbacks.",
        SCHED,
        "all sources and event timings, all dispose moments relative to the asynchronous subscribe, several subscribers, failing subscribe",
        "No test uses to_observable at all.",
        ["leave.py"],
        [("subscribe in a task, dispose in a task", "leave.py:to_observable")],
        [("subscription", "the source subscription, unset while subscribing", "leave.py:to_observable")],
        ["reactivex observer events, live source subscriptions, errors in loop callbacks"],
    ),
    P(
        "C25",
        "Test subjects emit at the requested time, test observers record exactly",
        "asend_at, athrow_at and aclose_at of AsyncTestSubject and AsyncTestSingleSubject emit at exactly the given loop time (at once if it has passed), the _later variants after exactly the given delay, returning when the event has been handled, and the _later_scheduled variants return at once and emit after the delay; each event reaches every attached observer once and in order of due time, and nothing follows the first terminal event. "
        "AsyncTestObserver records every event it receives exactly once with the loop time of its arrival, calls the matching callback exactly once per event, and as an awaitable resolves to the last value, the error or, when closed without values, cancellation; on the virtual-time loop as on an ordinary one.",
        SCHED,
        "all sets of timed calls, all observer durations, subscribe and dispose times, both event loops",
        "The suite uses these helpers with a few fixed times to test something else; nothing tests their timing under slow or late observers.",
        ["testing/subject.py", "testing/observer.py", "testing/virtual_events.py"],
        [("call_at and sleep followed by the subject's send", "testing/subject.py:AsyncSubjectBase"), ("recording before forwarding", "testing/observer.py:AsyncTestObserver")],
        [("_values", "recorded (time, notification) pairs", "testing/observer.py")],
        ["recorded values, callback invocations, return time of every call"],
    ),
    P(
        "C26",
        "Streams may be arbitrarily long",
        "An operator, subject, iterator or source handles a stream of any length as it handles a short one: every value that should come out comes out, in order, followed by the right terminal event, with no recursion limit reached and no stall, also over many inner sources in turn, many retries, many iterations and many subscribers coming and going. "
        "What the library keeps alive for a subscription (items of the stream, background tasks, timers, attached observers) does not grow with the number of events that have already been delivered, only with what is genuinely pending: at most the last n items for take_last(n), skip_last(n) and slice, the items still within their delay for delay, and nothing for values already passed on.",
        ["inputs", "histories", "schedules"],
        "all lengths of stream, all numbers of consecutive inner sources, retries and subscriptions, any timing of observer and producers",
        "The suite's longest stream has a few items, so unbounded recursion, unbounded buffers and lists that are never pruned cannot show.",
        ["observers.py", "combine.py", "transform.py", "filtering.py", "timeshift.py", "create.py", "subject.py", "observables.py"],
        [("trampolined mailbox loops", "observers.py:safe_observer"), ("trampolined tick and delay loops", "timeshift.py:delay"), ("inner subscriptions dropped when they end", "combine.py:merge_inner")],
        [("queue", "items held back by take_last and skip_last", "filtering.py"), ("inner_subs", "live inner subscriptions", "combine.py:merge_inner")],
        ["observer events; weak references to items; pending tasks and timers of the loop"],
    ),
    P(
        "C27",
        "A finished subscription leaves no background work behind",
        "Once a subscription has delivered its terminal event or its dispose has returned, and the delays that were then running have elapsed, none of the background tasks and timers the library started for it is still pending: workers, tick loops, delayed items and source iterations have ended or been cancelled, also when an async iterable or a workflow underneath never produces again. "
        "This holds for every composition of operators and whatever ended the subscription: completion, a source error, a raising user function or observer, or dispose at any moment, also from inside the observer. It is promised for subscriptions whose subscribe call itself returned.",
        SCHED + ["programs"],
        "all pipelines, all ways and moments of ending a subscription, all source timings",
        "No test looks at the tasks left in the loop after a stream has ended.",
        ["observers.py", "combine.py", "transform.py", "filtering.py", "timeshift.py", "create.py"],
        [("a stop message ends the worker of a subscription", "observers.py:stoppable_observer"), ("cancellation tokens of sources", "create.py:canceller")],
        [("pending tasks", "tasks of the event loop started by the library", "observers.py")],
        ["asyncio.all_tasks and the loop's timers once nothing more can happen"],
    ),
]

RUN = "/opt/venv/bin/python check.py"
CLAIMED = [p["id"] for p in PROPS]
NOT_APPLICABLE = []

LEVEL_NOTES = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    built = [i for i in CLAIMED if os.path.exists(os.path.join(ROOT, "sim", "props", i.lower() + ".py"))]
    na = list(NOT_APPLICABLE)
    for i in CLAIMED:
        if i not in built:
            na.append({"property": i, "reason": "check under construction"})
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python check.py setup",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"{RUN} {i}",
                "thorough_cmd": f"VERIF_TIER=thorough {RUN} {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection: seeded search over schedules and faults on a virtual-time asyncio loop, history checked against a reference model",
                "level": "exploration",
                "level_note": LEVEL_NOTES.get(
                    i,
                    "Seeded sampling of schedules, inputs and faults on the real aioreactive and Expression code under a simulated event loop and clock; a clean batch is evidence, not proof. Trusts the simulated loop (FIFO ready queue as asyncio documents), the instrumented sources/observers and the reference model.",
                ),
            }
            for i in built
        ],
        "not_applicable": na,
        "notes": "No hooks in /repo: the simulator uses the asyncio event loop, user-supplied observables/observers/functions and the time/datetime modules as seams.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
