#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is what counts; this keeps it tidy)."""
import json, os
R = "src/rpp/rpp/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith("src/") else R+f for f in files],
            mechanism=[dict(name=n, where=w if w.startswith("src/") else R+w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in (state or [])],
            observe_at=obs or ["observer callbacks", "is_disposed() seen by the source", "dispose of the upstream disposable"],
            hook_needed=None)))

p("C01", "Every observer sees on_next* followed by at most one terminal event",
  "Whatever a source does, including misbehaving sources that keep emitting after a terminal event, every observer receives any number of values, then at most one on_error or on_completed, and nothing afterwards. This holds for every operator and for every chain of operators.",
  ["histories", "programs"], "All sequences of source events (values, errors, completions, before and after a terminal), all operators and operator chains, including sources emitting synchronously while they are being subscribed.",
  "The tests drive each operator with a handful of well-behaved event sequences; a forgotten disposed-check only shows when a source emits after a particular terminal through a particular chain.",
  ["observers/observer.hpp", "observers/details/disposable_strategy.hpp", "observers/dynamic_observer.hpp", "observables/observable.hpp", "observables/details/chain_strategy.hpp"],
  [("observer_impl checks is_disposed before delivering and disposes itself after a terminal", "observers/observer.hpp")],
  [("disposed flag", "set by the first terminal or by dispose; gates every callback")])
p("C02", "Disposal and termination silence the chain and release upstream exactly once",
  "After a subscription has been disposed, or has delivered its terminal event, no event emitted afterwards by any source reaches the observer. Every still-open upstream subscription of the chain is then released, each exactly once, and a source subscribed through the chain is told so through its observer's disposed state. Disposing twice, or disposing after a terminal, has no further effect.",
  ["histories", "programs"], "All histories of source events with a dispose (from outside or from within the observer's own callback) or a terminal at any point, over all operators and chains.",
  "Tests dispose at a few chosen points of a few operators; the release of each of several upstreams at every possible point of the history is not enumerated.",
  ["observers/details/disposable_strategy.hpp", "observables/details/disposable_strategy.hpp", "disposables/details/container.hpp", "disposables/composite_disposable.hpp", "operators/subscribe.hpp"],
  [("upstream disposables are collected in one composite per subscription and disposed with it", "observers/details/disposable_strategy.hpp")],
  [("upstream set", "the disposables the subscription owns")])
p("C03", "Combining operators deliver serially when their sources emit concurrently",
  "When the sources of a combining operator (merge, flat_map, concat, switch, zip, combine_latest, with_latest_from, take_until, timeout, debounce, delay) emit from different threads, the downstream observer's callbacks never overlap, and what it receives is exactly what some one-at-a-time ordering of those source events, consistent with each source's own order, would produce. No event is lost, duplicated or delivered after the terminal event, and no call blocks forever.",
  ["schedules"], "All interleavings of concurrent source events, terminal events and dispose on two to three threads.",
  "The few threaded tests run one schedule picked by the OS and assert coarse facts; a dropped lock or a check made outside it shows only in particular interleavings.",
  ["operators/merge.hpp", "operators/concat.hpp", "operators/switch_on_next.hpp", "operators/zip.hpp", "operators/combine_latest.hpp", "operators/with_latest_from.hpp", "operators/take_until.hpp", "operators/timeout.hpp", "operators/debounce.hpp", "operators/details/combining_strategy.hpp", "utils/utils.hpp"],
  [("value_with_mutex / pointer_under_lock around the downstream observer", "utils/utils.hpp")],
  [("downstream observer under lock", "who may deliver now")])
p("C04", "Exceptions in user callbacks become exactly one on_error and stop the source",
  "An exception thrown by a user-supplied function that operators apply to values or errors (selector, predicate, accumulator, comparator, key selector, resume selector, retry notifier, tap's value callback) or by the observer's own value callback is delivered downstream as exactly one on_error carrying that exception. The source is released, the user function's operator emits nothing more, and the exception never escapes to the emitting caller.",
  ["inputs", "histories"], "Every user callback, throwing at any of its invocations, in any history of source events.",
  "Tests throw on the first invocation for some operators; throwing on a later invocation, after partial state has been built or from within a chain, is not enumerated.",
  ["observers/observer.hpp", "observables/observable.hpp", "operators/map.hpp", "operators/filter.hpp", "operators/scan.hpp", "operators/reduce.hpp", "operators/on_error_resume_next.hpp", "operators/retry_when.hpp", "operators/group_by.hpp"],
  [("try/catch around strategy.on_next, forwarding std::current_exception() to on_error", "observers/observer.hpp")])
p("C05", "Element-wise and filtering operators compute their documented function",
  "map, filter, take, skip, take_while, first, element_at, distinct, distinct_until_changed, tap, start_with, scan and their chains produce, for every input sequence, exactly the documented output at the documented moment (in the same step as the input that causes it), including early completion and its release of the source. Values reach user callbacks and observers unaltered, whether emitted as lvalues or rvalues.",
  ["inputs", "programs"], "All input sequences over a small alphabet of values ending in completion, error or nothing; all parameters at and around the boundaries (0, 1, n); all pairs of operators in a chain.",
  "Tests use a few example sequences and parameters per operator; boundaries (count 0, repeated values, value after completion) and chains are sampled.",
  ["operators/map.hpp", "operators/filter.hpp", "operators/take.hpp", "operators/skip.hpp", "operators/take_while.hpp", "operators/first.hpp", "operators/element_at.hpp", "operators/distinct.hpp", "operators/distinct_until_changed.hpp", "operators/tap.hpp", "operators/start_with.hpp", "operators/scan.hpp"],
  [("one observer strategy per operator holding its state", "operators/take.hpp")])
p("C06", "Aggregating operators emit the right aggregate at the right moment",
  "buffer, reduce, last and take_last produce exactly the documented result for every input: full buffers as soon as they fill and the non-empty remainder on completion; the accumulated value, last value or last n values in order only on completion; an error when the result is undefined (last of an empty source); and on error nothing but the error.",
  ["inputs"], "All input sequences over a small alphabet ending in completion, error, dispose or nothing, for all counts around the boundaries.",
  "Tests cover a few sequence lengths; wrap-around of ring storage, exact multiples and error-with-partial-state are boundary cases.",
  ["operators/buffer.hpp", "operators/reduce.hpp", "operators/last.hpp", "operators/take_last.hpp"],
  [("per-subscription accumulator in the observer strategy", "operators/take_last.hpp")])
p("C07", "merge, merge_with and flat_map emit everything and complete last",
  "merge, merge_with and flat_map deliver every value of every inner source subscribed so far in the order emitted, complete only after the outer source and all inner sources completed, and on the first error deliver it at once and release every other source. An inner source is subscribed as soon as the outer source delivers it.",
  ["histories"], "All interleavings of events of an outer source and up to three inner sources, including synchronous and empty inner sources.",
  "Tests check a few interleavings; completion counting errors show only for particular orders of completion, re-subscription to one inner, or synchronous inners.",
  ["operators/merge.hpp", "operators/flat_map.hpp"], [("shared refcounted state; completion when the count reaches zero", "operators/merge.hpp")],
  [("number of active sources", "outer plus inner sources not yet completed")])
p("C08", "concat runs its sources strictly one after another, losing none",
  "concat (both over a list of sources and over a source of sources) subscribes to the next source only after the previous one completed, in arrival order, delivers all values of each, completes after the last one (and, for a source of sources, the outer one) completed, and stops at the first error releasing everything. No queued source is skipped or subscribed twice, even when completions race with arrivals.",
  ["histories", "schedules"], "All interleavings of outer arrivals and inner events for up to three inners, synchronous or not, and concurrent arrival versus completion.",
  "The arrival/completion race and mixed synchronous/asynchronous inners are not enumerated by the tests.",
  ["operators/concat.hpp", "sources/concat.hpp"], [("queue of pending observables plus a stage flag for the drain loop", "operators/concat.hpp")],
  [("pending queue", "inner sources arrived but not started"), ("active inner", "the one subscribed source")])
p("C09", "switch_on_next mirrors only the most recent inner source",
  "switch_on_next delivers values of the latest inner source only: once a newer inner source has arrived, the previous one is released and nothing it emits afterwards is delivered. It completes when the outer source and the current inner source have both completed, and any error terminates it and releases both.",
  ["histories", "schedules"], "All interleavings of outer and inner events for up to three inner sources, sequential and concurrent.",
  "Tests follow the straightforward orders; late emissions from replaced inners and completion orders are sampled.",
  ["operators/switch_on_next.hpp"], [("per-inner disposable replaced on switch; refcounted outer", "operators/switch_on_next.hpp")],
  [("current inner", "the only source whose values are delivered")])
p("C10", "zip, combine_latest and with_latest_from pair values correctly",
  "zip emits the i-th tuple exactly when every source has delivered its i-th value; combine_latest emits on each value once all sources have one, using each source's latest; with_latest_from emits on main-source values only, using the latest of the others. Completion and error follow each operator's rule, and no tuple mixes, skips or repeats values.",
  ["histories"], "All interleavings of values, completions and errors of two and three sources.",
  "Tests use a few interleavings; queue skew of several elements and completion while values are pending are boundary cases.",
  ["operators/zip.hpp", "operators/combine_latest.hpp", "operators/with_latest_from.hpp", "operators/details/combining_strategy.hpp"],
  [("per-source pending queues / latest values behind the shared lock", "operators/zip.hpp")])
p("C11", "take_until stops exactly at the first signal of its trigger",
  "take_until forwards the source until its trigger emits a value, completes or fails, and then at once terminates in the documented way, releasing both. If the source terminates first, the trigger is released. Nothing is forwarded after either terminal.",
  ["histories", "schedules"], "All interleavings of source and trigger events, sequential and concurrent, including a trigger firing during subscription.",
  "Only a few orders are tested and the race between the trigger and a value is not explored.",
  ["operators/take_until.hpp"], [("shared observer under lock with a stop flag", "operators/take_until.hpp")])
p("C12", "retry, repeat and error-resuming operators resubscribe exactly as specified",
  "retry(n) resubscribes after an error at most n times and then forwards it; repeat(n) subscribes exactly n times and then completes; retry_when and on_error_resume_next resubscribe or switch exactly when their selector's observable says so. At any time at most one attempt is active, the previous attempt is released before the next begins, and disposing stops any further attempt.",
  ["histories", "inputs"], "All outcomes (value, error, complete, synchronous or not) of up to four attempts, all counts around the boundaries including 0 and infinite, dispose at any point.",
  "Tests take a few attempt scripts; synchronous failure, dispose between attempts and per-attempt release are sampled.",
  ["operators/retry.hpp", "operators/repeat.hpp", "operators/retry_when.hpp", "operators/on_error_resume_next.hpp", "sources/concat.hpp"],
  [("drain loop guarding against recursive resubscription", "operators/retry.hpp")], [("attempts left", "how many more subscriptions may be made")])
p("C13", "A publish subject multicasts each event to exactly its current observers",
  "Each value passed to a subject reaches every observer subscribed at that moment exactly once, in subscription order, and no one else; each terminal event reaches every current observer once and is repeated to whoever subscribes later; after a terminal the subject accepts nothing. Unsubscribing (also from within a callback), subscribing from within a callback, or disposing the subject never disturbs the delivery to other observers.",
  ["histories"], "All histories of subscribe, unsubscribe, emit, terminate and dispose over several observers, including re-entrant subscribe and unsubscribe at any delivery.",
  "Tests subscribe one or two observers; re-entrant changes at each position of the observer list are not enumerated.",
  ["subjects/publish_subject.hpp", "subjects/details/subject_state.hpp", "subjects/details/subject_on_subscribe.hpp"],
  [("observer list under mutex with lazy cleanup; terminal kept in a variant", "subjects/details/subject_state.hpp")],
  [("observer list", "current subscribers in order"), ("terminal", "what late subscribers get")])
p("C14", "Behavior and replay subjects hand new subscribers the right history",
  "A new subscriber of a behavior subject first receives the latest value (initially the seed); of a replay subject the retained values (all, or the last n, or those not older than the duration bound) in emission order, followed by the terminal event if there was one; afterwards it receives each later event once, like any other observer. Reading the behavior subject's value gives the latest value.",
  ["histories", "inputs"], "All histories of emits, terminations, subscriptions and time advances for all bounds around the number of values emitted.",
  "Eviction at the exact bound, after time passes and after termination is checked at a few points only.",
  ["subjects/behavior_subject.hpp", "subjects/replay_subject.hpp"], [("value store consulted on subscribe before joining the observer list", "subjects/replay_subject.hpp")],
  [("retained values", "what a late subscriber gets"), ("latest value", "of the behavior subject")])
p("C15", "Serialized subjects keep the contract under concurrent producers",
  "When several threads emit, terminate, subscribe and unsubscribe on a serialized subject concurrently, each observer's callbacks never overlap, all observers subscribed throughout see the same order of events, each event accepted is delivered exactly once, nothing follows the terminal event, no call deadlocks, and an observer that subscribes meanwhile gets the history handed out by a behavior or replay subject and the later events without a gap or a repetition.",
  ["schedules"], "All interleavings of two or three producing threads and concurrent subscribe/unsubscribe.",
  "Tests run two threads under one OS schedule.",
  ["subjects/publish_subject.hpp", "subjects/behavior_subject.hpp", "subjects/replay_subject.hpp", "subjects/details/subject_state.hpp"],
  [("serialization mutex around emission", "subjects/details/subject_state.hpp")])
p("C16", "Connectables connect once per generation; ref_count follows subscribers",
  "A connectable observable subscribes to its source only on connect, once per connection however many subscribers or repeated connects there are, and shares one subscription among all of them. With ref_count the source is connected when the first subscriber arrives, disconnected exactly when the last one leaves, and connected again for a later first subscriber; every subscriber accepted is actually connected, also when arrivals race with departures.",
  ["histories", "schedules"], "All histories and interleavings of subscribe, unsubscribe, connect, disconnect and source events.",
  "Reconnect after drop to zero and the arrival/departure race are not enumerated.",
  ["observables/connectable_observable.hpp", "operators/ref_count.hpp", "operators/publish.hpp", "operators/multicast.hpp"],
  [("refcount disposable shared between subscribers and the connection", "observables/connectable_observable.hpp")],
  [("connection", "present or absent"), ("subscriber count", "open subscriptions")])
p("C17", "A composite disposable disposes each child exactly once, whenever it is added",
  "Disposing a composite disposes every child it holds exactly once; a child added afterwards is disposed at once; a removed child is not disposed by it; clear disposes the current children and leaves the composite usable. This holds under any concurrent mix of add, remove, clear and dispose, and when a child's dispose calls back into the composite, and no operation blocks forever.",
  ["schedules", "histories"], "All interleavings of operations on two or three threads and all sequential histories, including re-entrant ones.",
  "Concurrency of add with dispose is tested with one schedule; re-entrancy and clear are barely tested.",
  ["disposables/composite_disposable.hpp", "disposables/details/container.hpp", "disposables/callback_disposable.hpp", "disposables/details/base_disposable.hpp", "disposables/disposable_wrapper.hpp"],
  [("atomic state None/Edit/Disposed", "disposables/composite_disposable.hpp")], [("children", "disposables owned now"), ("disposed", "final state")])
p("C18", "A refcount disposable releases its resource exactly when the last reference goes",
  "A reference-counted disposable is disposed exactly once: when the last of the references taken from it has been disposed (or it is disposed directly, which disposes its references too), never earlier; disposing one reference twice counts once; a disposed reference is no longer held by its source; after the end taking a reference yields an already-disposed one. This holds under any concurrent mix of taking and disposing references.",
  ["schedules", "histories"], "All interleavings and histories with up to four references.",
  "Tests exercise a straight-line history.",
  ["disposables/refcount_disposable.hpp"], [("atomic counter", "disposables/refcount_disposable.hpp")], [("count", "references not yet disposed")])
p("C19", "group_by routes every value to the group of its key",
  "group_by emits one group per distinct key, when the key first appears, and delivers each value (through the value selector) only to its key's group, in order. The source's terminal event reaches all open groups and the outer observer; the source is released only when the outer subscription and all group subscriptions are gone, and unsubscribing from one group affects no other.",
  ["histories", "inputs"], "All value sequences over a few keys with subscribe/unsubscribe to groups and outer at any point.",
  "Tests use a couple of sequences; disposal orders across groups are sampled.",
  ["operators/group_by.hpp", "observables/grouped_observable.hpp"], [("map from key to subject; refcounted source subscription", "operators/group_by.hpp")])
p("C20", "window and window_toggle place every value in exactly the open windows",
  "window(n) emits consecutive windows of exactly n values (the last may be shorter); window_toggle opens a window per opening and closes it when its closing observable signals, and every source value is delivered to exactly the windows open at that moment. Terminal events reach all open windows and the outer observer, and the source is released only when outer and window subscriptions are gone.",
  ["histories"], "All interleavings of source, opening and closing events with dispose of outer or windows at any point.",
  "A few interleavings are tested.",
  ["operators/window.hpp", "operators/window_toggle.hpp", "operators/details/forwarding_subject.hpp"], [("subject per window; refcounted source subscription", "operators/window.hpp")])
p("C21", "Schedulers run each task once, on time, in due-time then submission order",
  "Every scheduler runs each scheduled task that is not disposed first exactly once per scheduling, never before its due time, in order of due time and, for equal due times, of submission. A task disposed before it is due is not run. A task that asks to be rescheduled (from now, from its own due time, or at an absolute time) runs again exactly at that due time, and an exception thrown by a task goes to its handler's on_error and ends that task only.",
  ["schedules", "inputs", "histories"], "All small sets of tasks with arbitrary delays, nesting, rescheduling, throwing and disposal, on each scheduler, with virtual time.",
  "Tests use real sleeps and a few task sets, so neither ties, nesting nor late insertion of an earlier task is enumerated.",
  ["schedulers/details/queue.hpp", "schedulers/details/utils.hpp", "schedulers/immediate.hpp", "schedulers/current_thread.hpp", "schedulers/new_thread.hpp", "schedulers/run_loop.hpp", "schedulers/test_scheduler.hpp", "schedulers/details/worker.hpp"],
  [("time-ordered queue", "schedulers/details/queue.hpp")], [("queue", "pending tasks with due times"), ("clock", "now")], ["order, time and thread of task executions", "handler.on_error"])
p("C22", "A threaded worker runs its tasks serially on one thread, losing none",
  "All tasks submitted to one worker of new_thread, thread_pool or computational run on one and the same thread, other than the submitting one, one at a time; workers may be created by several threads at once; tasks submitted from several threads all run, each exactly once and in order of due time; letting go of the worker loses no task already submitted, and the thread ends afterwards.",
  ["schedules"], "All interleavings of submissions from several threads, tasks, and release of the worker handles.",
  "Tests submit from one thread and wait; lost wake-ups and shutdown races need particular interleavings.",
  ["schedulers/new_thread.hpp", "schedulers/thread_pool.hpp", "schedulers/computational.hpp", "schedulers/current_thread.hpp", "schedulers/details/queue.hpp"],
  [("per-thread queue under mutex and condition variable", "schedulers/new_thread.hpp")], None, ["thread and order of task executions"])
p("C23", "current_thread runs nested tasks after the current one, never inside it",
  "On the current-thread scheduler a task scheduled while another runs is queued and runs after it, ordered by due time then submission, and the outermost schedule call returns only when the queue is empty. Sources using it by default therefore interleave as documented when subscribed inside one another, and the order is the same on every run.",
  ["programs", "inputs"], "All nested scheduling programs up to a small size.",
  "A few nestings are tested.",
  ["schedulers/current_thread.hpp", "sources/from.hpp"], [("thread-local queue owned by the outermost call", "schedulers/current_thread.hpp")], None, ["order of task executions"])
p("C24", "run_loop executes tasks only when dispatched, one per dispatch, in order",
  "A run loop runs nothing until told to dispatch; each dispatch runs at most one due task, in due-time then submission order, a blocking dispatch waits (asleep, not polling) for one to be due, and is_empty / is_any_ready_schedulable report truthfully. Tasks may be submitted from any thread without loss.",
  ["histories", "schedules"], "All histories of submissions, dispatches and time advances, and submissions concurrent with dispatch.",
  "Tests use a few straight-line histories.",
  ["schedulers/run_loop.hpp"], [("shared queue with condition variable", "schedulers/run_loop.hpp")], None, ["order of task executions", "dispatch returns"])
p("C25", "delay and observe_on shift events in time or thread, keeping all in order",
  "delay and observe_on deliver every value exactly once, in the original order, not before its emission time plus the delay, on the given scheduler's worker, followed by the completion in the same manner. An error of a delayed source is delivered after the delay following earlier values, while observe_on forwards an error without waiting; disposing cancels everything pending.",
  ["histories", "schedules"], "All histories of timed source events and dispose, and all interleavings of the source thread with the worker thread.",
  "Tests use one or two event timings; the race between draining and a new emission is not explored.",
  ["operators/delay.hpp", "operators/observe_on.hpp"], [("queue of pending emissions drained by one scheduled task", "operators/delay.hpp")], [("pending queue", "emissions with due time"), ("drain scheduled", "whether a task is active")])
p("C26", "debounce and throttle select values by time exactly as documented",
  "debounce emits a value exactly when the given period has passed since it without a newer one, and on completion flushes the value still pending; throttle emits a value and then ignores values for the period. Errors pass at once and drop what is pending, and every emitted value is one the source emitted, at most once.",
  ["histories", "schedules"], "All timed histories of source events around the period's boundary; timer versus source-thread interleavings.",
  "Boundary timings and the race between the timer and the next event or completion are sampled.",
  ["operators/debounce.hpp", "operators/throttle.hpp"], [("latest value plus deadline under lock", "operators/debounce.hpp")])
p("C27", "timeout switches to its fallback exactly when the source stays silent too long",
  "timeout forwards the source as long as each value arrives within the period after the previous one (or the subscription); otherwise it releases the source and switches to the fallback, or fails with a timeout error if there is none, exactly once. After the switch nothing from the source is delivered, and a source that terminates in time never triggers the fallback.",
  ["histories", "schedules"], "All timed histories around the period boundary; timer versus source-thread interleavings.",
  "Boundary timings and the race between the timer and the source are sampled.",
  ["operators/timeout.hpp"], [("deadline task rescheduling itself", "operators/timeout.hpp")])
p("C28", "interval and timer tick at exact multiples of their period until disposed",
  "interval emits 0,1,2,... with the k-th value due at the initial delay plus k periods (no drift), timer emits a single 0 after its delay and completes; both stop as soon as they are disposed, also from inside the observer.",
  ["inputs", "histories"], "All small initial delays and periods, and dispose at each point.",
  "A few timings are tested.",
  ["sources/interval.hpp", "sources/timer.hpp"], [("rescheduling relative to the task's own due time", "sources/interval.hpp")])
p("C29", "subscribe_on subscribes on the given scheduler and stays cancellable",
  "subscribe_on performs the subscription (and so all synchronous emissions) on the given scheduler's worker, exactly once, passing all events through unchanged; if the subscription is disposed before that task runs the source is never subscribed, and if afterwards the source is released.",
  ["histories", "schedules"], "Dispose before, during and after the scheduled subscription, on each scheduler, with all interleavings.",
  "Only the plain path is tested.",
  ["operators/subscribe_on.hpp"], [("scheduled subscribe with the observer as task argument", "operators/subscribe_on.hpp")])
p("C30", "A blocking subscription returns exactly when its source has terminated",
  "Subscribing through a blocking observable returns only after the terminal event has been delivered to the observer, on whatever thread it was, and always returns once that has happened, whatever the interleaving; all values are delivered before it returns.",
  ["schedules"], "All interleavings of the emitting thread with the blocked one, terminal before or after blocking begins, error and completion.",
  "A missed wake-up needs a particular interleaving.",
  ["observables/blocking_observable.hpp", "operators/as_blocking.hpp"], [("condition variable signalled on disposal", "observables/blocking_observable.hpp")], None, ["return of subscribe versus callbacks"])
p("C31", "Creating sources emit exactly their documented sequence to each subscriber",
  "just, from_iterable, from_callable, create, defer, concat, empty, never, error and their variants emit exactly the documented values in order and then the documented terminal event, independently for every subscription, on the given scheduler, and stop between values once the subscriber is gone. defer calls its factory, and from_callable its function, once per subscription.",
  ["inputs", "histories"], "All small argument lists, schedulers, numbers of subscriptions, and dispose after each value.",
  "Tests check fixed lists without interrupting at every position.",
  ["sources/just.hpp", "sources/from.hpp", "sources/create.hpp", "sources/defer.hpp", "sources/concat.hpp", "sources/empty.hpp", "sources/never.hpp", "sources/error.hpp"],
  [("iteration as a rescheduling task", "sources/from.hpp")])
p("C32", "finally runs its action exactly once per subscription, however that ends",
  "finally invokes its callback exactly once per subscription, after the terminal event has been delivered or when the subscription is disposed, whichever comes first, and never while the subscription is still active. tap callbacks see each event exactly once, before the downstream observer.",
  ["histories", "schedules"], "All histories ending in completion, error or dispose, with operators around it, and dispose racing with termination.",
  "Only single endings are tested.",
  ["operators/finally.hpp", "operators/tap.hpp", "disposables/callback_disposable.hpp"], [("callback disposable attached to the subscription", "operators/finally.hpp")])
p("C33", "Every subscription of a cold pipeline is independent",
  "Subscribing several times to one pipeline object, in any interleaving, yields for each subscription exactly what a lone subscription to a fresh pipeline would yield; no operator state is shared between subscriptions, and disposing one does not affect another; several threads may each subscribe to the same pipeline object at the same time.",
  ["programs", "histories", "schedules"], "All operators and pairs of operators, two interleaved subscriptions, all interleavings of their events; several threads subscribing at once.",
  "Tests almost always subscribe once per pipeline object.",
  ["observables/observable.hpp", "observables/details/chain_strategy.hpp", "operators/details/strategy.hpp", "operators/scan.hpp", "operators/distinct.hpp", "operators/buffer.hpp"],
  [("state lives in the observer created per subscription", "observables/details/chain_strategy.hpp")])
p("C34", "Qt: tasks run in order on the application's thread; signals become observables",
  "A task given to the Qt main-thread scheduler, from any thread (with an event loop or not), runs exactly once, on the thread of the application object while it processes events, never before its due time; tasks without a delay run in submission order, delayed ones submitted from one thread in due-time then submission order; rescheduling is honoured, disposed tasks are skipped, and without an application the task's handler is told of the error instead. The observable of a Qt signal delivers every emission, with its arguments, once and in order to whoever is subscribed at that moment, and completes when the object is destroyed, also for later subscribers.",
  ["histories", "schedules"], "All small sets of tasks with delays (also fractions of a millisecond), rescheduling and disposal submitted from the main or other threads; all histories of subscriptions and emissions of a signal.",
  "A few single tasks with long delays submitted from the main thread are tested.",
  ["src/extensions/rppqt/rppqt/schedulers/main_thread.hpp", "src/extensions/rppqt/rppqt/sources/from_signal.hpp"], [("QTimer / queued invocation on the application object", "src/extensions/rppqt/rppqt/schedulers/main_thread.hpp"), ("subject connected to the signal and to destroyed", "src/extensions/rppqt/rppqt/sources/from_signal.hpp")], None, ["thread, order and time of task executions", "observer callbacks"])
p("C35", "The asio strand scheduler runs a worker's tasks one at a time, in order",
  "Tasks given to one worker of the asio strand scheduler run exactly once, on threads that run the execution context, never overlapping; tasks without a delay in submission order, delayed ones not before their due time (and in due-time order if a single thread runs the context). Rescheduling is honoured, tasks disposed first are skipped, what a task gives to current_thread follows after that task on the same worker, and nothing is lost or leaked, however many threads run the execution context.",
  ["histories", "schedules"], "All small sets of tasks with delays, rescheduling, disposal and nested current_thread tasks, submitted from one or more threads, with one or two context threads.",
  "A few single tasks are tested.",
  ["src/extensions/rppasio/rppasio/schedulers/strand.hpp"], [("asio::strand and steady timers", "src/extensions/rppasio/rppasio/schedulers/strand.hpp")], None, ["order and time of task executions"])
p("C36", "gRPC adapters keep message order, one write at a time, one final status",
  "Messages pushed into a gRPC stream adapter before the call has ended are written to the stream in order, each at most once and none skipped, never starting a write while another is outstanding; completion or error finishes the stream exactly once, after the accepted messages were written (unless the call was cancelled or broke first), and a server stream's status is the one of the completion or error. Messages read from the stream reach the observer in order, one at a time, followed by exactly one terminal event that reflects the final status. This holds whichever threads gRPC's reactions and the user's emissions come from, and no adapter is used after its end was reported.",
  ["histories", "schedules"], "All histories of pushes, write/read completions (successful or failed), finish and cancellation.",
  "Tests run whole RPCs over a local channel where write completions come in one order.",
  ["src/extensions/rppgrpc/rppgrpc/client_reactor.hpp", "src/extensions/rppgrpc/rppgrpc/server_reactor.hpp", "src/extensions/rppgrpc/rppgrpc/details/base.hpp"],
  [("pending write queue under mutex; next write started from the completion callback", "src/extensions/rppgrpc/rppgrpc/details/base.hpp")], [("pending writes", "accepted, not yet written")], ["start_write/start_read/finish calls", "observer callbacks"])
p("C37", "Chains of operators behave as the composition of their parts",
  "Any chain of operators behaves as if each operator were applied to the observable outcome of the previous one: same values, same terminal event, at the same moment, with early termination anywhere in the chain releasing everything upstream of it in the same step. Type erasure of observables or observers anywhere in the chain changes nothing.",
  ["programs", "histories"], "All pairs and sampled longer chains over the unary operators with boundary parameters, for all short source histories, with and without type erasure.",
  "Tests check operators almost only in isolation.",
  ["observables/observable.hpp", "observables/details/chain_strategy.hpp", "observables/dynamic_observable.hpp", "observers/dynamic_observer.hpp", "observables/variant_observable.hpp", "operators/details/strategy.hpp"],
  [("lifting of observers through chain strategies with static disposable storage", "observables/details/chain_strategy.hpp")])
p("C38", "Disposing from any thread at any moment is safe and takes effect",
  "A subscription may be disposed from any thread while its sources emit: every emission that begins after the dispose call has returned is not delivered, an emission in progress finishes normally, nothing crashes or deadlocks, the upstream is released exactly once, and registered cleanup actions run exactly once.",
  ["schedules"], "All interleavings of dispose with emissions and terminal events, across operators.",
  "The tests dispose from the emitting thread.",
  ["observers/observer.hpp", "observers/details/disposable_strategy.hpp", "disposables/composite_disposable.hpp", "disposables/details/base_disposable.hpp", "disposables/callback_disposable.hpp"],
  [("atomic disposed flags; composite's atomic state", "disposables/details/base_disposable.hpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (len(x["title"]), x["title"])
        f.write(json.dumps(x) + "\n")
print(len(P))
