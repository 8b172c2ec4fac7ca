"""Source of properties.jsonl and MANIFEST.json (python3 mk/gen.py). Development tool, not run by checks."""
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None},
              "_na": na, "_note": note})


IMPL = "src/HsmImpl.cpp"
BASE = "src/HsmEventDispatcherBase.cpp"
STD = "src/HsmEventDispatcherSTD.cpp"
GLIB = "src/HsmEventDispatcherGLib.cpp"
GLIBMM = "src/HsmEventDispatcherGLibmm.cpp"
QT = "src/HsmEventDispatcherQt.cpp"
TYPES = "src/HsmImplTypes.cpp"

prop("P01", "Shared queues, registries and references are free of data races",
     "Events can be posted, timers controlled, handlers (un)registered and the machine released from any threads at the same time as a dispatcher "
     "delivers events, and no two of these operations ever touch the same queue, handler registry, timer table, dispatcher reference or "
     "debug-log object concurrently unless neither modifies it. This holds for every supplied POSIX dispatcher (STD, GLib, GLibmm, Qt).",
     ["schedules", "programs"], "all interleavings of the thread-safe API calls, release() and the dispatcher's own threads, for each dispatcher",
     "The tests run a handful of threads for milliseconds; a missing lock shows only when two specific instructions overlap.",
     [IMPL, BASE, STD, GLIB, GLIBMM, QT], [("mutex per queue/registry, taken by every accessor", IMPL), ("handlers/emit/enqueued/timers locks of the base dispatcher", BASE)],
     [("pending events queue", "events waiting to be dispatched", IMPL), ("handler registries and emit/enqueued queues", "dispatcher bookkeeping", BASE)],
     ["any thread-safe API call"])
prop("P02", "The library's own locking can not deadlock",
     "No combination of thread-safe API calls, release() and dispatcher threads - including API calls made from user callbacks - can make the "
     "library's mutexes wait on each other or be re-acquired by their holder, and every call returns with all of its mutexes released. "
     "Waiting for a condition or joining a thread never happens while an unrelated library mutex is held.",
     ["schedules", "programs"], "all interleavings of API calls, callbacks and dispatcher threads, for each dispatcher",
     "A lock-order inversion needs two threads at exact points; tests can only show that it did not happen this time.",
     [IMPL, BASE, STD, GLIB, GLIBMM, QT, "src/os/common/UniqueLock.cpp"], [("scoped guards and a fixed acquisition order", BASE)], (), ["blocking of any API call"])
prop("P03", "User callbacks never run under a lock that the public API needs",
     "While a user callback (condition, transition, enter, exit, changed, failed-transition callback or an enqueued action) is running, the library "
     "holds no mutex which any thread-safe API call has to take, so callbacks may post events, control timers and query the machine.",
     ["programs", "schedules"], "every callback invocation site on every path from every entry point and dispatcher",
     "Tests call only a few APIs from a few callbacks; the guarantee quantifies over every callback site and every API.",
     [IMPL, BASE], [("queues are copied or popped under lock and callbacks run after unlock", IMPL)], (), ["API calls made inside callbacks"])
prop("P04", "Wake-ups are never lost",
     "Whenever an event, an action or a timer is accepted by a dispatcher, the thread that has to process it is woken up (or sees the new item before it "
     "goes to sleep), no matter how the posting thread and the dispatching thread interleave. The same holds for stop() and for threads that wait for the "
     "result of a synchronous transition.",
     ["schedules", "programs"], "all interleavings of posting, waiting and stopping threads, for each dispatcher and each posting API",
     "A lost wake-up needs the notification to fall into a window of a few instructions of another thread.",
     [STD, GLIB, GLIBMM, QT, BASE, IMPL, TYPES], [("insertion before notification; wait predicates written under the mutex of the wait", STD)], (),
     ["delivery of events, expiry of timers, return of stop() and of synchronous transitions"])
prop("P05", "Flags and counters shared between threads are atomic or locked",
     "Every boolean, integer or enumeration value which one thread may write while another reads or writes it (stop flags, wake-up flags, handler ids, "
     "completion status) is an atomic or is only accessed under a common mutex.",
     ["schedules"], "all interleavings of API calls, release() and dispatcher threads for each dispatcher",
     "Torn or stale flag accesses practically never fail a short test on x86.",
     [IMPL, TYPES, BASE, STD, GLIB], [("std::atomic stop flags; wake-up flags under the lock of their condition", BASE)], (), ["stop(), release(), sync transitions"])
prop("P15", "Callbacks of a transition run in the documented order, each once",
     "In every transition (regular, entry point, history, start-up), all exit callbacks run first, children before their parents, then the transition callback, "
     "then for each target the enter callback, and the state-changed callback runs exactly once, after the state has become active. No state is reported as "
     "changed that did not just become active, and no state becomes active without having been entered.",
     ["inputs", "programs"], "all state charts, active-state configurations, events and callback results",
     "Tests run fixed charts; the order has to hold on every path for every combination of parallel, nested, self and history transitions.",
     [IMPL], [("one function executes exit, action, enter and activation of a transition", IMPL)], [("list of active states", "activation order of states", IMPL)],
     ["order of user callbacks"])
prop("P16", "A vetoed transition is rolled back completely and reported as failed",
     "When an exit or enter callback returns false, no further callback of that transition runs, the blocked target does not become active, every state that was "
     "already exited is entered, activated and notified again in reverse order of its exit, and the transition is not reported as successful.",
     ["inputs", "histories"], "all state charts and all callbacks that may return false at any point of a transition",
     "The position of the veto among parallel and nested states and the state of the machine at that time multiply; tests sample few.",
     [IMPL], [("roll-back loops after a blocked exit and after a blocked enter", IMPL)], [("list of exited states", "what has to be restored", IMPL)],
     ["callbacks, isStateActive(), result of synchronous transitions"])
prop("P19", "Only what a transition exits leaves the set of active states",
     "A regular transition exits exactly the source state and its active descendants; these and only these leave the set of active states, a state is never "
     "listed as active twice, and a parent stays active while one of its substates becomes active. Internal self-transitions and the automatic continuations "
     "(entry points, history) exit nothing, and an already active state is not entered again.",
     ["inputs", "histories"], "all state charts, active-state configurations and events",
     "The invariant must survive arbitrary histories of events over arbitrary hierarchies.",
     [IMPL], [("exited states are collected and removed; replaceActiveState/addActiveState", IMPL)], [("list of active states", "current configuration", IMPL)],
     ["isStateActive(), getActiveStates(), callbacks"])

prop("P10", "Events are processed one at a time and never after release()",
     "At most one thread at a time executes the callbacks and state changes of a state machine (including the entry into its initial state), no matter how many threads "
     "dispatch, post events or initialize. Once release() has returned no further event of that machine is processed, and a machine that was not released "
     "always becomes ready for its next event.",
     ["schedules", "histories"], "all interleavings of dispatching, initialisation and release()",
     "Two dispatches overlap, or one slips past release(), only if threads meet within a few instructions.",
     [IMPL], [("atomic dispatch gate, re-check of the stop flag, wait in release()", IMPL)], [("dispatch gate", "taken while an event is processed", IMPL), ("stop flag", "set by release()", IMPL)],
     ["callbacks of two events never overlap", "release() returns", "no callback after release()"])
prop("P12", "Synchronous transitions return the outcome of exactly their event",
     "transitionSync()/transitionEx(sync) returns true only if its own event was processed successfully (including entry point and history continuations) within the timeout, and false "
     "if it failed, was dropped from the queue, timed out, or the machine was not initialized or was released. The waiting thread is woken as soon as the event ends, "
     "whatever ends it.",
     ["schedules", "histories", "inputs"], "all interleavings of posting, dispatching, queue clearing, timeout and release()",
     "Results get mixed up, or a waiter hangs, only in rare combinations of dropping, releasing and dispatching at the same time.",
     [IMPL, TYPES], [("lock, condition and status shared by all copies of a pending event", TYPES)], [("status of a pending event", "shared with the waiting thread", TYPES)],
     ["return value and return of transitionSync()/transitionEx()"])
prop("P13", "Accepted events are processed exactly once, in the order they were posted",
     "Every event that transition() and friends accepted is processed exactly once (unless it is cleared on request or the machine is released), in the order of posting. Automatic "
     "continuations of a transition (entry points, history, final-state events) are processed before any event that was waiting, and the dispatcher is always told about remaining events.",
     ["schedules", "histories"], "all sequences of postings, dispatches and continuations on all threads",
     "Loss, duplication or reordering needs particular queue contents at particular moments.",
     [IMPL], [("append on post, consume from the front, continuations in front, notify when events remain", IMPL)], [("pending events queue", "events waiting to be dispatched", IMPL)],
     ["order and number of callbacks", "result of transition()"])
prop("P14", "Clearing the queue drops exactly the pending user events",
     "Pending events are dropped only if the caller of transitionEx()/transitionWithQueueClear() asks for it (or on release()). Then all events posted by users before this call are dropped and the new one "
     "is queued, as one atomic step, but unfinished parts of a transition that is being executed are kept.",
     ["schedules", "histories"], "all queue contents and all concurrent postings",
     "What may be dropped depends on which continuation happens to be queued at that moment.",
     [IMPL], [("selective removal under the queue lock, before appending", IMPL)], [("pending events queue", "events waiting to be dispatched", IMPL)],
     ["which callbacks are executed after a transition with queue clearing"])
prop("P17", "An event is offered to the right states and reported with the right outcome",
     "An event is offered only to states that are active, children before their parents, and a parent does not react if a descendant accepted the event. "
     "The event counts as successful if a transition was completed and as failed otherwise; the failed-transition callback is executed exactly once for a failed event, "
     "with that event, and never for a successful one.",
     ["inputs", "histories"], "all hierarchies with parallel states, active configurations and events",
     "The decision depends on combinations of parallel states, acceptance and vetoes that grow exponentially.",
     [IMPL], [("loop over active states, accepted states, combined status", IMPL)], [("list of active states", "current configuration", IMPL)],
     ["callbacks", "failed-transition callback", "result of transitionSync()"])
prop("P18", "Only transitions whose conditions hold are selected, innermost state first",
     "A transition (or entry point) is selected only if it was registered for this event and its condition, evaluated with the arguments of this event, has the registered value; "
     "a transition is possible only if its target can be entered. Transitions of an outer state are considered only if the inner state has none, and isTransitionPossible() "
     "applies the same rules without executing anything.",
     ["inputs", "histories"], "all sets of registered transitions, conditions, entry points and arguments",
     "The selection depends on the combination of hierarchy, conditions and arguments of the chart at hand.",
     [IMPL], [("findTransitionTarget, getEntryPoints, determineTargetState, checkTransitionPossibility", IMPL)], [("registered transitions and entry points", "configuration", IMPL)],
     ["which transition is executed", "result of isTransitionPossible()"])

prop("P07", "The dispatcher can never use a machine that is gone",
     "Handlers registered at a dispatcher never keep the state machine alive and never touch it after it was destroyed or released: when the dispatcher invokes them late they do nothing and "
     "report themselves as invalid. While the machine is alive every invocation performs exactly its operation: process one event, post the event of the expired timer, or post the enqueued event.",
     ["schedules", "histories"], "all moments at which handlers are invoked relative to destruction and release()",
     "Late invocations need the dispatcher thread to be preempted between looking a handler up and invoking it.",
     [IMPL], [("closures hold a weak reference, lock it and check the stop flag", IMPL)], [("registered handlers", "closures held by the dispatcher", IMPL)],
     ["no use after destruction", "result of the handler"])
prop("P08", "release() and destruction detach the machine from its dispatcher completely",
     "release() - also when called by a destructor - stops event processing, unregisters all handlers of this machine and no others, forgets the dispatcher, and returns only after the event "
     "that is being processed is finished, so a machine can be destroyed at any time while its dispatcher keeps running.",
     ["schedules", "histories"], "all moments of release() relative to dispatching",
     "A forgotten handler or a missing wait shows only if an event or timer arrives at exactly the wrong time.",
     [IMPL, "src/hsm.cpp"], [("release() and destructors", IMPL)], [("handler ids, dispatcher reference, stop flag, dispatch gate", "what release() has to undo", IMPL)],
     ["no callback after release()", "isInitialized() is false"])
prop("P22", "initialize() either makes the machine fully operational or changes nothing",
     "initialize() returns true only if the dispatcher was started, all handlers were registered and the initial state was entered exactly once. If any step fails, or the machine is already "
     "initialized, it returns false, nothing stays registered, no callback was executed and the machine does not count as (newly) initialized.",
     ["fault_sequences", "histories"], "every combination of failures of the dispatcher's operations",
     "The supplied dispatchers practically never refuse to start or to register handlers in tests.",
     [IMPL], [("initialize() and its undo path", IMPL)], [("handler ids, dispatcher reference", "registration state", IMPL)],
     ["result of initialize()", "isInitialized()", "callbacks of the initial state"])

prop("P06", "Events can be posted from interrupt and signal handlers",
     "transitionInterruptSafe() may be called from a signal handler at any moment, even when the handler interrupted a thread in the middle of another call of the library: it neither blocks on "
     "something the interrupted code holds, nor allocates memory, throws or runs callbacks, and the event is queued for the dispatcher or the call returns false. "
     "Every critical section that such a handler may need keeps signals blocked from before it is entered until after it is left.",
     ["schedules", "programs"], "every instruction of the library at which a signal can arrive, for each dispatcher",
     "A handler deadlocks only if it interrupts one of a few instructions of the thread it runs on; tests raise no signals.",
     [IMPL, BASE, STD, GLIB, "src/os/posix/InterruptsFreeSection.cpp", "src/os/common/CriticalSection.cpp"],
     [("transitionInterruptSafe -> enqueueEvent -> notifyDispatcherAboutEvent", BASE), ("CriticalSection: blocks signals, then locks", "src/os/common/CriticalSection.cpp")],
     [("mEnqueuedEvents", "preallocated queue of events posted from interrupts", BASE)], ["return value of transitionInterruptSafe()", "delivery of the event", "blocking of any API call"])

prop("P24", "Timers run exactly as requested and expire at most as often as requested",
     "A started timer (interval > 0, registered handler) runs with the requested interval and mode until it is stopped, restarted, its handler is unregistered or - single-shot - it expires; "
     "isTimerRunning() says so, and each expiry calls exactly the handler of this timer once with its id, never for a timer that was stopped before. Stopping, restarting, expiring and starting again "
     "concurrently never leaves a running timer without, or a stopped timer with, a native timer. This holds for STD, GLib, GLibmm and Qt (accuracy of the platform's clock aside).",
     ["schedules", "histories"], "all histories of start/restart/stop/unregister, all moments of expiry relative to them",
     "The windows between expiry, handling and book-keeping are microseconds wide.",
     [BASE, STD, GLIB, GLIBMM, QT], [("startTimer/restartTimer/stopTimer/handleTimerEvent", BASE), ("handleTimers", STD), ("onTimerEvent, startTimerImpl, stopTimerImpl", GLIB)],
     [("mActiveTimers", "timers that count as running", BASE), ("mRunningTimers / mNativeTimerHandlers", "native timers", STD)], ["timer handler invocations", "isTimerRunning()"])
prop("P26", "Dispatchers deliver each event and action exactly once to its registered handler",
     "Every emitted event, enqueued event and action is handed exactly once, on the dispatcher's thread, to the handler it was posted for - emitted events and actions in the order of posting - "
     "unless the handler is not registered (or refused further events in this round) or the dispatcher was stopped; nothing is called after stop() was noticed. "
     "Handler ids are unique and stay registered until unregistered, unregistering affects no other handler, and enqueueEvent() answers whether the event was queued, never allocating memory.",
     ["schedules", "histories"], "all interleavings of posting, (un)registration and dispatching",
     "Queues are swapped out and copied between critical sections; losses and duplicates need posts between them.",
     [BASE], [("emitEvent, enqueueEvent, enqueueAction", BASE), ("dispatchPendingEvents and its parts", BASE), ("register*/unregister*", BASE)],
     [("mPendingEvents, mEnqueuedEvents, mPendingActions", "what is posted and not delivered", BASE), ("handler maps", "registered handlers", BASE)],
     ["handler invocations", "result of enqueueEvent()", "returned ids"])
prop("P25", "Native resources of the dispatchers are released exactly once",
     "Pipes, channels, event sources and timers that a dispatcher creates on its platform are released exactly once - by stop(), by the destructor, by a failing start() or when the timer is over - "
     "and never used afterwards; nothing that is still attached to the platform's loop outlives the dispatcher. start() reports success only if everything it needs exists, and every object "
     "the library creates on the heap has an owner that deletes it.",
     ["fault_sequences", "histories"], "every history of start/stop/start and of timers, every failure of a native call",
     "Leaks and double releases do not change results; native calls do not fail in tests.",
     [GLIB, GLIBMM, QT, STD], [("start(), stop(), destructor", GLIB), ("startTimerImpl, stopTimerImpl, onTimerEvent, unregisterAllTimerHandlers", GLIB)],
     [("mPipeFD, mReadChannel, mIoSource, mNativeTimerHandlers", "native handles", GLIB)], ["open file descriptors", "memory", "callbacks of the platform's loop"])
prop("P09", "Worker threads are started once, notice stop() and end before destruction",
     "HsmEventDispatcherSTD runs at most one dispatching and one timers thread: calling start(), stop(), join() or starting timers in any state never throws or terminates the program, and start() after "
     "stop() and join() works again. Once stop() was called, each thread ends without going to sleep again, and join() and the destructor return only after both have ended.",
     ["histories", "schedules"], "every combination of running threads at every call, and stop() at every moment of the threads' loops",
     "Joining, overwriting or destroying thread objects in the wrong state kills the process, but only in call sequences the tests do not use.",
     [STD], [("start, join, destructor, startTimerImpl", STD), ("doDispatching, handleTimers", STD)],
     [("mDispatcherThread, mTimersThread, mStopDispatcher", "life of the threads", STD)], ["return of join() and of the destructor", "result of start()"])
prop("P11", "The OS wrappers behave like the locks, conditions and flags they stand for",
     "LockGuard and CriticalSection hold their mutex exactly while they exist; a UniqueLock always knows whether it holds its mutex - also when moved, assigned over, locked or unlocked in any state - and gives up "
     "what it holds; no lock can be copied. ConditionVariable::wait()/wait_for() return only when the predicate was fulfilled under the lock (or the given number of milliseconds elapsed, which the result tells) "
     "and release the lock, notify() wakes all waiting threads; AtomicFlag sets, clears, tests and waits for its value atomically.",
     ["histories", "schedules"], "every state of the wrapper objects at every call, every outcome of the waits",
     "All other guarantees of the library rest on these classes; most states (moving over a held lock, timeouts, spurious wake-ups) are not reached by tests.",
     ["src/os/common/UniqueLock.cpp", "src/os/stl/ConditionVariable.cpp", "src/os/stl/AtomicFlag.cpp", "src/os/common/LockGuard.cpp", "src/os/common/CriticalSection.cpp", "include/hsmcpp/os/stl/Mutex.hpp"],
     [("lock, unlock, move, assign, release", "src/os/common/UniqueLock.cpp"), ("wait, wait_for", "src/os/stl/ConditionVariable.cpp"), ("wait, test_and_set", "src/os/stl/AtomicFlag.cpp")],
     [("UniqueLock::mSync, mOwnsLock", "what the lock refers to and holds", "include/hsmcpp/os/common/UniqueLock.hpp")], ["blocking of other threads", "owns_lock()", "result of wait_for()"])

prop("P20", "State actions and timers do exactly what was registered",
     "Once the callback of a state did not veto and the state is really entered or exited, every action registered for that state and trigger is executed exactly once, with exactly the "
     "arguments it was registered with; a vetoed or already active state executes none. registerStateAction() accepts exactly the calls whose arguments fit the action and tells so, an expired timer "
     "posts exactly the event it was registered with, and start/stop/restart/isTimerRunning act on exactly the given timer (or do nothing without a dispatcher).",
     ["inputs", "histories"], "all actions, argument lists, states, callbacks' answers, and presence of the dispatcher",
     "The tests execute each action with one list of arguments; which state, trigger, arguments and order apply must hold for all of them.",
     [IMPL], [("registerStateAction/executeStateAction, onStateEntering/onStateExiting, the timer handler, the timer API", IMPL)],
     [("registered actions", "state and trigger -> action and arguments", IMPL), ("registered timers", "timer -> event", IMPL)],
     ["timers started and stopped", "events posted by actions and timers", "result of registerStateAction()"])

prop("P21", "Registrations and API calls take effect exactly as given",
     "Every registration is stored with exactly the states, event, callbacks, condition value and options it was given (for member functions of a handler: bound to that handler, or absent if either is null), "
     "a repeated registration of a state, timer or history state replaces the earlier one, and nothing else changes. registerSubstate() and registerSubstateEntryPoint() reject a state as its own parent and, with the safe structure "
     "enabled, a second parent and every cycle, and their result tells whether it was registered. transition*() and isTransitionPossible() pass on event, options, timeout and all arguments in order "
     "and return the result of the operation; isStateActive() and getLastActiveState() answer about the current configuration.",
     ["inputs", "histories"], "all states, events, callbacks, handlers, argument values, and earlier registrations",
     "Tests register a few states with one order of calls and arguments; that no overload or template drops, swaps or defaults a value must hold for each of them.",
     [IMPL, "src/hsm.cpp", "include/hsmcpp/hsm.hpp"], [("register*, transition*, isTransitionPossible, queries of the public class", "include/hsmcpp/hsm.hpp"), ("register*, isSubstate/hasParentState/getParentState", IMPL), ("TransitionInfo, HistoryInfo, StateCallbacks", "src/HsmImplTypes.cpp")],
     [("containers of registrations", "states, transitions, entry points, history, timers, substates", IMPL)],
     ["stored registrations", "results of register*()", "operations performed"])
prop("P23", "Final states report completion once; history states restore what was stored",
     "Entering a final state posts exactly one event - the one registered for it, else the event that led to it - ahead of all waiting events, and only when the parent exists and none of its other active substates is still running. "
     "Entering a history state restores exactly the stored states, parents first and running entry points only where no substate was restored; without a stored history it enters the default target (its parent "
     "before it), else the parent through its entry point, and calls the history transition callback.",
     ["programs", "histories"], "all charts (nested, parallel, with and without default targets and final events) and every stored history",
     "Which continuation is taken depends on the combination of active substates, stored histories and registrations; tests use a few small charts.",
     [IMPL], [("processFinalStateTransition", IMPL), ("transitionToPreviousActiveStates and the history part of doTransition", IMPL)],
     [("mHistoryData, mHistoryStates", "stored states, default targets and callbacks", IMPL), ("mFinalStates", "events of final states", IMPL)],
     ["active states", "callbacks executed by continuations", "the event of a final state"])

prop("P27", "Callbacks receive the arguments of the event that caused them",
     "Every transition, enter, state-changed and failed-transition callback that an event causes - including those of entry points, history transitions and final-state events that follow from it - receives exactly the "
     "arguments the event was posted with, however the event was queued, copied or moved in between. Only states that are restored after a veto are entered without arguments.",
     ["inputs", "histories"], "all events, argument lists, charts and continuations",
     "Tests check arguments for a few direct transitions; losing them needs a particular continuation, callback or copy.",
     [IMPL, TYPES], [("every call of a stored callback", IMPL), ("continuation events", IMPL), ("copy, move and accessor of pending events", TYPES)],
     [("args of a pending event", "shared by all copies of the event", TYPES)],
     ["arguments received by callbacks"])
prop("P28", "A Variant never misreads the value it holds",
     "Whatever sequence of constructions, assignments, copies, moves and clears, the type of a Variant is the documented one for the value it was given and names exactly the C++ type stored; no accessor, "
     "conversion or comparison reads it as another type (getters of another type return nothing, values of different types - custom ones included - are never equal) or ignores it. "
     "A copy owns its own value, moved-from, cleared and default Variants are empty, a Variant can be assigned a value stored inside of itself, and the comparisons agree with the stored values.",
     ["inputs", "histories"], "all stored types, all sequences of operations, all pairs of compared Variants, values that contain each other",
     "Arguments of events are type-erased: a wrong type tag, allocator or comparison compiles, and is only visible for the one type and operation that uses it - or not at all (undefined behaviour).",
     ["src/variant.cpp", "include/hsmcpp/variant.hpp"], [("constructors, assign, operator=, freeMemory", "src/variant.cpp"), ("value<T>(), assign<T>(), make*()", "include/hsmcpp/variant.hpp"), ("operator==, operator>, conversions", "src/variant.cpp")],
     [("data, type, memoryAllocator, compareOperator", "the value and what is needed to handle it", "include/hsmcpp/variant.hpp")],
     ["getType(), is*()", "values returned by getters and conversions", "results of comparisons"])

# ---- properties this family can not decide here
prop("P30", "Timers expire on time",
     "A timer event is posted no earlier than its interval after the timer was started (or expired before), and - while the dispatcher is running and callbacks return - within a bounded delay after it.",
     ["schedules"], "all intervals, loads, clocks and schedules", "Tests use a few intervals on an idle machine.",
     ["src/HsmEventDispatcherSTD.cpp"], [("timers thread", "src/HsmEventDispatcherSTD.cpp")], [("intervals", "milliseconds", "src/HsmEventDispatcherSTD.cpp")], ["time of timer events"],
     na="Quantifies over wall-clock durations, clock adjustments and scheduling latency; none of them is visible in the source. The structural part (each expiry is handled once, restart/stop/concurrent start keep the registry consistent) is decided by P24, lost wake-ups by P04.")
prop("P31", "Every posted event is eventually processed",
     "While the dispatcher runs and callbacks return, every accepted event is processed after a finite number of steps, also under a continuous stream of events from other threads.",
     ["schedules"], "all fair schedules and event streams", "Tests post finite bursts.",
     [IMPL, "src/HsmEventDispatcherBase.cpp"], [("dispatchEvents", IMPL)], [("queues", "pending events", IMPL)], ["callbacks executed"],
     na="A liveness property over schedules and user charts (a chart can post events to itself for ever); a static argument would need fairness of the OS scheduler and termination of user callbacks. The safety parts (no lost wake-up, exactly once, order, no deadlock) are P02, P04, P10, P13.")
prop("P32", "Numeric conversions of Variants preserve the value",
     "toInt64(), toUInt64(), toDouble(), toBool() and toString() return the stored number whenever it is representable in the result type, and strings are converted like the number they spell.",
     ["inputs"], "all numbers and strings", "Tests convert a handful of numbers.",
     ["src/variant.cpp"], [("toInt64, toUInt64, toDouble, toBool, toString", "src/variant.cpp")], [("data", "stored value", "src/variant.cpp")], ["converted values"],
     na="Depends on the values of integer/floating-point conversions and of strtoll/strtod/to_string for every input, which needs value reasoning (a solver or execution), not a dataflow argument. That each conversion reads the value as its stored type is decided by P28.")
prop("P33", "Code generated from an SCXML or PlantUML chart behaves like the chart",
     "A machine generated by scxml2gen registers exactly the states, transitions, timers, actions and callbacks of the SCXML file, and the generated PlantUML diagram shows the same chart.",
     ["inputs"], "all SCXML documents", "Tests generate a few fixed documents.",
     ["tools/scxml2gen/scxml2gen.py"], [("generateHsmSources", "tools/scxml2gen/scxml2gen.py")], [("parsed document", "dictionaries", "tools/scxml2gen/scxml2gen.py")], ["generated sources"],
     na="The meaning of the output is that of text assembled from untyped dictionaries by a template expander, for every possible document; no abstraction of the Python sources in reach relates the assembled C++ text to the chart.")
prop("P34", "Debugging logs replay exactly what the machine did",
     "The YAML log written with HSM debugging enabled contains every step of the machine in order, can always be parsed again by hsmdebugger, and shows the states that were active.",
     ["inputs", "crash_points"], "all arguments, names and crash points", "Tests do not parse the log.",
     [IMPL, "tools/hsmdebugger"], [("logHsmAction", IMPL)], [("log file", "YAML", IMPL)], ["content of the log file"],
     na="Concerns the contents of a file across string formatting, stdio buffering and crashes, and a Python/Qt reader; well-formedness of formatted text for all runtime strings is not a property of code structure.")
