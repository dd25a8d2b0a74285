"""Single source of the property list: writes properties.jsonl (python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook)))
GE = "src/GraphCtrl/GraphElement/"
GP = "src/GraphCtrl/GraphPipeline/"
TP = "src/UtilsCtrl/ThreadPool/"

prop("C01", "DAG execution: exactly once, never before a dependency, complete at return",
 "For every acyclic dependency graph (including graphs nested in regions), every engine type and every accepted thread-pool configuration (unique or shared pool), a run in which no element fails returns OK, executes every registered visible element exactly as many times as its loop count, and starts an element only after all the elements it depends on have finished in that same run. When run returns, all elements have finished, and the same holds again for every following run of the same initialised pipeline.",
 ["programs", "configurations", "schedules", "histories"],
 "all DAGs up to the size bound with random edges, loops, bindings, macros, levels; DYNAMIC, TOPO and STATIC engines at pipeline and region level; thread pool sizes, batching, steal ranges, busy-wait settings, shared pools; repeated runs and re-init",
 "The functional tests check one counter after a handful of fixed graphs on the default configuration and never look at ordering; smoke tests only check the exit code.",
 [GE+"_GEngine/GDynamicEngine/GDynamicEngine.cpp", GE+"_GEngine/GStaticEngine/GStaticEngine.cpp", GE+"_GEngine/GTopoEngine/GTopoEngine.cpp", GE+"_GEngine/GEngine.h", GE+"GElementManager.cpp", GE+"GGroup/GRegion/GRegion.cpp", GP+"GPipeline.cpp"],
 [("left_depend_ countdown, shape-specific dispatch, finished_end_size_ wait", GE+"_GEngine/GDynamicEngine/GDynamicEngine.cpp"), ("layering", GE+"_GEngine/GStaticEngine/GStaticEngine.cpp"), ("topological order", GE+"_GEngine/GEngine.h")],
 [("left_depend_", "predecessors still to finish in this run", GE+"GElement.h")], ["element run()", "GPipeline::run() result"])

prop("C02", "Cyclic dependency graphs are rejected before anything runs",
 "For every set of dependencies that contains a cycle, at pipeline level or inside a region at any nesting depth, and for every engine type, initialising the pipeline returns an error and no element's init or run is executed at that level; a pipeline without a cycle is never rejected for its dependency structure.",
 ["programs", "configurations"], "random digraphs with and without cycles (self loops are ignored by the API), three engines, top level or nested in a region",
 "Tests contain no cyclic graph at all.",
 [GE+"_GEngine/GEngine.h", GE+"_GEngine/GDynamicEngine/GDynamicEngine.cpp", GE+"_GEngine/GStaticEngine/GStaticEngine.cpp", GE+"_GEngine/GTopoEngine/GTopoEngine.cpp"],
 [("isDag / topological size comparison", GE+"_GEngine/GEngine.h")], (), ["GPipeline::init() result"])

prop("C03", "A failing element stops its dependents, is reported, and the pipeline recovers",
 "Whenever some elements' run returns an error status, the pipeline run returns an error whose code and message are those of an element that actually failed in that run, no element that transitively depends on a failed element is started in that run, no element runs more than once, and no element is still executing once run has returned. After the failing cause is removed the next run of the same pipeline executes every element exactly once again in dependency order and returns OK.",
 ["programs", "schedules", "fault_sequences", "histories"], "random DAGs and engines, random failing subsets per run, several runs with different failing subsets, process(n) stopping at the first failed run",
 "No test makes an element fail inside a graph, and none runs a pipeline again after a failure.",
 [GE+"_GEngine/GDynamicEngine/GDynamicEngine.cpp", GE+"_GEngine/GStaticEngine/GStaticEngine.cpp", GE+"_GEngine/GTopoEngine/GTopoEngine.cpp", GE+"GElement.cpp", "src/CBasic/CStatus.h"],
 [("cur_status_ accumulation and dispatch stop", GE+"_GEngine/GDynamicEngine/GDynamicEngine.cpp"), ("prepareRun refresh after a failed run", GE+"_GEngine/GDynamicEngine/GDynamicEngine.cpp")], (), ["GPipeline::run() / process() result"])

prop("C04", "Framework exceptions become crash statuses and never escape or hang the pipeline",
 "When an element's body, prepare, result check, hold test, init or destroy, or one of its aspects' begin callbacks, throws the framework's exception (CException), nothing terminates the process, blocks or runs twice: a run (with every engine) returns the crash error code with the exception's message (possibly followed by its location), init and destroy return the crash status or throw the framework's exception carrying the message, the element's aspects get exactly one crash notification, and dependents do not run. Once the cause is gone the pipeline runs correctly again.",
 ["programs", "schedules", "fault_sequences"], "random graphs with nested groups, throwing site, thrower set, engine and loop position",
 "No test throws from an element.",
 [GE+"GElement.cpp", "src/CBasic/CException.h", "src/CBasic/CFuncType.h"],
 [("try/catch in the element processing wrapper", GE+"GElement.cpp")], (), ["GPipeline::init()/run()/destroy() result", "aspect enterCrashed()"])

prop("C05", "Pipeline life cycle: state guards, init/destroy pairing and level order",
 "For every sequence of init, run, process, destroy, registration and configuration calls, calls made in the wrong state are rejected (error status or exception) without any side effect; every successful init calls each visible element's init exactly once and every successful destroy calls each visible element's destroy exactly once, in both cases with smaller levels before larger ones among the elements of the pipeline and among those of each region, whatever time the level was set. process(n) equals init, n runs stopping after the first failed one, and destroy; a destroyed pipeline can be initialised and run again with the same results. (Calling init again after an init that failed is not covered.)",
 ["histories", "programs"], "random call histories over a model of the pipeline state machine, random levels (negative too), groups included",
 "Tests follow the single legal order init-run-destroy (or process) and never check rejected calls, init order or counts.",
 [GP+"GPipeline.cpp", GP+"GPipeline.inl", GE+"GElementManager.cpp", GE+"GElementSorter.h", GE+"GElement.cpp", GE+"GNode/GNode.cpp"],
 [("init-state assertions", "src/CBasic/CFuncType.h"), ("sorted element set", GE+"GElementSorter.h")], (), ["return statuses", "element init()/destroy()"])

prop("C06", "Per-element run protocol: loop, hold, prepare, result check, visibility",
 "For every element and every group: prepareRun is called exactly once per init before the first run and its error aborts the element; the body is repeated loop times, and within an iteration is repeated while the hold test answers true and no error occurred; the first error stops further iterations and is returned; the result check runs once per element execution and its error fails the run; an invisible element is skipped entirely and does not block its dependents.",
 ["programs", "histories"], "random per-element loop counts (0, 1, many), hold sequences, failure positions, visibility and nesting in groups, several runs and re-inits",
 "Tests use hold only in one smoke tutorial and never check counts, errors in prepare/check, or visibility.",
 [GE+"GElement.cpp", GE+"GElement.h"], [("element processing wrapper", GE+"GElement.cpp")], (), ["element callbacks"])

prop("C07", "Groups execute exactly what their kind promises, at any nesting",
 "For every nesting of groups: a cluster runs its children one after another in the order given; a region runs its children as a dependency graph; a condition runs only the chosen child (the last for -1, none when out of range); a serial multi-condition runs exactly the matching children one by one in order, a parallel one exactly the matching children, all finished before it returns; a group's loop repeats the whole group. A failing child makes the group fail with that error and serial groups do not start later children; elements depending on a group start only when the whole group has finished.",
 ["programs", "schedules", "configurations"], "random trees of groups up to depth 4 inside random DAGs, random choose/match functions varying per run, failing children, engines per region",
 "Tests use a few fixed groups and check one total counter.",
 [GE+"GGroup/GCluster/GCluster.cpp", GE+"GGroup/GRegion/GRegion.cpp", GE+"GGroup/GCondition/GCondition.cpp", GE+"GGroup/GCondition/GMultiCondition.inl", GE+"GGroup/GGroup.cpp"],
 [("group run methods", GE+"GGroup")], (), ["element run() trace", "group status"])

prop("C08", "Some-group: proceeds exactly when enough children have finished",
 "For every set of children and every required number N not above the child count, with enough pool threads for all of them, the some-group does not let its dependents start before N children have finished (or one has failed) and lets them start without waiting for the remaining children. Every child runs at most once per execution of the group (exactly once when N is the child count; a child not yet started when the group is released may be left out), every started child has ended before the pipeline run returns, and a required number above the child count is an error. Children still running when the group is released see themselves as timed out, and this state does not leak into the next run.",
 ["programs", "schedules", "histories"], "random child counts, N, completion orders enforced by gates, failures, repeated runs",
 "One smoke tutorial with fixed sleeps; nothing about counts or ordering is checked.",
 [GE+"GGroup/GSome/GSome.cpp", GE+"GElementRepository.cpp"], [("wait counter under lock", GE+"GGroup/GSome/GSome.cpp"), ("end-of-run wait", GE+"GElementRepository.cpp")], (), ["element run() trace"])

prop("C09", "Mutable group: each run executes exactly the graph built for that run",
 "Whatever dependency graph a mutable group's reshape builds in a run (different edges, loops and subsets each time), exactly the elements linked in or made visible in that run execute, as many times as set in that run and in the order of that run's dependencies, with nothing carried over from earlier runs. A failing reshape or a cyclic one fails the run, and the next run is normal again. Elements visible at init are initialised and destroyed once.",
 ["programs", "histories", "schedules"], "random sequences of random reshapes over the same child set, across runs and re-inits, with loops of the group",
 "One smoke tutorial without assertions.",
 [GE+"GGroup/GMutable/GMutable.cpp", GE+"GElement.cpp", GE+"GElementManager.cpp"], [("setup()/reshape()/process", GE+"GGroup/GMutable/GMutable.cpp")], (), ["element run() trace"])

prop("C10", "Aspects wrap every phase of their element in order, with the right status",
 "For every element or group with aspects, each init, run iteration and destroy is bracketed by the begin callbacks of all its aspects, in the order they were added, before the body and the finish callbacks in the same order after it, the latter receiving the body's status; a failing begin callback is returned as the error and neither later aspects nor the body run. Each aspect sees its own copy of its parameters, its element's name and the pipeline's parameters, and no aspect of another element is called.",
 ["programs", "fault_sequences", "histories"], "random aspect lists (also added to a whole pipeline or to a chosen set of elements) on nodes and groups, random failing begin callbacks, loops, holds, failing bodies",
 "Tests count one aspect's calls on a fixed pipeline.",
 ["src/GraphCtrl/GraphAspect/GAspectManager.cpp", "src/GraphCtrl/GraphAspect/GAspect.cpp", GE+"GElement.cpp", GE+"GElement.inl", GP+"GPipeline.inl"],
 [("reflect()", "src/GraphCtrl/GraphAspect/GAspectManager.cpp")], (), ["aspect callbacks"])

prop("C11", "Shared parameters behave as a typed map with a per-run life cycle",
 "Every history of create, get, has, remove and key-listing calls, from the pipeline or from elements (also concurrent ones), agrees with a typed map: creating an existing key with the same type is accepted and keeps the object, with another type is refused; reading an absent key or the wrong type yields nothing (or the framework's exception for the must-exist form); the listing gives exactly the present keys, and an element's used keys are those it asked for. Each parameter's init is called once per pipeline init (or on creation while initialised) and its destroy once; before each run every parameter's setup is called once, after each run whose setups succeeded its reset is called once with that run's final status, a failing setup prevents the elements from running, and all elements of a run observe the same object.",
 ["histories", "programs", "schedules"], "random histories over few keys and types, interleaved with runs that succeed or fail, from node bodies concurrently under the parameter lock",
 "Tests use one or two parameters in fixed graphs and check a final counter only.",
 ["src/GraphCtrl/GraphParam/GParamManager.cpp", "src/GraphCtrl/GraphParam/GParamManager.inl", "src/GraphCtrl/GraphParam/GParam.cpp", GP+"GPipeline.cpp"],
 [("parameter map and mutex", "src/GraphCtrl/GraphParam/GParamManager.inl"), ("setup / resetWithStatus", "src/GraphCtrl/GraphParam/GParamManager.cpp")], (), ["get/create/remove results", "param callbacks"])

prop("C12", "Parameter locking excludes, back-traces are exact",
 "Updates made by concurrently running elements between a parameter's lock and unlock are never lost or interleaved, and a try-lock fails exactly when another element holds the lock. With back-trace enabled, the back-trace lists each element that accessed the parameter once (by its name, or its session when it has none), in the order of first access since it was last cleaned, and asking for it when disabled is an error.",
 ["schedules", "histories"], "random groups of concurrent elements with critical sections of random length, random accessor sets and repeated accesses",
 "Lock use in tests never contends in a checked way; back-trace is not tested.",
 ["src/GraphCtrl/GraphParam/GParam.cpp", "src/GraphCtrl/GraphParam/GParam.h", "src/GraphCtrl/GraphParam/GParamManagerWrapper.h"],
 [("recursive/shared lock wrappers and addBacktrace", "src/GraphCtrl/GraphParam/GParam.cpp")], (), ["param contents", "getBacktrace()"])

prop("C13", "Passed-in parameters are private copies with the values given",
 "A parameter passed when adding an element parameter, aspect, daemon, event or stage is copied at that moment: the receiver sees the values given then, later changes to the caller's object or by another receiver are not visible, re-adding an element parameter under the same key replaces it, and an absent key or wrong type yields nothing (asking an aspect that was given no parameter is an error).",
 ["histories", "inputs"], "random values and key sets, mutation of the source after adding, several receivers of the same source",
 "Smoke tutorials print such values; none is asserted.",
 [GE+"GElement.inl", "src/GraphCtrl/GraphAspect/GAspectManager.cpp", "src/GraphCtrl/GraphDaemon/GDaemonObject.inl", "src/GraphCtrl/GraphEvent/GEventManager.inl", "src/GraphCtrl/GraphStage/GStage.inl"],
 [("clone into a fresh object", GE+"GElement.inl")], (), ["values read by receivers"])

prop("C14", "Events: each notification triggers its event exactly once, within its bound",
 "Every notification of a registered event triggers it exactly once with its parameter: a synchronous one completes inside the notifying call, an asynchronous one completes before the pipeline run returns under the run-finish strategy and before destroy returns under the destroy strategy (under the no-wait strategy run and destroy need not wait for it), and the future of an asynchronous notification becomes ready only after that trigger. Notifications come from elements, aspects and daemons, several at once, also in serial pipelines. Notifying an unknown key is an error, registering a key twice is refused, and event init and destroy are each called once per pipeline init and destroy.",
 ["histories", "schedules", "programs"], "random event sets, notifications from nodes, aspects and daemons, mixed types and strategies, several runs and re-inits",
 "One smoke tutorial with fixed sleeps and no assertion.",
 ["src/GraphCtrl/GraphEvent/GEvent.cpp", "src/GraphCtrl/GraphEvent/GEventManager.cpp", "src/GraphCtrl/GraphEvent/GEventManager.inl", GP+"GPipeline.cpp"],
 [("future lists per strategy", "src/GraphCtrl/GraphEvent/GEvent.cpp")], (), ["trigger() calls", "future"])

prop("C15", "Stage barrier releases exactly complete batches",
 "For a stage with threshold N, no element passes the stage before N elements have entered it, every N entries release all N and call the stage's launch exactly once while all of them are still inside, and no element stays blocked once its batch is complete, for any interleaving and for repeated use of the same stage by looping elements (given a thread for every element that waits). Entering an unknown stage is an error, and a second stage under a registered key or a threshold below one is refused.",
 ["schedules", "programs", "histories"], "random N, batches and looping elements (re-entry right after release), several stages, several runs",
 "One smoke tutorial; no check on counts or reuse.",
 ["src/GraphCtrl/GraphStage/GStage.cpp", "src/GraphCtrl/GraphStage/GStageManager.h"],
 [("counter with condition variable", "src/GraphCtrl/GraphStage/GStage.cpp")], [("cur_value_", "entries of the current batch", "src/GraphCtrl/GraphStage/GStage.h")], ["enterStage() returns", "launch() calls"])

prop("C16", "Daemons run only between init and destroy, and never sooner than their interval",
 "A daemon's task is executed repeatedly while its pipeline is initialised, one execution at a time, never before its interval has elapsed since init or since its previous execution started (or the changed interval it asked for; within the framework's millisecond clock), and never after destroy has returned; destroy does not wait for an interval to pass. Daemons are not started when init fails, several daemons are independent, a daemon sees its own parameter and the pipeline's parameters and can notify events, and it works again after re-init.",
 ["schedules", "histories", "configurations"], "random daemon sets, intervals, task lengths, interval changes, destroy moments, re-inits",
 "One smoke tutorial without assertions.",
 ["src/GraphCtrl/GraphDaemon/GDaemon.cpp", "src/GraphCtrl/GraphDaemon/GDaemonManager.cpp", "src/UtilsCtrl/Timer/UTimer.h"],
 [("timer thread", "src/UtilsCtrl/Timer/UTimer.h")], (), ["daemonTask() time stamps"])

prop("C17", "Cancel, suspend and resume take effect, lose nothing and never wedge",
 "After a cancel during a run or process call, elements not yet started do not start, elements already running finish normally, the run returns, remaining runs of a process call are skipped (a later suspend or resume does not undo it), and a following run is normal again. Between suspend and resume at most the elements already running (or past their last check) make progress, also across the runs of a process call; after resume every element still executes exactly its number of times as without suspension. The calls may come from elements or from several other threads, and outside an initialised pipeline they are errors.",
 ["schedules", "histories"], "random DAGs with gates so that control calls land before, inside and after any element's body, repeated suspend/resume/cancel sequences, loops",
 "Two smoke tutorials with fixed sleeps and no assertion.",
 [GE+"GElementRepository.cpp", GE+"GElement.cpp", GP+"GPipeline.cpp"], [("pushAllState, checkSuspend", GE+"GElementRepository.cpp")], (), ["element run() trace", "run() result"])

prop("C18", "Timeouts and fences honour their strategy",
 "An element with a timeout that finishes in time behaves as an ordinary element; one that does not is notified to its aspects once and then, by strategy, fails the run (as-error), or lets dependents go on while the run (hold-by-pipeline) or nothing (no-hold) still waits for it, seeing itself as timed out; with hold-by-pipeline its later error or exception becomes that of the run. A fence passed means every element it waits for has really finished, and an error of the element waited for is reported; any number of fences may wait for the same element. Timeout state never leaks into the next run, and forbidden combinations (negative timeout, timeout with loop above one, fence on a non-asynchronous element) are refused.",
 ["schedules", "programs", "histories"], "random DAGs with gated slow elements, strategies, fences over random subsets, error results, repeated runs",
 "Two smoke tutorials with fixed sleeps.",
 [GE+"GElement.cpp", GE+"GElementRepository.cpp", GE+"GAdapter/GFence/GFence.cpp"], [("asyncRun / getAsyncResult", GE+"GElement.cpp"), ("reset after run", GE+"GElementRepository.cpp")], (), ["element run() trace", "run() result"])

prop("C19", "Topic messages: delivered once, in order, within capacity rules",
 "For every topic and history of sends and receives (with the topic's type and size at least one), each message sent with the waiting strategy is received exactly once, in sending order per sender, with its content intact; a topic holds exactly as many unread messages as its size, with the replacing strategy a full topic drops its oldest message, with the dropping strategy the newest; a receive with a time limit on an empty topic returns an error and takes nothing. Creating an existing topic is accepted only with the same type and size, using an unknown or removed topic is an error, removing a topic releases senders and receivers that wait on it, and topics do not affect each other.",
 ["histories", "schedules", "inputs"], "random histories over few topics, capacities, strategies; multi-producer multi-consumer runs",
 "One smoke tutorial.",
 ["src/GraphCtrl/GraphMessage/GMessageManager.h", "src/GraphCtrl/GraphMessage/GMessage.h", TP+"Queue/UAtomicRingBufferQueue.h"],
 [("ring buffer with condition variables", TP+"Queue/UAtomicRingBufferQueue.h")], (), ["recv results"])

prop("C20", "Publish/subscribe: every current subscriber gets every message, isolated",
 "Each connection bound to a topic before a publication receives that message exactly once and in publishing order within its own capacity rules, whatever other connections do; connection ids are unique (until the messages are cleared), a detached connection or dropped topic receives nothing more, using it is an error that does not disturb the others, and publishers or subscribers that wait on it are released; publishing to an unknown topic is an error.",
 ["histories", "schedules"], "random histories of bind, detach, publish, subscribe, drop, clear over few topics; concurrent publishers and subscribers",
 "One smoke tutorial that binds once and never detaches while publishing.",
 ["src/GraphCtrl/GraphMessage/GMessageManager.h"], [("per-topic connection set and id map", "src/GraphCtrl/GraphMessage/GMessageManager.h")], (), ["sub results"])

prop("C21", "Thread pool runs every accepted task exactly once and delivers its result",
 "For every accepted configuration and every mix of submission forms (plain, bound to a thread, batched, prioritised, long-time, trigger-all, task groups), submitted concurrently from any threads including pool threads, each task runs exactly once and its future yields its value or exception; a task group returns after all its tasks have finished and calls its completion callback once with the final status, or reports a timeout when they exceed the limit; prioritised and long-time tasks run only on helper (secondary) threads, those of higher priority first; a task bound to a thread runs on it or on a thread within its steal range. Init and destroy are repeatable, the configuration cannot be changed after init, invalid configurations are refused, thread indices identify the executing thread, adding or releasing secondary threads and the monitor respect the limits, and tasks still queued when the pool is destroyed run at most once.",
 ["schedules", "configurations", "histories"], "random configurations, task trees, submission forms and submitting threads, init/destroy cycles",
 "Performance tests only sum up one counter with default settings.",
 [TP+"UThreadPool.cpp", TP+"UThreadPool.inl", TP+"Thread/UThreadPrimary.h", TP+"Thread/UThreadSecondary.h", TP+"Thread/UThreadBase.h", TP+"Task/UTaskGroup.h", TP+"UThreadPoolConfig.h"],
 [("per-thread queues, stealing, pool queue", TP+"Thread/UThreadPrimary.h")], (), ["futures", "task side effects"])

prop("C22", "Concurrent queues neither lose, duplicate nor reorder elements",
 "Every queue of the library agrees with its sequential model on every history, and under concurrent use hands out each pushed element exactly once, in order per producer for FIFO ends: the blocking queue and ring buffers are FIFO (the lock-free ring with one producer and one consumer), the work-stealing queue gives its owner the front and thieves the back, the priority queue always yields an element of the highest priority present (ties in any order), batch pops take at most the requested number, capacity and emptiness are reported correctly, and timed waits return empty-handed only when nothing was available. The spin lock excludes, and the semaphore hands out exactly the permits it was given.",
 ["histories", "schedules", "inputs"], "random single-threaded histories against models plus multi-threaded histories with producers, consumers and thieves",
 "Queues are exercised only indirectly.",
 [TP+"Queue/UAtomicQueue.h", TP+"Queue/UWorkStealingQueue.h", TP+"Queue/UAtomicPriorityQueue.h", TP+"Queue/UAtomicRingBufferQueue.h", TP+"Queue/ULockFreeRingBufferQueue.h", TP+"Lock/USpinLock.h"],
 [("mutex / spin-lock guarded containers", TP+"Queue")], (), ["pop results"])

prop("C23", "Graph analyses agree with their graph-theoretic definitions",
 "For every acyclic dependency graph without groups the maximum parallelism equals the size of its largest set of pairwise independent elements (with groups it is refused); trim removes exactly the edges implied by other paths among the pipeline's own elements and in regions (reached through regions), returns how many it removed, and changes neither the ordering between any two elements nor what runs; two elements are reported separate exactly when they can never run concurrently according to the dependency structure and the kinds of the groups they belong to; predecessor, successor, child and owner relations reported for an element match what was registered.",
 ["programs", "inputs"], "all random DAGs up to the bound, nested groups for separation, against brute-force reference algorithms",
 "Tests have a few fixed graphs for max parallelism and trim.",
 [GE+"_GOptimizer/GMaxParaOptimizer.h", GE+"_GOptimizer/GTrimOptimizer.h", GE+"_GOptimizer/GSeparateOptimizer.h", GP+"GPipeline.cpp", GE+"GElement.cpp"],
 [("bipartite matching on the closure, path enumeration", GE+"_GOptimizer")], (), ["return values", "getRelation()"])

prop("C24", "Serial mode is accepted exactly for chains and runs on the caller's thread",
 "Turning a pipeline serial succeeds exactly when its elements form one single chain of serialisable, non-asynchronous elements (regions hold such chains themselves, a parallel multi-condition at most one child) under the default engine and its own thread pool, and otherwise fails without changing anything; a serial pipeline runs every element exactly once per run, in chain order, on the thread that called run, with the same statuses as the non-serial one.",
 ["programs", "configurations"], "random small graphs (chains, near-chains, nested groups, asynchronous elements, shared pools, engines)",
 "Tests make one serial chain and check a counter.",
 [GP+"GPipeline.cpp", GE+"GElementManager.cpp", GP+"../GraphPipeline/_GSchedule/GSchedule.cpp"], [("checkSerializable", GE+"GElementManager.cpp")], (), ["makeSerial() result", "thread ids in run()"])

prop("C25", "Save then load reproduces the pipeline",
 "For every storable pipeline, loading its saved file into an empty pipeline whose classes are registered gives a pipeline with the same elements (names, loops, levels, visibility, bindings, timeouts and their strategies, macros), dependency edges, group nesting and child order, aspects, parameters (keys and classes), element parameters (with their values), events, daemons with their intervals, stages with their thresholds and thread-pool settings, which behaves the same when run, and whose own saved form is equivalent. Engine types, the contents of pipeline parameters and the parameters of aspects, events and daemons are not part of it. Storing a pipeline with adapters, loading an unregistered class, loading a missing file, or using an initialised pipeline is reported as an error.",
 ["programs", "inputs"], "random pipelines over a registered class vocabulary with nested groups and all attributes; unregistered classes and missing files",
 "The storage tutorial is compiled to a stub under the default C++11 build, so nothing is tested.",
 [GP+"_GStroage/GStorage.cpp", GP+"_GStroage/GStorageDefine.h", GP+"_GStroage/GStorageFactory.cpp", "src/UtilsCtrl/Reflection/UReflection.h"],
 [("reflection over storage structures", GP+"_GStroage/GStorage.cpp")], (), ["loaded pipeline structure and trace"])

prop("C26", "Dump and perf describe the pipeline and do not disturb it",
 "The dump of any pipeline (with distinct element names) is a well-formed graph text that contains every element once under its name, exactly one edge per dependency, the nesting of groups and the loop counts; only children of mutable groups may be missing. A perf call runs the pipeline once, reports every executed element with its loop count and non-negative, consistent times, returns the run's error when it fails, and afterwards the pipeline (aspects, parameters, structure, later results) is as before, whether or not the run succeeded; on an initialised pipeline it is refused.",
 ["programs"], "random pipelines with nested groups, loops, failing elements, user aspects and parameters",
 "Smoke only; output and aftermath are not checked.",
 [GE+"GElement.cpp", GP+"GPipeline.cpp", GP+"_GPerf/GPerf.cpp", GP+"_GPerf/GPerfAspect.h"],
 [("dump methods, perf aspect injection and removal", GP+"_GPerf/GPerf.cpp")], (), ["dump text", "perf text", "later runs"])

prop("C27", "Pipeline manager and factory keep exact books on pipelines",
 "For every history, including concurrent fetches and releases, the manager records a pipeline once, hands it to at most one user at a time, only pipelines added and initialised, gives none when all are in use, takes back exactly what was handed out, and reports membership and size exactly as a set model; operations in the wrong state are errors that change nothing. Pipelines created by the factory are independent of each other and are destroyed exactly once by remove or clear, with everything they own.",
 ["histories", "schedules"], "random histories over a set model; concurrent fetch/run/release with more users than pipelines",
 "One smoke tutorial.",
 [GP+"GPipelineManager.cpp", GP+"GPipelineFactory.cpp"], [("free and used lists under locks", GP+"GPipelineManager.cpp")], (), ["return values"])

prop("C28", "Ownership: everything created is destroyed exactly once and never used after",
 "Every element, parameter, passed-in parameter copy, aspect, daemon, event, stage and message made through the API is destroyed exactly once, at the latest when its pipeline (or topic) is removed, whatever happened before: refused or failed registration, failed init, failed or cancelled runs, bodies that outlived their time limit, unfinished events, never initialised or destroyed, replaced or removed entries; no callback is invoked on an object after its destruction, and no memory is lost.",
 ["histories", "programs", "fault_sequences"], "random pipelines with all object kinds, random life-cycle prefixes and fault positions before removal",
 "Tests never count destructions and do not run under a memory checker.",
 [GE+"GElement.cpp", GE+"GElementRepository.cpp", GP+"GPipeline.cpp", "src/GraphCtrl/GraphParam/GParamManager.cpp", "src/GraphCtrl/GraphAspect/GAspectManager.cpp", "src/CBasic/CAllocator.h"],
 [("owning containers cleared in destructors", GP+"GPipeline.cpp")], (), ["constructor/destructor counts", "AddressSanitizer"])

prop("C29", "Adapters: singleton, function and coordinator elements keep their contract",
 "A singleton element shared by several places or pipelines is one object, initialised with its first user and destroyed with its last, however often it is registered; a function element calls exactly the functions set for init, run and destroy (replaceable while not initialised) and returns their statuses, and template elements receive exactly the construction arguments given; a coordinator raises (or, with a negative count, lowers) the pool's helper threads by the stated number within the pool's limits for the rest of the pipeline's life cycle, releasing more than there are is an error, and a loop count above one is refused; a domain node calls exactly the function selected by its parameter, after preparing and before refreshing it, and an unknown selection is an error.",
 ["programs", "histories"], "random registrations of adapters in random DAGs and pipelines, random function sets and statuses, re-inits",
 "Smoke tutorials without assertions.",
 [GE+"GAdapter/GSingleton/GSingleton.inl", GE+"GAdapter/GFunction/GFunction.cpp", GE+"GAdapter/GCoordinator/GCoordinator.h"],
 [("shared instance flags", GE+"GAdapter/GSingleton/GSingleton.inl")], (), ["call counts"])

prop("C30", "Utility containers agree with their models",
 "On every operation sequence the LRU cache (capacity at least one) keeps exactly the most recently used keys up to its capacity with their latest values, the small vector behaves as a sequence across its inline and heap storage (including copies, assignment, clearing and inserting its own elements), and the serial-unique array behaves as an insertion-ordered set.",
 ["histories", "inputs"], "random operation sequences with sizes crossing the inline capacity and the cache capacity",
 "Not tested.",
 ["src/UtilsCtrl/Lru/ULru.h", "src/UtilsCtrl/Container"], [("container code", "src/UtilsCtrl")], (), ["return values"])

prop("C31", "Distances, helpers and reflection compute what they state",
 "For all inputs within range the distance calculators return the mathematical value of their metric (and its stated error for invalid arguments; zero vectors excluded where the metric is undefined), the numeric helpers return the true maximum, sum and product, generated random values lie within the requested bounds and session names are unique, the singleton holder gives one object, the time counter never runs backwards, and serialising any reflected structure and reading it back into a fresh one yields an equal structure with the announced size.",
 ["inputs"], "random vectors, dimensions, values, nested reflected structures with strings, vectors and nested records",
 "Distance has a smoke test; reflection and helpers are untested.",
 ["src/UtilsCtrl/Distance", "src/UtilsCtrl/Reflection", "src/UtilsCtrl/UtilsFunction.h", "src/UtilsCtrl/Random/URandom.h"], [("direct computation", "src/UtilsCtrl")], (), ["return values"])

prop("C32", "Status algebra: the first error wins and is never masked",
 "Combining statuses keeps the first error with its code and message and stays OK only if all were OK; an error code is negative, a non-negative code is not an error, a crash is an error; copying, resetting and the boolean and query forms always agree with the code.",
 ["inputs", "histories"], "random sequences of status operations against a model",
 "Only used implicitly.",
 ["src/CBasic/CStatus.h"], [("status operators", "src/CBasic/CStatus.h")], (), ["status queries"])

prop("C33", "Python-built pipelines obey the same execution rules",
 "A pipeline assembled through the Python binding from Python-defined nodes, groups, aspects, parameters and events executes every element exactly its number of times after its dependencies, propagates Python-returned error statuses, and gives the same trace as the reference model, for every graph shape and while nodes release or hold the interpreter lock.",
 ["programs", "schedules"], "random DAGs and groups built from Python with generated structure, loops, failing nodes and parameters",
 "The Python tutorials only check that the scripts exit normally.",
 ["python/PyCGraph.cpp", "python/wrapper"], [("binding definitions and trampolines", "python/PyCGraph.cpp")], (), ["Python-side trace"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
