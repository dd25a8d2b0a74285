"""Registry of the checks: harness, build variants (workers per variant), budgets, non-triviality rule."""
CHECKS = {}
TECH = {}


def check(pid, src, rule, variants=None, cases=10**7, budget=18, tbudget=420, hang=30, assumptions=(), technique="", note="", **kw):
    CHECKS[pid] = dict(src=src, rule=rule, variants=variants or {"plain": 5, "asan": 3},
                       quick=dict(cases=cases, budget=budget), thorough=dict(cases=10**9, budget=tbudget), hang=hang,
                       assumptions=list(assumptions), level="exploration", technique=technique, note=note, **kw)


POOL_ASSUME = "groups that wait for their children inside a pool thread get at least one more pool thread than such groups (the documented limit of nested blocking)"

check("C01", "c01.cpp", "a case counts when its graph has at least 2 dependency edges and at least 4 element executions per run",
      assumptions=[POOL_ASSUME],
      technique="generated DAGs/configs run on the real engines, trace checked against a reference interpreter",
      note="Random DAGs with nested regions, three engines, all accepted pool settings, repeated runs and re-inits; schedules are those the OS produces with random delays.")

check("C03", "c03.cpp", "a case counts when at least one run failed (process mode: stopped before the last of several runs)",
      assumptions=[POOL_ASSUME],
      technique="generated DAGs and failing subsets over several runs, trace and status checked against a reference interpreter",
      note="Failing sets are generated per run; schedules are those the OS produces with random delays.")

check("C02", "c02.cpp", "a case counts when it has at least 3 dependency edges",
      technique="generated digraphs against a reachability oracle",
      note="Cyclicity oracle is Floyd-Warshall; levels nested in regions, clusters and conditions.")

check("C06", "c06.cpp", "a case counts when some element has a loop count other than one or a hold sequence, or a planned failure took place",
      assumptions=[POOL_ASSUME],
      technique="generated element configurations, per-element callback sequences compared with a protocol model",
      note="At most one failing site per run, so that the expected status is unique.")

check("C07", "c07.cpp", "a case counts when it has at least one group and 3 nodes",
      assumptions=[POOL_ASSUME],
      technique="generated group trees, trace checked against a reference interpreter",
      note="Choices and matches vary per run; failing children are generated.")



check("C04", "c04.cpp", "a case counts when at least one planned exception was really thrown",
      assumptions=[POOL_ASSUME],
      technique="generated graphs and sets of throwing sites, status / notifications / trace checked against a reference interpreter",
      note="Sites: body, prepare, check, hold, aspect begin callbacks in init, run and destroy. Init and destroy may report by crash status or by the framework's exception.")

NOT_APPLICABLE = {}

check("C10", "c10.cpp", "a case counts when some element has at least two aspects",
      assumptions=[POOL_ASSUME],
      technique="generated graphs with aspects and failing callbacks, per-element callback sequences parsed against the bracket grammar",
      note="At most one failing site per call, so that the expected sequence is unique.")

check("C05", "c05.cpp", "a case counts when its history has a successful init, a run and a rejected call",
      assumptions=[POOL_ASSUME],
      technique="stateful generation of call histories compared with a state-machine model",
      note="Histories up to 24 calls. A retry of init after a failed init is outside the property.")

check("C08", "c08.cpp", "a case counts when some group has at least two children and needs between one and all of them",
      assumptions=["the pool has enough threads for every child of every some-group to wait and run at once (1 + 2 per child), as the documentation of blocking groups asks"],
      technique="generated some-groups with gated slow children over repeated runs, trace invariants",
      note="Completion order is forced by gates: slow children end only after the group was released.")

check("C09", "c09.cpp", "a case counts when it has a mutable group, at least two runs and a successful run",
      assumptions=[POOL_ASSUME],
      technique="generated sequences of reshapes, trace compared with a reference interpreter that applies the same reshapes",
      note="Mutable groups also nested in other groups and in each other; cyclic, failing and throwing reshapes.")

check("C11", "c11.cpp", "a case counts when it has at least one successful run and one call on the pipeline",
      technique="stateful generation of histories compared with a typed-map model, plus concurrent access from parallel elements",
      note="Calls from the pipeline and from element init and run; concurrent creation and access from parallel elements.")

check("C12", "c12.cpp", "a case counts when at least two elements may run at once",
      technique="generated sets of contending elements with critical sections; exclusion, lost-update and back-trace order oracles",
      note="The lock is the default recursive one; access times bound the order of first accesses of concurrent elements.")

check("C13", "c13.cpp", "a case counts when at least two receivers are given a parameter",
      technique="generated registrations with callers and receivers that change their objects; each receiver's view compared with a value model",
      note="Receivers: element parameters (with replacement), aspects (element and pipeline form), daemons, events, stages; two parameter types.")

check("C14", "c14.cpp", "a case counts when at least one asynchronous notification took place",
      technique="generated notification programs from elements, aspects and daemons; counting oracle at run end, destroy and on futures",
      note="No-wait notifications are awaited by the harness before destroy. The pool has a free thread whenever an element waits for a future.")

check("C15", "c15.cpp", "a case counts when at least two elements have to meet at a stage",
      assumptions=["the pool has a thread for every element that waits in a stage, as any barrier needs"],
      technique="generated barrier programs (layers, stages, repetitions, overlapping batches); counting oracle on entries, exits and launches",
      note="Entry patterns are those that cannot starve a batch: all members of a stage with any number of repetitions, or one entry each with a multiple of the threshold.")

check("C16", "c16.cpp", "a case counts when some daemon was executed at least once",
      technique="generated daemons (intervals, changes, task durations) over pipeline cycles; time lower-bound and life-cycle oracle",
      note="Only lower time bounds are asserted, on a chain anchored at init, so a loaded machine cannot raise an alarm; the framework's millisecond clock is allowed for.")

check("C30", "c30.cpp", "a case counts when the LRU evicts, the vector grows or an element is added twice",
      technique="stateful generation of operation sequences compared with list / vector models on counting element types",
      note="LRU capacity from 1; sizes cross the growth step; element types trivially copyable and heap owning.")

check("C32", "c32.cpp", "a case counts when some error was combined",
      technique="stateful generation of status operations compared with a model, plus the status macros on generated sequences",
      note="The message of a status that is OK is not compared.")

check("C31", "c31.cpp", "a case counts when it round-trips a structure, measures vectors of dimension above 2 or folds at least two values",
      technique="generated values; round-trip, reference computation in higher precision, and metamorphic relations",
      note="Tolerances scale with dimension and element width; zero vectors are excluded for cosine and normalisation.")

check("C22", "c22.cpp", "a case counts when elements came out (sequential) or several threads took part (concurrent)",
      technique="stateful generation against sequential models, and generated producer / consumer / thief programs with exactly-once and order oracles",
      note="The lock-free ring is used with one producer and one consumer. Non-blocking pops may fail under contention; the oracle allows it.")

check("C21", "c21.cpp", "a case counts when at least three tasks were submitted and at least two threads submitted concurrently",
      technique="generated pool configurations and concurrent submission programs, invariants over task executions, futures, thread identities and helper counts",
      assumptions=["batch sizes are at least one; prioritised and long-time tasks are submitted only where a helper thread may exist", "tasks still queued when the pool is destroyed may be dropped (at most once is checked)"],
      note="Priority order, stealing behind a blocked thread, saturation of all threads and group time limits are forced by gates, not by timing.")

check("C19", "c19.cpp", "a case counts when at least two messages were received (sequential) or several senders or receivers took part (concurrent)",
      technique="model-based random histories on topics, plus generated multi-sender multi-receiver programs checked for exactly-once, order and capacity",
      assumptions=["a topic is sent and received with the type it was created with; capacity is at least one"],
      note="Includes message classes with several base classes and topics removed while in use.")
check("C20", "c20.cpp", "a case counts when two messages were read and a publication reached two connections (sequential) or at least two connections took part (concurrent)",
      technique="model-based random histories of bind/publish/read/detach/drop/clear, plus generated concurrent publishers and subscribers with other connections coming and going",
      assumptions=["a topic is bound and published with one type; capacity is at least one"],
      note="Connections that are not read are detached while publishers wait on them.")

check("C17", "c17.cpp", "a case counts when at least one control call landed while a run was in progress",
      assumptions=[POOL_ASSUME],
      technique="generated DAGs and control scripts (calls held inside, fired from, or racing the k-th element), trace checked against a reference interpreter",
      note="Control calls are issued during a run or process call, by one or two controlling threads; schedules are those the OS produces.")

check("C18", "c18.cpp", "a case counts when an element really ran out of its time, or the graph has a fence",
      assumptions=["the pool has a thread for every asynchronous element's wait and body and for every fence"],
      technique="generated DAGs with gated asynchronous elements, strategies and fences, trace and status checked against an ordering model",
      note="Slow bodies are gated on the timeout notification, on a dependent's start or on the return of run, so that timing out is certain.")

check("C23", "c23.cpp", "a case counts when its graph has at least 3 dependency edges",
      technique="generated graphs and analysis call sequences against brute-force reference algorithms (Floyd-Warshall, Dilworth by matching, transitive reduction)",
      note="Acyclic graphs up to 14 elements per level, up to a few thousand paths.")

check("C24", "c24.cpp", "a case counts when its graph has more than one element",
      assumptions=[POOL_ASSUME],
      technique="generated chains, near-chains and arbitrary graphs against a chain oracle; thread ids and trace of every run",
      note="Acyclic graphs; nested groups to depth 3.")

check("C25", "c25.cpp", "a case counts when the pipeline it stores has at least three elements, or it is an error or time-limit case",
      assumptions=[POOL_ASSUME, "element, aspect, event and daemon classes are default-constructible and registered; contents of parameters, engine types of pipelines and regions, and parameters of aspects, events and daemons are not part of the stored form"],
      technique="generated pipelines with every storable object, save/load round trip against the model of the original (attributes, structure, trace), saved-form idempotence and injectivity, error cases",
      note="Files are anonymous memory files; nothing is left on disk.")

check("C26", "c26.cpp", "a case counts when its pipeline has at least three elements (and, in perf cases, was measured at least once)",
      assumptions=[POOL_ASSUME, "element names are distinct; children of mutable groups are not claimed to be shown"],
      technique="generated pipelines; the dump is parsed and compared with the model, measurements are checked for internal consistency and against independent clocks, later runs against the model",
      note="Times are compared with a tolerance of the two printed decimals.")

check("C27", "c27.cpp", "a case counts when at least two pipelines were handed out or run (manager), or several threads created pipelines (factory)",
      technique="model-based random histories of one or two managers and the factory, plus generated concurrent users checked for exclusive use and exact counts",
      note="Membership queries are made between, not during, concurrent requests (documented as not thread-safe).")

check("C29", "c29.cpp", "a case counts when at least two adapters or template nodes were run (graphs), helper threads were needed (coordinator) or two functions were called (domain nodes)",
      assumptions=["singletons keep no pipeline parameters when they are shared between pipelines; a pipeline that holds a singleton is destroyed before it is removed"],
      technique="generated pipelines of adapters and life-cycle histories against a call-count model; helper counts proved by elements that wait for each other; scripted domain nodes against an exact call trace",
      note="The number of helper threads is observed through long-time elements, which only helper threads run.")

check("C28", "c28.cpp", "a case counts when at least four tracked objects were made and the pipeline was initialised, run or failed before it was removed (or at least three messages were sent)",
      assumptions=["objects are counted by members that register at construction and deregister at destruction; all other memory by the balance of the global allocator"],
      technique="random construction programs, life-cycle histories and faults with tracked objects: exactly-once destruction, no callback on a dead object, and a balanced allocator after removal; AddressSanitizer variant",
      note="Elements handed over through the Python entry points belong to Python until the pipeline is initialised and are not part of this.")

check("C33", None, budget=25, rule="a case counts when its pipeline has at least three elements and some dependence or group", runner="c33",
      assumptions=["elements return statuses; Python exceptions raised inside callbacks are not part of this", "the pool has a thread for every element that waits"],
      technique="hypothesis-generated pipeline programs run through the Python binding in a worker interpreter; traces checked against a reference interpreter, hangs and crashes detected from outside",
      note="Built with g++ -std=c++11 from the current tree; callbacks hold and release the interpreter lock at random points.")
