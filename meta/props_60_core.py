P = [
 dict(id="P30", title="A routine pool processes every posted event exactly once, high priority first",
  statement="Every non-nil event posted to a RoutinePool is handed to the worker function exactly once while the pool runs, never while it is stopped, by at most as many workers as the pool has; events of one queue are started in posting order by a single worker, and a worker that becomes free never takes a low priority event while high priority events are waiting for it. Stop returns only after the events in progress ended and keeps unprocessed events queued; a stopped pool can be started again and goes on with them; no schedule deadlocks. KeyCount is a consistent snapshot of the events in progress per key.",
  over=["schedules", "histories"], forall="every interleaving of posters, workers and controllers, slow handlers, queue sizes from zero, stop and restart points",
  why="The pool has no tests, and ordering, loss and deadlock depend on the schedule.",
  files=["routinepool.go"], mech=[("worker loop", "routinepool.go:work"), ("life cycle", "routinepool.go:Start, Stop"), ("key counting", "routinepool.go:event, KeyCount")],
  observe=["calls of the worker function", "HigherLen, LowerLen, KeyCount"], note="1 to 3 workers, queue sizes 0 to 4; worker functions do not panic and do not stop their own pool"),
 dict(id="P31", title="A service runs its life cycle steps one at a time, in order, once each",
  statement="Concurrent Init, Start and Close calls on an AbstractService take effect one after another: each call that is not allowed in the current state returns the documented error without running its callback, each allowed one runs its callback exactly once, callbacks never overlap, and nothing blocks forever. A service whose initialisation failed is not initialised: it cannot be started, and can be initialised again; a stopped service can be initialised again.",
  over=["schedules", "fault_sequences", "histories"], forall="every interleaving of callers and every sequence of callback failures",
  why="There is no test of the service life cycle.",
  files=["types.go"], mech=[("state machine", "types.go:ServiceStatus"), ("locked transitions", "types.go:AbstractService.Init, Start, Close")],
  observe=["errors returned", "callbacks run"], note="callbacks do not panic or re-enter the service"),
 dict(id="P32", title="NodeIDSet is an indexed set of node ids under concurrent use",
  statement="A NodeIDSet behaves, for any number of concurrent clients, as a duplicate-free list: Put appends a new id and reports whether it was new, Delete removes it and closes the gap, Get and GetIndex are inverse to each other, Len is the number of ids, and GetNodeIDs returns exactly the ids of the set in ascending order.",
  over=["schedules", "histories"], forall="every history and interleaving of the operations",
  why="There is no test of NodeIDSet.",
  files=["basic.go"], mech=[("set", "basic.go:NodeIDSet")], observe=["results of all operations"], note="up to 6 ids and 18 operations per run"),
 dict(id="P33", title="LruMap and LastBlockMap are atomic under concurrent use",
  statement="LruMap behaves for concurrent clients as one bounded least-recently-used map in which Add stores a key only if it is absent and says so, so that exactly one of several concurrent Adds of an absent key succeeds. LastBlockMap behaves as one atomic map in which CAS succeeds exactly if the height is greater than the stored one, so that with CAS alone the height of a chain never decreases; CopyMap is a snapshot that belongs to the caller.",
  over=["schedules", "histories"], forall="every history and interleaving of the operations",
  why="Neither type has a test.",
  files=["types.go", "basic.go"], mech=[("bounded map", "types.go:LruMap"), ("last blocks", "basic.go:LastBlockMap")], observe=["results of all operations"], note="the internals of the vendored lru package run uninstrumented under its own mutex"),
 dict(id="P35", title="Registered special addresses are recognised at once and for good",
  statement="After RegisterReservedAddress, RegisterSystemContract or RegisterNoCheckAddress returns, every concurrent and later query (IsReserved, IsSystemContract, IsNoGas, NoCheck) answers true for exactly the kinds registered (system contracts and no-check addresses are also reserved; no-gas only if asked for) and false for addresses never registered; a registration takes effect at one instant for all its addresses and kinds.",
  over=["schedules", "histories"], forall="every history and interleaving of registrations and queries",
  why="There is no test of the registry.",
  files=["basic.go"], mech=[("registry", "basic.go:RegisterSystemContract, IsReserved")], observe=["results of the queries"], note="addresses are never unregistered"),
 dict(id="P40", title="Every log record is written whole, once and in order, whatever the sinks do",
  statement="After InitLog every record that is logged appears once in the log file, whole, with its level and all its fields, and those of level info and above also once on the console; records whose calls do not overlap appear in call order; loggers with fields obtained at any time, also while the log is being set up again, lose nothing. A failing write loses that record on that sink only, and a log that cannot be opened (also the cash check log) never panics a caller that logs.",
  over=["schedules", "fault_sequences"], forall="every interleaving of logging tasks and initialisations, every sequence of write and open errors and slow writes",
  why="There is no test of the log package.",
  files=["log/log.go", "log/hooks.go", "log/cashcheck.go"], mech=[("hook", "log/hooks.go:Fire"), ("set up", "log/log.go:InitLogWithSuffix"), ("cash check log", "log/cashcheck.go")],
  observe=["bytes received by the simulated files and console"], note="file rotation itself (third party) is replaced by in-memory files; colours and timestamps are not judged"),
 dict(id="P41", title="Generated identifiers and random bytes come from entropy or not at all",
  statement="When the entropy source fails or reads short, NodeID, Address and Seed generation and the random byte functions never present anything but bytes delivered by the source as a success: short reads are completed, a failure is reported and leaves the previous value unchanged.",
  over=["fault_sequences"], forall="every sequence of entropy errors and short reads",
  why="No test can make the entropy source fail.",
  files=["basic.go", "utils.go"], mech=[("generation", "basic.go:Generate, GenerateNodeID"), ("random bytes", "utils.go:RandomBytes")], observe=["returned bytes and errors"], note="the two functions without an error result report a failure by panicking"),
]
