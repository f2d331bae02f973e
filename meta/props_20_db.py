D = ["db/types.go", "db/memdb.go", "db/ldb.go", "db/cacheddb.go", "db/adapters.go"]
P = [
 dict(id="P20", title="Every database backend is the same key-value map",
  statement="Every database (memory, LevelDB, cached LevelDB, temporary overlay, key-prefixed adapters and their combinations) answers Get, Has, Put, Delete, Batch and GetNilError as one map from byte strings to byte strings: an absent key reads as nil, a present one as its bytes even when they are empty, a batch applies its operations in order and its Size is their number. Keys and values passed in or handed out belong to the caller: changing such a buffer later changes nothing in the database. A persistent store that is closed and reopened shows the same content, and views of one database with different prefixes of equal length share no entry.",
  over=["histories", "configurations", "inputs"], forall="every backend, every operation sequence, every reuse of the caller's buffers, restarts between operations",
  why="Tests run one short sequence per backend and never reuse the buffers they passed in or compare backends with each other.",
  files=D, mech=[("memory store and batch", "db/memdb.go"), ("cache in front of the base store", "db/cacheddb.go"), ("key conversion", "db/adapters.go"), ("overlay", "db/readonly.go")],
  observe=["results of Get, Has, GetNilError, Size"],
  note="real goleveldb over a simulated disk, all wrappers real; sampled histories checked step by step against a map"),
 dict(id="P21", title="Concurrent use of one database is linearizable",
  statement="When several goroutines use one database of any backend at the same time, every Get, Has, Put and Delete takes effect atomically between its call and its return, and so does a whole batch on LevelDB, the cached store and the temporary overlay (the memory store applies a batch operation by operation, in order). No schedule deadlocks or crashes.",
  over=["schedules", "histories"], forall="every interleaving of up to four clients, including goleveldb's own write-merging and background goroutines",
  why="Tests use one goroutine; the cache races need a reader suspended between its miss and its fill.",
  files=D, mech=[("write lock around cache and base", "db/cacheddb.go"), ("overlay lock", "db/readonly.go")],
  observe=["call/return history"],
  note="histories checked by linearizability search against a map; preemption at every statement and synchronisation point of go-common, goleveldb and the LRU library"),
 dict(id="P22", title="Batches are all-or-nothing and BatchWrite loses nothing",
  statement="A batch is visible to readers completely or not at all, also when a storage error hits it, and a batch that reports success is stored completely, also after reopening. BatchWrite stores every item its callback accepted, in order, whatever the mix of accepted and skipped items and the flush threshold, and returns their number. If it fails, it returns the error and the number of items that are stored, which are exactly the first ones accepted.",
  over=["fault_sequences", "histories", "inputs"], forall="every batch content, item list, threshold, reader interleaving and position of a write error",
  why="Tests never fail a write, and BatchWrite's flush boundary depends on the position of skipped items.",
  files=["db/ldb.go", "db/memdb.go", "db/cacheddb.go", "db/types.go", "db/adapters.go"], mech=[("LDB batch", "db/ldb.go:Batch"), ("flush loop", "db/types.go:BatchWrite")],
  observe=["call/return history", "content after reopen", "BatchWrite's count and error"],
  note="a batch that reported an error may take effect or not, but only as a whole; LevelDB errors are injected into its journal writes"),
 dict(id="P23", title="Acknowledged LevelDB writes survive crashes; power cuts leave a prefix",
  statement="If the process dies at any point, including during open, compaction, rotation or close, the store opens again and every put, delete and batch that had been acknowledged is there; one in progress is there completely or not at all. After a power cut that loses unsynced data, torn at any byte, the store opens and its content is the result of some prefix of the writes in order.",
  over=["crash_points", "schedules"], forall="every file operation of goleveldb as a crash point, over up to three crash-restart rounds",
  why="No test crashes the store.",
  files=["db/ldb.go", "db/cacheddb.go"], mech=[("open and recovery", "db/ldb.go:NewLDB"), ("write options", "db/ldb.go:Put, Delete, Batch")],
  observe=["content after restart"],
  note="complete real goleveldb over a simulated file system that separates written from synced bytes; the very first creation of a store is not crashed, because goleveldb itself cannot reopen a store whose creation was cut"),
 dict(id="P24", title="The cached store never serves a stale, phantom or foreign value",
  statement="The cached database answers every Get and Has as the base database would: a reader that raced with a writer never leaves an old value in the cache, a deleted or absent key is never reported as present, a failed write (which may have taken effect) leaves no value in the cache that the base does not hold, and a caller changing a returned slice does not change the cache. After Replace, every answer comes from the new base, even when readers were in progress.",
  over=["schedules", "fault_sequences", "histories"], forall="every interleaving of readers and writers, cache capacity, eviction pattern and failed write",
  why="A stale entry needs a reader stopped between its base read and its cache fill while a writer passes.",
  files=["db/cacheddb.go"], mech=[("write-through under the lock", "db/cacheddb.go"), ("replacement of the base", "db/cacheddb.go:Replace")],
  observe=["call/return history"],
  note="linearizability against the map, with reads repeated so that the second comes from the cache"),
 dict(id="P25", title="Read-only and temporary views never change their base",
  statement="Nothing done through a read-only view or a temporary overlay changes the base database: read-only views refuse every mutation and Close with an error, overlays keep puts, deletes and batches to themselves and show the present base content for all other keys, also with concurrent clients, an owner changing the base and base read errors. A trie rebased onto such a view works normally and leaves the original trie and all its committed roots intact.",
  over=["histories", "schedules", "fault_sequences"], forall="every operation sequence on the view, concurrency and base read errors included",
  why="Tests check single operations; the base is never watched.",
  files=["db/readonly.go", "trie/trie.go"], mech=[("overlay", "db/readonly.go"), ("read-only wrapper", "db/readonly.go"), ("rebase", "trie/trie.go:Rebase")],
  observe=["writes arriving at the base", "results through the view"],
  note="every write to the base is counted"),
]
