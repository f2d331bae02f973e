T = ["trie/trie.go", "trie/node.go"]
P = [
 dict(id="P01", title="The state trie behaves as a map over every operation history",
  statement="A trie answers every get, put, delete, count and emptiness query exactly as a map from byte-string keys to values would, whatever the keys (including the empty key and keys that are prefixes of other keys) and whatever commits, cache collapses, clones, restarts from a committed root or returns to an older root happen in between. Clones and tries inherited from an older root are independent: no later change to one is visible in another. Every root ever returned by a successful commit can be reopened and shows exactly the content the trie had then.",
  over=["histories", "inputs", "configurations"], forall="every sequence of trie operations over every key set and value codec, with restarts and commit bursts between any two operations",
  why="The tests run a few fixed key lists once; the interplay of prefix splitting, child merging, node/value collapsing, long commit histories and reopen only shows on particular histories.",
  files=T + ["trie/utils.go"],
  mech=[("prefix matching and node splitting", "trie/trie.go:insert"), ("removal and merging of the last child", "trie/trie.go:delete, trie/node.go:mergeTheLastChild"), ("collapse and expansion of cached nodes and values", "trie/trie.go:iterateSave, expandNode"), ("clone and inherit", "trie/trie.go:Clone, Inherit")],
  observe=["results of Get, Put, Delete, Count, IsEmpty", "content of reopened roots"],
  note="real trie code over a simulated durable store; random operation histories with restarts at operation boundaries checked step by step against a map model; sampled, not exhaustive"),
 dict(id="P02", title="A committed trie root survives a crash at any write, complete",
  statement="If the process is killed at any point, including in the middle of a commit, every root for which a commit had returned success is afterwards fully readable with exactly its content. Any root that can be loaded from the store at all, acknowledged or not, is complete: none of its nodes or values is missing. The same holds when a power cut keeps only a prefix of the writes that includes the acknowledged ones.",
  over=["crash_points", "histories"], forall="every store write of every commit as the crash point, repeated over several restarts",
  why="No test stops a commit half way or reopens from a partial store; write order inside one commit is never observed.",
  files=T, mech=[("children and values are saved before their parent", "trie/trie.go:iterateSave, saveOneNode")],
  observe=["content of the durable image after the crash"],
  note="process kill before or after any single store write; the adapter's save is taken as durable once it returned"),
 dict(id="P03", title="Storage errors never make a trie lie, lose data or confirm a bad commit",
  statement="When loads or saves of the underlying store fail, fail after taking effect, or return a truncated node, a trie operation may report absence, no change or an error for that call only, but never a wrong value. A commit that reports success has stored everything reachable from its root, a failed commit can be retried, and cloning while saves fail loses nothing. Once the errors stop, the trie and every later committed root show exactly the content of the operations that were reported as done.",
  over=["fault_sequences", "histories"], forall="every placement of load, save and short-read errors over the operations of a history",
  why="The tests use stores that never fail.",
  files=T, mech=[("error propagation out of commit", "trie/trie.go:commitLocked, iterateSave, saveOneNode"), ("expansion keeps the node collapsed on error", "trie/trie.go:expandNode, expandNodeValue"), ("clone", "trie/trie.go:Clone")],
  observe=["operation results while faults fire", "content once faults stopped"],
  note="a delete that panics because a sibling cannot be loaded is taken as a fail-stop and the process is restarted from the last committed root; enumeration has no error channel and is not judged while faults fire"),
 dict(id="P04", title="The trie root hash is a function of content alone",
  statement="Two tries with the same key-value content have the same root hash and two tries with different content have different root hashes. This holds whatever the order of insertions, overwritten or deleted detours, hashing before or after commit, collapses, reopens and clones that led there.",
  over=["histories", "inputs"], forall="every pair of histories over the same value codec",
  why="Tests compare a handful of insertion orders; stale cached hashes need specific update/hash/collapse sequences.",
  files=T + ["hash.go", "trie/proof.go"], mech=[("hash cache invalidation", "trie/node.go:prefixChanged, valueChanged, childChanged"), ("canonical shape after delete", "trie/node.go:mergeTheLastChild")],
  observe=["HashValue, CommitAndHash"],
  note="roots of all states met in a run are compared pairwise with their contents and with rebuilt tries"),
 dict(id="P05", title="Concurrent use of one trie is linearizable and never blocks forever",
  statement="When several goroutines use one trie, or one synchronised wrapper around it, at the same time, every get, put, delete, count, emptiness, iteration, hash, proof, clone and commit-and-hash takes effect atomically at some instant between its call and its return. Commits and cache collapses running alongside never change what any operation observes. No schedule deadlocks or crashes.",
  over=["schedules", "histories"], forall="every interleaving of up to four goroutines' operations, at statement granularity",
  why="The tests are sequential, and the Go scheduler would not reach chosen preemption points anyway.",
  files=T + ["trie/synctrie.go"], mech=[("trie mutex", "trie/trie.go:lock"), ("wrapper mutex", "trie/synctrie.go")],
  observe=["call/return history"],
  note="history checked with a Wing-Gong linearizability search against a map; preemption at every statement and synchronisation operation of the package, sequentially consistent memory"),
 dict(id="P06", title="Trie iteration is an ordered, complete snapshot",
  statement="Iterating a trie forwards yields every key-value pair exactly once in ascending key order, and the reversed iterator yields exactly the reverse. The result equals the content at one instant while the iterator was being created, no matter what writers do to the trie afterwards and even when the nodes must be reloaded from the store. Serialising all values and rebuilding gives a trie of the same content. The printed forms show all values of one moment, in key order.",
  over=["schedules", "histories", "inputs"], forall="every content, node cache state and interleaving with concurrent writers and commits",
  why="Tests iterate over small fixed tries with no concurrent writer.",
  files=["trie/iterator.go", "trie/utils.go", "trie/trie.go"], mech=[("iterators run on a clone", "trie/trie.go:ValueIterator, ReversedValueIterator"), ("depth-first traversal", "trie/iterator.go")],
  observe=["sequence of pairs delivered"],
  note="snapshots are placed in the linearization of the concurrent writes"),
]
