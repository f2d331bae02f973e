RT = ["trie/revertable.go", "trie/trie.go"]
HT = ["trie/historytree.go"]
P = [
 dict(id="P08", title="RevertableTrie: committed view, live view and checkpoints stay exact",
  statement="In a RevertableTrie, Get, HashValue and iteration answer from the committed content and do not see pending changes, while GetLive, PreHashValue and live iteration see all of them. Commit makes the live content the committed one and returns its root; Rollback discards every pending change and nothing else; CheckPoint numbers states from 0, returns the live root, and RevertTo with a valid number and root restores exactly the content of that moment, drops it and the later checkpoints, and refuses anything else without changing anything. Copies, rebased copies and tries obtained before stay independent.",
  over=["histories", "configurations"], forall="every sequence of puts, deletes, commits, rollbacks, checkpoints, reverts, copies, rebases and SetTo",
  why="Tests revert once with one checkpoint; the checkpoint stack and its interplay with commit and rollback need longer histories.",
  files=RT, mech=[("live clone and commit", "trie/revertable.go"), ("checkpoint stack", "trie/revertable.go:CheckPoint, RevertTo")],
  observe=["Get, GetLive, iterators, HashValue, PreHashValue, CheckPoint and RevertTo results"],
  note="two models (committed, live) and a checkpoint stack checked after every step; roots compared with the root of the same content built from scratch"),
 dict(id="P09", title="Concurrent use of a RevertableTrie is linearizable",
  statement="When several goroutines use one RevertableTrie, every Put, Delete, Get, GetLive, Commit, Rollback, CheckPoint, RevertTo, hash, iteration and copy takes effect atomically between its call and its return: no reader sees half a commit or half a revert, and no schedule deadlocks or crashes.",
  over=["schedules", "histories"], forall="every interleaving of up to three clients and fourteen operations",
  why="Tests use one goroutine.",
  files=RT, mech=[("lock around Origin, Live and checkpoints", "trie/revertable.go")],
  observe=["call/return history"],
  note="linearizability search against the sequential model of P08, with the roots of all contents; preemption at every statement"),
 dict(id="P10", title="RevertableTrie commits are durable; failed operations lose nothing",
  statement="Every root a Commit, PreCommit or CheckPoint of a RevertableTrie returned successfully can be opened after any crash and holds exactly the content of that moment. An operation that hits a storage error reports it, or has no effect, and never changes other keys: after a failed commit the pending changes are still there and the commit succeeds when it is retried; after a failed revert nothing changed.",
  over=["fault_sequences", "crash_points", "histories"], forall="every position of load and save errors and of a process crash, three crash-restart rounds",
  why="No test fails a read or write below a RevertableTrie or restarts it.",
  files=RT, mech=[("commit", "trie/revertable.go:Commit, CommitAndHash"), ("pre-commit", "trie/revertable.go:PreCommit")],
  observe=["content after restart", "content after a failed operation"],
  note="writes take effect one by one on the simulated store; after a failed write its effect may or may not be there"),
 dict(id="P11", title="HistoryTree is the 64-level Merkle tree of its values",
  statement="A HistoryTree with N values has exactly the root of the 64-level binary Merkle tree with these leaves, accepts only key N next, returns every value for Get, GetProof (which verifies to that root) and Has, and nothing for other keys. This stays so through commit and reopening of any committed root, CollapseBefore, clone, rebase, and Chop, whose result is the tree of the first values; clones, chopped trees and originals are independent. Trees restored from a proof accept the following keys and have the same roots, also near the end of the key space.",
  over=["histories", "configurations", "inputs"], forall="every sequence of appends, reads, commits, reopenings, collapses, clones, chops and proofs, trees of up to some thousand values and at key offsets up to 2^64",
  why="Tests append a few values in a row; node boundaries (16, 256, ...), cached branch hashes and collapse interact over longer histories.",
  files=HT, mech=[("append along the path", "trie/historytree.go:Append"), ("cached branch hashes", "trie/historytree.go:TreeNode"), ("chop", "trie/historytree.go:Chop")],
  observe=["Get, Has, Expecting, HashValue, GetProof"],
  note="the oracle is an independent incremental Merkle computation; sampled histories"),
 dict(id="P12", title="HistoryTree commits are durable; storage errors lose no value",
  statement="Every root a HistoryTree commit returned successfully opens after any crash with all its values, proofs and its root. Under storage errors and truncated reads no operation changes, invents or forgets a value: an append that reports an error has no effect and one that succeeded stays, a read gives the true value or none, a failed commit is reported and succeeds when it is retried, and a clone is never lost.",
  over=["fault_sequences", "crash_points", "histories"], forall="every position of load, save and short-read faults and of a process crash, three crash-restart rounds",
  why="No test fails a read or write below a history tree or restarts it after a partial write.",
  files=HT, mech=[("node save and load", "trie/historytree.go:TreeNode"), ("commit", "trie/historytree.go:Commit")],
  observe=["content and root after restart and after each failed operation"],
  note="writes take effect one by one on the simulated store; the codec's map order is chosen by the seed"),
 dict(id="P13", title="Concurrent use of a HistoryTree is linearizable",
  statement="When several goroutines use one HistoryTree, appends, reads, Has, Expecting, hashes, proofs, commits, collapses and clones take effect atomically: of two appends of the same key exactly one succeeds, a proof always belongs to the root of one moment, and no schedule deadlocks or crashes.",
  over=["schedules", "histories"], forall="every interleaving of up to three clients and fourteen operations",
  why="Tests use one goroutine; Has deadlocked with itself.",
  files=HT, mech=[("tree lock", "trie/historytree.go")],
  observe=["call/return history"],
  note="linearizability search against the list of appended values and the roots of all prefixes"),
 dict(id="P15", title="RevertableHistoryTree: committed and live views, rollback, durable commits",
  statement="Readers of a RevertableHistoryTree, also concurrent ones, see only committed values while appends go to the live tree; PreHashValue and PreCommit give the live root; Rollback discards exactly the pending values, Commit publishes exactly them, Rebase gives an independent tree of the committed values, each taking effect at one instant. Roots returned by a successful commit or pre-commit open later with their content. Storage errors are reported or leave both views as they were.",
  over=["histories", "fault_sequences", "schedules"], forall="every sequence of operations, every position of load and save errors, and every interleaving of up to three clients",
  why="Tests append, commit and roll back once from one goroutine and never fail a read or write.",
  files=["trie/revertable.go", "trie/historytree.go"], mech=[("live clone", "trie/revertable.go")],
  observe=["Get, Has, Expecting, HashValue, PreHashValue, GetProof, reopened roots"],
  note="two copies of the P11 model; the same fault store as P12; linearizability search for concurrent clients; proofs merged into a light tree"),
]
