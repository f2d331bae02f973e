P = [
 dict(id="P16", title="A combined trie is an ordered map of sub-tries whose root proves each of them",
  statement="A SmallCombinedTrie behaves as a map from keys to tries (also under concurrent use, every operation taking effect at one instant): Keys and iteration are in ascending key order, its root is the padded binary Merkle root of the sub-trie roots in key order, and GetProof of a present key leads from that sub-trie's root to the combined root. After Commit returns, a new combined trie initialised from the root has the same keys and, under each, the same content, across crashes, restarts and failed or truncated loads and failed saves; a combined root that is loadable at all is complete.",
  over=["crash_points", "fault_sequences", "schedules", "histories"], forall="every operation history, crash at any write, load or save error, and interleaving of clients (also clients changing sub-tries while others commit)",
  why="The test checks hashes and proofs of one fixed combination, in one thread, without storage.",
  files=["trie/combinedtrie.go", "trie/trie.go", "hash.go"], mech=[("commit and root record", "trie/combinedtrie.go:Commit, saveRoot"), ("reopen", "trie/combinedtrie.go:InitTrie, loadRoot"), ("root and proofs", "trie/combinedtrie.go:computeHash, GetProof")],
  observe=["Get/Put/Delete/Keys/ValueIterator results", "HashValue, GetProof, content after InitTrie"],
  note="the root does not bind the keys themselves: of two committed combinations with the same sub-tries in the same order under different keys, the one committed last is what the shared root names"),
]
