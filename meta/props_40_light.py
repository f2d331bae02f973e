P = [
 dict(id="P07", title="A trie proof convinces nobody of anything false, and honest ones are accepted",
  statement="A client that trusts only a root and receives proofs over a lossy, reordering, duplicating, corrupting network from a possibly dishonest peer never accepts a falsehood: a proof accepted for a value (VerifyProofChain) means the trie with that root holds the value, and an existence proof that leads to the root (ExistenceHash) answers IsExist for any key truthfully or with an error. Unaltered proofs of the trie for the asked key and root are always accepted with the right answer, whether the key is present or absent, after encoding and decoding.",
  over=["fault_sequences", "histories", "inputs"], forall="every content and key, every delivery order, misdelivery to another key or root, byte corruption and alteration of proof nodes",
  why="Tests verify intact proofs of present keys against their own root.",
  files=["trie/proof.go", "trie/trie.go", "trie/node.go", "hash.go"], mech=[("proof generation", "trie/trie.go:GetProof, GetExistenceProof"), ("verification", "trie/proof.go:ProofChain"), ("proof codec", "hash.go:MerkleProofs")],
  observe=["VerifyProofChain, ExistenceHash, IsExist"],
  note="the peer's alterations are twelve kinds of edits to decoded chains (types, hashes, levels, paths, foreign nodes), not all possible forgeries; the wire form is corrupted bytewise"),
 dict(id="P14", title="A light history tree learns proved values, and nothing false",
  statement="A HistoryTree restored from the proof of the last value and fed further proofs by MergeProof always keeps the root of the complete tree, accepts every proof made for that root, refuses stale, corrupted and foreign ones, and returns for every key the true value or nothing; keys proved or appended stay known, can be proved in turn, and survive commit, reopening and crashes once committed, with the right next key. A refused or failed merge changes nothing, and HistoryProof leads from a proof to a known root for the true value and height only.",
  over=["fault_sequences", "histories", "crash_points"], forall="every order, duplication, staleness, corruption and alteration of proofs, storage errors, crashes and restarts",
  why="The test merges intact proofs into one tree without restarting it or failing a read.",
  files=["trie/historytree.go", "trie/proof.go", "hash.go"], mech=[("restore", "trie/historytree.go:RestoreTreeFromProofs"), ("merge", "trie/historytree.go:MergeProof"), ("partial nodes", "trie/historytree.go:saveEntireNode")],
  observe=["Get, GetProof, HashValue, Expecting of the light client"],
  note="server and client are real trees on separate simulated stores; up to 600 values; two clients sharing one store are not covered"),
 dict(id="P43", title="A composed cross-chain proof convinces nobody of anything false",
  statement="A receiver that trusts only a root of the main chain's history and checks every node of a composed proof (state value or header property of a block, header summary of the block in a main block, header property and history position of the main block) accepts it only if that block, of that chain, height, property or key, really has that value, although proofs arrive corrupted, altered, stale or attached to another claim. Unaltered proofs are always accepted, also when the chain grows and reads fail meanwhile, and every view of a proof (encoding, clone, items, single Merkle list, repeats) agrees. Each way to compute a Merkle root gives the root by definition, the proof of every element leads to it along the bits of its position, and nothing of the input is changed.",
  over=["fault_sequences", "histories", "inputs", "schedules"], forall="every chain structure, delivery order, misattribution, byte corruption and alteration of proof nodes, every interleaving of provers with the growing chain",
  why="Tests compose one intact chain and compare it with itself; misattribution of a part is never tried.",
  files=["trie/proof.go", "hash.go", "trie/historytree.go"], mech=[("header parts", "trie/proof.go:IsHeaderOf, IsHdsSummaryOf, NewHeaderPropertyProof"), ("Merkle lists", "hash.go:MerkleHashComplete, MerkleHash, MerkleProofs"), ("views", "trie/proof.go:ProofChain.ToMerkles, ToItems")],
  observe=["what the receiver accepts", "ProofChain.Proof, ExistenceHash, Exist, BigKey", "roots"], note="the receiver checks what a careful client has to check: type, block position, path and value of every part"),
]
