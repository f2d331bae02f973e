P = [
 dict(id="P37", title="RLP encodings are exact and independent under concurrency and I/O failure",
  statement="Every RLP encoding, whatever way it is made (to bytes, to a writer, through a reader read in any pieces, through an incremental buffer, inside custom encoders) and however many encodings are in progress, is exactly the encoding of its own value and belongs to its caller. A failing writer or a failing custom encoder is reported, and no failure or abandoned reader influences any other encoding.",
  over=["schedules", "fault_sequences", "inputs"], forall="every interleaving of encoding tasks over the shared buffer pool and type cache, every write failure and custom encoder failure, every piecewise reading",
  why="The tests encode one value at a time on one goroutine to writers that never fail.",
  files=["rlp/encode.go", "rlp/encbuffer.go", "rlp/typecache.go"], mech=[("buffer pool", "rlp/encbuffer.go:encBufferPool, EncoderBuffer, encReader"), ("type cache", "rlp/typecache.go:typeCache")],
  observe=["bytes produced", "bytes written to simulated writers", "errors"], note="five kinds of struct values with nested, optional, tail and custom-encoded fields; up to 4 tasks; oracle is an independent encoder"),
 dict(id="P38", title="RLP decoding over any connection gives exactly the value sent, or an error",
  statement="Values decoded from connections that deliver in any pieces arrive exactly as sent, one after the other, and a connection that fails or ends inside a value gives an error, also with many decodings in progress. A corrupted message is rejected unless it is itself the one canonical encoding of the decoded value; decoding never changes or retains its input.",
  over=["schedules", "fault_sequences", "inputs"], forall="every split, delay, error, truncation and corruption of the incoming bytes, and every interleaving of decoders over the shared stream pool and type cache",
  why="The tests decode whole byte slices on one goroutine.",
  files=["rlp/decode.go", "rlp/typecache.go"], mech=[("stream", "rlp/decode.go:Stream"), ("stream pool", "rlp/decode.go:Decode, DecodeBytes")],
  observe=["decoded values", "errors"], note="the same values as P37; corruption is only injected where the input size is limited, as the documentation demands"),
 dict(id="P39", title="Proofs, nodes and marshalled tries cross any connection intact or fail loudly",
  statement="Merkle proofs, proof chains, node headers, history tree nodes and marshalled tries that are read from a connection delivering in any pieces come out exactly as they were sent, one after the other, and a connection that fails or ends inside a value gives an error. Marshalling a trie, also one in use, writes exactly the content of one moment, or reports the storage or connection error that prevented it.",
  over=["schedules", "fault_sequences", "inputs"], forall="every split, delay, error and truncation of the bytes, every storage error while marshalling, every interleaving with writers of the trie",
  why="The tests use in-memory buffers that never read short or fail.",
  files=["hash.go", "trie/node.go", "trie/historytree.go", "trie/utils.go", "trie/iterator.go"], mech=[("proof codec", "hash.go:MerkleProofs.Serialization, Deserialization"), ("trie marshalling", "trie/utils.go:Marshal, MarshalAsMap"), ("node codec", "trie/node.go:NodeHeader.Deserialization")],
  observe=["decoded values", "errors", "bytes written"], note="a marshalled trie truncated at or inside a value is only detected by its reader where the format allows it; the rtl library itself drops a write error of an array header, so write errors of ProofChain encodings are not judged"),
 dict(id="P42", title="A dumped trie is a complete copy of one saved state",
  statement="When dumping a trie succeeds, the destination alone opens at the root of one committed state that the trie had during the dump, with its whole content, and the callback received each value of that state exactly once with its key, also while the trie is in use and being changed. Unsaved changes are refused, storage errors on either side are reported, and a repeated dump completes an interrupted one.",
  over=["schedules", "fault_sequences", "histories"], forall="every content, every interleaving of dumps with writers and commits, every storage error on either side",
  why="The tests dump an idle trie between two memory databases.",
  files=["trie/trie.go", "trie/revertable.go", "trie/iterator.go"], mech=[("dump", "trie/trie.go:Dump"), ("committed side", "trie/revertable.go:RevertableTrie.Dump")],
  observe=["content of the destination opened at the dumped root", "callback calls", "errors"], note="up to 24 keys, two dumpers, two writers, four attempts per dump"),
 dict(id="P50", title="Contract calls, results and events arrive as they were made",
  statement="Calls, results, errors, reverts and events that are packed by a contract definition are laid out as the Solidity ABI prescribes, belong to whoever packed them, and are decoded by every node, in every way the package offers and also while others use the same definition, to exactly the values that were packed. Selectors, signatures and topics identify their method or event. Lost, repeated, reordered, corrupted or foreign data is decoded to what it encodes or refused, and damaged definitions and selectors are refused, never with a panic.",
  over=["schedules", "fault_sequences", "inputs"], forall="every contract definition, value, interleaving of users of one definition, message loss, duplication, reordering and corruption",
  why="The tests are a finite table of examples used one at a time.",
  files=["abi/abi.go", "abi/argument.go", "abi/pack.go", "abi/unpack.go", "abi/type.go", "abi/topics.go", "abi/thinkium.go", "abi/selector_parser.go"], mech=[("packing", "abi/pack.go, abi/argument.go"), ("unpacking", "abi/unpack.go, abi/argument.go, abi/reflect.go"), ("events", "abi/topics.go, abi/thinkium.go:UnpackEvent"), ("definitions", "abi/abi.go:UnmarshalJSON, abi/type.go:NewType")],
  observe=["packed bytes", "decoded values", "texts", "errors"], note="random contracts of all Solidity types nested up to three deep, one server and up to three clients; not claimed: that surplus high bytes of small integers are refused, empty tuples and zero-length arrays, topics of function values"),
 dict(id="P51", title="Quantities exchanged as text arrive as they were sent or are refused",
  statement="Numbers and data that nodes exchange as hexadecimal or decimal text (0x-prefixed data and quantities of 64 and 256 bits, fixed-size data, hex-or-decimal and decimal numbers, as plain text or as JSON) are written in the one canonical form and read back as exactly the value sent, and writing or reading them changes neither a number or data others use nor the text read, and shares no memory with it. Text that arrives damaged is read as exactly what it says if it is well-formed (prefix, digits, no leading zeros of quantities, at most 64 or 256 bits, whole bytes, the fixed size) and otherwise refused, with the documented error of what is wrong with it, leaving the destination as it was.",
  over=["schedules", "fault_sequences", "inputs"], forall="every value, every corruption, loss, repetition and reordering of the messages, every interleaving of users of one number",
  why="The tests are a finite table of examples of package math; hexutil has no tests.",
  files=["hexutil/hexutil.go", "hexutil/json.go", "math/big.go", "math/integer.go"], mech=[("data and quantities", "hexutil/hexutil.go, hexutil/json.go"), ("hex or decimal", "math/big.go:ParseBig256, HexOrDecimal256, Decimal256; math/integer.go:ParseUint64, HexOrDecimal64")],
  observe=["texts written", "values read", "errors", "destinations after an error"], note="payments of ten fields in all the forms between up to three clients and a receiver; not claimed: the text of negative numbers by EncodeBig"),
 dict(id="P52", title="Replicated arithmetic on shared numbers is exact and changes only its accounts",
  statement="Replicas that apply the same operations to their accounts with the integer helpers (BigInt in all its operations, nil being the absent number and counted as zero, copies, AddBigInt, 256-bit words and powers, bytes of words, padded bytes, overflow of machine words, rounding of rationals) hold exactly the accounts and give exactly the answers that the mathematical definition gives, however the operations are delivered and when they restart. A transfer takes at most what is there, and conserves the sum. No operation changes an operand, a constant of the package or another account, or keeps memory of an operand in an account, also while others compute with the same operands. A printed number denotes the number.",
  over=["schedules", "fault_sequences", "histories", "inputs", "crash_points"], forall="every sequence of operations, operand and order of delivery, every restart, every interleaving of replicas and readers that share the operands",
  why="The tests are a finite table of examples with operands nobody else uses.",
  files=["math/big.go", "math/integer.go"], mech=[("accounts", "math/big.go:BigInt"), ("words", "math/big.go:U256, S256, Exp, Byte, PaddedBigBytes"), ("rationals", "math/big.go:RatToInt64, Int64MulRat"), ("machine words", "math/integer.go:SafeAdd, SafeSub, SafeMul")],
  observe=["accounts after each operation", "answers", "operands and constants after each operation"], note="up to 3 replicas and 2 readers, 24 operations of 16 kinds on five accounts; documented destructive functions (U256, U256Bytes, the receiver of BigInt operations) are given numbers of their own"),
 dict(id="P44", title="Nodes of a sharded network agree on configuration, routing and epochs",
  statement="Nodes that receive the same configuration changes over an unreliable network in any form (rtl, RLP, JSON), crash and restart from what they saved, hold equal chain descriptions with equal hashes (version 0 and 1), answer every membership question by the changes made, and never change a description others still read through its clone. Whatever order, duplicates or omission of itself a shard list has, every node routes each address to the same single shard, so transfers conserve balances, and a gas pool neither creates nor loses gas. Heights, eras, epochs, chain ids, addresses, hashes, seeds, node ids and data servers convert to each other, to text, bytes, JSON and RLP and back without change, compare in one order with nil values lowest, share nothing with their copies, and refuse malformed or wrongly sized text (the destination staying as it was).",
  over=["schedules", "fault_sequences", "histories", "inputs", "crash_points"], forall="every history of changes, delivery order, loss, duplication and corruption, every crash and restart, every shard list, address, height and epoch length",
  why="The tests check a few values of each function; replicas, restarts and transfers between nodes that each computed their own shards are never run.",
  files=["chaininfo.go", "shardinfo.go", "gaspool.go", "basic.go", "hexutil/json.go"], mech=[("description", "chaininfo.go:ChainInfos"), ("routing", "shardinfo.go:NewShardInfo, ShardTo"), ("heights", "basic.go:Height, EpochNum, BlockNum"), ("gas", "gaspool.go")],
  observe=["content, hash and answers of every replica", "routes and balances", "converted values"], note="up to 200 shards, 11 blocks of changes, 3 replicas; AddressShard and Bits are not covered, they have no user and no stated meaning"),
 dict(id="P45", title="Every node derives the same committee from the records it received",
  statement="Nodes that receive the same changes of the candidate list over an unreliable network, in any of the forms of a list (packed ids, split byte lists, hex texts), store it as bytes, crash and restart, hold the same sorted list, answer every membership question by it, and refuse lists of a wrong length, with a repeated id (where the form excludes repetition) or with damaged digits. A registration is accepted exactly when its proof leads to the Merkle root of the registered records, whatever kind of values they are; the intersections of list and registrations give every node the same committee, whose members propose all the blocks of an epoch, evenly. Object hashes, bits, padding, hex, versions, election types and the order of pointer lists are what their definitions say; whatever was received can be shown, as the stated part of it. No operation changes a list, record or message that others use.",
  over=["schedules", "fault_sequences", "histories", "inputs", "crash_points"], forall="every sequence of changes, set of registrations, delivery order, loss, repetition and damage of messages, every crash and restart, every interleaving of nodes, registrar and readers that share the lists and the hash provider",
  why="The tests call a few of these functions with single values; lists that are shared, damaged or combined over several nodes are never run.",
  files=["basic.go", "bytes.go", "utils.go", "hash.go", "hasher.go", "version.go", "types.go"], mech=[("lists", "basic.go:NodeIDs, ParseBytesToNodeIds, PackNodeIdsToBytes; utils.go:ByteSlicesToNodeIDs"), ("intersection", "bytes.go:BytesIntersection, BytesIntersectionMap"), ("records", "hash.go:SlicesMerkleHash, ValuesMerkleTreeHash; hasher.go:HashObject"), ("proposals", "basic.go:CommID.ShouldPropose")],
  observe=["lists, committees and answers of every node", "roots and proofs", "errors", "texts shown", "shared inputs"], note="up to 3 nodes, 2 readers, 10 changes of lists of up to 10 ids, 9 registrations; a hex id shorter than an id is documented to be padded and is not sent; ForPrint with a negative start is not called"),
]
