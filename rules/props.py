"""The properties: texts from which properties.jsonl and MANIFEST.json are generated (tools/gen.py)."""
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {}),
                          **({"observe_at": observe} if observe else {})}})


T, TC, NT, PD, PR = "jmt/src/tree.rs", "jmt/src/tree_cache.rs", "jmt/src/node_type.rs", "jmt/src/types/proof/definition.rs", "jmt/src/types/proof.rs"
RE, IT, MO, DB, RD, WR, LB = "jmt/src/restore.rs", "jmt/src/iterator.rs", "jmt/src/mock.rs", "jmt/src/db.rs", "jmt/src/reader.rs", "jmt/src/writer.rs", "jmt/src/lib.rs"
NP, NI, B32, TR, ICS = "jmt/src/types/nibble/nibble_path.rs", "jmt/src/types/nibble.rs", "jmt/src/bytes32ext.rs", "jmt/src/trie.rs", "jmt/src/tree/ics23_impl.rs"
PL, PI, PDB, PN, PNO, PIT, PT = "pmt/src/lib.rs", "pmt/src/inner.rs", "pmt/src/db.rs", "pmt/src/nibbles.rs", "pmt/src/node.rs", "pmt/src/trie_iterator.rs", "pmt/src/trie.rs"
SH = "serde_hash/src/lib.rs"

# ------------------------------------------------------------------------------------------------ PMT
p("P01", "A Merkle-Patricia proof is believed only if it authenticates the answer",
  """Verifying a proof for a key against a root hash answers solely from proof elements that are authenticated by their
  own keccak hash, starting from the node whose hash is the given root: the answer is the value (or absence) which that
  authenticated path holds for the whole key. If the path needs an element that the proof does not supply, or an element
  does not decode, the call returns an invalid-proof error. Neither the data stored in the trie on which it is called nor
  unauthenticated elements influence the answer, and it never panics.""".replace("Neither", "Neither"),
  ["inputs"], "every root hash, key and list of proof byte strings, including adversarial ones, and any state of the trie on which verification is called",
  "The tests verify honest proofs and a handful of mutated ones; an adversary can choose any byte strings.",
  [PI, PL, PT], [("proof verification", PI + " verify_proof"), ("path walk over the authenticated elements", PI + " get_at"), ("public delegation", PL)],
  observe="return value of verify_proof")
p("P02", "Merkle-Patricia lookup returns exactly the value stored under the whole key",
  """Looking a key up follows the key's digits from the root and returns the value stored at the node where the key ends,
  and absence exactly when the trie structure holds no such node; a key that is a strict prefix or extension of a stored
  key is not confused with it. Membership tests answer whether that lookup finds a value. A node that is referenced but missing from storage makes
  the call fail with the missing-node error naming the hash that was wanted, rather than reporting absence.""",
  ["inputs", "histories"], "every trie shape (empty, leaf, extension, branch, hashed references) and every key",
  "Tests look up a few dozen keys in tries of a few shapes; the property must hold for each combination of node kind and key relationship.",
  [PI, PL, PT], [("lookup walk", PI + " get_at"), ("storage of hashed nodes", PI + " recover_from_db"), ("public delegation", PL)],
  observe="get, contains")
p("P03", "Merkle-Patricia insert binds the key and changes nothing else",
  """Inserting a key with a non-empty value yields a trie in which that key maps to that value and every other key maps to what it mapped to before.
  The resulting nodes have the canonical shape (one leaf per unshared tail, an extension only for a non-empty shared run that leads to a branch, a value
  at a branch for a key that ends there), so the root is the one that any standard implementation computes for that content. Inserting an
  empty value is refused with an error.""",
  ["inputs", "histories"], "every trie shape, key and value, including keys that are prefixes of one another",
  "There is one case per combination of node kind and prefix relation at each level; tests sample a few and random keys almost never are prefixes of each other.",
  [PI, PL, PT, PNO], [("insert walk", PI + " insert_at"), ("extension construction", PI), ("node constructors", PNO)], observe="insert, then get / root_hash")
p("P04", "Merkle-Patricia removal deletes the key, keeps others, and re-normalises",
  """Removing a key makes it absent, leaves every other key as it was, and reports true exactly when the key was present.
  After a removal the nodes are normalised: a branch left with a single entry, and an extension leading to an extension or a leaf, collapse into the
  canonical node for the remaining content, so the root equals that of a trie which never held the key.""",
  ["inputs", "histories"], "every trie shape and key, present or absent, including keys ending at a branch",
  "The collapse rules have many cases (value-only branch, single child that is a leaf, extension, branch or stored by hash); tests hit only some.",
  [PI, PL, PT], [("removal walk", PI + " delete_at"), ("normalisation", PI + " degenerate")], observe="remove, then get / root_hash")
p("P05", "A failed or ineffective Merkle-Patricia update leaves the trie as it was",
  """If an insert or removal returns an error, or a removal reports that the key was absent, the trie's content, the root, and the set of
  stored nodes that the next commit will delete are what they were before the call. An update that succeeds adds to that set the stored nodes that the walk reached by their hash and replaced, and no others.""",
  ["inputs", "fault_sequences", "histories"], "every insert or removal, including ones that meet a missing or undecodable node at any depth of the walk",
  "Tests never fail storage in the middle of an update and then continue.",
  [PI], [("insert entry", PI + " insert"), ("removal entry", PI + " remove"), ("collection of replaced nodes", PI + " insert_at / delete_at")],
  state=[("passing_keys", "hashes of stored nodes replaced since the last commit")])
p("P06", "A Merkle-Patricia commit stores all new nodes before dropping old ones",
  """Committing writes every node created since the last commit, keyed by the keccak hash of its encoding, before it deletes any replaced node, and returns as root the hash under which the root node was written.
  It never deletes a node that it has just written; a storage failure is returned as an error, and the commit then has not announced a new root. Without pruning
  mode nothing that the new root references is deleted.""",
  ["histories", "fault_sequences", "crash_points"], "every sequence of updates and commits, and a storage failure or crash at any point inside a commit",
  "The order of writes and deletes is only visible when storage fails or the process dies between them, which no test does.",
  [PI, PDB, PL], [("commit", PI + " commit"), ("node writing", PI + " write_node / encode_raw"), ("batch insertion and removal", PDB)],
  state=[("cache, gen_keys, passing_keys", "new nodes, their hashes, and replaced nodes")])
p("P07", "A Merkle-Patricia proof consists of exactly the nodes on the key's path",
  """The proof generated for a key in a non-empty, committed trie is the list, from the root down, of the encodings of the nodes that are stored by hash on the path of that key, with the root's
  encoding first, and nothing else. It is produced for absent keys as well, generating it changes neither the trie nor its storage, and a missing node is reported as an error.""",
  ["inputs", "histories"], "every non-empty committed trie and every key, present or absent",
  "Proof tests use a few random tries and check verification of the result only; a proof may verify yet be reordered or over-complete for other shapes.",
  [PI, PL], [("path collection", PI + " get_path_at"), ("proof assembly", PI + " get_proof")], observe="get_proof")
p("P08", "Merkle-Patricia node encoding and decoding agree",
  """Each node kind has one encoding, in the standard RLP form: a leaf or extension is a pair of compact key and value or child, a branch is sixteen children and a value, a child is inlined when its encoding is shorter
  than 32 bytes and referenced by the keccak hash of its encoding otherwise. Decoding such bytes yields the same node, and nothing that decodes is taken for a different kind of node.""",
  ["inputs"], "every node that the trie can build",
  "Whether a child is inlined depends on its encoded length; the tests' keys and values reach a few lengths only.",
  [PI, PN, PNO], [("encoding", PI + " encode_raw / write_node"), ("decoding", PI + " decode_node"), ("compact keys", PN)])
p("P09", "Nibble paths convert to and from bytes and compact form without loss",
  """A key's digits are its bytes' high and low halves in order, followed by an end mark; converting to compact form and back preserves digits, their
  count and the end mark for odd and even lengths, and converting digits back to bytes inverts the first conversion. Slicing, joining, comparing for a common prefix and appending act on digits exactly as on a plain list.""",
  ["inputs"], "every byte string and digit sequence", "Tests sample a handful of short sequences.",
  [PN], [("nibble sequences", PN)])
p("P10", "Decoding untrusted Merkle-Patricia bytes never panics or recurses unboundedly",
  """Decoding any byte string as a trie node, whether it comes from storage or from a proof, returns either a node or an error. It does not panic, index out of bounds, overflow, or recurse more deeply than a fixed bound, whatever the bytes.""",
  ["inputs"], "every byte string", "The tests decode only bytes that the encoder produced.",
  [PI, PN], [("node decoding", PI + " decode_node"), ("compact key decoding", PN + " from_compact")])
p("P11", "Iterating a Merkle-Patricia trie yields each stored pair once, with its full key",
  """On intact storage the iteration of a trie yields every stored key exactly once, as the complete original byte string with the value that lookup returns for it, and nothing else. It covers values held at
  branches, in inlined nodes and in nodes stored by hash.""",
  ["inputs", "histories"], "every trie shape", "Iteration is tested on random sets of equal-length keys, where no value sits in a branch.",
  [PIT, PI, PL], [("iterator", PIT)], observe="iter")
p("P12", "The in-memory database is a map, and every operation is atomic",
  """In the bundled in-memory database a read returns what the latest completed write to that key stored, removal makes the key absent, batch insertion stores each key with the value at the same position, and the
  key, value and size queries describe the same contents. Each single operation holds the lock for as long as it touches the map, so that concurrent callers observe it whole (a batch is its single operations, in order); in its light mode removal drops entries, otherwise entries are kept.""",
  ["schedules", "histories"], "every sequence and interleaving of operations by several threads",
  "The tests are single threaded and short.", [PDB], [("in-memory database", PDB)])
p("P13", "Storage failures are reported, never taken for absence",
  """When the storage beneath a Merkle-Patricia trie returns an error during a lookup, insert, removal, commit or proof generation, the call returns an error (a database error, or a missing-node error for a
  node that storage does not have). It is never turned into an ordinary answer, and never a panic.""",
  ["fault_sequences"], "a storage error on any call to storage in any operation", "No test storage ever fails.",
  [PI, PL, "pmt/src/error.rs"], [("reading nodes", PI + " recover_from_db"), ("commit", PI + " commit")])
p("P15", "A missing-node error names the node, the root and the key",
  """When storage lacks a node that a Merkle-Patricia lookup, insertion, removal or proof needs, the error names exactly the hash of the node that was looked for, the hash of the trie's root, and the key the caller gave; and where it says how far the key was followed, that is the key's nibbles from the start down to the missing node.""",
  ["inputs", "fault_sequences"], "every trie, key and missing node", "Tests delete one node of one trie.",
  [PI, "pmt/src/error.rs"], [("operations", PI + " get / insert / remove / get_proof"), ("walks", PI + " get_at / insert_at / delete_at / get_path_at / degenerate")])
p("P14", "A trie handle opened at a root reads that root and does not disturb others",
  """Opening a trie at a root hash gives a handle that reads exactly the content which storage holds under that root, with no pending changes of its own; what other handles hold uncommitted is not seen. If storage lacks that root, reading fails with the missing-node error naming it.
  A new trie is empty and its root hash is the hash of the empty node's encoding.""",
  ["inputs", "histories"], "every database content and root hash", "Tests open a few roots that exist.",
  [PI, PL], [("construction", PI + " new / at_root / from")])
# ------------------------------------------------------------------------------------------------ serde_hash
p("H01", "Hash values compare, convert and hash by their 32 bytes",
  """The hash function returns the Keccak-256 digest of exactly the bytes given, and the hash type's equality, ordering, conversion to and from bytes and its use as map key depend on all 32 bytes and nothing else.
  Converting a byte string of the wrong length does not silently produce a truncated or padded hash.""",
  ["inputs"], "every byte string", "Tests compare a few digests.", [SH], [("hash type and function", SH)])
# ------------------------------------------------------------------------------------------------ JMT
p("J01", "A sparse Merkle proof is accepted only if it ties the answer to the root",
  """Verifying a proof succeeds only if hashing from the claimed leaf (or the empty subtree) upward through the given siblings, each placed left or right according to the key's bit at that depth, yields the expected root.
  For a claimed value the leaf must be for the same key and for the hash of that value; for claimed absence there must be no leaf, or a leaf of a different key that shares the key's path down to the proof's depth.
  Proofs deeper than 256 siblings are rejected, all such honest proofs are accepted, and verification never panics.""",
  ["inputs"], "every root, key, value and proof, including adversarial proofs of any length", "An adversary chooses the proof; the tests alter a few honest ones.",
  [PD, PR, TR, T], [("verification", PD + " SparseMerkleProof::verify*"), ("root reconstruction", PD + " root_hash"), ("trait delegation", T)], observe="verify, verify_existence, verify_nonexistence")
p("J02", "A range proof is accepted only if it ties the leftmost leaves to the root",
  """Verifying a range proof succeeds only if the left siblings computed from the given leaf range and the proof's right siblings, each taken on the side and in the order that the rightmost key's bits dictate and all of them used,
  hash up to the expected root. Too many siblings, or siblings missing or left over, are errors and never panics.""",
  ["inputs"], "every root, rightmost key, and lists of left and right siblings of any length", "Tests check honest proofs of small trees.",
  [PD, PR], [("range verification", PD + " SparseMerkleRangeProof::verify")])
p("J03", "A versioned read follows the key from that version's root",
  """Reading a key with proof at a version starts from the root recorded for exactly that version and follows the key's nibbles through the child each internal node records; it returns the value stored for that key at or before that version when it ends at a leaf of that key, and absence when it ends at a missing child, another key's leaf, or the empty tree.
  The proof carries the leaf found, if any, and the sibling hashes of all levels passed, deepest first.""",
  ["inputs", "histories"], "every stored tree, version and key", "Tests read the versions and keys they just wrote in small trees.",
  [T, NT], [("read walk", T + " get_with_proof"), ("sibling collection", NT + " get_child_with_siblings")], observe="get_with_proof, get")
p("J04", "Leaf, internal and empty hashes are domain separated and complete",
  """A leaf's hash covers a leaf tag, the full key hash and the full value hash; an internal node's hash covers an internal tag and the hashes of its left and right halves in that order; an empty subtree hashes to a fixed placeholder. The two tags differ, so no leaf
  hash input is an internal node's input, and a leaf hashes the same whether it is in the tree, in a proof, or being restored.""",
  ["inputs"], "every leaf and internal node, in storage, proofs and restoration", "Tests compare hashes that are computed by the same code.",
  [PR, NT, LB, "jmt/src/types.rs"], [("leaf and internal hashing", PR), ("node hashing", NT + " merkle_hash"), ("tags and placeholder", LB)])
p("J05", "A child is always addressed by the version recorded for it",
  """Wherever a tree is traversed, for reads, updates, proofs and iteration, a child node is fetched at its parent's nibble path extended by the child's nibble and at the version the parent records for that child,
  never at the version being read or written. A tree whose subtrees were last written at different versions is therefore traversed correctly.""",
  ["histories"], "every history of versions in which subtrees stay unchanged for any number of versions", "A traversal that uses the wrong version works as long as everything was written in one version, as in most tests.",
  [T, NT, IT], [("child addressing", T), ("child addressing in proofs", NT + " get_child_without_siblings"), ("iteration", IT)])
p("J06", "Reading and staging never write to storage",
  """Reads, proofs, iteration and the computation of a new version's update leave the underlying store untouched: the new nodes, values and stale markers are only returned to the caller, and the store changes only
  when the caller writes them.""",
  ["inputs", "histories"], "every read or update computation, successful or not", "Tests do not compare the store before and after, in particular on error paths.",
  [T, TC, IT, ICS], [("update computation", T + " put_value_set / batch_put_value_sets"), ("staging", TC)])
p("J07", "Only a missing root is reported as a missing root",
  """Reading at a version for which no root was stored fails with the missing-root error naming that version. A node missing below the root, a storage error, or a missing value is reported as a different error, and never as absence of the key.""",
  ["fault_sequences", "histories"], "every pattern of missing nodes and storage errors", "Tests query one missing root only; nothing injects missing inner nodes.",
  [T, RD, LB], [("read walk", T + " get_with_proof"), ("required reads", RD), ("missing root error", LB)])
p("J08", "Exactly the nodes a version replaces are marked stale",
  """Each node that an update of a version replaces or drops, and that an earlier version stored, is marked stale since that version, once, as the leaf or inner node it is; nodes that the new version still references are not marked,
  and nodes created and dropped within the same batch version are neither marked nor written. (An empty tree's root stored by an earlier version may stay unmarked.)""",
  ["histories"], "every history of updates", "Pruning is tested with a few fixed histories.",
  [T, TC], [("node deletion during update", T), ("staging of deletions", TC + " delete_node")], state=[("stale node index", "nodes that may be pruned once a version is no longer read")])
p("J09", "Staged updates are visible, layered and frozen version by version",
  """While an update is computed, reading a node sees this version's staged nodes first, then those of earlier versions of the same batch, then storage, and putting a node twice at one key is an error. Freezing a version records the root hash of that version in order, moves all its staged nodes, values and stale markers into the
  result, with statistics that count them, and continues with the next version; a version that changed nothing gets a copy of the root under its own version, so that the next one finds a root.""",
  ["inputs", "histories"], "every sequence of staged operations and freezes", "Tests cover short sequences.",
  [TC], [("staging layers", TC + " get_node / put_node / delete_node / freeze")])
p("J10", "Reading a value at a version returns the latest value not after it",
  """In the bundled store the value of a key at a version is the one written at the greatest version not above it, and absent if there is none or if that write was a deletion. Writing a value for an earlier version of a key whose history has a later one is refused and changes nothing; writing again for the latest version replaces its value.""",
  ["histories"], "every history of writes and every version read", "Tests read back mostly the latest version.",
  [MO], [("value history", MO + " get_value_option / put_value")])
p("J11", "Store pruning drops only what is unreachable; overwrites follow the mode",
  """In the bundled store, pruning up to a version removes exactly the nodes whose stale marker is at or below it, along with those markers. A node already present is not silently replaced unless overwriting is enabled, and the number of nodes and the
  rightmost leaf reported describe what is stored.""",
  ["histories"], "every set of nodes and markers, and every pruning version", "Tests prune a few small histories.",
  [MO], [("store", MO + " purge_stale_nodes / write_node_batch / get_rightmost_leaf")])
p("J12", "Keys and values are hashed whole, by the hasher chosen by the caller",
  """A key hash or value hash is the chosen hash function's digest of exactly the bytes given, with nothing added or dropped, and the incremental interface gives the same digest as the one-shot one. Every key and value hash is taken with the hasher that the caller chose; nodes are hashed with the tree's own fixed hash function everywhere.""",
  ["inputs"], "every byte string and hasher", "Tests use one hasher and compare with itself.", [LB, NT, PR], [("hash wrappers", LB)])
p("J13", "Nibble paths and key bits are read most significant first, without loss",
  """A nibble path is the sequence of nibbles, high half of each byte first, with its exact length: pushing, popping, indexing, truncating, skipping common prefixes and iterating by nibble or bit agree with that sequence, for odd and even lengths. Bits of a 32-byte value are enumerated most significant first, forward and backward, and
  common prefix lengths count from the first bit or nibble.""",
  ["inputs"], "every path and value", "Property tests sample paths against partly the same code.",
  [NP, NI, B32], [("nibble path", NP), ("bit order", B32)])
p("J14", "An internal node's hash and proofs reflect its children by position",
  """The hash of an internal node is that of the binary tree over its sixteen child positions in which an empty half is the placeholder and a half with a single leaf is that leaf's hash. The siblings it contributes to a proof are the hashes of the opposite halves at each of the four levels, top level first, down to where the path is decided,
  and the child returned for a nibble is the one on whose half that nibble lies.""",
  ["inputs"], "every set of children and every nibble", "There are more than 10^9 child patterns; tests sample.",
  [NT], [("subtree hash", NT + " merkle_hash"), ("bitmaps", NT + " generate_bitmaps / range_bitmaps"), ("siblings", NT + " get_child_with_siblings"), ("neighbour-only lookup", NT + " get_child_without_siblings")])
p("J15", "Leaf counts are those of the subtree",
  """An internal node's recorded leaf count is the sum of its children's, a leaf counts one and an empty tree zero, and the tree reports its root's count at each version. If any child's count is unknown, so is the sum.""",
  ["inputs", "histories"], "every tree and version", "Tests check a few totals.", [NT, T, RE], [("counting", NT + " sum_leaf_count / leaf_count"), ("tree count", T + " get_leaf_count")])
p("J16", "Exclusion proofs name the true neighbours of the missing key",
  """For an absent key the tree returns the existing leaf immediately before and the one immediately after it in key order, each with its own proof, at the version asked for; if one side has no leaf, only the other is returned; for a present key the value with its proof is returned.""",
  ["inputs", "histories"], "every non-empty tree, version and absent key", "Tests query few keys in small trees; wrong descent matters only for deep and uneven trees and for subtrees written at other versions.",
  [T, NT], [("neighbour search", T + " search_for_closest_node / get_bounding_path / get_extreme_key_hash"), ("assembly", T + " get_with_exclusion_proof")])
p("J17", "A range proof holds the right siblings of the rightmost key",
  """The range proof for a key that is in the tree at a version consists of the sibling hashes on the right-hand side of that key's path, in the order from the bottom up, and no left ones. Asking for a key that is not in the tree fails.""",
  ["inputs", "histories"], "every tree, version and key", "Tests check few trees.", [T, PD], [("range proof generation", T + " get_range_proof")])
p("J18", "Iteration of a version is in key order, from the start, complete and current",
  """Iterating from a starting key yields exactly the leaves of that version with key at or after it, in ascending key order, each with its value at that version; starting by index skips exactly that many leaves. An error met while walking is yielded as an error.""",
  ["inputs", "histories"], "every tree, version, starting key and index", "Tests iterate a few trees.",
  [IT], [("iterator", IT + " new / new_by_index / next / skip_leaves")])
p("J19", "A restoration writes only verified chunks and finishes only with the promised root",
  """A restoration (StateSnapshotReceiver) refuses an empty chunk, and a chunk with a key that is not greater than the key before it, be that in the same chunk or in an earlier one. Each entry is taken in, in order, with its own key, the hash of its own value, and its value recorded at the restored
  version. Storage is written only after the chunk's range proof has verified, for the last leaf taken in, against the expected root, with the siblings on the left computed from the frontier (every set bit of the key, from what the frontier holds to its left); what has been written is forgotten, and a chunk that fails writes nothing. Finishing writes, and succeeds, only if
  the root node about to be written has exactly the expected root hash, so never when nothing has been restored.""",
  ["inputs", "histories", "fault_sequences"], "every sequence of chunks and proofs, including malicious ones", "Tests restore honest random data with a few chunk splits.",
  [RE, PD], [("chunk intake", RE + " add_chunk_impl"), ("verification", RE + " verify / compute_left_sibling"), ("completion", RE + " finish_impl")])
p("J28", "A restoration refuses no honest chunk",
  """A chunk of any size with the tree's own next entries, in order, and the range proof that the tree gives for the last of them, is accepted, unless storage fails: a chunk is refused only when it is empty, when a key is not greater than the one before it, when its range proof does not give the expected root with the siblings on the left that the
  frontier has (all of them down to the last level at which the tree has a sibling, and none below), or when the proof has more siblings on the right than the key has clear bits.""",
  ["inputs", "histories"], "every tree, every way to cut its keys into chunks", "Tests cut random trees in one or two places; a placeholder among the siblings near the bottom is rare.",
  [RE, PD], [("chunk intake", RE + " add_chunk_impl"), ("verification", RE + " verify"), ("range verification", PD + " SparseMerkleRangeProof::verify")])
p("J24", "The nodes a restoration writes are those of the tree it promises",
  """Every node a restoration puts aside to be written, when it freezes part of its frontier or finishes, is the node that the promised tree has at that place: under its own path and the restored version, a leaf with its own key and value hash, an internal node with exactly the children that belong there, each
  with its hash, kind and version; resuming from storage recovers the frontier as it was.""",
  ["inputs", "histories", "crash_points"], "every sequence of verified chunks, and every resumption point", "Tests restore honest random data with a few chunk splits and one resumption.",
  [RE], [("freezing", RE + " freeze / freeze_previous_leaf / freeze_internal_nodes"), ("growth", RE + " add_one / insert_at_leaf"), ("recovery", RE + " recover_partial_nodes")])
p("J25", "What is stored is what is read back",
  """Serialising any value of the tree's stored and transmitted types (nodes, node keys, nibble paths, key and value hashes, batches, stale markers, statistics, proofs) with borsh and reading it back gives the same value, with nothing refused and exactly what was written consumed; and a serde format that
  keeps names, variants and order is given every field and puts every value together again, by name as by order.""",
  ["inputs"], "every value of every stored type", "Tests round-trip few values of two types, and not through serde.",
  [NT, WR, NP, PR, LB], [("stored types", NT), ("batches", WR), ("proofs", PR), ("paths", NP), ("hashes", LB)])
p("J26", "Keys, nodes and markers are compared and copied whole, and ordered version first",
  """Two values of a tree type are equal exactly when every field is; node keys are ordered by version and then by path, paths by length and then by nibbles, stale markers by the version they are stale since and then by key, hashes and versions as what they wrap, with the partial order the same; a copy has every field.""",
  ["inputs"], "every pair of values", "No test compares values that differ in one field only, or checks the order.",
  [NT, WR, NP, PR, LB, DB], [("keys", NT + " NodeKey"), ("markers", WR + " StaleNodeIndex"), ("paths", NP)])
p("J27", "A batch holds exactly what was put into it",
  """A node batch gives back, for every key, the node last put there, and lists every node and value put in and no others; joining two keeps all of both, the joined one's where they meet; clearing empties it, and it is empty exactly when it holds neither nodes nor values.""",
  ["inputs", "histories"], "every batch and history of operations on it", "Tests use batches only as the tree fills them.", [WR], [("batches", WR + " NodeBatch")])
p("J20", "ICS23 proofs state the same leaf and path as the tree's own proof",
  """An ICS23 existence proof carries the key, the value, a leaf operation with the tree's leaf tag, and one inner operation per sibling, deepest first, with the internal tag and the sibling on the side that the key's bit gives; a nonexistence proof carries the existence proofs of the neighbours. The published
  spec describes the same tags, order and placeholder.""",
  ["inputs", "histories"], "every key and tree", "Tests check few random keys against the ics23 crate.", [ICS, PR, LB], [("proof conversion", ICS)])
p("J21", "Versions convert to and from bytes and integers without loss",
  """A version converts to 8 big-endian bytes and back to the same number, to and from the integer it wraps, and is ordered as that integer; the default is the genesis version.""",
  ["inputs"], "every version", "Tests check few versions.", [DB], [("version conversions", DB)])
p("J22", "The versioned database's derived operations agree with its primitives",
  """Membership is that a read at the same version finds a value; an update is one batch update; emptiness is that there are no entries; and the tree's own trait operations answer as the concrete operations do for the same key and version.""",
  ["inputs", "histories"], "every store and tree", "Tests call the derived operations on few states.", [DB, TR, T], [("default methods", DB), ("trait delegation", T), ("contains", TR)])
p("J23", "Every update sets exactly its keys and leaves the other keys alone",
  """Computing a version from a set of key-value pairs yields a tree in which each key given maps to its value (or is absent if deleted), each other key is as in the previous version, and the tree is the canonical one for that content (no internal node over a single leaf).""",
  ["inputs", "histories"], "every previous tree and every set of pairs", "Trees of every shape times every overlap of paths; tests sample small random ones.",
  [T], [("insert walk", T + " insert_at*"), ("batch walk", T + " batch_insert_at")])
