"""Which rules decide which property."""
import codec
import errs
import hashv
import iters
import jics
import jaddr
import jbatch
import jcache
import jdb
import jeffect
import jexcl
import jcodec
import jfront
import jins
import jiter
import jnib
import jnode
import jread
import jvalue
import jrestore, jaccept
import nib
import opening
import pmt
import pmt2
import proofs

TRUSTED = [
    "rustc nightly MIR construction and trait resolution (driver/)",
    "engine/ (dataflow engine) and models/ (source models of std combinators)",
    "semantics of called library functions as named in engine/interp.py natives (std, sha2, rlp, hashbrown, parking_lot)",
]
ASSUME = [
    "sha2 / keccak are treated as uninterpreted injective functions; library callees behave as documented",
    "user-supplied implementations of the storage traits behave as their documentation says",
]
NOTE = ("Sound for the analysed functions up to the trusted base: every path through the MIR is covered (loops by one abstract iteration "
        "with inferred invariants), helpers are inlined whatever their names, and an obligation that cannot be shown fails the check. "
        "Assumes injective hashes and documented behaviour of library callees and storage implementations.")
PROPS = {}
NA = {}


def prop(pid, explain, *checks, assumptions=(), level="other", note=NOTE, technique=None):
    PROPS[pid] = {"level": level, "explain": explain, "checks": list(checks), "assumptions": list(assumptions), "note": note,
                  "technique": technique}


prop("J01",
     "Path-sensitive forward dataflow with value numbering over the MIR of every sparse-proof verification entry "
     "(helpers inlined): each accepting path must be dominated by the full list of conditions, each rejecting path "
     "must be justified by the negation of one, and no path may panic.",
     proofs.check_proof_verify)
prop("J02",
     "The same analysis on the range-proof verification entry.",
     proofs.check_range_verify)
prop("P02",
     "Decision table over the lookup walk (node kind x key relation): for every row, the outcomes compatible with it must return the specified value, "
     "recurse with the specified child and key offset, or fail with the specified error; rows must cover every outcome.",
     pmt.check_lookup)
prop("P03",
     "Decision table over the insertion walk: the node built in every case of node kind, prefix relation and recursion result.",
     pmt.check_lookup, pmt.check_insert)
prop("P04",
     "Decision table over the removal walk and over the normalisation of the resulting nodes.",
     pmt.check_lookup, pmt.check_remove)
prop("P05",
     "Bookkeeping dataflow: the final value of each field of the handle on every outcome of insert, remove and their recursive steps, as a union of "
     "the initial value and the additions on that path.",
     pmt.check_pending)
prop("P06",
     "Event-order dataflow over commit: on every path the sequence of storage calls, their arguments (as closed forms of the collecting loops) and "
     "the final handle state are compared with the specified protocol; the node writer and the default batch operations are checked the same way.",
     pmt.check_commit)
prop("P01",
     "Dataflow over proof verification: the loop that takes the proof's elements (what is stored, under which key, what may be skipped), the walk that is "
     "started on the result, and every outcome of the call; plus the decision table of the lookup walk and the summaries of the in-memory database.",
     pmt2.check_verify)
prop("P08",
     "Decision tables over the node decoder (by RLP shape) and encoder (by node kind): the node or the items built in each case, with the loop over a branch's children "
     "in closed form; the node writer's choice between inlining and referencing.",
     codec.check_codec)
prop("P09",
     "Closed forms of the sequences each digit operation builds (single elements and runs over symbolic lengths), compared with the specified layout for each parity of the "
     "length and with and without end mark; run-time checks discharged by linear arithmetic.",
     nib.check_nibbles)
prop("P10",
     "Path-sensitive dataflow over the node decoder with every repository callee expanded: each run-time check (index, slice, subtraction, shift) discharged from the conditions "
     "before it, no panicking path, hash lengths established, and a measure for the recursion.",
     codec.check_decode_safe)
prop("P11",
     "Typestate simulation of the iterator's state machine: for each node kind, its rounds from the untouched frame until the frame is gone, over a symbolic stack and digit "
     "sequence, compared with the specified visits; constructors and entry points by their summaries.",
     iters.check_iter)
prop("P12",
     "Effect analysis of every operation of the in-memory database: lock acquisitions, changes to the map behind the guard and returned value on each path; "
     "batch operations by their loop's step; ownership of the lock.",
     pmt2.check_db)
prop("P13",
     "Error-propagation dataflow over every operation, its recursive steps and the default batch operations: on each path the outcome of each storage call, classified from the "
     "path conditions, against what the path returns.",
     errs.check_errors)
prop("P15",
     "Every outcome of the trie's operations and walks that is a missing-node error, from their summaries: the hash that storage was asked for on that path, the root, how far the key was followed (a term over the walk's own path and position), and at the entry the key as given; an error handed on must be known not to be one for a missing node.",
     errs.check_labels)
prop("P14",
     "Constructor summaries field by field, effect analysis of construction, a type-level check that handles cannot share pending state, and the decision table of the lookup walk "
     "for what is read under the root.",
     opening.check_open, pmt.check_lookup)
prop("H01",
     "Summaries of the hash function and of every comparison and conversion of the hash type (macro-expanded MIR): the digest call and its whole argument and result, the terms compared, "
     "and the path condition on the length wherever a byte string becomes a hash.",
     hashv.check_hash)
prop("J06",
     "Effect analysis over the call graph: everything reachable from trees, staging and iteration (resolved calls, closures, default bodies, and every implementation of the crate's traits behind a type "
     "parameter), against the storage operations that write and every way to change state through a shared reference; the bundled store's reading operations by their lock effects.",
     jeffect.check_effects)
prop("J09",
     "Summaries of every operation of the staging area: the layer each lookup answers from, the exact change to each map, set, list and counter, and the closed form of what freezing moves on.",
     jcache.check_cache)
prop("J10",
     "Dataflow over the history scan (order, stopping condition, entry returned) and a decision table over one write (no history, empty, earlier, same, later version), applied to the "
     "single write and to the step of the loop that writes a batch; lock effects.",
     jdb.check_values)
prop("J11",
     "Loop-step analysis of every writer and of pruning: what each element of the batch or marker changes in the tables behind the guard, what may stop the loop, what a query returns.",
     jdb.check_store)
prop("J12",
     "Summaries of the hash wrappers and of the bridge to digest implementations; a query over every call site of a hash operation for the hash function it is instantiated with.",
     jdb.check_hashers)
prop("J21",
     "Summaries of every conversion and comparison of the version type.",
     jdb.check_version)
prop("J22",
     "Summaries of the derived operations in terms of the primitives (kept uninterpreted), counting and maximum loops by their step.",
     jdb.check_derived)
prop("J04",
     "Summaries of every function that hashes a node (tag, order and completeness of the digest's input), including the recursive hash of a range of child positions.",
     jnode.check_hashes)
prop("J14",
     "Summaries of the range hash and of the child-with-siblings functions with constant trip-count loops expanded, evaluated against the specified binary tree for every aligned range, every nibble and every "
     "class of child statuses (none, leaf, inner) the nested halves distinguish.",
     jnode.check_positions)
prop("J15",
     "Summaries of the leaf counts of children and nodes; the step and exit of the summing loop; the tree's report against its root's.",
     jnode.check_counts)
prop("J13",
     "Summaries of every path and bit operation, split by the parity of the length and the position within a byte, with a bit-provenance domain for shifts, masks and ors (which source bit each result bit is); "
     "loops by their step; run-time checks discharged by linear arithmetic under the layout invariant.",
     jnib.check_paths)
prop("J03",
     "Loop analysis of the walk for a key: the node key it starts from, the child each round goes on to (kept as an uninterpreted query on the node read), the sibling list's step, and a decision table over "
     "how the walk ends.",
     jread.check_read, jread.check_roots)
prop("J07",
     "Error-propagation dataflow over every walk that reads nodes and every operation built on one: the outcome of each read and the depth it happened at, from the path conditions, against what the path returns.",
     jread.check_missing)
prop("J17",
     "Dataflow from the key's own proof to the range proof: the selecting loop's step (which sibling, under which bit of the key), its order and its range, and the decision on a missing value.",
     jread.check_range)
prop("J16",
     "Step and exit analysis of the search, the climb and the walk to a subtree's outermost leaf; which child an iterator chain picks, decided slot by slot for each bound; "
     "decision tables for the sides and the assembly.",
     jexcl.check_exclusion)
prop("P07",
     "Decision table over the path walk and dataflow over the proof's assembly: which nodes are listed, in which order, under which encoding, and which state may change.",
     pmt2.check_prove)
prop("J18",
     "Typestate analysis of the iterator: the position inside a node by evaluating the summaries of its four operations over every set of children; the stack by the step and exits of each loop; "
     "every outcome of both constructors and of a step against the specified walk.",
     jiter.check_iteration)
prop("J05",
     "A query over the summaries of all walks (reads, neighbours, iteration): the key of every node read, traced through loop variables to the root's key or to a child's key, with the version compared with the "
     "one recorded for the very child; the keys a node reports for its children, for every nibble and set of children; the keys an update descends to, from the normal form of its paths.",
     jaddr.check_addressing, jins.check_addressing, jbatch.check_addressing)
prop("J08",
     "Typestate analysis of one level of an update, single and batch: the list of staging operations of every path against the one node replaced or dropped there (its key, its kind, the order), and the staging "
     "area's own treatment of nodes made and dropped within the batch.",
     jins.check_marks, jbatch.check_marks, jcache.check_deletes)
prop("J23",
     "Symbolic normal form of one level of an update (depth and common prefix as numbers, paths as key prefixes plus nibbles, staged operations as a list) compared with the specified operations for each kind of "
     "node found, value given, key relation and set of children left; loops above a fork by induction over its length; the batch walk by its ranges; the calls that apply each pair and each set by their loops' steps.",
     jins.check_content, jbatch.check_content)
prop("J19",
     "Order and dependence analysis of every outcome of taking in a chunk, verifying and finishing (what is written, under which facts); the siblings on the left evaluated from the summaries for every bit "
     "position, byte and size of the frontier; decision tables for a stretch's hash; an assignment query for the fields that never change.",
     jrestore.check_restore)
prop("J28",
     "Every outcome that refuses a chunk must be justified, on its own facts, by one of the allowed reasons; the trimming of the siblings by the step and the exits of its loop (which bit, what the last sibling is, how many clear bits against how many siblings in the proof); the range proof's fold and refusals from its summary.",
     jaccept.check_accept)
prop("J24",
     "Contracts of the frontier's steps, each decided from the step's summary by comparing the state after it with the state before, place by place: what one node becomes when it is put aside, which nodes are, what "
     "its parent is told, where a key makes the frontier grow, what splitting a leaf adds, what is recovered from storage; loops by their step and exit; the key's nibble evaluated for every position and byte.",
     jfront.check_frontier)
prop("J25",
     "Each type's writing and reading, as summaries of the compiled implementations (derived or not), composed: the items written, with their types, in order, put in place of the items read, on every path of both; the result "
     "must be the value, field by field and variant by variant. The same for the calls made to a serde serializer and the visitors, by order and by name.",
     jcodec.check_codec)
prop("J26",
     "Each comparison and copy (derived or not) as a summary: every path on which two values are found equal must have every field equal, every path on which they are not must have one that differs, and the field that decides the "
     "order must be the first that differs, in the order stated; the copy is compared with the original field by field.",
     jvalue.check_values)
prop("J27",
     "The state of the batch after each operation, as a term over the state before, compared with what the operation is to do; the emptiness test decided on every path.",
     jvalue.check_batch)
prop("J20",
     "Evaluation of the builder's loops, from their summaries, for every number of siblings with the key's bits and the siblings symbolic; decision tables for the leaf, the neighbours' proofs, the answer and "
     "the published spec.",
     jics.check_ics)
