#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
            mechanism=[dict(name=n, where=w) for n,w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01","Every history of operations behaves as an ordered map",
  "For every history of puts, gets and deletes over arbitrary byte-string keys (including empty keys and keys that are prefixes of each other) and values (absent, empty, large), each get returns exactly the value of the latest put of that key that no later delete removed, together with the log index of that put, or nothing if there is none. Put returns the log index of the entry it replaced (if any) and its own log index; delete returns the log index of the entry it removed, or nothing when the key is absent. No operation on one key changes what any other key returns.",
  ["inputs","histories"],"all byte-string keys and values, all operation sequences, trees of one to several levels",
  "Unit tests put and delete a few hundred decimal-string keys in a handful of fixed orders; an error needs a particular tree shape, key relation or operation order.",
  ["src/hb.rs","src/tree.rs","src/put.rs","src/del.rs","src/lib.rs","src/changes.rs"],
  [("binary search in a node","src/lib.rs get_index_of_key"),("descent","src/lib.rs nearest_node"),("insert and split","src/put.rs Tree::put_compare_and_swap, Node::split"),("delete and rebalance","src/del.rs")],
  [("log","hypercore blocks, one per write; the last block's first node is the root","src/blocks.rs")],
  ["Hyperbee::get","Hyperbee::put","Hyperbee::del"])
p("C02","Traversal yields exactly the in-range entries in order",
  "For every tree and every range (each bound absent, any byte string or an infinity, inclusive or exclusive, whether or not the bound is a stored key), forward traversal yields exactly the live entries inside the range in ascending byte order, each once, with its current value and log index, and then ends. Reversed traversal of the same range yields the same entries in exactly the opposite order.",
  ["inputs","histories","configurations"],"all trees reachable by puts and deletes; all bounds, inclusiveness flags and both directions",
  "Existing tests iterate a 10 to 30 key tree with a dozen bound combinations; the start index inside each node depends on leaf/internal, matched/unmatched, inclusive and direction for every node on the path.",
  ["src/traverse.rs","src/tree.rs","src/hb.rs","src/keys.rs"],
  [("start index per node","src/traverse.rs make_child_key_index_iter"),("stop condition","src/traverse.rs TraverseConfig::in_bounds"),("stream state machine","src/traverse.rs impl Stream for Traverse")],
  observe=["Hyperbee::traverse"])
p("C03","The stored tree is always a valid balanced B-tree",
  "After every write, the tree reachable from the newest log entry is a valid B-tree of order 8: all leaves are at the same depth, every node other than the root holds 4 to 8 keys and the root at most 8, an internal node has exactly one more child than keys, and keys are strictly ordered within nodes and between a node and its subtrees. The keys in it are exactly the live keys, each referring to the log entry of its latest put.",
  ["inputs","histories"],"all operation histories, checked after every write by decoding the raw log",
  "The repository's own structure checker runs after a few fixed sequences in unit tests; underflow repair depends on sibling sizes at each level (rotate or merge, left or right, once or cascading to the root), which random short runs rarely combine.",
  ["src/put.rs","src/del.rs","src/blocks.rs","src/lib.rs"],
  [("split at overflow","src/put.rs Node::split"),("rotate/merge repair","src/del.rs repair, repair_one, Side"),("replacement of a removed internal key","src/del.rs replace_removed_internal_key_with_a_key_from_leaf"),("parent references","src/put.rs propagate_changes_up_tree")],
  observe=["blocks in the hypercore, decoded independently"])
p("C04","The log is append-only: one block per write, every prefix a past version",
  "Each write that changes the map appends exactly one block (plus the header block in front of the first), and an operation that changes nothing (a get, a traversal, a delete of an absent key, a refused conditional write on a tree that already has its header) appends nothing; no operation alters an existing block, and the reported version always equals the number of blocks. Opening any prefix of the log gives exactly the map as it was when the log had that length.",
  ["histories","inputs"],"all operation histories and every prefix of their log",
  "No existing test looks at the log during a history or reopens a truncated log; wrong sharing of old nodes shows only in old versions.",
  ["src/blocks.rs","src/put.rs","src/del.rs","src/tree.rs","src/changes.rs"],
  [("append of the encoded changes","src/blocks.rs Blocks::add_changes"),("copy-on-write references to old nodes","src/lib.rs Child"),("version","src/tree.rs Tree::version")],
  observe=["Hyperbee::version","blocks in the hypercore","a second Hyperbee over a prefix of the blocks"])
p("C05","Closing and reopening, or another handle, shows the same tree",
  "Data written through one handle is all there, unchanged, after the handle is dropped at any point between operations and the store is opened again from its directory or its hypercore, and writing continues from there as if never closed. Several handles open on the same core at once agree: what one has finished writing the others read, however much they had read or cached before, and writes alternated between handles behave as one history. Stores in different directories, however alike their names, are different trees, as are trees in memory.",
  ["histories","crash_points"],"all histories with reopen points and handle switches at any position",
  "Disk tests need the JavaScript tool chain and never reopen mid-history; the unit tests keep one handle with one warm cache for the whole run.",
  ["src/tree.rs","src/hb.rs","src/blocks.rs"],
  [("open from directory / core","src/tree.rs from_storage_dir, from_hypercore"),("root found from the log length","src/tree.rs get_root"),("block cache","src/blocks.rs Blocks::get")],
  observe=["Hyperbee::from_storage_dir","Hyperbee::from_hypercore"])
p("C06","The log is byte-for-byte what JavaScript Hyperbee writes",
  "For every sequence of operations the blocks written are byte-for-byte identical to those JavaScript Hyperbee (the version named in the sources) writes for the same sequence: same key/value/index encoding, same split point, same choice of neighbour and order of rotations and merges on delete, same order of nodes inside a block.",
  ["inputs","histories"],"all operation sequences over arbitrary keys and values",
  "The cross-language tests need Node and npm packages, compare a few hundred keys in three fixed sequences, and do not run in this environment.",
  ["src/blocks.rs","src/put.rs","src/del.rs","src/schema.proto","src/tree.rs"],
  [("node order in a block","src/blocks.rs reorder_nodes"),("encoding","src/lib.rs Node::to_level, src/schema.proto, build.rs"),("repair order","src/del.rs repair_one"),("median","src/put.rs Node::split")],
  observe=["blocks in the hypercore"])
p("C07","Compare-and-swap runs its decision once, on the true state, and obeys it",
  "A conditional put calls its condition exactly once with the entry currently stored under that key (its key, value and log index, or nothing) and the exact entry about to be written including the log index it will get; a conditional delete calls its condition exactly once with the current entry if the key is present and never if it is absent. If the condition accepts, the effect and results equal those of the plain operation; if it refuses, the map is unchanged, no data block is written, and the result reports the current entry's log index and that nothing was done. A condition that panics leaves the map and the log as one that refuses does, and the tree usable.",
  ["inputs","histories"],"all histories mixing plain and conditional operations with conditions that accept, refuse, inspect or panic",
  "Existing tests use constant conditions on one key in a tree of one node and never look at what the condition is given.",
  ["src/put.rs","src/del.rs","src/hb.rs","src/prefixed.rs"],
  [("condition in put","src/put.rs put_compare_and_swap"),("condition in delete","src/del.rs del_compare_and_swap")],
  observe=["Hyperbee::put_compare_and_swap","Hyperbee::del_compare_and_swap","Prefixed::put_compare_and_swap","Prefixed::del_compare_and_swap"])
p("C08","A sub-tree is an isolated map over its own key space",
  "For every prefix, separator and history interleaving operations on the main tree and on several sub-trees, a sub-tree behaves exactly as a separate ordered map of the entries whose full key starts with prefix followed by separator, with that part removed: get, put, delete, conditional writes and traversal in any range and direction see those entries, all of them, and no others. Writing key k through a sub-tree is the same as writing prefix + separator + k to the main tree.",
  ["inputs","histories","configurations"],"all prefixes and separators (including empty, nested, one a prefix of another, ending in 0xFF), keys, ranges and directions",
  "Existing tests use one ASCII prefix and neighbours that never share its first bytes; the edges of a prefix's key range (the bare prefix, 0xFF bytes, empty prefix, keys between prefix and prefix+separator) are not touched.",
  ["src/prefixed.rs","src/hb.rs"],
  [("key prefixing","src/prefixed.rs with_key_prefix!"),("range translation and key stripping","src/prefixed.rs Prefixed::traverse"),("end of the prefix's range","src/prefixed.rs increment_bytes")],
  observe=["Hyperbee::sub","Prefixed::*"])
p("C09","A failed write changes nothing",
  "If the storage fails any read or the append during a put, delete, conditional write or header creation (or the core is not writable), the operation returns an error, nothing is appended (on a new log at most the header), and the same handle afterwards reads exactly the tree as it was before and can retry or continue with other writes as if the failed attempt had not been made.",
  ["fault_sequences","histories"],"every storage call of every operation in every history, failing with an I/O error, a missing block or not-writable",
  "No existing test injects a storage failure.",
  ["src/put.rs","src/del.rs","src/blocks.rs","src/tree.rs"],
  [("single append at the end of an operation","src/blocks.rs Blocks::add_changes"),("error propagation","src/error.rs"),("cached nodes","src/blocks.rs Blocks::cache, BlockEntry::get_tree_node")],
  observe=["operation results and later reads under injected faults"])
p("C10","Concurrent operations are linearizable",
  "For every set of operations run concurrently on one handle and its sub-trees, under every interleaving at the points where they wait, each operation takes effect at one instant between its call and its return: no write is lost or applied to a stale tree, returned log indexes are the ones actually written, each read (point read or traversal) sees one single version that was current during the call, and the log is what the same writes produce one after another.",
  ["schedules","inputs"],"all interleavings at await points of small sets of concurrent operations on trees of any shape",
  "No existing test runs two operations at once.",
  ["src/hb.rs","src/prefixed.rs","src/tree.rs","src/blocks.rs"],
  [("tree lock","src/hb.rs tree: Shared<Tree>"),("version read before the changes are built","src/put.rs, src/del.rs")],
  observe=["results of concurrently polled operations and the resulting log"])
p("C11","An open iterator is a snapshot",
  "A traversal stream yields exactly the entries that were in its range at the moment traverse returned it, in order, no matter which puts, deletes (including those that split, merge or rotate nodes it has yet to visit) or other traversals run while it is open or how slowly it is consumed.",
  ["histories","schedules"],"all trees, ranges, and positions of any writes between any two items of one or more open streams",
  "Existing tests drain every stream before the next write.",
  ["src/traverse.rs","src/tree.rs","src/blocks.rs","src/lib.rs"],
  [("stream holds the root it started from","src/traverse.rs Traverse::root"),("nodes are immutable once stored","src/blocks.rs BlockEntry::get_tree_node")],
  observe=["Hyperbee::traverse interleaved with writes"])
p("C12","A replicating reader sees a true version or an error, never a wrong answer",
  "A read-only tree whose core receives blocks from a writer, in any order and possibly never some of them, answers every get and traversal either with what the writer's tree held at the length the reader's core has reached, or with an error when a needed block has not arrived; blocks arriving later make the same handle answer correctly. Connecting two trees with a replication stream, one side as initiator and the other not, brings the reader to the writer's content.",
  ["schedules","histories","fault_sequences"],"all writer histories, arrival orders, missing blocks, and read points between arrivals",
  "The one replication test sends one key over a loopback connection that delivers everything in order.",
  ["src/tree.rs","src/blocks.rs","src/hb.rs"],
  [("root from the current length","src/tree.rs get_root"),("a missing block is an error","src/blocks.rs Blocks::get"),("replication","src/blocks.rs Blocks::add_stream")],
  observe=["Hyperbee::add_stream","reads on a partially filled core"])
p("C13","Malformed blocks give errors, never panics or endless reads",
  "Whatever bytes the log contains (a replicated log is written by somebody else), opening it and reading it with get, traverse and the debug views, or writing to it, always finishes with a result or an error (a traversal when its consumer stops at the first error): it never panics, never loops forever or consumes memory without bound, and never reports an entry whose key differs from the one asked for.",
  ["inputs"],"all byte contents of any block: random, truncated, bit-flipped, or well-formed with wrong references",
  "No existing test reads a block this library or JavaScript Hyperbee did not write.",
  ["src/blocks.rs","src/lib.rs","src/traverse.rs","src/tree.rs","src/del.rs"],
  [("decoding","src/blocks.rs make_node_vec, BlockEntry::new"),("node lookup by offset","src/blocks.rs BlockEntry::get_tree_node"),("descent","src/lib.rs nearest_node, Children::get_child")],
  observe=["Hyperbee over fabricated blocks"])
p("C14","The C interface answers every lookup exactly once with the right bytes",
  "Through the C interface, opening a storage directory and looking up any key calls the callback exactly once: with error code 0, the log index and exactly the stored value's bytes when the key has a value; with log index 0 and an empty value when the key is not in the tree; and with a non-zero error code when the lookup failed. The buffers handed out can be released with the interface's own release functions, and opening a null or unusable path returns a null handle.",
  ["inputs","histories"],"all stored contents and looked-up keys (present, absent, with absent or empty value, binary), several lookups in flight, unreadable logs",
  "The C test needs a JavaScript-written store and looks up one present key.",
  ["src/external.rs"],
  [("lookup task and callback","src/external.rs hb_get"),("buffer hand-over","src/external.rs c_vec_from_vec, deallocate_rust_buffer, deallocate_rust_string"),("open","src/external.rs hyperbee_from_storage_directory")],
  observe=["extern C functions called with a recording callback"])
p("C15","The Python interface behaves as the same map",
  "Through the generated Python bindings, every history of put, get, delete, version and sub-tree operations on a tree in memory or in a storage directory returns what a plain map gives, with the same log indexes, the difference between an absent and an empty value preserved, also when several calls are awaited together or one is cancelled; a directory reopened through Python or Rust shows the same content, a tree whose Python objects are gone keeps no file open, and a failure is raised as HyperbeeError.",
  ["inputs","histories"],"all histories over arbitrary byte keys and values, with reopen points, concurrent awaits and cancellations",
  "The Python tests run two hard-coded scripts.",
  ["src/ffi.rs","src/prefixed.rs","src/error.rs"],
  [("exported wrappers","src/ffi.rs"),("records","src/ffi.rs Gotten, Putten; src/prefixed.rs PrefixedConfig")],
  observe=["generated Python module"])
p("C16","A traversal range is accepted exactly when it makes sense",
  "The range builder accepts every range that can be satisfied: any lower bound that is not above the upper bound, including unbounded sides whether left out or given explicitly, and equal bounds with both ends inclusive. Given both bounds, it rejects a lower bound greater than the upper, an upper bound of minus infinity, a lower bound of plus infinity, and equal finite bounds with an end explicitly exclusive; unset options take the documented defaults (unbounded, inclusive, forward) and set options are kept as given.",
  ["inputs","configurations"],"all combinations of bounds (unset, finite, plus or minus infinity), inclusiveness flags (unset, true, false) and direction",
  "Existing tests build about fifteen fixed configurations, never with an explicit infinite bound on one side and another bound on the other.",
  ["src/traverse.rs"],
  [("validation","src/traverse.rs validate_traverse_config_builder"),("defaults","src/traverse.rs TraverseConfig")],
  observe=["TraverseConfigBuilder::build"])
p("C17","Bounds compare with keys as byte order with true infinities",
  "Comparing a finite bound with a key is exactly lexicographic byte comparison (a proper prefix sorts first), the bound made from a number is that number's decimal text, and an infinite bound is never equal to any key: minus infinity is below and plus infinity above every key, including the empty key and keys of 0xFF bytes of any length.",
  ["inputs"],"all pairs of bound and key",
  "The one test that runs compares two three-byte keys.",
  ["src/keys.rs","src/traverse.rs"],
  [("infinite keys","src/keys.rs"),("limit values","src/traverse.rs PartialOrd<[u8]> for LimitValue")],
  observe=["LimitValue comparison operators","TraverseConfig::default bounds"])
p("C18","A tree has exactly one header, first, and it is the right one",
  "Block 0 of every tree is the header naming the hyperbee protocol, carrying exactly the metadata given if it was created explicitly and none otherwise; it is written at most once. Creating a header on a log that already has any block fails and writes nothing, and reads on an empty log write nothing.",
  ["histories","inputs"],"all histories of header creation, reads and writes, all metadata contents",
  "Existing tests only look at version numbers after the first put.",
  ["src/tree.rs","src/schema.proto","src/hb.rs"],
  [("header creation","src/tree.rs create_header, ensure_header, get_root")],
  observe=["Hyperbee::create_header","block 0 of the hypercore"])
p("C19","A cancelled operation happens entirely or not at all",
  "If the future of any operation is dropped at any point before it completes, the log holds either nothing of it or its complete single block (on a new log the header in front of it, which may be there alone), the same handle afterwards reads a tree that equals the state before or after that operation in full, no lock stays held, and further operations work as usual.",
  ["crash_points","schedules","histories"],"every await point of every operation on every history",
  "No existing test drops a future.",
  ["src/put.rs","src/del.rs","src/blocks.rs","src/hb.rs","src/traverse.rs"],
  [("single append","src/blocks.rs Blocks::add_changes"),("locks released on drop","tokio RwLock guards")],
  observe=["futures polled a chosen number of times and dropped"])
p("C20","The debug views show the real tree",
  "The reported height is the number of levels of the stored tree (0 when nothing was ever written, 1 for an emptied tree), and the printed form of a tree whose keys are text lists every live key once in ascending order, one per line, indented by one tab per level below the root at which the key is stored.",
  ["inputs","histories"],"all histories with UTF-8 keys",
  "Existing tests print trees of at most a few dozen sequential keys.",
  ["src/lib.rs","src/tree.rs","src/traverse.rs"],
  [("height","src/lib.rs Node::height, src/tree.rs Tree::height"),("print","src/traverse.rs print")],
  observe=["Hyperbee::height","Hyperbee::print"])
p("C21","A read that hits a storage error says so and terminates",
  "When the storage fails or lacks any block needed during a get, a traversal, or a debug view (height, print), the get or view returns an error and the traversal yields an error item: it never presents a partial result as complete, never yields an entry that is wrong, out of order or repeated, and always ends after finitely many items, and can be polled after an error without panicking. Once the storage works again, the same handle gives the full correct answer.",
  ["fault_sequences","inputs"],"every storage read of every get and traversal over every tree, range and direction, failing once or from then on",
  "No existing test makes a storage read fail.",
  ["src/traverse.rs","src/lib.rs","src/blocks.rs"],
  [("errors pushed into the stream","src/traverse.rs impl Stream for Traverse"),("errors not cached","src/blocks.rs Blocks::get")],
  observe=["Hyperbee::get","Hyperbee::traverse under injected read faults"])
p("C22","Logs written by other Hyperbee writers are read correctly",
  "A log that is a valid Hyperbee by the published schema but encoded differently (unknown extra fields, other field order, repeated numbers unpacked or packed in several pieces, nodes in a block that nothing refers to, batches that put a tree's nodes in another order or several entries before one root) is read as the map it encodes by get and traversal, and writing to it yields again a log that encodes the right map.",
  ["inputs","histories"],"all wire-format variations of all tree histories, including multi-entry batches",
  "Existing tests read only what this library or one JavaScript script wrote.",
  ["src/blocks.rs","src/schema.proto","src/tree.rs"],
  [("prost decoding","src/blocks.rs get_from_core, make_node_vec"),("schema","src/schema.proto")],
  observe=["Hyperbee over re-encoded blocks"])
p("C23","Lookups and ranges touch only the blocks on their search path",
  "On a freshly opened tree a point lookup (hit or miss), and finding the root for a write, fetches only blocks that hold nodes on the path from the root to the key or entries of those nodes, so it succeeds on a sparse copy of the log that has only those blocks. A delete fetches in addition only blocks of the nodes next to that path under the same parents and of the paths to the keys adjacent to the deleted one. A traversal of a range, or of a sub-tree, fetches only blocks of nodes and entries that lie on the two boundary paths or inside the range, not the rest of the log, and one that is consumed in part only those up to where it was consumed.",
  ["inputs","histories"],"all trees, keys and ranges, on a cold handle",
  "No existing test observes which blocks are fetched.",
  ["src/lib.rs","src/traverse.rs","src/blocks.rs","src/tree.rs"],
  [("descent","src/lib.rs nearest_node"),("start index and early stop","src/traverse.rs make_child_key_index_iter, in_bounds")],
  observe=["blocks requested from the hypercore"])
p("C24","Watching the tree does not disturb it",
  "Attaching a tracing subscriber that records everything up to any level, and formatting a tree or sub-tree handle with its Debug implementation at any moment, also while an operation on it is pending or after one has failed, never panics and never blocks, and every result, item, error and every byte of the log is the same as without.",
  ["schedules","histories","inputs"],"all histories, all trace levels, every await point",
  "Existing tests run without a subscriber and never format a handle.",
  ["src/lib.rs","src/blocks.rs","src/put.rs","src/del.rs","src/traverse.rs","src/changes.rs"],
  [("Debug implementations over locks","src/lib.rs Debug for Children, Node; src/blocks.rs Debug for BlockEntry"),("instrumented functions","#[tracing::instrument] in src/put.rs, del.rs, traverse.rs, blocks.rs, lib.rs")],
  observe=["results and log bytes, watched and unwatched"])
p("C25","A tree that is dropped is released, and using one does not leak",
  "When the last handle, sub-tree and stream of a tree has been dropped, in any order and whatever was done with it before (also operations that failed or were dropped while pending, streams not read to the end, damaged logs, and closing it through the C interface), nothing keeps its hypercore, storage files or memory; until then the remaining sub-trees and streams keep working although the handle they came from is gone; and doing the same again, opening and dropping a tree as well as operations that change nothing on one that has been read, does not take more memory each time.",
  ["histories","inputs","faults"],"all histories of opening, using and dropping trees, sub-trees and streams, and all logs",
  "Unit tests end before a leak matters.",
  ["src/blocks.rs","src/tree.rs","src/hb.rs","src/prefixed.rs","src/traverse.rs","src/external.rs","src/lib.rs"],
  [("the cache owns no handle on its owner","src/blocks.rs StoredNode, BlockEntry, Blocks"),("shared ownership of the tree","src/hb.rs Hyperbee, src/prefixed.rs Prefixed"),("streams own what they read from","src/traverse.rs Traverse"),("closing from C","src/external.rs close_hyperbee")],
  observe=["references to the storage after drops","net allocated bytes after repetitions","open storage directories"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"])>80]
print(len(P))
