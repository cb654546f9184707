#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

OBS_MAP = ["insert", "remove", "get", "get_mut", "contains_key/contains", "len", "is_empty", "clear", "floor", "ceil", "min", "max", "iter", "iter_mut", "into_iter"]
def ordered(id, title, mods, extra="", histories="", mech=(), state=()):
    p(id, title,
      "After any sequence of insertions, removals, clears and lookups, the map and the set answer every query (lookup, containment, length, emptiness, smallest, largest, greatest key <= k, least key >= k, in-order iteration) exactly as a mathematical ordered map would; insertion returns the entry it replaced, removal returns the entry it removed, and nothing panics." + extra,
      ["inputs", "histories"], "every history of operations with arbitrary keys, values and probe keys" + histories,
      "The tests run a dozen fixed scripts per collection plus one random run; rebalancing and linking cases depend on the relative order of all keys and on the removal sequence, which a few samples do not cover.",
      mods, mech, state, OBS_MAP)

ordered("P01", "AVL map and set behave as an ordered map for every history", ["src/avl_tree/map.rs", "src/avl_tree/set.rs", "src/avl_tree/tree.rs", "src/avl_tree/node.rs"],
  mech=[("insert/remove with rotations", "src/avl_tree/tree.rs insert, remove, balance, combine_subtrees, remove_min"), ("rotate_left/rotate_right/update", "src/avl_tree/node.rs")],
  state=[("Node.height", "height of the subtree, drives balancing", "src/avl_tree/node.rs")])
p("P02", "AVL lookups stay logarithmic after every history",
  "After any sequence of insertions and removals, a lookup in the AVL map or set inspects at most as many stored keys as the height of the tallest AVL tree holding that many keys (about 1.44 log2 n).",
  ["inputs", "histories"], "every history of insertions and removals, every probe key",
  "No test looks at balance; only the comparison count of a lookup after particular removal sequences shows that the tree has degenerated.",
  ["src/avl_tree/tree.rs", "src/avl_tree/node.rs"], [("balance after insert and remove", "src/avl_tree/tree.rs"), ("height bookkeeping", "src/avl_tree/node.rs update")],
  [("Node.height", "cached height", "src/avl_tree/node.rs")], ["number of stored keys compared by get"])
ordered("P03", "Red-black map and set behave as an ordered map for every history", ["src/red_black_tree/map.rs", "src/red_black_tree/set.rs", "src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"],
  mech=[("insert/remove with colour shifts and rotations", "src/red_black_tree/tree.rs")], state=[("Node.color", "red or black", "src/red_black_tree/node.rs")])
p("P04", "Red-black lookups stay logarithmic after every history",
  "After any sequence of insertions and removals, a lookup in the red-black map or set inspects at most 2*log2(n+1) of the n stored keys.",
  ["inputs", "histories"], "every history of insertions and removals, every probe key",
  "No test looks at balance; a colour mistake leaves every answer right and only lengthens paths after particular histories.",
  ["src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"], [("fix-up on insert and remove", "src/red_black_tree/tree.rs")],
  [("Node.color", "red or black", "src/red_black_tree/node.rs")], ["number of stored keys compared by get"])
ordered("P05", "Splay map and set behave as an ordered map for every history", ["src/splay_tree/map.rs", "src/splay_tree/set.rs", "src/splay_tree/tree.rs", "src/splay_tree/node.rs"],
  extra=" Lookups, which reorganise the structure, never change any later answer.",
  mech=[("top-down splay", "src/splay_tree/tree.rs")], state=[("UnsafeCell root", "tree reorganised by lookups through a shared reference", "src/splay_tree/map.rs")])
ordered("P06", "Treap map and set behave as an ordered map for any priorities", ["src/treap/map.rs", "src/treap/set.rs", "src/treap/tree.rs", "src/treap/node.rs"],
  histories=", and every outcome of the random priorities",
  mech=[("split/merge by key and priority", "src/treap/tree.rs")], state=[("Node.priority", "random heap priority", "src/treap/node.rs"), ("Node.len", "subtree size", "src/treap/node.rs")])
p("P07", "Treap set algebra and splitting match ordinary set theory",
  "For any two treap maps or sets, union, intersection, difference and symmetric difference (and the + and - operators) hold exactly the keys set theory prescribes, keep the value of the left operand where both have the key, and have the right length and order; splitting at a key leaves the keys below it (and the key itself only when not inclusive) and returns the rest. The results are ordinary collections: every later operation on them is right.",
  ["inputs", "histories"], "every pair of operands, every split key and flag, every outcome of the random priorities",
  "The tests use two fixed operands per operation; the recursion depends on the interleaving of both key sets and on the priorities.",
  ["src/treap/tree.rs", "src/treap/map.rs", "src/treap/set.rs"], [("union, inter, subtract, split, merge", "src/treap/tree.rs")], (), ["union", "intersection", "difference", "symmetric_difference", "Add", "Sub", "split_off"])
def seq(id, title, files, mech, rnd):
    p(id, title,
      "After any sequence of insertions at an index, removals at an index, pushes, pops, clears and concatenations, the list holds exactly the sequence of values a growable array would, through indexed reads and writes, length and all three iterators.",
      ["inputs", "histories"], "every history of operations with arbitrary indices in range and values, and every outcome of " + rnd,
      "The tests cover a handful of fixed index sequences; the width and subtree-size bookkeeping depends on every past index and random outcome and usually goes wrong only several operations later.",
      files, mech, (), ["insert", "remove", "push_front", "push_back", "pop_front", "pop_back", "get", "get_mut", "index", "len", "iter", "iter_mut", "into_iter", "Add"])
seq("P08", "TreapList is a sequence for every history and any priorities", ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/treap/node.rs"], [("split/merge by position", "src/treap/implicit_tree.rs")], "the random priorities")
ordered("P09", "Skip map and set behave as an ordered map for any tower heights", ["src/skiplist/map.rs", "src/skiplist/set.rs"],
  histories=", and every outcome of the random tower heights",
  mech=[("search with per-level links", "src/skiplist/map.rs insert, remove, get, floor, ceil"), ("tower allocation", "src/skiplist/map.rs Node::allocate")],
  state=[("links", "forward pointers per level", "src/skiplist/map.rs")])
p("P10", "Skip map and set algebra match ordinary set theory",
  "For any two skip maps or sets, union, intersection, difference and symmetric difference (and the + and - operators) hold exactly the keys set theory prescribes, keep the value of the left operand where both have the key, and have the right length and order. The results are ordinary collections: every later operation on them is right.",
  ["inputs", "histories"], "every pair of operands and every outcome of the random tower heights",
  "The tests use two fixed operands per operation; the merges relink every level of every tower, so the outcome depends on the interleaving of the key sets and on all heights.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs"], [("level-wise merge", "src/skiplist/map.rs union, intersection, map_difference")], (), ["union", "intersection", "difference", "symmetric_difference", "Add", "Sub"])
seq("P11", "SkipList is a sequence for every history and any tower heights", ["src/skiplist/list.rs"], [("per-level distances", "src/skiplist/list.rs insert, remove, add")], "the random tower heights")
p("P12", "In-memory collections release every element exactly once",
  "Whatever the history, and whether a collection is dropped, cleared, turned into an iterator that is only partly consumed, merged, split or overwritten, every key and value handed to an in-memory collection is dropped or returned exactly once, no freed or foreign memory is touched, and no memory remains allocated after the collection and its results are gone.",
  ["inputs", "histories"], "every history over every in-memory collection, including partly consumed iterators and dropped results",
  "The tests never count drops and use plain integers, for which a double drop or leak is invisible.",
  ["src/skiplist/map.rs", "src/skiplist/list.rs", "src/avl_tree", "src/red_black_tree", "src/splay_tree", "src/treap", "src/radix", "src/arena.rs"],
  [("manual node allocation and Drop impls", "src/skiplist/map.rs, src/skiplist/list.rs"), ("mem::replace based ownership moves", "tree.rs of each tree"), ("vacant/occupied blocks", "src/arena.rs")], (), ["drop count of keys and values", "allocator calls"])
p("P13", "Radix map and set behave as a map over byte strings for every history",
  "After any sequence of insertions, removals and clears with arbitrary byte-string keys (empty and shared-prefix keys included), lookup, mutable lookup, containment, length and emptiness are exactly those of a mathematical map; insertion and removal return the whole key and value they replaced or removed, and nothing panics.",
  ["inputs", "histories"], "every history over arbitrary byte strings",
  "The tests use about a dozen fixed keys; splitting and joining of nodes depends on all common prefixes and on the removal order.",
  ["src/radix/map.rs", "src/radix/set.rs", "src/radix/tree.rs", "src/radix/node.rs"], [("node split on insert, merge on remove", "src/radix/tree.rs"), ("child list", "src/radix/node.rs")], [("Node.key", "byte fragment on the edge", "src/radix/node.rs")], ["insert", "remove", "get", "get_mut", "contains_key", "len", "is_empty", "clear"])
p("P14", "Radix ordered iteration, extremes and prefix queries are exact",
  "Iteration in all its forms yields every stored byte-string key once, in lexicographic order, with its value; min and max are the first and last of them. The longest-prefix query returns, in lexicographic order, exactly the stored keys that share the longest common prefix with the probe (none if no key shares a byte with it; an empty probe, which shares its whole self with every key, returns all keys), and so depends only on the stored keys, not on the history that stored them.",
  ["inputs", "histories"], "every history over arbitrary byte strings and every probe",
  "The tests check six fixed prefix queries and one iteration; results depend on the node shapes that past splits and joins left behind.",
  ["src/radix/tree.rs", "src/radix/map.rs", "src/radix/set.rs"], [("get_longest_prefix, push_all_children, min, max", "src/radix/tree.rs"), ("iterators", "src/radix/map.rs")], (), ["get_longest_prefix", "min", "max", "iter", "iter_mut", "into_iter"])
p("P15", "Iterators of the ordered collections agree and writes through them persist",
  "For every in-memory map, list and set, the shared, mutable and consuming iterators yield the same entries in the same order, also when created again, and end with None; a value written through the mutable iterator, the mutable lookup or the mutable index is the one every later read returns, and nothing else changes.",
  ["inputs", "histories"], "every history that built the collection, every subset of values written",
  "The tests iterate two- to three-element collections once; stack-based traversals depend on the shape of the structure.",
  ["src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs", "src/treap/map.rs", "src/treap/list.rs", "src/skiplist/map.rs", "src/skiplist/list.rs", "src/radix/map.rs"],
  [("explicit-stack in-order traversal", "iterator impls in each map.rs/list.rs")], (), ["iter", "iter_mut", "into_iter", "get_mut", "Index", "IndexMut"])
p("P16", "Arena handles always reach exactly their own live value",
  "For any chunk size and any sequence of allocations, frees, reads and writes, a handle of a live allocation reaches the value last stored through it, distinct live handles never alias, a freed handle is not found until its slot is handed out again, freeing returns the stored value, and freed slots are reused before the arena grows.",
  ["inputs", "histories"], "every chunk size and history of allocate, free, get, get_mut",
  "The tests use one chunk size and two or three allocations; free-list and chunk-boundary arithmetic depends on the whole history.",
  ["src/arena.rs"], [("free list threaded through vacant blocks", "src/arena.rs allocate, free"), ("chunk growth", "src/arena.rs allocate")], [("head", "first vacant block", "src/arena.rs")], ["allocate", "free", "get", "get_mut", "Index"])
p("P17", "B+ tree map behaves as an ordered map for every degree and history",
  "For any leaf and internal degree the constructor accepts and any sequence of insertions, removals, lookups, clears and iterations, the on-disk B+ tree map returns exactly what a mathematical ordered map would (replaced and removed entries, lookups, length, min, max, in-order iteration), and nothing panics or fails while the disk works.",
  ["inputs", "histories", "configurations"], "every history of operations, key values and node degrees",
  "The tests use a few fixed degrees and key orders; splits, borrowings and merges of leaves and inner nodes depend on the fill of neighbouring pages along the whole history.",
  ["src/bp_tree/map.rs", "src/bp_tree/node.rs", "src/bp_tree/pager.rs"], [("split, borrow, merge", "src/bp_tree/map.rs insert, remove; src/bp_tree/node.rs"), ("page allocation", "src/bp_tree/pager.rs")], [("leaf chain", "next-leaf links used by iteration", "src/bp_tree/node.rs")], ["insert", "remove", "get", "contains_key", "len", "min", "max", "clear", "iter_mut"])
p("P18", "A B+ tree map reopened from its file is the map that was closed",
  "At any point of any history, dropping the B+ tree map and opening its file again gives a map with the same entries, length, extremes and order, and every later operation on it behaves as if it had never been closed.",
  ["inputs", "histories", "crash_points"], "every history and every point at which the map is dropped and reopened",
  "One test reopens one map once; whether metadata, root and free list were written depends on the last operation.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"], [("metadata page", "src/bp_tree/pager.rs Metadata, open, write_metadata")], [("Metadata", "root page, page count, free list head, degrees, length", "src/bp_tree/pager.rs")], ["open", "all queries after open"])
p("P19", "B+ tree pages never overflow, whatever the key and value types and sizes",
  "For any key and value types whose serialized size is within the sizes given at construction, every node, full ones included, fits in its page, so storing one node never alters or truncates another one and everything stored can be read back.",
  ["inputs", "configurations"], "every key/value type and declared size, every fill of a node",
  "The tests use 4-byte integers only, for which the page arithmetic leaves slack.",
  ["src/bp_tree/node.rs", "src/bp_tree/pager.rs"], [("degree and page-size computation", "src/bp_tree/node.rs get_degree, get_max_size; src/bp_tree/map.rs new")], (), ["every entry after filling nodes"])
p("P20", "B+ tree storage is recycled: the file never outgrows its peak content",
  "Pages released by removals are handed out again before the file grows, no page is ever part of two nodes, and so the file of a map that is filled and emptied repeatedly stays within the size its largest content needed; clearing the map returns it to the size of an empty one.",
  ["inputs", "histories"], "every history of insertions and removals",
  "No test looks at the file size or reuses pages after a removal.",
  ["src/bp_tree/pager.rs"], [("free-page list", "src/bp_tree/pager.rs allocate_node, deallocate_node")], [("free_page", "head of the free list", "src/bp_tree/pager.rs")], ["length of the backing file", "all queries"])
def lsm(id, name, files, mech, limits=""):
    p(id, "LSM map with %s compaction behaves as a map for every history" % name,
      "With the %s strategy, for any thresholds%s and any sequence of insertions, removals, flushes, clears and lookups, a lookup returns the most recently inserted value, or nothing if the key was never inserted or was removed since; flushing and compaction never lose, duplicate or resurrect an entry." % (name, limits),
      ["inputs", "histories", "configurations"], "every history, key and value, every position of flushes and compactions, every strategy parameter",
      "The tests insert ascending keys and look them up; precedence among overlapping runs, tombstone removal and table selection depend on which versions of a key lie in which run.",
      files, mech, (), ["insert", "remove", "get", "contains_key", "flush", "clear"])
lsm("P21", "size-tiered", ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs"], [("bucket selection and merge", "src/lsm_tree/compaction/size_tiered.rs"), ("metadata replacement", "src/lsm_tree/compaction/size_tiered.rs try_replace_metadata")])
lsm("P22", "leveled", ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/leveled.rs"], [("level merges by key range", "src/lsm_tree/compaction/leveled.rs compact"), ("metadata replacement", "src/lsm_tree/compaction/leveled.rs try_replace_metadata")], " (at least one table per level, a growth factor of at least one)")
p("P23", "A flushed LSM map reopened from disk is the map that was closed",
  "At any point of any history at which the LSM map was flushed, dropping it and opening its directory again (either strategy, also right after creation) gives the same entries, and later operations keep precedence over everything stored before the reopening.",
  ["inputs", "histories", "crash_points"], "every history and flush point, both strategies",
  "The tests reopen one map after ascending insertions; logical times and run metadata matter only when versions of one key straddle the reopening.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"], [("metadata.dat and logical_time.dat", "strategies' open/save_metadata"), ("SSTable files", "src/lsm_tree/sstable.rs")], [("logical time", "orders runs by age", "strategies")], ["open", "all queries after open"])
p("P24", "LSM length, extremes and iteration reflect exactly the live entries",
  "At any point of any history, flushed or not, the exact length is the number of live keys, emptiness agrees with it, the length hint is never below it, min and max are the smallest and largest live keys, and iteration yields every live key once, ascending, with its newest value; none of these queries changes the contents.",
  ["inputs", "histories"], "every history with live, overwritten and removed keys spread over memory and runs, both strategies",
  "The tests query after ascending insertions only; removed keys at the extremes or in older runs need particular histories.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("merging iterators", "src/lsm_tree/compaction/*.rs SizeTieredIter, LeveledIter"), ("min/max over memory and runs", "src/lsm_tree/map.rs")], (), ["len", "len_hint", "is_empty", "min", "max", "iter"])
p("P25", "Background compaction never changes an answer, whatever its timing",
  "Compaction runs on its own thread; whenever it starts, progresses and finishes relative to the user's operations, every answer is the one a map without background work gives, no operation panics or fails, and the call that waits for compaction returns with it finished.",
  ["schedules", "histories"], "every interleaving of the compaction thread with the operations of the user's thread",
  "Tests see whatever interleaving the machine happens to produce; the window in which a finished compaction is adopted while newer runs exist is narrow.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("is_compacting flag, next_metadata mutex, thread join", "strategies' try_compact, try_replace_metadata, flush")], [("next_metadata", "result of a finished compaction", "strategies")], ["all queries while a compaction runs"])
p("P26", "The lock-free stack is linearizable under every schedule",
  "For threads pushing and popping concurrently, every outcome is one that some sequential order of the operations, consistent with real time, gives on a last-in first-out stack: no value is lost, duplicated or invented, a pop finds nothing only when the stack could be empty, the length is never below the number of values on the stack, and after all threads finish it is pushes minus successful pops.",
  ["schedules", "histories"], "every interleaving of atomic steps of the threads",
  "The tests run single-threaded scripts or one racing run; losing a compare-and-swap race at a particular step is rarely hit.",
  ["src/sync/stack.rs"], [("compare-and-swap on the top pointer", "src/sync/stack.rs push, try_pop"), ("epoch-based reclamation", "src/sync/stack.rs")], [("top", "head of the linked list", "src/sync/stack.rs")], ["push", "try_pop", "len", "is_empty"])
p("P27", "The lock-free stack hands over or drops every value exactly once",
  "Every value pushed on the stack is either returned by exactly one pop and then owned by the caller alone, or dropped exactly once when the stack goes away; no node is reclaimed while another thread may still read it, and none is leaked once the stack and all guards are gone.",
  ["schedules", "histories"], "every interleaving and every history ending with the stack dropped",
  "The tests push integers, for which a double drop or a leak is invisible, and reclamation is deferred past the end of the test.",
  ["src/sync/stack.rs"], [("ptr::read of the value and deferred destruction of the node", "src/sync/stack.rs try_pop")], (), ["drop count of values", "allocator calls"])
p("P28", "Invalid indices and handles are rejected and leave the collection intact",
  "Out-of-range positions in the lists, absent keys in index expressions and freed or foreign handles of the arena are answered by None from the checked accessors and by a panic, never by wrong data, from the indexing and mutating ones; if the panic is caught, the collection still holds exactly what it held before and keeps working.",
  ["inputs", "histories"], "every index or key, extreme values included, after every history",
  "The tests try one or two out-of-range indices and never use the collection after a caught panic.",
  ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/skiplist/list.rs", "src/arena.rs", "src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs", "src/treap/map.rs", "src/skiplist/map.rs", "src/radix/map.rs"],
  [("index checks before mutation", "list.rs insert, remove, get; arena.rs free")], (), ["panic or None", "contents afterwards"])
p("P29", "A failing disk operation surfaces as an error, never as a wrong answer",
  "If any single file operation fails while the B+ tree map or the LSM map executes a call, that call returns an error instead of panicking or reporting success, and no query returns a wrong answer because of it; an LSM map still finds everything stored before and after such a call once the disk works again. A file operation that fails on the background thread of the LSM map only abandons that compaction: no later answer of the map is wrong because of it.",
  ["fault_sequences", "inputs", "histories"], "every call, every one of its file operations failing",
  "No test injects a disk fault.",
  ["src/bp_tree/map.rs", "src/bp_tree/pager.rs", "src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("Result propagation", "? operators throughout the pager and the strategies")], (), ["Result of every call"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
