#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": None},
    })

D = "dllist/dllist.go"; E = "dllist/element.go"
p("C01", "A doubly linked list is never left malformed",
  "After any public operation on a doubly linked list that was well-formed (including a never-initialised zero list), the list is well-formed again: walking forward from Front and backward from Back visits the same elements in opposite order, the walk ends, and Len is the number of elements visited. No operation panics on such input.",
  ["inputs", "histories"], "every list length, every choice of element and mark arguments (equal, adjacent, first, last, apart), zero-value and constructed receivers, aliased list arguments",
  "the tests use lists of two to four elements and one relative position per call; corruption that needs adjacency, an end position, an aliased list or a zero list is not sampled",
  [D, E], [("four-pointer splice in insert/remove/move", D), ("two adjacency cases in element exchange", D), ("lazy initialisation of the sentinel", D)],
  [("root/next/prev", "circular sentinel list", D), ("len", "element count", D), ("list", "owner of an element", E)],
  ["Front/Back/Next/Prev/Len"])
p("C02", "List edits put the element exactly where asked and keep the rest in order",
  "Inserting, moving, swapping or removing an element of a doubly linked list changes the sequence exactly as the operation says: the named element ends at the named place, every other element keeps its identity, value and relative order. Insertions return the new element, removals return the removed value, and positional lookup returns the element at that index or nil outside the range.",
  ["inputs", "histories"], "every list, every member argument and mark, every index",
  "tests check a few positions on short lists; most positional methods (MoveToFront/Back, InsertBefore on elements, Get) have no test at all",
  [D, E], [("insertion after a given predecessor", D), ("move around a mark", D), ("index walk from the nearer end", D)],
  [("next/prev", "sequence order", E)], ["the element sequence", "returned element/value"])
p("C03", "Handles that are not members of the list are inert",
  "Passing a doubly linked list an element that is not, or no longer, one of its members (removed, dropped by clearing or sorting the list, or owned by another list) changes no list; insertions relative to it return nil and a removed element no longer reaches its former neighbours.",
  ["inputs", "histories"], "every list operation with a foreign, removed or cleared-away element as element or mark",
  "the tests try one foreign element and one removed element with one operation each",
  [D, E], [("owner check before every edit", D), ("removal and clearing reset the owner", D)],
  [("list", "owner of an element", E)], ["both lists' sequences and lengths"])
p("C04", "Whole-list operations keep order and copy every value once",
  "Appending or prepending a list (also to itself), pushing it at a mark, converting it to a slice and ranging over it deliver every value of the source list exactly once and in order, and leave the source as it was unless it is the receiver. Sorting keeps exactly the same multiset of values, in the order the comparison asks for, equal values keeping their order.",
  ["inputs", "histories"], "every pair of lists incl. the same list twice, every mark, every length, every comparison function",
  "tests concatenate three short lists, sort three numbers, and never use a mark",
  [D], [("count taken before copying so that self-append terminates", D), ("partition around the first element", D)],
  [], ["the resulting sequence of values"])
R = "ring/ring.go"
p("C05", "Rings stay circular and link, unlink and move exactly as specified",
  "Every ring operation leaves every reachable ring circular, with next and previous being inverse. Linking joins two rings or splits one, unlinking removes exactly the requested elements after the receiver and returns them as a ring, moving steps the requested number of elements, and New, Len and Do produce, count and visit each element exactly once; a zero-value ring behaves as a ring of one.",
  ["inputs", "histories"], "all ring sizes, all counts (negative, zero, larger than the ring), same-ring and different-ring links, zero-value elements",
  "tests cover rings up to ten elements and a handful of link shapes",
  [R], [("lazy self-link of a zero element", R), ("four-pointer splice", R)], [("next/prev", "circular neighbours", R)], ["Next/Prev/Len/Do"])
T = "tree/tree.go"
p("C06", "Parent and child links of tree nodes always agree",
  "After any sequence of child assignments, a node is the left or right child of another exactly when that other is its parent: the displaced child is detached and returned, the new child is attached in that slot only, and no other link changes.",
  ["inputs", "histories"], "all histories of left/right assignments incl. nil, re-assigning the same child, moving a child between slots or parents",
  "tests only attach fresh nodes to empty slots",
  [T], [("SetLeft/SetRight maintain both directions", T)], [("Parent/Left/Right", "tree links", T)], ["Parent/Left/Right of every node involved"])
p("C07", "Tree relation queries report exactly the relation the links define",
  "For every tree of mutually consistent links, the root/leaf/left/right, child, sibling, uncle, grandparent, ancestor and descendant queries, the layer of a node and the maximum depth below it (the number of edges on the longest downward path) answer true (or return the node or number) exactly as the links define the relation, and false or nil otherwise, also for absent relatives; by convention every node is an ancestor of itself and none is its own descendant.",
  ["inputs"], "all trees, all pairs of nodes incl. nil, the node itself and unrelated nodes",
  "tests use one complete seven-node tree and only positive queries; missing relatives, nil and unrelated nodes are not sampled",
  [T], [("relations defined through parent and child links", T)], [], ["the query results"])
p("C08", "Tree traversals visit every node exactly once in the prescribed order",
  "Depth-first traversal lists the nodes of a subtree in pre-order and breadth-first traversal lists them level by level from left to right, each node exactly once whatever the shape of the tree, and neither changes the tree.",
  ["inputs"], "all tree shapes (missing left or right children at any level)",
  "tests traverse one complete tree",
  [T], [("explicit stack with right pushed before left", T), ("per-level buckets", T)], [], ["the node sequence"])
p("C34", "Building a tree from a slice places every value exactly once in level order",
  "For a slice of any length, the tree built has one node per value: value k sits at place k of the level order, its node's children are the nodes of the values 2k+1 and 2k+2 (absent beyond the end of the slice), parent and child links agree, the returned node is the root, and no values give no tree.",
  ["inputs"], "all slice lengths",
  "tests build one tree of seven values, where no level is partly filled",
  [T], [("queue-driven construction", T)], [], ["the node links and values"])
H = "heap/heap.go"
p("C09", "Heap operations always restore the heap order and lose nothing",
  "Init, Push, Pop, Remove and Fix leave any heap container ordered (no element less than its parent), Pop returns an element no other is less than, Remove returns the element that was at the index, and elements are only ever exchanged, never lost or duplicated; the min and max heaps order ascending and descending respectively.",
  ["inputs", "histories"], "all container contents and sizes, all indices, all orderings incl. ties",
  "tests use twenty integers in monotone order and random fixes; a sift that stops early or picks the wrong child only shows on particular contents",
  [H, "heap/minheap.go", "heap/maxheap.go"], [("sift up/down", H), ("swap with last then sift", H)], [], ["the container after each call", "returned element"])
p("C10", "Priority queues return the best-priority item with its own value",
  "Pop on a min (max) priority queue returns a priority that no remaining item beats, together with the value pushed with that priority, and removes exactly that item; Push adds exactly one item and Len counts the items.",
  ["inputs", "histories"], "all push/pop histories, all priorities incl. equal ones",
  "tests push strictly monotone priorities equal to the values, so a mix-up of priority and value or of ties is invisible",
  ["pqueue/pqueue.go", "pqueue/minqueue.go", "pqueue/maxqueue.go", H], [("item pairs priority and value", "pqueue/pqueue.go"), ("order by priority", "pqueue/minqueue.go, pqueue/maxqueue.go")], [], ["Pop results"])
S = "set/set.go"
p("C11", "Set operations compute exactly the mathematical result",
  "Membership, insertion, removal, subset, superset, equality, difference, symmetric difference, intersection and union give exactly the mathematical answer for every pair of sets, including empty ones and a set combined with itself. Operations that build a new set leave their operands unchanged and share no storage with them, and mutating operations affect only the named values.",
  ["inputs"], "all sets, all values, all aliasings of operands",
  "tests use two ten-element sets differing in one or two elements; superset and copying are untested",
  [S], [("map membership", S), ("element-wise construction", S)], [], ["membership of every value in operands and result"])
G = "genmap/genmap.go"
p("C12", "The generic map returns and leaves exactly what each method promises",
  "Each generic-map method returns what the map held (or now holds) for the key and changes exactly the entries it names: load-or-store keeps an existing value, otherwise stores the new one, and returns the value now stored; load-and-delete and load-and-store return the previous value. Bulk copy, clear, filter and comparison act on every entry and touch no other map, and a clone shares no storage with its source.",
  ["inputs", "histories"], "all maps, keys present or absent, nil and zero values, overlapping source and destination",
  "tests cover Store/Load/Clone/CopyFrom on two string keys; the conditional methods are untested",
  [G], [("map primitives", G)], [], ["map content before and after", "return values"])
L = "lhashmap/lhashmap.go"
p("C13", "The linked hash map is a map: index and order list never disagree",
  "After any history of stores, loads, removals and clears, a key is loaded with its last stored value exactly when it was stored and not removed since, Len counts the stored keys, and ranging visits each stored key exactly once with its current value.",
  ["histories", "inputs"], "all histories over any keys and values, overwrites, removals of absent keys, re-insertion, clearing",
  "the only test stores and loads three distinct keys",
  [L, D], [("index of list elements kept in step with the list", L)], [("m", "key to element", L), ("l", "order", L)], ["Load/Len/Range"])
p("C14", "The linked hash map ranges from most to least recently used",
  "Storing or loading a key makes it the first one visited; no other operation changes the relative order of the remaining keys, and a load of an absent key changes nothing.",
  ["histories"], "all histories and key positions",
  "no test looks at the order",
  [L, D], [("move to front on every hit", L)], [("l", "recency order", L)], ["Range order"])
HR = "hashring/hashring.go"
p("C15", "A hash ring only ever answers with a current member",
  "Looking up any key returns a node that was added and not removed since, or the zero value when the ring has no points; adding a node twice, removing an absent node and resetting leave exactly the requested membership, each member having exactly the configured number of points.",
  ["inputs", "histories"], "all add/remove/reset histories, all keys incl. keys whose hash equals a point's hash, any replica count",
  "tests look up one key and count points; a key colliding with a point is a 2^-32 event per point",
  [HR, S, "vec/vec.go"], [("member set plus sorted point list rebuilt together", HR)], [("rawNodes", "members", HR), ("nodes", "points", HR)], ["GetNode"])
p("C16", "Key placement depends only on the member set",
  "Two rings with the same members and replica count map every key to the same node, whatever the order in which nodes were added, removed or reset; the chosen node is the owner of the first point at or after the key's hash, wrapping to the first point.",
  ["inputs", "histories", "configurations"], "all membership histories, all keys, colliding points included",
  "no test compares two rings; collisions and wrap-around need chosen inputs",
  [HR, "vec/vec.go"], [("points sorted after every change", HR), ("binary search with wrap-around", HR)], [], ["GetNode"])
V = "vec/vec.go"
p("C17", "Vector accessors reject out-of-range positions without side effects",
  "Get, Set, Remove, Pop, First, Last, Swap, Cut, SliceCut and compare-and-remove called with any position outside the vector, or on an empty vector, neither panic nor change the vector and report failure (false, nil or no effect); with a position inside they succeed.",
  ["inputs"], "all vectors and all integer positions incl. negative, equal to and beyond the length, reversed ranges",
  "tests never pass a bad position",
  [V], [("bounds guards", V)], [], ["return flags", "content"])
p("C18", "Vector edits change exactly the addressed elements",
  "Push, Pop, Remove, Insert, Set, Swap, Cut, SplitOff, Delete, Replace, Clear, Grow, Clip and Reverse turn the element sequence into exactly the sequence their name and arguments call for, keeping all other elements in order, and return the elements they removed.",
  ["inputs", "histories"], "all vectors, all valid positions and ranges (empty, full, prefix, suffix, middle), any spare capacity",
  "tests use one six-element vector; the value returned by removing a middle range is never inspected",
  [V], [("shift left on removal", V), ("append-based range removal", V)], [("d", "elements", V)], ["the element sequence", "returned elements"])
p("C19", "Copies taken from a vector are independent of it",
  "The results of cloning, cloning to a slice, splitting off and cutting out share no element storage and no comparison settings with the vector they came from: no later operation on either can change the other.",
  ["histories"], "all later histories on either side, any spare capacity",
  "no test mutates one side and inspects the other",
  [V], [("fresh backing array for copies", V)], [], ["content and comparison behaviour of both sides"])
p("C20", "Vector comparisons are consistent: one order for sort, search and equality",
  "Sorting, sortedness, binary search, minimum, maximum, comparison, search and compaction all apply the configured less and equal functions in one orientation: ascending, less first, equal meaning equal. The automatically chosen comparison for numbers, strings and pointers to them orders any two values exactly one way (less, equal or greater), with NaN first.",
  ["inputs", "configurations"], "all element values incl. NaN, strings that differ only in leading zeros, pointer elements; all custom functions",
  "tests sort small positive ints only",
  [V], [("three-way comparison built from less and equal", V), ("comparison chosen from the element kind", V)], [], ["Sort/BinarySearch/Min/Max/Compact results"])
W = "rwmap/rwmap.go"
p("C21", "Concurrent-map operations on a key are atomic and return what they did",
  "For every interleaving of concurrent calls, each load, store, swap, load-or-store, load-and-delete, compare-and-swap and compare-and-delete takes effect on its key at one instant within the call, its results describe exactly that instant, and no completed store or delete is ever lost or undone by internal reorganisation; other keys are not affected.",
  ["schedules", "histories"], "all interleavings of any number of goroutines, all internal states (clean, amended, promoted, expunged, cleared)",
  "the concurrent test only mixes Store, Load and Range on a fixed key set and checks divisibility; the windows between lock-free and locked paths are not controlled",
  [W], [("read snapshot, dirty map under mutex, expunged marker", W), ("re-check after locking", W), ("compare-and-swap loops on the entry", W)],
  [("read", "lock-free snapshot", W), ("dirty", "locked superset", W), ("p", "value, deleted or expunged", W)], ["results of the operations"])
p("C22", "The concurrent map's length is exact whenever no call is in progress",
  "Once all calls that changed the map have returned, Len equals the number of keys present, for every interleaving including concurrent clearing.",
  ["schedules", "histories"], "all interleavings of all mutators, overwrites of absent, deleted and present keys",
  "the length test is single-threaded with one key",
  [W], [("counter adjusted exactly when presence changes", W)], [("len", "presence counter", W)], ["Len vs number of keys"])
p("C23", "Shared state of the concurrent containers is never accessed unsynchronised",
  "No schedule of calls to the concurrent map, the expiring cache or the refresh caches performs two conflicting unsynchronised accesses to the same memory: every access to shared mutable state is atomic, or made under the one lock that all conflicting accesses hold.",
  ["schedules"], "all pairs of concurrent calls on one instance",
  "the unit tests run without the race detector, and a detector only sees the schedules that happen",
  [W, "synccache/synccache.go", "synccache/item.go", "refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"],
  [("mutex around dirty state", W), ("atomics for lock-free state", W)], [], ["memory accesses of every exported method"])
p("C24", "Concurrent containers release their locks and never call back under the map lock",
  "Every exported method of the concurrent map, the expiring cache and the refresh caches has released every lock it took when it returns or when a panic leaves it, never takes a lock it already holds, and the concurrent map and expiring cache never run user callbacks while holding a lock, so callbacks may call back into the container.",
  ["schedules", "inputs", "fault_sequences"], "all paths incl. panicking callbacks and panicking comparisons",
  "a leaked lock shows only on the path that leaks it; tests have no panicking callbacks and only one nested call",
  [W, "synccache/synccache.go", "refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"],
  [("lock/unlock pairing, deferred unlock around foreign code", W)], [("mu", "map lock", W), ("lock", "refresh lock", "refreshcache/refreshcache.go")], ["lock state at exits and callback sites"])
p("C25", "Ranging sees every stable entry once and clearing removes everything",
  "Ranging over the concurrent map calls back at most once per key, calls back for every key present throughout the call unless the callback stopped it, reports values the key held during the call, and stops as soon as the callback says so. Clearing leaves no entry that was present before the call, and the map stays usable afterwards.",
  ["schedules", "histories"], "all interleavings, all internal states, nested calls from the callback",
  "tests range over a fixed key set and clear a one-entry map",
  [W], [("promotion before iteration", W), ("snapshot replaced on clear", W)], [], ["callback sequence", "content after Clear"])
SC = "synccache/synccache.go"; SI = "synccache/item.go"
p("C26", "An expired cache entry is never handed out",
  "No lookup, load-or-store, load-and-delete or range of the expiring cache reports as present an entry whose time to live had already passed when the call examined it; load-or-store then stores and returns the new value instead.",
  ["schedules", "inputs", "histories"], "all expiry times relative to each step, all interleavings with concurrent deletion, replacement and trimming",
  "the only test deletes one fresh entry",
  [SC, SI], [("expiry check on every read path", SC)], [("expiration", "absolute deadline", SI)], ["returned entries"])
p("C27", "The deletion callback runs exactly once per removed cache entry",
  "Whenever an entry leaves the expiring cache through deletion, compare-and-delete, load-and-delete, expiry, trimming or clearing, the configured callback is called exactly once with that entry's value, by the call that removed it; it is never called for an entry that was not removed, and not at all when none is configured.",
  ["schedules", "histories"], "all interleavings of competing removers, all removal paths",
  "no test configures a callback",
  [SC], [("callback guarded by the winning removal", SC)], [("deletedCallback", "user callback", SC)], ["callback calls"])
p("C28", "Removing by expiry or comparison never removes a newer entry",
  "Expiry, trimming, ranging, clearing with a callback and compare-and-delete only ever remove the very entry they examined: an entry stored under the same key in the meantime stays; removal by value happens only if the present, unexpired value equals the given one.",
  ["schedules"], "all interleavings of a store between the examination and the removal",
  "needs a store between two adjacent steps; tests are single-threaded",
  [SC, W], [("removal by identity of the examined entry", SC)], [], ["cache content"])
p("C29", "Cache lifetimes and background trimming follow the API",
  "A stored entry expires exactly its time to live after it was stored, as later adjusted by adding to or setting its deadline, and not before. Creating or starting a cache registers it for background trimming, closing it stops that, a single background task serves all caches, and trimming removes exactly the expired entries.",
  ["inputs", "histories"], "all durations incl. zero and negative, all deadline adjustments, all start/close histories",
  "tests never wait for an expiry and never look at the background task",
  [SC, SI], [("deadline computed at store time", SI), ("registry iterated by one ticker task", SC)], [("expiration", "deadline", SI), ("caches", "registry", SC)], ["expiry decisions", "registry"])
RC = ["refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"]
p("C30", "The refresh caches refresh exactly when needed, one refresh at a time",
  "For each of the three refresh caches, a get calls the refresh function only if, after it obtained exclusive access, there is no unexpired value and no unexpired cached error, returns the cached value or error without refreshing otherwise, and an explicit refresh always refreshes; no two refreshes of one cache ever run at the same time. A cache that has never been filled or was cleared holds no unexpired value, whatever its maximum age (negative meaning no expiry).",
  ["schedules", "inputs", "configurations"], "all ages (negative, zero, tiny, enormous), all interleavings, all three variants",
  "tests only print; two of the three variants have no tests",
  RC, [("double-checked expiry around the lock", RC[0])], [("last/lastErr", "time of last success/failure", RC[0]), ("maxAge/errAge", "ages", RC[0])], ["calls of the refresh function", "results"])
p("C31", "A refresh outcome is recorded exactly as it happened",
  "A successful refresh makes its value the cached value, timestamps it and ends any cached error; a failed one caches its error, leaves the previous value in place but expired, and is returned to the caller; a refresh that panics is not recorded as a success. The refresh function receives the previous value through the context and the caller's arguments unchanged.",
  ["histories", "fault_sequences"], "all success/failure/panic histories in all three variants",
  "tests print results without asserting; no test panics",
  RC, [("recording under the lock after the refresh", RC[0])], [("data/err", "cached outcome", RC[0])], ["Get/Raw/Last/LastErr after each outcome"])
p("C32", "A reader that sees a refresh cache as fresh sees the value of that refresh",
  "In every schedule, a get or raw read served from the cache without locking returns the value of the refresh whose timestamp it judged fresh, or of a later one, never an earlier value or a half-written state: the value is published before its timestamp.",
  ["schedules"], "all interleavings of lock-free readers with a refresh, all three variants",
  "needs a reader between two adjacent stores",
  RC, [("value stored before timestamp", RC[0]), ("timestamp loaded before value", RC[0])], [("data", "value pointer", RC[0]), ("last", "timestamp", RC[0])], ["Get/Raw results"])
p("C33", "Clearing a refresh cache invalidates it and runs the clear function once",
  "Clearing marks the cached value expired before the clear function runs, so that a later get refreshes, passes the previous value and the caller's arguments to the configured clear function exactly once and returns its error, and without a clear function succeeds; refresh and clear functions can be replaced at any time and the call uses the one configured when it starts.",
  ["histories", "schedules"], "all orders of clear, set, get and refresh, with and without a clear function, all three variants",
  "clearing is not tested at all",
  RC, [("timestamp reset then callback", RC[0]), ("atomic function pointers", RC[0])], [], ["Get after Clear", "clear function calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
