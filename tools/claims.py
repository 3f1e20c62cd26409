CLAIMS = {
 "C01": ("shape analysis (abstract interpretation of list segments) to a fixpoint", "Every exported list operation is interpreted on well-formed lists of every length (segments of symbolic length around the named elements), and must leave a well-formed list on every path."),
 "C02": ("shape analysis with symbolic element sequences", "The element sequence after each edit is compared with the prescribed one, for every length and every position or coincidence of the named elements."),
 "C03": ("shape analysis over detached and foreign handles", "Every operation is interpreted with handles that are detached or owned by another list; elements leaving a list must be detached on every path."),
 "C04": ("shape analysis with symbolic value sequences; inductive summary for the recursive sort", "Whole-list operations must produce the prescribed value sequence; sorting is decided for an arbitrary element and an arbitrary pair of elements under an arbitrary strict weak order."),
 "C11": ("abstract interpretation, maps abstracted around a distinguished key", "For every pair of sets and every element: each exported set operation is interpreted to a fixpoint on all abstract operands (element present/absent, nil, aliased)."),
 "C12": ("abstract interpretation, maps abstracted around a distinguished key", "For every map, key and callback answer: each exported method is interpreted to a fixpoint on all abstract operands."),
}
CLAIMS.update({
 "C13": ("abstract interpretation: index map around distinguished keys plus list shape analysis", "Every method is interpreted for an arbitrary key and another one, for every list length and position; index and list must agree afterwards."),
 "C14": ("shape analysis with symbolic element sequences", "The order list after each method is compared with the prescribed most-recent-first sequence."),
})
CLAIMS.update({
 "C05": ("shape analysis of cyclic list segments with symbolic lengths", "Every operation is interpreted on rings of every size with arms at any distance; loops are solved by fixpoint with linear invariants."),
})
CLAIMS.update({
 "C30": ("thread-modular abstract interpretation (rely/guarantee, versioned cells, symbolic clock)", "Every method of the three refresh caches is interpreted on every state, with arbitrary interference before every shared access; a refresh needs a check under the lock that found nothing unexpired."),
 "C31": ("thread-modular abstract interpretation", "The cells at lock release are compared with the outcome of the refresh on success, failure and panic; arguments and context of the callback are compared with the prescribed ones."),
 "C32": ("thread-modular abstract interpretation with versioned values", "A value returned as fresh must be at least as new as the timestamp judged; publication order and immutability of published values are checked at every store."),
 "C33": ("thread-modular abstract interpretation", "Clearing is interpreted on every state: timestamp reset precedes exactly one call of the clear function with the previous value, whose error is returned."),
})
CLAIMS.update({
 "C21": ("thread-modular abstract interpretation (rely/guarantee over the entry and table protocol)", "Every concurrent-map method is interpreted for an arbitrary key on every protocol state, with arbitrary protocol-conforming interference before every shared access; the access that decides the result must be the one that takes effect."),
 "C22": ("thread-modular abstract interpretation with a counting ghost", "On every path the change to the length counter equals the number of keys the call made present minus those it made absent."),
 "C25": ("thread-modular abstract interpretation", "Range and Clear are interpreted for an arbitrary stable key under interference: exactly-once delivery, no loss, stop on demand."),
})
CLAIMS.update({
 "C26": ("thread-modular abstract interpretation with a symbolic clock", "Every lookup is interpreted under arbitrary interference: an entry reported present was compared, after it was read, with a later clock reading and had not expired."),
 "C27": ("thread-modular abstract interpretation (typestate removed -> called back)", "Each removal a call makes is matched with exactly one callback run for that entry's value, on every path."),
 "C28": ("thread-modular abstract interpretation", "Every removal is checked at the instant it happens: the entry removed is the one examined, and examined as the operation requires."),
 "C29": ("thread-modular abstract interpretation with a symbolic clock", "Deadlines written and judged are compared with the prescribed ones; trimming, registration and the background task are interpreted, including the goroutine body."),
})
CLAIMS.update({
 "C23": ("lockset/effect analysis on the abstract interpretation of every method", "Every access to shared memory on every path is recorded with kind and lock state; no two may conflict."),
 "C24": ("typestate analysis of locks on the abstract interpretation of every method, panics included", "Lock state is tracked on every path including callback and comparison panics; callbacks of the map and the expiring cache run with no lock held."),
})
CLAIMS.update({
 "C17": ("abstract interpretation of slices (array segmentation with symbolic positions)", "Every accessor is interpreted on vectors of every length and spare capacity with an arbitrary position; outside the vector nothing may panic or change."),
 "C18": ("abstract interpretation of slices (array segmentation), extensional comparison at an arbitrary index", "The element sequence after each edit is compared with the prescribed one at an arbitrary index, for every length, position and spare capacity; loops by fixpoint."),
 "C19": ("ownership analysis: disjointness of the memory reachable from either side, captured comparison functions included", "The memory reachable from the copy and from the original is computed on every path and must be disjoint."),
 "C20": ("abstract interpretation against an arbitrary total truth for less/equal; contracts for library sorts", "Search, ordering and comparison are interpreted to a fixpoint against an arbitrary position of the match, insertion point or difference; the automatic comparison is decided per element kind."),
})
CLAIMS.update({
 "C15": ("abstract interpretation with a distinguished node and an arbitrary position of the key's hash", "Every mutator is interpreted on a ring of arbitrary members in which an arbitrary node is or is not a member; the points must be exactly its replicas or none."),
 "C16": ("abstract interpretation; contract for the library sort with the comparison interpreted on arbitrary points", "Sortedness after every change, determinism of the comparison and hashes, and the lookup against an arbitrary position of the key's hash."),
})
CLAIMS.update({
 "C09": ("abstract interpretation (heap-order relation with one exceptional position, polyhedral index domain, loop fixpoints)", "Every heap operation is interpreted against an abstract container of arbitrary size and comparison order; the heap-order relation must hold everywhere on return, the tracked element must be the one returned, and the shipped min and max containers must meet the container contract the argument uses."),
 "C10": ("abstract interpretation (heap-order relation, array segmentation)", "The queue operations are interpreted through the heap code; every item pushed is a new cell with its own priority and value, Pop returns the fields of the item the heap yields, and the containers the constructors install order by priority and exchange, append and drop exactly."),
})
CLAIMS.update({
 "C06": ("abstract interpretation (shape analysis with lazily materialised links)", "Child assignment is interpreted on an arbitrary graph of mutually consistent links, each link staying unknown until the code looks at it and every consistent target then being a case; afterwards every link of every node reached must be exactly the prescribed one."),
 "C07": ("abstract interpretation (shape analysis with depth, height and ancestor facts, loop fixpoints, inductive call summaries)", "Every relation query is interpreted on an arbitrary tree with links decided on demand; the answer must be the one the links define on every abstract path, recursive calls being summarised by the definition on a strictly smaller measure."),
 "C08": ("abstract interpretation (node numbering by prescribed order, sequence segments, polyhedral positions, inductive call summaries)", "Both traversals are interpreted on an arbitrary tree whose nodes carry their place in the prescribed order (pre-order place and subtree size; level-order place or place in an arbitrary level); work lists and results are abstracted to stretches of that order at loop heads, and the result must be the whole stretch."),
 "C34": ("abstract interpretation (summarised level-order prefix, sequence segments, polyhedral positions)", "Construction is interpreted with the finished part folded, at each loop head, into the prefix of the level order linked so far; every node touched is compared with the level-order pattern before it is folded, and at the end the prefix must be the whole slice."),
})
NA = {}
