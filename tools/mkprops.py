#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

p("E01", "Entity identities are never reused",
  "Every entity handed out by one allocator or world, whether created immediately or atomically, differs in its (index, generation) pair from every other entity ever handed out by it, and its generation is never zero and grows each time the same index is handed out again. A handle whose entity has been killed never becomes alive again, however often its index is recycled. When the index space or the generations of an index are used up, creation fails loudly and never repeats an identity.",
  ["histories"], "every sequence of immediate/atomic creation, immediate/deferred kill and merge, up to exhaustion of an index's generations and of the index space",
  "tests/entity.rs checks five allocations and a few fixed kill/merge scripts; reuse bugs need particular orders (e.g. kill of an unmerged atomic entity, then atomic reuse) or long histories.",
  ["src/entity.rs", "src/world.rs"],
  [("generation sign flip and increment", "src/entity.rs Generation::raised/killed"), ("free-index cache with atomic length", "src/entity.rs EntityCache")],
  [("generations", "signed generation per index", "src/entity.rs Allocator"), ("raised_atomic", "indexes created atomically since the last merge", "src/entity.rs Allocator")],
  ["Allocator::allocate", "Allocator::allocate_atomic", "World::create_entity", "Entities::create", "is_alive"])

p("E02", "Liveness follows the history of creations and kills",
  "At every moment an entity is alive exactly if it was created and has not been killed: an immediate kill (also of an entity created atomically and not yet merged) takes effect at once, while a deferred kill changes nothing observable until the next merge. The alive query, lookup of the live entity at any index whatsoever, the live bitset and joins over entities all agree with that, before and after merges and up to the index capacity. Kills of dead, stale or foreign handles report the wrong-generation error and change nothing, and a merge reports exactly the entities it killed, each once.",
  ["histories", "inputs"], "every sequence of creations, immediate and deferred kills (repeated, stale, foreign), merges and queries, for every queried index",
  "The existing tests fix four short scripts over at most nine entities and never compare the live bitset, index lookup or joins with each other.",
  ["src/entity.rs", "src/world.rs"],
  [("alive = generation sign or raised bit", "src/entity.rs Allocator::entity"), ("commit of pending state", "src/entity.rs Allocator::merge_atomic"), ("kill of unmerged entity", "src/entity.rs Allocator::kill")],
  [("killed_atomic", "deferred kills", "src/entity.rs Allocator"), ("alive", "merged live indexes", "src/entity.rs Allocator")],
  ["is_alive", "entity(index)", "live_bitset", "join over Allocator/Entities", "merge_atomic's output"])

p("E03", "Concurrent entity creation and deferred deletion lose nothing",
  "Threads sharing an allocator or world may concurrently create entities, request deferred deletion and query liveness in any interleaving: every created entity is distinct, is alive as soon as it is returned, and is seen by every thread it is passed to. After the threads finish, a merge kills exactly the entities whose deletion was requested and accepted, everything else stays alive, and later creations behave as if the concurrent requests had been made in some sequential order. The set of indexes handed out is the same as for that many sequential creations.",
  ["schedules", "histories"], "every interleaving of atomic creations, deletion requests and queries by any number of threads, from every state of the free list",
  "No existing test uses more than one thread on an allocator.",
  ["src/entity.rs", "src/world.rs"],
  [("compare-exchange loops", "src/entity.rs atomic_increment/atomic_decrement"), ("pop from an immutable cache through an atomic length", "src/entity.rs EntityCache::pop_atomic")],
  [("len", "remaining free indexes", "src/entity.rs EntityCache"), ("index_len", "highest index + 1", "src/entity.rs Allocator")],
  ["Allocator::allocate_atomic", "Allocator::kill_atomic", "Entities::create/delete"],
  "cfg(goggles_verif): the allocator's index counters become instrumented atomics, so that the harness can own the schedule")

p("E04", "Freed indexes are recycled before new ones are taken",
  "A creation takes a never-used index only if every lower index is held by a live entity (deferred kills hold theirs until the merge); otherwise it reuses a freed one, and every freed index becomes reusable exactly once per kill. Consequently indexes stay contiguous from zero and bounded by the peak number of simultaneously live entities. The reported maximum entity count is always exactly the highest index ever handed out plus one, zero for a fresh allocator.",
  ["histories"], "every sequence of creations, kills and merges",
  "Only one assertion in the tests looks at an index at all (the first is 0); a leaked or duplicated free-list entry is invisible to them.",
  ["src/entity.rs"],
  [("free-index cache", "src/entity.rs EntityCache"), ("index counter", "src/entity.rs Allocator::index_len")],
  [("cache", "freed indexes", "src/entity.rs EntityCache")],
  ["Entity::index", "max_entity_count"])

p("S01", "A component storage behaves as a map from index to value",
  "For every storage type (vector, dense vector, hash map, and their change-tracked forms) and any component type, a storage answers every call as a plain map from index to value would: insert returns the previous value, remove returns the removed one, lookups, mutable lookups, guarded lookups, get-or-insert (whose closure runs only if the index is empty) and presence tests see exactly the last value written at that index and never another index's. The presence bitset and iteration list exactly the occupied indexes. An index too large to be represented is refused loudly without affecting anything else.",
  ["histories", "inputs"], "every history of operations, over every storage type, value type (including zero-sized and owning) and index",
  "tests/storage.rs inserts a handful of values once and joins; no test removes, overwrites or re-inserts through every storage type.",
  ["src/masked.rs", "src/storage.rs", "src/tracked.rs"],
  [("mask guards raw access", "src/masked.rs MaskedStorage"), ("swap_remove bookkeeping", "src/storage.rs DenseVecStorage::remove"), ("manual length", "src/storage.rs VecStorage::insert")],
  [("mask", "occupied indexes", "src/masked.rs"), ("data/indexes", "sparse/dense mapping", "src/storage.rs DenseVecStorage")],
  ["MaskedStorage methods", "joins over a storage"])

p("S02", "Every stored value is dropped or handed back exactly once",
  "Every component or resource value moved into a storage, world, resource set or component set is either returned to the caller or dropped, exactly once: on overwrite, removal, entity deletion, merge, re-registration or unregistration of a component type, failed insertion, merging of component sets and destruction of the container; nothing is dropped early or leaked. This also holds when a user callback panics: if a get-or-insert closure panics the index stays empty and the storage usable, and if one value's destructor panics while a storage is destroyed all the other values are still dropped exactly once.",
  ["histories", "fault_sequences"], "every history of inserts, removals, deletions, re-registrations and container drops, with a panic injected at any callback",
  "tests/drop.rs drops 100 components once, without overwrites, removals or panics.",
  ["src/masked.rs", "src/storage.rs", "src/world.rs", "src/any_components.rs", "src/resource_set.rs"],
  [("drop guard continuing after a panic", "src/masked.rs Drop for MaskedStorage"), ("ptr::read on removal", "src/storage.rs VecStorage::remove")],
  [("mask", "which slots own a value", "src/masked.rs")],
  ["Drop of component values", "values returned by insert/remove/insert_component/remove_component"])

p("S03", "Dense slices hold exactly the present components",
  "For storages that offer slice access, the slice always contains the value of every occupied index exactly once and nothing else, in some order, after any history of insertions, overwrites and removals. Each lookup by index refers to its own element of the slice, so a change made through the slice is seen by exactly the one index that owns the element, and a change made by index is seen in the slice.",
  ["histories"], "every history of inserts, overwrites, removals, slice writes and indexed writes",
  "No existing test touches slice access.",
  ["src/storage.rs", "src/masked.rs", "src/world.rs"],
  [("swap_remove with back-pointer fix-up", "src/storage.rs DenseVecStorage::remove"), ("slice views", "src/storage.rs DenseVecStorage::as_slice/as_mut_slice")],
  [("values/indexes", "dense values and their owners", "src/storage.rs DenseVecStorage")],
  ["as_slice", "as_mut_slice", "get"])

p("S04", "Change tracking records exactly the changed indexes",
  "While tracking is on, the modified set gains exactly the indexes whose component is inserted, overwritten, removed (also by deleting its entity) or accessed mutably, by direct call, guard, or sequential or parallel join, plus indexes marked by hand; reads, untouched guards and items a join did not reach add nothing, and while tracking is off (the initial state) only marking by hand adds. The set persists until cleared, clearing empties it, and switching tracking off or on changes no recorded index. A join over the modified components visits every recorded index once, giving the current value or nothing if the component is gone.",
  ["histories"], "every history of tracked operations, tracking switches and clears",
  "tests/flagged.rs runs one fixed script over indexes 0..100 with guards and merge only; overwrite, removal, get-or-insert, partial and mutable joins, and manual marks are not exercised.",
  ["src/tracked.rs", "src/masked.rs", "src/world.rs"],
  [("flag on mutable access", "src/tracked.rs Flagged"), ("lazy guards", "src/masked.rs GuardedElement"), ("modified joins", "src/masked.rs ModifiedJoin/ModifiedJoinMut")],
  [("modified", "changed indexes", "src/tracked.rs Flagged"), ("tracking", "whether changes are recorded", "src/tracked.rs Flagged")],
  ["modified_indexes", "modified", "modified_mut"])

p("J01", "A join yields exactly the intersection, once each, in order",
  "Iterating a join of any number of members (storages read, written or guarded, modified sets, entities, bitsets and bitset expressions, optional members, nested tuples) yields exactly the indexes present in every non-optional member, each once, in increasing index order. Each yielded tuple carries, position by position, that member's own item for that index (an optional member gives its item or nothing), and writes through mutable items land at exactly that index.",
  ["inputs"], "every arity, every combination of member kinds and every content of the members, at all index magnitudes",
  "The existing tests join two or three members of at most 100 dense entities; arities up to 26, optional members and sparse indexes across bitset layers are untested.",
  ["src/join.rs", "src/masked.rs", "src/entity.rs"],
  [("mask intersection by nested and", "src/join.rs BitAnd"), ("per-member access", "src/join.rs define_join"), ("optional members", "src/join.rs MaybeJoin")],
  [], ["IntoJoinExt::join", "join_unconstrained", "maybe"])

p("J02", "A parallel join visits exactly what the sequential join visits",
  "For the same members, a parallel join visits exactly the indexes of the sequential join, each exactly once, with the same items, whatever the number of threads and however the work is split; collecting it gives the sequential order. Mutable items are visited by one thread only and all writes made are present when the join finishes.",
  ["inputs", "schedules"], "every content and combination of the members, every thread count and splitting",
  "One test joins 900 contiguous indexes in the default pool; sparse layouts, which split differently, are not reached.",
  ["src/par_join.rs"],
  [("mask splitting", "src/par_join.rs JoinProducer::split"), ("fold over owned indexes", "src/par_join.rs JoinProducer::fold_with")],
  [], ["ParJoinExt::par_join", "par_join_unconstrained"])

p("J03", "Unbounded joins are refused, bounded ones accepted",
  "A set expression counts as bounded by the documented rules: plain sets are bounded, the all-set is not, a negation is bounded if its operand is not and vice versa, an intersection is bounded if either operand is, a union if both are, a symmetric difference if both or neither are; optional members are unbounded and a reference counts as its target. Sequential and parallel joins refuse (panic, or an error from the fallible constructors) exactly when the combined expression of their members is not bounded, and an accepted join yields only indexes present in some plain member set. The explicitly unconstrained variants never refuse and yield the same items as the checked ones where those are accepted.",
  ["inputs"], "every set expression and every combination of join members",
  "tests/join.rs evaluates nine fixed expressions of depth at most two and never calls join on one.",
  ["src/join.rs", "src/par_join.rs"],
  [("constraint rules", "src/join.rs BitSetConstrained"), ("check at construction", "src/join.rs JoinIter::new, src/par_join.rs JoinParIter::new")],
  [], ["is_constrained", "join", "par_join", "JoinIter::new"])

p("W01", "Components are reachable only through their live entity",
  "Reading, writing, guarding, testing, marking, inserting or removing a component through an entity handle works if and only if that entity is alive: with a dead, stale or foreign handle, queries find nothing, changes return the wrong-generation error, and nothing is modified. With a live handle each call acts on exactly that entity's component of that type, as a map would, whether the storage was borrowed for reading, for writing, exclusively or fetched with others. An entity newly created at a recycled index starts with no components at all.",
  ["histories", "inputs"], "every history of entity creation, deletion, merging and component operations through current and stale handles",
  "tests/world.rs never deletes an entity; stale handles are untested.",
  ["src/world.rs", "src/masked.rs", "src/entity.rs"],
  [("liveness check before access", "src/world.rs ComponentAccess"), ("component removal on deletion", "src/world.rs World::delete_entity/merge")],
  [("allocator", "live entities", "src/world.rs World"), ("components", "component storages", "src/world.rs World")],
  ["ComponentAccess methods", "read_component", "write_component", "get_component_mut"])

p("W02", "Deleting entities removes exactly their components, everywhere",
  "When an entity dies, by immediate deletion or at the merge following a deletion request, its component is removed from the storage of every currently registered component type, and no other entity's components and no resources are affected; until then a requested deletion leaves its components in place and joinable. Occupied indexes of every registered storage always belong to live entities. Registering a component type again starts it empty and hands back the old storage with its contents, and unregistering hands the storage back and stops its tracking, both without affecting other types or entities.",
  ["histories"], "every interleaving of registration, unregistration, component insertion, immediate deletion, deferred deletion and merge over several component types",
  "Only tests/flagged.rs deletes entities, one batch at one merge, and looks only at the modified count.",
  ["src/world.rs", "src/entity.rs", "src/masked.rs"],
  [("per-type removal closures", "src/world.rs remove_components"), ("killed list", "src/world.rs World::merge")],
  [("remove_components", "one removal closure per registered type", "src/world.rs World"), ("killed", "entities killed by the last merge", "src/world.rs World")],
  ["World::delete_entity", "World::merge", "insert_component", "remove_component", "storage masks"])

p("W03", "Dynamic component sets carry and apply components faithfully",
  "A dynamic component set behaves as a map from component type to one value: insertion returns the previous value, lookup, mutable lookup, presence, removal and size match, merging moves every component of the other set over this one, and the overwritten flag is true exactly if some type was in both. Applying a set to a live entity gives it exactly the set's components, leaves its other components and all other entities alone, and reports true exactly if one was already present; with a dead entity a non-empty set reports the wrong-generation error and changes nothing. A cloneable set can be applied or copied into a plain set any number of times without being changed and without later changes to the copies showing in it.",
  ["histories", "inputs"], "every history of set operations, merges, copies and applications to live and dead entities",
  "tests/any_components.rs runs one script over two types and ignores every returned flag.",
  ["src/any_components.rs", "src/world.rs"],
  [("type-keyed boxed components", "src/any_components.rs"), ("liveness-checked insertion", "src/world.rs ComponentAccess::insert")],
  [("components", "boxed component per type", "src/any_components.rs")],
  ["AnyComponentSet", "AnyCloneComponentSet", "insert_into_world", "clone_into_set"])

p("R01", "Resources form a map keyed by type",
  "A resource set, and the resources and component types of a world, behave as a map from type to one value: inserting returns the previous value of that very type, removing returns it, presence and every form of access see the last value written, and no operation on one type affects another. A type used both as a resource and as a component, or wrapped in another type, is a separate entry. Accessing an absent type panics and changes nothing.",
  ["histories"], "every history of insert, replace, remove and access over several types, through every accessor",
  "The tests insert resources once and never replace, remove or miss one.",
  ["src/resource_set.rs", "src/world.rs", "src/make_sync.rs"],
  [("type-keyed map of cells", "src/resource_set.rs ResourceSet"), ("separate maps for resources and components", "src/world.rs World")],
  [("resources", "cells by type", "src/resource_set.rs")],
  ["ResourceSet", "World resource and component methods"])

p("R02", "Borrows are shared or exclusive, never both",
  "At any moment, for each resource, component type or combination fetched, there are either any number of shared borrows or a single exclusive borrow: a request that would break this panics at once without blocking, and every other request for a present type succeeds and sees the current value. Dropping a borrow, also by a panic or part-way through a failing multi-fetch, releases exactly what it held, so that a later compatible request succeeds. This holds on every thread that shares the set or world, and borrows of different types never interfere.",
  ["histories", "schedules"], "every history of overlapping borrow, fetch and release operations over several types and threads, with failing fetches part-way",
  "tests/resource_set.rs performs one successful fetch; no test provokes a conflict or checks release.",
  ["src/resource_set.rs", "src/world.rs", "src/fetch_resources.rs"],
  [("atomic borrow counters", "src/resource_set.rs borrow/borrow_mut"), ("tuple fetch in order", "src/fetch_resources.rs impl_data")],
  [("Resource cell", "borrow state", "src/resource_set.rs")],
  ["borrow", "borrow_mut", "fetch", "read_resource/write_resource", "read_component/write_component"])

p("R03", "Declared accesses match the accesses really made",
  "For every fetchable type (shared or exclusive resource or component, entities, the empty fetch, and tuples of these of any size and nesting) the resources it declares are exactly those its fetch borrows, with the right read or write mode; component access also declares reading the entities, and a component and a resource of the same type are distinct. A tuple's static check reports a conflict exactly if two of its parts could not be held together, and otherwise declares the union of its parts; so a fetch that passes its static check never panics on a free source holding all its types, and one that fails it always would.",
  ["configurations", "inputs"], "every fetchable type built from the provided parts, against every source content",
  "tests check one conflicting triple of one kind and that one non-conflicting fetch runs; world-level declarations are never inspected.",
  ["src/fetch_resources.rs", "src/world.rs", "src/resource_set.rs", "src/world_common.rs"],
  [("per-type declarations", "src/world.rs and src/resource_set.rs FetchResources impls"), ("tuple union with conflict check", "src/fetch_resources.rs impl_data")],
  [], ["FetchResources::check_resources", "FetchResources::fetch", "World::fetch", "ResourceSet::fetch"])

p("R04", "Access sets combine and conflict as read/write locks",
  "However a read/write access set is built (one by one, in bulk, from iterators, by union, by mapping keys, in any order and with repeats), it grants for each resource the strongest access asked for: listed among the writes exactly if some write was asked for, among the reads exactly if only reads were, and never in both. Union is commutative, associative and idempotent in that sense, with the empty set neutral, and leaves its argument unchanged. Two sets conflict exactly if some resource is written by one and read or written by the other, symmetrically.",
  ["inputs"], "all read/write access sets and all ways of building them",
  "tests/system.rs compares four fixed sets and never inspects reads or writes after a union.",
  ["src/resources.rs"],
  [("disjoint read/write sets", "src/resources.rs RwResources")],
  [("reads/writes", "declared accesses", "src/resources.rs RwResources")],
  ["RwResources::reads/writes/conflicts_with/union/map"])

p("Y01", "Composed systems pass the check iff no parallel parts conflict",
  "For any composition of systems in parallel and in sequence, by pairs, chained additions, macros, lists, boxes and nesting in any depth, the resource check succeeds exactly if no part has an internal conflict and no two parts placed in parallel use conflicting resources, and then reports the union of all parts' resources. Parts that run only one after the other never count as a conflict. So two systems that an accepted composition can run at the same time can always hold their declared resources simultaneously, on any pool.",
  ["programs", "schedules"], "every composition tree over systems with arbitrary access sets, including failing parts",
  "tests/system.rs checks four fixed trees of at most five systems with disjointness-based resources.",
  ["src/system.rs", "src/resources.rs"],
  [("conflict check when combining in parallel", "src/system.rs Par::check_resources, ParList::check_resources"), ("union in sequence", "src/system.rs Seq::check_resources, SeqList::check_resources")],
  [], ["System::check_resources"])

p("Y02", "Composed systems run every part once, in order, with all errors",
  "Running a composition runs each part exactly once with the given arguments and pool, except that in a sequence nothing after the first failing part runs. A sequence starts each part only after everything before it has finished, while all parts of a parallel group run even if some of them fail, for every pool, whatever order or threads it uses. The run succeeds exactly if no part that ran failed, a sequence returns the first failing part's error, and a parallel group returns the combination of all its failing parts' errors in listed order; running again behaves the same.",
  ["programs", "schedules", "fault_sequences"], "every composition tree, every pattern of failing parts, every pool behaviour",
  "The tests only run compositions in which every system succeeds, and only check order for one list.",
  ["src/system.rs", "src/rayon_pool.rs"],
  [("pool join of both halves", "src/system.rs Par::run, ParList::run"), ("early return", "src/system.rs Seq::run, SeqList::run")],
  [], ["System::run", "Pool::join", "Error::combine"])

p("Y03", "Automatic parallelization keeps conflicting systems in order",
  "Given any list of systems, automatic parallelization returns a composition that runs each exactly once, in which two conflicting systems always run one after the other in list order, and which passes the resource check if every system passes its own. Systems are grouped eagerly: a system joins the current parallel group, unless it conflicts with a system in it, in which case a new group starts; so runs of non-conflicting systems all share one group and there are no empty groups. A system with an internal conflict gets a group of its own, and the result's check then reports the conflict.",
  ["programs", "schedules"], "every list of systems with arbitrary access sets, including internally conflicting systems",
  "tests/system.rs runs one list of six systems over two resources on a sequential pool, where grouping mistakes cannot show.",
  ["src/system.rs", "src/resources.rs"],
  [("eager grouping", "src/system.rs parallelize")],
  [("par_resources", "union of the current group's accesses", "src/system.rs parallelize")],
  ["parallelize", "SeqList", "ParList"])

p("M01", "Safe calls never cause undefined behaviour",
  "No history of safe calls on allocators, storages, joins, guards and worlds, over any storage and component type, in any index pattern, with panicking callbacks and from several threads where the types allow it, reads or writes memory out of bounds, uninitialized, freed or through conflicting references, or races on data. The public types are Send and Sync, and references taken from them last, only as far as keeps this so: the compiler refuses safe code that would otherwise reach one value twice mutably, after it is gone, or from a thread it must not be on.",
  ["histories", "inputs", "schedules", "fault_sequences"], "every history of safe API calls that the compiler accepts, on the public types, except replacing a storage's raw contents wholesale through raw_storage_mut (a known finding)",
  "The tests run natively, where an out-of-bounds or uninitialized access usually goes unnoticed, and cover few histories.",
  ["src/storage.rs", "src/masked.rs", "src/join.rs", "src/par_join.rs", "src/entity.rs", "src/tracked.rs", "src/make_sync.rs"],
  [("unsafe storage access behind a mask", "src/masked.rs"), ("unsafe join access behind a mask", "src/join.rs JoinIter, src/par_join.rs JoinProducer"), ("uninitialized vector tail", "src/storage.rs VecStorage::insert")],
  [], ["process aborts, sanitizer and interpreter reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
