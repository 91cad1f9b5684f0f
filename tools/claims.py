HIST = "model-based random histories"
CLAIMS = {
    "E01": (HIST + ", exhaustion runs", "Random search; up to 2^24 entities and all 2^31-1 generations of one index are really run."),
    "E02": (HIST, "Random search over histories of one allocator or world against a model of who is alive."),
    "E03": ("random thread programs under a controlled random scheduler, linearizability-style oracle", "Random search over programs of 2 to 4 threads; the hook switches threads at each atomic access (sequentially consistent interleavings), and a stress leg runs real threads."),
    "E04": (HIST, "Random search over histories of one allocator or world against a model of the free indexes."),
    "S01": (HIST, "Random search over histories of single storages of several kinds and element types against an ordered map."),
    "S02": (HIST + " with injected panics", "Random search over histories of uniquely identified values with counted drops, with panics injected in destructors and callbacks."),
    "S03": (HIST, "Random search over histories of dense storages, slices compared with lookups."),
    "S04": (HIST, "Random search over histories of tracked storages against a model of the modified set."),
    "J01": ("random joins against a set model", "Random search over joins of 1 to about 60 members, nested in tuples of up to 26."),
    "J02": ("differential testing, parallel against sequential", "Random search over joins, pools of 1 to 24 threads and 8 consumers; schedules are those that the operating system and work stealing give."),
    "J03": ("random set expressions against the documented rules", "Random search over set expressions of depth up to 5 and joins over them."),
    "M01": ("random histories and generated client programs under AddressSanitizer, ThreadSanitizer and Miri; exhaustive auto-trait table", "Random search: the histories of the other properties under ASan, TSan (MSan in thorough) and, smaller, under Miri with Tree Borrows; random safe client programs that the compiler accepts, under Miri; every public type over Send/Sync payload combinations, exhaustively, against the compiler."),
    "W01": (HIST, "Random search over histories of one world with 8 component types against a model of maps."),
    "W02": (HIST, "Random search over histories of one world with 8 component types against a model of maps."),
    "W03": (HIST, "Random search over histories of component sets against maps from type to value."),
    "R01": (HIST, "Random search over histories of resource sets and worlds, with borrows held, against a model of maps and locks."),
    "R02": ("random histories of held borrows, on several threads, against a lock model", "Random search over histories of borrows and fetches of one resource set or world, held and released in any order, by one thread and by several at once; a request that blocks is found as a hang."),
    "R03": ("random fetch declarations, compared with what fetching locks", "Random search over nested fetch tuples chosen at run time, at every arity, and fixed typed ones; pairs of fetches held at once."),
    "R04": ("random access sets against a map model", "Random search over building calls, unions, mappings and conflicts of access sets."),
    "Y01": ("random composition trees against a pairwise model", "Random search over composition trees of up to about 100 parts, several pools."),
    "Y02": ("random composition trees, pools and failures against a model", "Random search over composition trees, failing parts, and pools that order or thread parts differently."),
    "Y03": ("random system lists against an eager-grouping model", "Random search over lists of up to 30 systems."),
}
NOT = {}
HOOKS = {
    "guard": "cfg goggles_verif",
    "enable": "RUSTFLAGS=\"--cfg goggles_verif\", set by check.sh",
    "source_commits": ["2ecdf9399037b8d214897fd67d27f0d11934e964"],
}
