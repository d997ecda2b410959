"""What each check runs and how its evidence is to be read."""


W32 = "i686-unknown-linux-gnu"  # 32-bit pointers
BIG = "s390x-unknown-linux-gnu"  # big-endian


def eng(kind="dev", **k):
    return dict(crate="engine", kind=kind, **k)


def lig(kind="rel", **k):
    return dict(crate="light", kind=kind, **k)


def wid(kind="dev", **k):
    """Component sets, queries and groups of up to 16 types; for C23 hundreds of types in one world."""
    k.setdefault("secs", (6, 120))
    k.setdefault("shards", 4)
    return dict(crate="wide", kind=kind, **k)


def fam(kind="dev", **k):
    """Worlds with up to 64 groups."""
    k.setdefault("secs", (6, 120))
    k.setdefault("shards", 2)
    return dict(crate="fam", kind=kind, **k)


def gra(**k):
    """Every reachable state of small worlds, and every operation in each of them."""
    return fam(secs=(60, 700), shards=3, env={"VH_PART": "graph"}, label="state-graph", **k)


def hos():
    """Safe programs that must be refused by the compiler or fail at run time."""
    return dict(crate="hostile", kind="dev", shards=1, secs=(60, 60))


def scl(**k):
    """Worlds of 40,000 to 140,000 entities: indices, positions and queues beyond 2^16."""
    k.setdefault("secs", (8, 90))
    return dict(crate="light", kind="rel", label="scale", shards=2, env={"VH_PART": "scale"}, **k)


HIST = (
    "Random operation histories (sizes from 7 to 80,000 live entities, 2-8 component types, random nested or disjoint "
    "group layouts, stale and forged handles) are executed on a real World next to a reference model; "
)
TRUST = [
    "the reference model and oracles in /verif/engine/src (model.rs, sut.rs) state the property correctly",
    "sampled histories only: a violation that needs a history the generators never produce is missed",
    "component types are the 8 harness types (zero-sized, byte-sized, heap-owning, over-aligned, large) in random subsets; "
    "tuples of 9 to 16 types and hundreds of types per world are covered by the separate, simpler wide harness, worlds with "
    "16 to 64 groups by the fam harness; "
    "worlds of more than 65,536 entities mostly by the scale scripts (three component types, fifteen queries, six layouts)",
]
NOTE = (
    "Monitored executions of the real library judged by an independent model after every operation; no exhaustiveness. "
    "Trusts the model and the generators' reach; evidence counts what the monitors compared."
)

SPECS = {}


def spec(pid, technique, stages, rule, note=NOTE, assumptions=TRUST, level="exploration"):
    SPECS[pid] = dict(technique=technique, stages=stages, rule=rule, note=note, assumptions=assumptions, level=level)


spec(
    "C01",
    "runtime monitoring: online uniqueness monitor over every handle the world issues, stress histories and scale scripts",
    [eng(), scl()],
    HIST + "every handle returned is looked up in the set of handles issued since the last reset. One evaluation per handle "
    "issued; distinct by creating operation, version, index bucket, pending and live counts.",
)
spec(
    "C02",
    "runtime monitoring: online liveness monitor (model of live, pending and dead handles) over random histories",
    [eng(), scl()],
    HIST + "contains_entity, entities(), is_empty and operation results are compared with the history's live set for known, "
    "stale, pending and forged handles. Distinct by handle shape, liveness, live and pending counts.",
)
spec(
    "C03",
    "runtime monitoring: value-tagged components checked against a reference map after every operation",
    [eng(), wid(), fam(), gra(), scl()],
    HIST + "every component carries a unique id; point lookups, views and remove results are compared with the last id "
    "written. Distinct by component mask of the entity, layout, number of live entities, liveness.",
)
spec(
    "C04",
    "runtime monitoring: offline comparison of every query result with the model's relation",
    [eng(), wid(), fam(), gra(), scl()],
    HIST + "the multiset of items (handle and component ids) of each of 182 query shapes is compared with the model, through "
    "next, fold, for_each, collect and World::for_each. Non-trivial: at least one matching entity; distinct by shape, "
    "density, result size bucket, archetype census and layout.",
)
spec(
    "C05",
    "runtime monitoring: point-query and view monitor against the reference model, with stale and forged handles",
    [eng(), wid(), fam(), gra(), scl()],
    HIST + "query_one contains/get/map, World::contains and views are compared with the model for live, dead, pending and "
    "forged handles. Distinct by shape, hit, liveness, entity mask, layout; for views by type and archetype census.",
)
spec(
    "C06",
    "runtime monitoring: differential execution of one history under several group layouts",
    [eng(), wid(), fam(), gra(), scl()],
    "Each history is executed under its own layout, without groups and under two other random layouts; liveness, operation "
    "results and unordered query items are recorded and compared result by result. One evaluation per pair of runs; "
    "distinct by the hash of the recorded results.",
)
spec(
    "C07",
    "runtime monitoring: density monitor over all query shapes, with the group rules as oracle",
    [eng(), wid(), fam(), gra(), scl(), eng(par=True, scale=(25, 25))],
    HIST + "for every shape that the layout says is served by a group, the iterator (sequential and parallel) must be dense, "
    "report the number of matching entities as its length, and slices must be offered. Distinct by shape, result size, "
    "archetype census and layout.",
)
spec(
    "C08",
    "runtime monitoring: slice monitor comparing aligned rows with the reference model",
    [eng(), wid(), fam(), gra(), scl()],
    HIST + "slices are zipped into rows and compared with the model's matching entities; lengths must agree, ungrouped queries "
    "must return none. Non-trivial: at least one matching entity; distinct by shape, archetype census, size.",
)
spec(
    "C09",
    "runtime monitoring: drop ledger (every component value is registered and checked off exactly once)",
    [eng(), wid(), fam(), gra(), scl()],
    HIST + "after every operation the number of undropped values must equal the number the model owns, every owned value must be "
    "alive, double drops and reads of dropped values are faults; dropping the world settles the ledger. Distinct by "
    "archetype census and layout at audits.",
)
spec(
    "C16",
    "runtime monitoring: iterator protocol monitor over differently consumed iterators of the same query",
    [eng(), scl()],
    HIST + "each iterator is consumed by next, fold, for_each, nth, last, count, take, and mixtures; items, order, size_hint, "
    "len and behaviour after the end are compared with a plain next pass. Non-trivial: non-empty result; distinct by "
    "shape, density, size bucket, consumption mode, archetype census.",
)
spec(
    "C18",
    "runtime monitoring: post-condition monitor for clear/reset plus a differential twin world built anew",
    [eng(), scl()],
    HIST + "after clear and reset every query, view, slice, registration, pending handle and the drop ledger is examined; the "
    "operations after the last reset are replayed on a newly built world and all results, handles included, must be "
    "equal. Distinct by registrations, layout, pending count, and recorded results of twins.",
)
spec(
    "C21",
    "runtime monitoring: whole-state audit around every set_layout on populated worlds",
    [eng(), wid(), fam(), gra(), scl()],
    HIST + "set_layout with random layouts at random points; entities, component values, drop ledger and registrations must be "
    "unchanged, and exactly the queries the new layout serves must be dense. Distinct by archetype census, layout and "
    "query shape.",
)
spec(
    "C22",
    "runtime monitoring: differential execution of compound operations and their elementary forms",
    [eng(), wid(), scl()],
    "Each history is executed as written, split into single-component operations with the fluent builder, and through atomic "
    "creation with set_layout on the builder; all results, views and query items must agree. Distinct by recorded results.",
)
spec(
    "C23",
    "runtime monitoring: registration monitor with refused uses of unregistered types",
    [eng(), wid()],
    HIST + "types are registered midway in random order and repeatedly; register results, is_registered and all other state are "
    "compared with the model, uses of unregistered types must panic and leave other entities as they were. Distinct by "
    "operation, subject, registered set, layout.",
)
spec(
    "C25",
    "runtime monitoring: write-through monitor (mutable access rewrites ids, all readers compared afterwards)",
    [eng(), wid(), fam(), gra(), scl()],
    HIST + "values are rewritten through mutable query items, slices and views according to a plan, and every way of reading is "
    "compared with the plan afterwards; aliased items would be rewritten twice and show up. Distinct by access path, shape or "
    "type, archetype census.",
)

spec(
    "C10",
    "sanitizers and an undefined-behaviour interpreter (AddressSanitizer with leak detection, Miri with Stacked and Tree Borrows, canaried values) over hostile histories",
    [
        hos(),
        eng(secs=(12, 240)),
        eng("asan", secs=(20, 600), scale=(100, 100)),
        wid("asan", secs=(8, 300)),
        fam("asan", secs=(8, 200)),
        fam("miri", secs=(30, 600), shards=2, scale=(50, 50), prio=2, miriflags="-Zmiri-seed={shard} -Zmiri-tree-borrows"),
        fam("miri", secs=(0, 400), shards=1, scale=(50, 50), target=W32, label="32-bit", thorough_only=True),
        eng("miri", secs=(0, 600), scale=(2, 20), shards=2, target=W32, label="engine-32-bit", thorough_only=True),
        fam("miri", secs=(0, 400), shards=1, scale=(50, 50), target=BIG, label="big-endian", thorough_only=True),
        wid("miri", secs=(40, 900), shards=2, prio=2, miriflags="-Zmiri-seed={shard} -Zmiri-tree-borrows"),
        eng("miri", secs=(45, 1200), scale=(2, 20), shards=6, label="stacked-borrows", prio=2, miriflags="-Zmiri-seed={shard}"),
        eng("miri", secs=(45, 1200), scale=(2, 20), shards=2, label="tree-borrows", prio=2, miriflags="-Zmiri-seed={shard} -Zmiri-tree-borrows"),
    ],
    HIST + "the same histories run with debug assertions and canaried component values, under AddressSanitizer with leak "
    "detection, and under Miri; any report, abort, corrupted canary, misaligned reference or read of a dropped value is a "
    "violation. One evaluation per operation that ended without a report; distinct by operation, subject, layout, size, types.",
)
spec(
    "C11",
    "runtime monitoring: online uniqueness and conservation monitor over handles drawn by racing threads; ThreadSanitizer and Miri with many schedules",
    [
        lig(secs=(20, 240)),
        lig("tsan", secs=(20, 240), shards=4),
        lig("miri", secs=(30, 600), shards=4, scale=(100, 400), miriflags="-Zmiri-seed={shard} -Zmiri-preemption-rate=0.1", prio=2),
    ],
    "Rounds of create_atomic by 2 to 8 threads, with pauses injected between calls, alternate with maintain, create, destroy, "
    "clear and reset. Every handle is checked against all handles issued, live and pending; after maintain exactly the drawn "
    "handles must be live. Distinct by number of threads, recycled and fresh handles, thread switches observed.",
    assumptions=["thread schedules are those the operating system, the injected pauses and Miri's random scheduler produce"],
)
spec(
    "C12",
    "race detectors (ThreadSanitizer, Miri) and a reader/writer monitor over threads sharing one world",
    [
        hos(),
        lig(secs=(20, 240), par=True),
        # Without rayon: its deques confuse ThreadSanitizer.
        lig("tsan", secs=(25, 240), shards=4),
        lig("miri", secs=(40, 600), shards=4, scale=(100, 400), miriflags="-Zmiri-seed={shard} -Zmiri-preemption-rate=0.1", prio=2),
    ],
    "Threads run random shared operations on one world (queries, views, point queries, parallel iteration, atomic creation) over "
    "random component sets. Every reference handed out is registered with the monitor, which refutes two simultaneous "
    "mutable references or a mutable next to a shared one; sanitizers watch all memory accesses. Distinct by operation mix, "
    "number of threads, granted and refused accesses. Safe programs that try to share what must not be shared must be refused.",
    assumptions=["thread schedules are those the operating system, the injected pauses and Miri's random scheduler produce"],
)
spec(
    "C13",
    "runtime monitoring: parallel iteration compared item by item with the reference model under several thread pools",
    [eng(par=True, secs=(15, 200), env={"RAYON_NUM_THREADS": n}, label=f"{n}-threads", shards=k) for n, k in (("1", 2), ("2", 2), ("4", 3), ("8", 3), ("13", 2))] + [scl(par=True)],
    HIST + "every parallel way of consuming a query (for_each, collect, fold/reduce, indexed adaptors, reversed and chunked "
    "producers) must produce exactly the model's items, each once; indexed ones in sequential order; mutable items are "
    "rewritten and read back. Distinct by shape, density, size, mode, archetype census.",
)
spec(
    "C14",
    "runtime monitoring: borrow-state monitor over all pairs and triples of access requests on one world",
    [hos(), lig(secs=(20, 240)), lig("miri", secs=(30, 300), shards=2, scale=(1, 5), prio=2)],
    "Access requests (views, queries, point queries, slices, iterators, Query::new and their reborrows over 4 types) are held open in "
    "all pairs, many triples and random sequences, and released normally, out of order or by unwinding. A request must be "
    "granted exactly when no conflicting one is held; after release everything must be available again. Distinct by "
    "request combination and outcome. Safe programs that try to get around the rules must be refused by the compiler or at run time.",
    assumptions=["three component types suffice to exhibit every conflict", "triples and longer sequences are sampled"],
)
spec(
    "C15",
    "runtime monitoring: acceptance and effect monitor over enumerated and random group layouts",
    [lig(secs=(25, 300))],
    "Group lists over up to 16 (and at the limits 144) types are declared in every order for all pairs and triples of small groups, and "
    "at random beyond; acceptance must equal nested-or-disjoint, and of every accepted layout all groups must serve dense "
    "queries on a populated world and declared types be registered. Distinct by the normalised list of groups.",
    assumptions=["groups of fewer than two types have no effect (documented)", "longer lists are sampled"],
)
spec(
    "C17",
    "fault injection under runtime monitoring: panicking destructors, iterators and closures with a drop ledger, canaries, model comparison, AddressSanitizer and Miri",
    [
        eng(secs=(12, 300)),
        eng("asan", secs=(12, 300), no_leaks=True),
        eng("miri", secs=(30, 1200), scale=(2, 20), shards=4, prio=2, miriflags="-Zmiri-ignore-leaks -Zmiri-seed={shard}"),
        eng(par=True, secs=(8, 200), shards=4, env={"RAYON_NUM_THREADS": "4"}),
    ],
    HIST + "the n-th destructor call, iterator item or closure call of an operation panics and is caught. The operation must have taken "
    "full effect (extend: exactly the rows before the panic), borrows must be free, every entity be found with its components in "
    "views, point queries, queries and slices, no value dropped twice or read after its drop; the history then continues "
    "under all other monitors. "
    "Distinct by operation, fault position, bundle, layout, size.",
)
spec(
    "C19",
    "runtime monitoring: uniqueness monitor while indices and versions of a world are used up completely",
    [lig(secs=(600, 900), shards=3, hang=400)],
    "All 2^32 indices of a world are drawn by racing threads and checked in a bitmap; one index is recycled through all versions; "
    "afterwards creation must refuse by panicking, earlier handles stay distinct, destroy, clear and reset still work. One "
    "evaluation per handle; distinct by phase and handle range.",
    assumptions=["only two routes to exhaustion are followed in the quick check, three in the thorough one"],
)
spec(
    "C20",
    "runtime monitoring: allocation counter of the process watched over long steady-state histories; leak detection",
    [lig(secs=(25, 300)), scl(), lig("asan", secs=(15, 200), scale=(2, 4))],
    "Random programs (create, insert, remove, destroy, extend, create_atomic, maintain, reset, set_layout) whose cycles end in the "
    "state they began with are repeated; bytes held by the process must not grow beyond the first cycles and must return "
    "to the start once the world is dropped. Fresh indices may only be used when no dead one is available. Distinct by "
    "program shape.",
    assumptions=["a counting global allocator sees all memory of the crate", "clear is excluded: it never recycles indices (documented)"],
)
spec(
    "C24",
    "runtime monitoring: SparseVec compared with a reference map, with impossible requests, debug assertions and Miri",
    [lig("dev", secs=(15, 200)), lig(secs=(12, 200)), lig("miri", secs=(25, 400), shards=4, scale=(1, 10), prio=2), lig("miri", secs=(15, 200), shards=1, scale=(1, 10), target=W32, label="32-bit")],
    "Random operations on the public sparse index (insertion through slots, removal by handle and by index, lookups with stale "
    "and foreign versions, unchecked access where allowed, huge indices) are compared with a map after every step. "
    "Distinct by operation, slot state, version relation, size.",
    assumptions=["the reference map in /verif/light/src/c24.rs states the intended behaviour"],
)
spec(
    "C26",
    "runtime monitoring: processor-time monitor comparing the cost of each operation in small and large worlds",
    [lig(secs=(60, 600), shards=4)],
    "Sixteen kinds of operations under four group layouts are measured (thread processor time, best of many batches) beside 300 and "
    "300,000 bystanders; costs may differ by a factor of 12 (observed: at most 3; a linear cost differs by hundreds). "
    "One evaluation per pair of costs; distinct by operation, layout and size.",
    note="Measured costs of the real library at two sizes; a cost growing more slowly than the threshold is missed.",
    assumptions=["costs between the two sizes behave regularly", "the threshold leaves room for caches and noise"],
)

spec(
    "C27",
    "runtime monitoring: twin worlds and twin processes given the same histories, all observable results compared",
    [eng(secs=(25, 400)), eng("rel", secs=(15, 300))],
    HIST + "every history is executed three times: alone, again on a second world while other worlds of the process are used in "
    "between, and by another process with other addresses and differently filled fresh memory. Handles, results, order of "
    "entities, items and removed values must be equal. One evaluation per recorded result; distinct by operation and state.",
)

spec(
    "C28",
    "runtime monitoring: algebraic laws of the value types checked online, builders and formatting compared with a model",
    [lig("dev", secs=(12, 200)), lig(secs=(12, 200)), lig("miri", secs=(25, 400), shards=2, scale=(1, 10), prio=2)],
    "Random handles and versions at every boundary, descriptions of 24 types (namesakes included), layouts and builders in random "
    "sequences of changes, copies and builds, and worlds formatted in random states. Every comparison, hash, copy, successor, built "
    "world and formatted view is one evaluation. Distinct by relation of the values, configuration, state.",
    assumptions=["the model of configurations in /verif/light/src/c28.rs states the intended behaviour", "the text of formatted values is not judged, only that it shows each component once"],
)
