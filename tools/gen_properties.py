#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (committed output; run by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

EA="src/entity/entity_allocator.rs"; ES="src/entity/entity_storage.rs"; ESS="src/entity/entity_sparse_set.rs"
SV="src/entity/sparse_vec.rs"; EM="src/entity/mod.rs"; W="src/world/mod.rs"; WB="src/world/builder.rs"
CS="src/component/component_set.rs"; CSS="src/component/component_sparse_set.rs"; CST="src/component/component_storage.rs"
GR="src/component/group.rs"; GI="src/component/group_info.rs"; GL="src/component/group_layout.rs"; GM="src/component/group_mask.rs"
SM="src/component/storage_mask.rs"; V="src/component/view.rs"
Q="src/query/mod.rs"; QA="src/query/query_all.rs"; QO="src/query/query_one.rs"; QP="src/query/query_part.rs"
DI="src/query/iter/dense_iter.rs"; SI="src/query/iter/sparse_iter.rs"; IM="src/query/iter/mod.rs"
DPI="src/query/par_iter/dense_par_iter.rs"; SPI="src/query/par_iter/sparse_par_iter.rs"; PM="src/query/par_iter/mod.rs"

p("C01","Entity handles are never issued twice",
  "Between two resets of a world, every handle returned by create, extend or create_atomic is different from every handle that world returned before, whatever sequence of creations, atomic creations, maintenance, destructions and clears lies between. In particular a handle that was destroyed, cleared away or still waits to be maintained is never handed out again, even though its index may be reused with another version.",
  ["histories"],"all sequences of create/extend/create_atomic/maintain/destroy/clear/reset on one world",
  "The tests create at most two entities, never recycle an index and never call create_atomic or maintain.",
  [EA,ES,EM],[("versioned recycling of indices",EA+" recycle/allocate/allocate_atomic/maintain"),("Version::next",EM)],
  ["return values of World::create, World::extend, World::create_atomic"],
  [("recycled","queue of reusable (index, next version) handles",EA),("next_index_to_allocate","first never-used index",EA)])

p("C02","A handle is live from its creation until it is removed, and only then",
  "contains_entity, entities(), is_empty, and the results of destroy and insert always agree with the history: a handle is live exactly from its creation (for create_atomic: from the next maintain) until destroy, clear or reset removes it, and entities() lists every live handle exactly once. A handle that is not live (destroyed, cleared, pending, of another version, or made up) stays not live until it is legitimately issued, and destroying it, inserting into it, removing or deleting from it and looking up its components reports failure or absence and changes nothing.",
  ["histories","inputs"],"all operation histories, and all live, dead, pending and made-up handles given to every operation",
  "The tests check liveness after a handful of create/destroy calls and never use maintain, recycled indices or stale handles on recycled indices.",
  [ESS,ES,EA,SV,W],[("version check on every lookup",SV+" get/contains/remove"),("swap-remove with index repair",ESS+" remove"),("maintain adds only queued entities",ES)],
  ["World::contains_entity","World::entities","World::is_empty","return values of destroy/insert/remove"],
  [("entities","dense list of live entities plus versioned sparse index",ESS)])

p("C03","Components hold exactly the last value written, per entity and type",
  "After any history of create, extend, insert, remove, delete and destroy, looking up a component of a live entity yields exactly the value last inserted for that entity and type, or nothing if it was never inserted or has since been removed; remove returns exactly that value. No operation on one entity or type changes any component of another entity or of another type.",
  ["histories"],"all histories of component operations over any set of component types and any group layout",
  "The tests insert and remove two component types on one entity, without groups, without other entities whose data could be disturbed, and without storage growth.",
  [CS,CSS,GR,W],[("sparse set insert/remove with swap-back",CSS),("group/ungroup before removal and after insertion",CS+", "+GR)],
  ["World::query_one().get","World::borrow().get","return value of World::remove"],
  [("sparse/entities/components","parallel arrays of one component storage",CSS)])

p("C04","query_all yields exactly the matching entities, each once, with own data",
  "For every query with at least one required component, iterating query_all (through iter, for_each or World::for_each) yields exactly one item for every live entity that has all requested and included components and none of the excluded ones, and no item for any other. Each item consists of that entity's own handle and own current component values, with optional parts being present exactly when the entity has that component.",
  ["histories","programs"],"all histories, all group layouts and all combinations of get, include, exclude, optional and Entity parts",
  "The tests run five fixed queries over three entities that are never moved, removed or ungrouped, and compare only entity handles.",
  [Q,QA,QP,SI,DI,CST,GR],[("shortest-storage sparse iteration",Q+" split_sparse_parts, "+SI),("dense iteration over group prefixes",DI+", "+CST+" group_range")],
  ["items produced by QueryAll::iter / for_each / World::for_each"])

p("C05","Point queries and views agree with the entity's actual components",
  "query_one (contains, get, map), World::contains and component views (get, contains, indexing, len, entities, as_slice) report for every handle exactly what the entity has: a match exactly when the handle is live, has all requested and included components and none of the excluded ones, and then that entity's own values. Views list every entity owning the component exactly once, with entities() and as_slice() in the same order, and stale or made-up handles match no query that requires a component and are never given any component, optional parts included.",
  ["histories","inputs","programs"],"all histories, all handles (live, stale, pending, made up), all query shapes with at least one required component",
  "The tests look up two fixed entities with single-component queries and never use filters, stale handles on recycled indices, optional parts or views.",
  [QO,Q,QP,V,SV,CSS],[("versioned sparse lookup",SV+" get"),("contains_all/contains_none",Q+", "+QO)],
  ["QueryOne::contains/get/map","World::contains","View/ViewMut accessors"])

p("C06","Grouping never changes what operations and queries return",
  "Running the same history of operations and queries on worlds that differ only in their group layout gives the same results: the same entities are live, every operation returns the same value, and every query yields the same set of items. Groups affect only iteration order and the availability of dense iteration and slices.",
  ["configurations","histories"],"all pairs of group layouts (including none) and all histories run under both",
  "The two iterator tests use one fixed layout each with three entities built in one go; no test removes a component from a grouped entity.",
  [GR,CST,CS,GI,GM],[("group()/ungroup() maintain sorted prefixes",GR),("insert_mask/delete_mask/skip_mask select the groups to visit",CST)],
  ["all World return values and query items, compared across layouts"],
  [("Group.len","length of the grouped prefix of the family's storages",GR)])

p("C07","Grouped queries are always served densely",
  "A query over a single component without filters, a query whose requested and included components are exactly those of a declared group, and a query that additionally excludes exactly the components which the next larger group of the same family adds, always iterates densely (sequentially and in parallel) and offers slices, after any history. Dense iterators report exactly the number of matching entities as their length.",
  ["histories","configurations","programs"],"all layouts of nested groups, all histories, all queries matching a declared group",
  "The dense test checks is_dense for one three-level layout right after three creations, never after removals, destroys, re-insertions or layout changes, and never checks lengths.",
  [CST,GI,GR,QA,GM,SM],[("query mask equals group include/exclude mask",CST+" include_group_range/exclude_group_range"),("group info accumulation",GI)],
  ["Iter::is_dense","ParIter::is_dense","QueryAll::slice().is_some()","ExactSizeIterator::len"])

p("C08","Slices hold exactly the matching rows, aligned across components",
  "Whenever QueryAll::slice returns slices, they contain exactly the entities matching the query, including its exclude filters, each once; all slices of the tuple have the same length, and position i of every slice (including the Entity slice) belongs to the same entity. Queries that are not served by a group return no slices.",
  ["histories","configurations","programs"],"all layouts, histories, and slice queries with and without include and exclude filters",
  "No test calls slice().",
  [QP,QA,CST,GR],[("slice_raw over the group's index range",QP),("group_range",CST)],
  ["QueryAll::slice"])

p("C09","Every component value is dropped exactly once, at the right time",
  "A component value moved into a world is either returned to the caller by remove or dropped by the world exactly once: at the moment it is overwritten, deleted, its entity is destroyed, the world is cleared, reset or dropped. No value is leaked, dropped twice, or dropped while it is still reachable, also across storage growth, regrouping and layout changes.",
  ["histories"],"all histories over component types with and without destructors, zero-sized, over-aligned, large and heap-owning",
  "All test components are Copy integers without destructors.",
  [CSS,CS,CST],[("typed vtable delete/clear/drop/grow",CSS),("mem::needs_drop guards",CSS)],
  ["destructor invocations of instrumented component types"])

p("C10","Safe use never causes undefined behaviour, whatever the component type",
  "No sequence of safe API calls, with component types of any size, alignment and ownership (zero-sized, over-aligned, large, heap-owning), causes memory errors, reads of uninitialised or freed memory, misaligned or aliasing references, or leaked allocations.",
  ["histories","inputs","programs"],"all safe programs, sampled by hostile histories under AddressSanitizer, LeakSanitizer and Miri",
  "The tests never run under a sanitizer, use only 4-byte components, and hardly exercise growth, removal and regrouping in the crate's unsafe code.",
  [CSS,GR,Q,QP,DI,SI,SV,CST,V],[("manual allocation layout and growth",CSS+" grow_typed/compute_layout"),("unchecked indexing justified by group and sparse invariants",GR+", "+QP)],
  ["sanitizer and interpreter reports; canaries in component values"])

p("C11","Concurrent create_atomic calls hand out distinct, maintainable handles",
  "When any number of threads call create_atomic on a shared world concurrently, every call returns a different handle, none of them equal to a live, earlier or pending handle; none of them is live before maintain, and after maintain exactly these handles become live, each once, without components. Interleaving such phases with create, destroy, clear and reset keeps this true.",
  ["schedules","histories"],"all interleavings of concurrent create_atomic callers, over recycled and fresh indices, for all surrounding histories",
  "No test calls create_atomic or maintain, and no test uses threads.",
  [EA,ES,W],[("compare-exchange on the two reservation counters",EA+" increment_recycled_since_maintain/increment_next_index_to_allocate"),("maintain drains exactly the reserved handles",EA+" maintain")],
  ["handles returned to each thread; World::entities after maintain"],
  [("recycled_since_maintain","number of recycled handles reserved atomically",EA)])

p("C12","Sharing a world between threads is free of data races",
  "Any number of threads may use a shared world at the same time through its shared-reference operations (queries, views, parallel iteration, create_atomic, liveness checks): there are no data races, threads that read see complete values, and writes made by one thread through an exclusive view or query are visible to the next borrower. Conflicting accesses are refused by panicking, never performed. Types that cannot be shared or moved between threads (Cell, Rc, raw pointers) cannot be components.",
  ["schedules"],"all thread interleavings of shared-reference operations on one world",
  "No test uses threads, and the parallel feature is only compiled by the tests, never run.",
  [CST,EA,DPI,SPI,V,QP],[("AtomicRefCell per storage",CST),("Send/Sync implementations",CSS+", "+DPI+", "+SPI),("atomic counters",EA)],
  ["ThreadSanitizer and Miri race reports; torn-value and lost-update monitors"])

p("C13","Parallel iteration visits the same items as sequential iteration, once each",
  "par_iter, par_for_each and World::par_for_each visit exactly the items that sequential iteration of the same query yields, each exactly once, for every thread-pool size and work split, and mutations made through them all take effect. The dense parallel iterator, used as an indexed iterator, has the right length and keeps the sequential order under every split.",
  ["schedules","histories","programs"],"all pool sizes, splits, world states, layouts and query shapes",
  "No test executes the parallel iterators.",
  [PM,DPI,SPI,QA],[("delegation to rayon ranges and slices",DPI+", "+SPI),("range and entity selection",QA+" par_iter")],
  ["items seen by par_iter/par_for_each compared with iter and the model"])

p("C14","Conflicting component borrows are refused, compatible ones granted, all freed",
  "Borrowing components through views or queries follows reader/writer rules per component type: any number of shared borrows may coexist, an exclusive borrow coexists with no other borrow of that type, a conflicting request panics, and a compatible request never does. Dropping a view, query or iterator, also by unwinding from a panic in user code or from a refused request, releases exactly what it borrowed.",
  ["histories","programs"],"all sequences and nestings of acquiring and releasing views and queries of all shapes",
  "No test holds two borrows at once or provokes a conflict.",
  [CST,V,Q,QP,QA,QO],[("AtomicRefCell borrow/borrow_mut",CST),("guards held by View/ViewMut inside queries",V)],
  ["panic or success of each acquisition, compared with a reader/writer table"])

p("C15","Group layouts are accepted exactly when nested or disjoint, in any order",
  "A set of component groups is accepted exactly when it splits into families without common component types such that the groups of a family are nested in one another; the order of declaration does not matter, and up to 16 component types per group and 64 groups per world are supported. Every accepted group takes effect, repeated and at most single-type groups change nothing, and every other combination is refused with a panic, never silently altered: a refused group leaves the layout or builder, and a refused layout the world, as it was.",
  ["inputs","configurations"],"all sequences of group declarations over any component types",
  "The tests declare one layout, smallest group first; no incompatible, out-of-order, repeated, 16-type or 64-group layout is ever built.",
  [GL,GM,SM,CST,WB],[("try_add_group chain checks",GL),("mask construction",GM+", "+SM),("set_layout",CST)],
  ["panic or success of add_group/build/set_layout; density of every declared group"])

p("C16","Query iterators obey the iterator protocol",
  "Iterators over a query are consistent however they are consumed: size_hint always bounds the number of remaining items, dense iterators know it exactly, next keeps returning None after the end, and next, fold, for_each, IntoIterator and the standard adaptors see the same items in the same order, also when switching from one to the other midway. Iterating an unchanged query again yields the same items in the same order.",
  ["histories","programs"],"all query shapes, world states, and interleavings of next with internal iteration",
  "The tests only collect an iterator once into a set.",
  [IM,DI,SI,QA],[("fold overrides",DI+", "+SI+", "+IM),("size_hint/len",DI)],
  ["next/fold/size_hint/len of Iter, DenseIter, SparseIter"])

p("C17","Panics in user code never corrupt memory or wedge the world",
  "When user code called by the world panics (a component destructor during overwrite, delete, destroy, clear, reset or world drop; the iterator given to extend; a closure given to for_each, par_for_each or map) and the panic is caught, memory stays sound: no component is dropped twice or read after being dropped, no entity loses or gains a component it should not, and all borrows are released. insert, delete, destroy, clear and reset take full effect nevertheless, and extend keeps exactly the entities it created before the panic, complete; all entities continue to be found by exactly the queries they match, with the same groups in effect.",
  ["fault_sequences","histories"],"all operations that run user code, and all points at which that code can panic",
  "No test involves a panic.",
  [CSS,CS,W,QA,CST],[("order of bookkeeping and drop_in_place",CSS+" delete/clear_typed"),("replaced and deleted values dropped last, new entities grouped by a guard","src/component/component_set.rs"),("guards released by unwinding",V)],
  ["destructor ledger, sanitizer reports and model comparison after catch_unwind"])

p("C18","clear and reset empty the world completely, keeping registrations and groups",
  "After clear the world has no entities and no components of any type, no earlier or pending handle ever becomes live again, while all component types stay registered and all groups stay effective. After reset the world additionally behaves like a newly built world with the same registrations and layout: the same operations yield the same handles and the same results.",
  ["histories"],"all histories before and after clear/reset, in particular with recycled, pending and grouped entities",
  "The tests clear a world with one live entity and check only is_empty and registration; reset is only checked for registration.",
  [W,ES,EA,CST,CSS,ESS,SV],[("clear drains reservations, storages and group lengths",ES+", "+CST),("allocator reset",EA+" reset")],
  ["entities(), queries, views, and handles issued afterwards"])

p("C19","Exhausting versions or indices never reuses a handle",
  "An index whose version counter has reached its last value is retired instead of starting over, so that even after 2^32 destructions on one index no handle is issued twice. When all indices are used up, creating further entities panics, sequentially and atomically, instead of returning a duplicate; the world remains usable and destroyed entities can still be recycled.",
  ["histories"],"histories of more than 2^32 creations and destructions",
  "The tests create two entities; the limits lie at 2^32 operations.",
  [EA,EM,ES],[("Version::next is checked",EM),("index counter is 64-bit and converted with try_from",EA)],
  ["handles issued by create/create_atomic at the limits; panic or success"])

p("C20","Memory use is bounded by the world's contents, not by its history",
  "Repeating any cycle of operations that returns a world to equivalent contents (creating and destroying entities, atomic creation with maintain, inserting and removing components, reset, setting layouts, running queries) does not let its memory use grow without bound, and dropping the world frees all of it. Destroyed indices are reused before new ones are taken.",
  ["histories"],"unboundedly repeated operation cycles over a bounded population, with and without maintain",
  "The tests never repeat a cycle and never measure allocations.",
  [EA,ESS,CSS,CST,SV],[("recycled handles leave the queue when reused",EA),("storages are reused across layouts",CST+" extract_sparse_sets")],
  ["live heap bytes (counting allocator), highest index issued"])

p("C21","set_layout on a populated world preserves all data and regroups it",
  "Setting a new group layout on a world in any state keeps every entity, every component value and every registration unchanged, drops nothing, and registers the component types the layout mentions. From then on exactly the groups of the new layout are in effect, for existing entities as well as for later ones, and groups of the old layout have no influence.",
  ["histories","configurations"],"all world states, all sequences of layouts, all later histories",
  "No test calls set_layout.",
  [CST,W,GR],[("extract_sparse_sets moves storages",CST+" set_layout"),("regrouping of all live entities",CST+" set_layout, "+GR+" group")],
  ["entities, component values, density and slices after World::set_layout"])

p("C22","Compound operations equal the simple operations they abbreviate",
  "create with components equals creating an empty entity and inserting them, in any tuple order or split; extend equals repeated create and returns exactly the new entities in iteration order; delete equals remove with the result dropped; destroying equals deleting all components and the entity; create equals create_atomic, maintain and insert; the builder equals new plus register; World::for_each and contains equal the corresponding queries. Worlds driven by either form are indistinguishable in their entities, components and query results.",
  ["programs","histories"],"all histories rewritten by these laws, under all layouts",
  "The tests use neither extend nor delete nor create_atomic, and never compare two ways of doing something.",
  [CS,W,WB,ES],[("ComponentSet insert/extend/remove/delete",CS),("World facade",W)],
  ["final state and return values of both worlds"])

p("C23","Component registration is idempotent, sticky and required",
  "register returns true exactly the first time a type becomes registered in a world, is_registered is true from then on for good, and registering at any time, in any order, however many types, or again, never disturbs existing entities, components or groups. Using an unregistered type in any operation or query panics without changing any component of any entity, and worlds built from the same builder or used side by side are fully independent.",
  ["histories","configurations","inputs"],"all histories interleaving registrations with other operations, any number of component types and worlds",
  "The tests register two types on an empty world and never use an unregistered type or a second world.",
  [CST,W,WB,CS],[("metadata map keyed by TypeId",CST+" register_dyn"),("panic_missing_comp",CST)],
  ["register/is_registered results, panics, and state comparison around them"])

p("C24","The public sparse index behaves as a versioned map",
  "For every sequence of operations and every index, the public SparseVec behaves like a map from index to at most one (dense index, version) slot: versioned lookups and removals succeed exactly when the stored version matches, unversioned ones exactly when the slot is occupied, and writing one slot or growing the map never changes another. Requests that cannot be satisfied panic instead of accessing memory out of bounds.",
  ["inputs","histories"],"all sequences of SparseVec calls over all index and version values",
  "SparseVec has no tests of its own.",
  [SV,EM],[("slot vector grown to a power of two",SV+" extend_to_index"),("version filters",SV+" get/contains/remove")],
  ["return values of all safe SparseVec methods"])

p("C25","Writes through mutable access reach exactly the addressed component",
  "A value written through any mutable access (mutable query items from iter, for_each, par_for_each or query_one, mutable slices, view get_mut, indexing or as_mut_slice) is afterwards observed for exactly that entity and component type by every way of reading, survives later regrouping and storage growth, and no other component changes. During one iteration no two items give access to the same component value.",
  ["histories","programs"],"all histories, layouts and mutable access paths",
  "The tests never write through a query or view.",
  [QP,Q,V,DI,SI,DPI,SPI],[("pointer arithmetic per item",QP+" get_sparse_raw/get_dense_raw/slice_raw"),("ViewMut",V)],
  ["read-back of uniquely tagged values through queries and views"])

p("C26","Operations cost only what they touch, whatever else the world holds",
  "The time an operation takes does not grow with the parts of the world it does not concern: creating, destroying, inserting into, removing from, overwriting and looking up single entities, creating atomically, building queries and taking slices cost (amortised) the same beside any number of other entities, components, recycled or pending handles; maintain costs as much as there are pending handles, dense iteration as much as there are matching entities, sparse iteration as much as the rarest required component has owners; building a world of n entities costs time proportional to n.",
  ["histories","inputs"],"all world sizes and layouts; sampled at sizes a thousand times apart",
  "The tests use a handful of entities and measure nothing.",
  [EA,CSS,Q,DI,SI,GR],[("smallest storage chosen",Q+" split_sparse_parts"),("swap removal",CSS),("group swaps",GR)],
  ["thread CPU time of batches of each operation at two world sizes, compared"])

p("C27","The same operations on the same start give the same results",
  "What a world does depends only on the operations given to it since it was built: two worlds built with the same layout and given the same operations return the same handles, the same values, the same order of entities() and of query and view items, the same density, and run the destructors of components in the same order, in one process or in two, whatever other worlds of the process do meanwhile, wherever memory is allocated and whatever it held before. (Operations of one world run by a single thread; nothing is said about the order in which threads racing for create_atomic are served.)",
  ["histories","programs"],"all operation histories, executed repeatedly: twice in one process beside other worlds, and in two processes",
  "Every test executes its operations once, on one world, and compares the results with constants.",
  [EA,ESS,CSS,CST,GR,GL,Q],[("FIFO/LIFO recycling without global state",EA),("types ordered by TypeId",GL+" new"),("smallest storage chosen by length",Q+" split_sparse_parts"),("FxBuildHasher without random state",CST)],
  ["all results of World's operations, compared between executions"])

p("C28","Handles, descriptions, layouts and builders behave as plain values",
  "Two handles (versions) are equal exactly if index and version (number) are, and two component descriptions exactly if they describe the same type, wherever they were made and whatever the types' names; equality, total order, hashing and copying agree with one another, so sorting, deduplicating and keeping them in ordered or hashed collections loses and doubles nothing; the version after v is v+1 and there is none after the last. A layout or builder is changed only by its own methods: copies are independent, and every world built has exactly the groups and registrations given so far, however often a builder is used and whatever happens to the worlds built. Formatting a world, view, layout or handle with Debug never panics, borrows or changes anything, in any state and during any borrow, and a view shows each of its components once.",
  ["inputs","programs","histories"],"all pairs and triples of handles, versions and types; all sequences of builder operations; all states of a world",
  "The tests compare a few handles for equality, never order, hash or print anything, and use every builder once.",
  [EM,"src/component/component_data.rs",GL,WB,V,W],[("equality by TypeId","src/component/component_data.rs"),("order by version, then index",EM+" Ord for Entity"),("deduplicated registration",CST+" register_dyn"),("build from &self",WB+" build")],
  ["comparison operators, Hash, Clone, Debug of public types","WorldBuilder::build","World::new"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False)+"\n")
print(len(P))
