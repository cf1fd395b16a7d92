#!/usr/bin/env python3
# One-off generator of /verif/properties.jsonl (kept so that the file stays well-formed).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   **({'observe_at':observe} if observe else {}),hook_needed=None)))
RB=["immer/detail/rbts/rrbtree.hpp","immer/detail/rbts/rbtree.hpp","immer/detail/rbts/operations.hpp","immer/detail/rbts/position.hpp","immer/detail/rbts/node.hpp"]
CH=["immer/detail/hamts/champ.hpp","immer/detail/hamts/node.hpp","immer/detail/hamts/bits.hpp"]
p("C01","vector is a persistent sequence",
 "For every value of immer::vector and every sequence of its operations (construction, push_back, set, update, take, copy, assignment), the result holds exactly the elements a mathematical sequence would hold after the same operations, in the same order, for every leaf/branch width. Every other vector value that existed before the operation, including ones sharing structure with it, still holds exactly the elements it held.",
 ["inputs","histories","configurations"],"all operation histories, over every tree shape they can produce and every bits/bits_leaf/memory policy choice",
 "The tests walk one long push_back chain per configuration and check a handful of sizes; combinations of take/set/push_back on shared trees at level boundaries are not enumerated.",
 ["immer/vector.hpp"]+RB,[("radix tree path copying","immer/detail/rbts/rbtree.hpp"),("position visitors","immer/detail/rbts/position.hpp")],
 ["vector::operator[], size, iteration of every live value"])
p("C02","flex_vector is a persistent sequence under concat/slice",
 "For every immer::flex_vector value, however it was built (including relaxed, unbalanced trees produced by concatenation, slicing, insertion, erasure and conversion from vector), each operation (push_back, push_front, set, update, take, drop, +, insert, erase) returns exactly the sequence that the same operation on a mathematical sequence gives, also for very large sizes reached by self-concatenation. All other existing values keep their exact contents.",
 ["inputs","histories","configurations"],"all operation histories, hence all relaxed tree shapes, and all operand pairs",
 "Relaxed-tree shapes are combinatorial; the tests and fuzz corpus sample a few; a bug can need one specific leaf-size profile and cut point.",
 ["immer/flex_vector.hpp"]+RB,[("relaxed concatenation/rebalancing","immer/detail/rbts/operations.hpp"),("slicing visitors","immer/detail/rbts/operations.hpp"),("size tables of relaxed nodes","immer/detail/rbts/node.hpp")],
 ["flex_vector::operator[], size, iteration of every live value"])
p("C03","array is a persistent sequence",
 "For every immer::array value, each operation (construction, push_back, set, update, take, conversion to/from a transient) returns exactly the sequence the same operation on a mathematical sequence gives, and data() exposes those elements contiguously. All other existing array values keep their exact contents.",
 ["inputs","histories","configurations"],"all operation histories up to small sizes, persistent and transient, all memory policies",
 "Tests use few sizes and mostly trivially destructible elements; capacity growth/shrink combined with sharing is not enumerated.",
 ["immer/array.hpp","immer/array_transient.hpp","immer/detail/arrays/no_capacity.hpp","immer/detail/arrays/with_capacity.hpp","immer/detail/arrays/node.hpp"],
 [("copy on write arrays","immer/detail/arrays/no_capacity.hpp"),("capacity management","immer/detail/arrays/with_capacity.hpp")])
p("C04","set is a mathematical set for any hash",
 "For every immer::set value and every sequence of insert/erase/construction over keys with any hash function (including total and partial hash collisions), size, count, find, empty and iteration agree exactly with a mathematical set; inserting a present element or erasing an absent one does not change the contents. All other existing values keep their exact contents.",
 ["inputs","histories","configurations"],"all histories over key universes whose hashes agree on any prefix, for every branching width",
 "Tests insert long ranges with well-distributed or one family of colliding hashes; removal orders that collapse chains of nodes or collision nodes at a given depth are not enumerated.",
 ["immer/set.hpp"]+CH,[("HAMT insert/erase with inlining","immer/detail/hamts/champ.hpp"),("node copy/merge helpers","immer/detail/hamts/node.hpp")])
p("C05","map is a mathematical finite map for any hash",
 "For every immer::map value and every sequence of insert/set/update/update_if_exists/erase over keys with any hash function, size, count, find, at, operator[] and iteration agree exactly with a mathematical finite map: update sees the current (or default) value exactly once, update_if_exists and erase on an absent key change nothing, at throws out_of_range exactly for absent keys. All other existing values keep their exact contents.",
 ["inputs","histories","configurations"],"all histories over key universes whose hashes agree on any prefix, for every branching width",
 "Tests sample a few histories per hash family; the interplay of value replacement with deep collision chains and shared nodes is combinatorial.",
 ["immer/map.hpp"]+CH,[("HAMT update/update_if_exists","immer/detail/hamts/champ.hpp"),("node copy helpers","immer/detail/hamts/node.hpp")])
p("C06","table is a finite map keyed by its elements",
 "For every immer::table value and every sequence of insert/update/update_if_exists/erase, the table holds at most one element per key, insert replaces the element with an equal key entirely, and size, count, find, at, operator[] and iteration agree exactly with a mathematical map from key to element. All other existing values keep their exact contents.",
 ["inputs","histories","configurations"],"all histories over key universes whose hashes agree on any prefix, for every branching width",
 "As for map, only sampled; table-specific key projection/combination paths get fewer tests.",
 ["immer/table.hpp"]+CH,[("table key projection","immer/table.hpp"),("HAMT operations","immer/detail/hamts/champ.hpp")])
p("C07","sequence transients: same results, full isolation",
 "A transient of a vector or flex_vector behaves as a mutable sequence: after any sequence of its operations (push_back, set, update, take, drop, append, prepend, copy, assignment, persistent) its contents and every persistent value taken from it equal those of the corresponding immutable operations. No mutation of a transient is ever visible through any persistent value or other transient, whether created before or after, copied, or passed to append/prepend as an lvalue, under reference counting and under tracing-GC policies.",
 ["inputs","histories","configurations"],"all interleavings of transient and persistent operations over values that share structure",
 "Isolation quantifies over all interleavings of mutations with snapshots; tests follow a few straight-line patterns.",
 ["immer/vector_transient.hpp","immer/flex_vector_transient.hpp","immer/transience/gc_transience_policy.hpp"]+RB,
 [("in-place mutation when uniquely owned","immer/detail/rbts/rrbtree.hpp"),("edit tokens","immer/transience/gc_transience_policy.hpp"),("mutable concat/slice","immer/detail/rbts/operations.hpp")])
p("C08","set/map/table transients: same results, full isolation",
 "A transient of a set, map or table behaves as the mutable counterpart: after any sequence of insert, set, update, update_if_exists, erase, copy, assignment and persistent, its contents and every persistent value taken from it equal those of the immutable operations. No mutation of a transient is ever visible through any persistent value or other transient, under reference counting and under tracing-GC policies.",
 ["inputs","histories","configurations"],"all interleavings of transient and persistent operations over values that share structure, any hash",
 "Isolation quantifies over all interleavings of mutations with snapshots and over hash collision patterns; tests follow a few straight-line patterns.",
 ["immer/set_transient.hpp","immer/map_transient.hpp","immer/table_transient.hpp","immer/transience/gc_transience_policy.hpp"]+CH,
 [("in-place mutation when uniquely owned","immer/detail/hamts/champ.hpp"),("separately owned value arrays","immer/detail/hamts/node.hpp")])
p("C09","moved-from operands: same result, no effect on aliases",
 "Calling an operation on an r-value container (or passing containers as r-values to +, insert, or constructing/assigning by move) gives exactly the result of the same call on an l-value, and no other variable ever changes, even when it shares structure with the moved container. A moved-from variable can be destroyed and assigned, and `v = std::move(v)` and `v = std::move(v).op()` are well defined.",
 ["inputs","histories","configurations"],"all operation histories mixing l-value and r-value calls over values that share structure, for all containers",
 "In-place mutation triggers only for particular sharing patterns; tests exercise unshared chains and few shared ones.",
 ["immer/vector.hpp","immer/flex_vector.hpp","immer/array.hpp","immer/set.hpp","immer/map.hpp","immer/table.hpp","immer/box.hpp"]+RB[:3]+CH[:2],
 [("use_transient_rvalues dispatch","immer/memory_policy.hpp"),("uniqueness test of reference counts","immer/refcount/refcount_policy.hpp")])
p("C10","memory is reclaimed exactly once and never used after",
 "With a reference counting policy, at every point of every history the library holds only memory and element objects reachable from live containers: when the last container is gone everything has been released exactly once, with the size it was allocated with, every element object has been destroyed exactly once, and nothing is read or written outside live memory. Moving and in-place mutation never leak nor double-release, for all containers, transients, boxes and atoms.",
 ["inputs","histories","configurations"],"all operation histories over all containers and memory policies",
 "Tests do not run under a leak or lifetime checker and mostly use trivially destructible elements.",
 ["immer/detail/rbts/operations.hpp","immer/detail/rbts/node.hpp","immer/detail/hamts/node.hpp","immer/detail/arrays/node.hpp","immer/box.hpp","immer/detail/util.hpp"],
 [("reference counts","immer/refcount/refcount_policy.hpp"),("dec/delete visitors","immer/detail/rbts/operations.hpp"),("delete_deep","immer/detail/hamts/node.hpp")])
p("C11","exceptions leave every value intact and leak nothing",
 "If an allocation, an element copy, a hash, a comparison or a user function or iterator throws at any point inside any operation, the exception propagates, every container value not being mutated in place (all operands of const operations, and every other live value) keeps its exact contents, and no memory or element is leaked or destroyed twice. A transient or r-value operand of a failing operation remains destructible and assignable without corrupting other values.",
 ["inputs","histories","fault_sequences"],"every fault point inside every operation from every explored state",
 "The tests throw at scattered points using one element type and check contents only; they do not check leaks nor allocation failure of each step.",
 RB+CH[:2]+["immer/detail/arrays/with_capacity.hpp","immer/detail/arrays/node.hpp","immer/detail/util.hpp"],
 [("IMMER_TRY/IMMER_CATCH rollback","immer/detail/rbts/operations.hpp"),("uninitialized_copy rollback","immer/detail/util.hpp")])
p("C12","GC policy never loses reachable data",
 "With a tracing garbage collector (no reference counting), every object the library may still use is reachable, through memory it did not declare pointer-free, from a live container variable at all times, so that a collection at any allocation or between any two operations never changes any observable value, and no address that a collector gives out again is taken for what it had been before.",
 ["inputs","histories","schedules"],"all operation histories with a collection at any allocation point",
 "Collections happen at unpredictable points; the tests with libgc hardly ever collect at the critical allocation.",
 ["immer/heap/gc_heap.hpp","immer/heap/tags.hpp","immer/transience/gc_transience_policy.hpp","immer/detail/rbts/node.hpp","immer/detail/hamts/node.hpp"],
 [("norefs_tag allocation of pointer-free blocks","immer/detail/rbts/node.hpp"),("ownership tokens","immer/transience/gc_transience_policy.hpp")])
p("C13","diff reports exactly the difference",
 "For any two set, map or table values, whether related by history or not, immer::diff calls added, removed and changed exactly once for exactly the elements (keys) that are only in the new value, only in the old value, or in both with unequal values, passing the old and new elements in that order; equal elements are never reported.",
 ["inputs","histories"],"all pairs of values over key universes with any hash collision structure",
 "The tests compare random pairs with one hash; a node-vs-value or collision-vs-value mismatch at a given depth needs a specific pair.",
 ["immer/algorithm.hpp"]+CH[:2],[("node-wise diff","immer/detail/hamts/champ.hpp")])
p("C14","equality is equality of contents",
 "For any two values of the same container type, == is true exactly when they have equal contents (same sequence, or same set of elements/key-value pairs), independently of how each was built, of internal shape and of sharing; != is its negation, and box comparison is comparison of the boxed values. Two values with the same identity() are equal.",
 ["inputs","histories"],"all pairs of values reachable by any two histories",
 "Tests compare values built by similar histories; pairs with equal contents and different internal shapes, or shapes equal and contents different in one place, are sampled.",
 ["immer/detail/rbts/rrbtree.hpp","immer/detail/rbts/rbtree.hpp","immer/detail/rbts/operations.hpp","immer/detail/hamts/champ.hpp","immer/detail/arrays/no_capacity.hpp","immer/box.hpp"],
 [("equals_visitor","immer/detail/rbts/operations.hpp"),("canonical HAMT form","immer/detail/hamts/champ.hpp")])
p("C15","iterators and bulk algorithms visit exactly the contents",
 "For any container value of any shape, iteration visits every element exactly once (in index order for sequences, forwards and backwards, with random access iterators obeying iterator arithmetic), and for_each, for_each_chunk, accumulate, copy and all_of (whole container or sub-range of iterators) visit exactly the same elements, with all_of / *_p stopping exactly at the first failure. at() throws out_of_range exactly for indices not below size.",
 ["inputs","histories"],"all reachable shapes, all sub-ranges, all pairs of positions",
 "Tests check few shapes (mostly regular trees) and few sub-ranges.",
 ["immer/algorithm.hpp","immer/detail/iterator_facade.hpp","immer/detail/rbts/rrbtree_iterator.hpp","immer/detail/rbts/rbtree_iterator.hpp","immer/detail/hamts/champ_iterator.hpp","immer/detail/rbts/operations.hpp","immer/detail/rbts/position.hpp"],
 [("region_for caching iterator","immer/detail/rbts/rrbtree_iterator.hpp"),("for_each_chunk visitors","immer/detail/rbts/operations.hpp"),("champ_iterator","immer/detail/hamts/champ_iterator.hpp")])
p("C16","sharing immutable values across threads is safe",
 "With the thread-safe policies, any number of threads may concurrently read, copy, destroy, transform (also as r-values or transients of their own copies) container and box values that share structure, with no synchronization: there is no data race, each thread sees exactly the results of sequential execution, and shared memory is released exactly once.",
 ["schedules","histories"],"all thread interleavings at atomic operations, with C++ memory-model happens-before",
 "Apart from the atom tests the tests are single threaded; races need specific interleavings of reference count updates.",
 ["immer/refcount/refcount_policy.hpp","immer/detail/rbts/node.hpp","immer/detail/hamts/node.hpp","immer/box.hpp","immer/detail/rbts/operations.hpp","immer/detail/hamts/champ.hpp"],
 [("atomic reference count with acquire/release","immer/refcount/refcount_policy.hpp"),("unique() test before in-place mutation","immer/refcount/refcount_policy.hpp")])
p("C17","atom operations are linearizable",
 "With thread-safe policies (reference counted or GC), concurrent load, store, exchange and update on an atom behave as if each took effect atomically at one instant between call and return: no update is lost, update's result is its function applied to the immediately preceding value, and values read remain valid and unchanged; there is no data race, deadlock, leak or premature release.",
 ["schedules","histories"],"all thread interleavings of small programs over one atom",
 "The atom tests spin a few threads for a while; they sample schedules only.",
 ["immer/atom.hpp","immer/box.hpp","immer/lock/spinlock_policy.hpp"],[("spinlock protected box","immer/atom.hpp"),("CAS loop for GC","immer/atom.hpp"),("spinlock","immer/lock/spinlock_policy.hpp")])
p("C18","heaps hand out disjoint, sufficient memory, thread-safely",
 "For every heap and heap adaptor, in every sequence (and for the thread-safe heaps every interleaving) of allocate/deallocate calls and thread exits, live blocks never overlap, are big enough and suitably aligned for the requested size, are returned to the parent heap at most once with the size they were obtained with, a free list keeps no more than its limit plus one per thread, and there is no data race.",
 ["schedules","histories","configurations"],"all interleavings/sequences of allocate/deallocate over several threads, sizes and limits",
 "The heap tests allocate and free a block or two in one thread.",
 ["immer/heap/free_list_heap.hpp","immer/heap/thread_local_free_list_heap.hpp","immer/heap/unsafe_free_list_heap.hpp","immer/heap/split_heap.hpp","immer/heap/with_data.hpp","immer/heap/debug_size_heap.hpp","immer/heap/heap_policy.hpp"],
 [("lock-free free list","immer/heap/free_list_heap.hpp"),("thread-exit clear","immer/heap/thread_local_free_list_heap.hpp")])
p("C19","box is an immutable value holder",
 "For every history of box construction, copy, move, assignment, update (on l-values and r-values), get and comparison, each box observes exactly its own value; update on one box never changes another box sharing the value, even when r-value update works in place, and a moved-from box can be destroyed and assigned. Copying a box never copies the boxed value. This includes values that hold boxes of their own type: assigning to a box from a box inside the value it holds works.",
 ["inputs","histories","configurations"],"all operation histories over a few boxes, all policies",
 "Tests follow a handful of straight-line histories.",
 ["immer/box.hpp"],[("intrusive holder","immer/box.hpp")])
p("C20","structural sharing: operations cost what they promise",
 "With D the longest path of memory blocks in the values involved, counting allocations and copies of elements: copying or moving a container, transient() and persistent() copy no element and allocate nothing (with a garbage collected policy, at most the two words that tell the owner). set, update, push_back and take (persistent, of an r-value or of a transient) allocate at most 2D+2 blocks and copy at most one leaf of elements; drop at most two leaves; concatenation, append, prepend and push_front at most two full nodes and their leaves on every level, insert and erase in the middle of a flex_vector twice that; an array makes one block and copies its n elements at most once. insert, update and erase in a set, map or table allocate at most 2D+2 blocks and copy at most the elements held directly by the nodes of one path. On an r-value or transient of a vector or flex_vector that shares no memory with anything else, set, update, push_back and take copy no element (drop: at most one leaf), and set and update allocate nothing. Likewise insert, update and erase on a set, map or table copy nothing but a new key and what the function takes. The same operation again on an r-value or transient that owns what it touches copies no element and, unless the tree grows or shrinks, allocates nothing; n push_backs to an owned array of n elements reallocate at most twice. An operation that adds no elements makes no tree taller than its inputs were; one that adds elements makes it at most one level taller, or at most one level taller than a perfectly full tree of its size. Comparing a value with its copy, or diffing them, looks at no element; comparing a value with one that has an element replaced, and diffing a set, map or table with one that has an element more, less or changed, looks only at the elements along one path; looking a key up compares no keys but those with the same hash and at most one other.",
 ["inputs","histories","configurations"],"all reachable values up to a bound, all operations, measured allocations and element copies",
 "Tests never measure allocations or element copies.",
 ["immer/detail/rbts/operations.hpp","immer/detail/rbts/rrbtree.hpp","immer/detail/hamts/champ.hpp","immer/detail/arrays/with_capacity.hpp","immer/memory_policy.hpp"],
 [("path copying","immer/detail/rbts/operations.hpp"),("ownership test for in-place mutation","immer/detail/rbts/node.hpp")])
p("C21","dvektor is a persistent sequence",
 "For every experimental dvektor value and sequence of push_back/update/assoc/copy operations, the result holds exactly the elements a mathematical sequence would hold, iteration (in any direction and by jumps, of any size including the empty one) visits them in order, and all other existing values keep their exact contents, also when an operation throws; memory is reclaimed exactly once.",
 ["inputs","histories"],"all operation histories across level boundaries",
 "Five tests follow one push_back chain.",
 ["immer/experimental/dvektor.hpp","immer/experimental/detail/dvektor_impl.hpp"],[("display of tree path","immer/experimental/detail/dvektor_impl.hpp")])
p("C22","Containers hold the values they were given, whatever their types",
 "For every value type that can be copied and moved - including types that lists of their own values convert to (as the values of JSON libraries) and types of strict alignment - and for every hash function, whatever integer type it returns, every operation of vector, flex_vector, array, set, map, table, their transients and dvektor stores exactly the values it was given, and lookups find exactly the keys that were inserted; with every supported compiler. (A box is documented to hold `T{arg}`.)",
 ["inputs","histories","configurations"],"all operation histories up to the stated depths, for element types and hash functions of each sort",
 "The tests use integers, strings and counters of copies, and hash functions that return size_t.",
 ["immer/vector.hpp","immer/flex_vector.hpp","immer/array.hpp","immer/set.hpp","immer/map.hpp","immer/table.hpp","immer/config.hpp"]+RB+CH,[("construction of elements","immer/detail/rbts/node.hpp"),("construction of values, lookup","immer/detail/hamts/champ.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
