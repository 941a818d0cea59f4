#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json,os
R="include/boost/multi_index/"
C="include/boost/multi_index_container.hpp"
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=[obs],hook_needed=None)))
H=["inputs","histories","configurations"]
p("P01","All indices of a container always hold exactly the same elements",
"After any completed operation, whichever index it was issued through and whether it succeeded or was rejected, traversing any index of the container (forwards, or backwards where supported) visits every element exactly once, and every index reports the same size. Projecting an iterator to another index, or asking an index for the iterator to a given element, yields an iterator to that very element (end maps to end).",
H,"all histories of public operations issued through any index, for all index combinations and element values",
"The tests check this after a handful of fixed scripts on two or three container types; the property ranges over every interleaving of operations across indices.",
[C,R+"detail/index_base.hpp",R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp"],
[("layered insert/extract/clear across the index stack",C+": insert_, erase_, clear_, extract_"),("project / iterator_to",C+": project")],
"public iteration of every index after every call")
p("P02","Insertion takes effect iff no unique index holds an equivalent key",
"An insertion (copy, move, emplace, hinted, positional, range or initializer list; through any index) adds the element to all indices if and only if no index with unique keys already holds an element with an equivalent key. Otherwise the container is unchanged and the call reports failure together with an element that really banned the insertion; in ranges each element is tried in order and independently.",
H,"all element values, container contents, index combinations, entry points and hints",
"Tests try a few colliding values on fixed containers; rejection by a later index after an earlier index accepted, through every entry point and hint, is sampled at very few points.",
[C,R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"detail/index_base.hpp"],
[("check-then-link insertion through the stack of indices",R+"detail/ord_index_impl.hpp: insert_, link_point, hinted_link_point; "+R+"hashed_index.hpp: insert_, link_point")],
"return value of the call plus full contents afterwards")
p("P03","Ordered and ranked indices stay sorted, equal keys keep their place",
"Ordered and ranked indices are always traversed in non-descending order of their key under their comparison object. An element inserted without hint goes after all elements with equivalent key; an accepted hint places it as close as possible to just before the hint; an element whose key does not change never changes position relative to the others.",
H,"all key sequences, hints, comparison objects (descending, coarse equivalence, composite) and interleaved erasures/modifications",
"Tests use a dozen insertions on fixed data; wrong placement among equivalents or a broken rebalance only shows for particular shapes.",
[R+"detail/ord_index_impl.hpp",R+"detail/ord_index_node.hpp"],
[("link point computation and red-black linking/unlinking",R+"detail/ord_index_impl.hpp: link_point, hinted_link_point, lower_link_point; "+R+"detail/ord_index_node.hpp: link, rebalance, rebalance_for_extract")],
"iteration order of ordered/ranked indices after every call")
p("P04","Ordered lookup and range queries delimit exactly the matching elements",
"On ordered and ranked indices, find, contains, count, lower_bound, upper_bound, equal_range and range answer exactly according to the current contents: the bounds are the first element not less / greater than the key, and the range of a lower and an upper condition is precisely the elements that satisfy both (or the documented empty range). This holds equally for compatible keys, compatible comparison objects and unbounded range ends.",
["inputs","histories","configurations"],"all contents, keys (present, absent, below, above), compatible key/comparison extensions, and pairs of bounds including crossed and unbounded ones",
"Tests query one fixed multiset with a few keys.",
[R+"detail/ord_index_ops.hpp",R+"detail/ord_index_impl.hpp"],
[("tree descent for bounds and ranges",R+"detail/ord_index_ops.hpp; "+R+"detail/ord_index_impl.hpp: range")],
"results of the lookup calls compared with the traversal")
p("P05","Ranked indices always know the exact rank of every position",
"On ranked indices the rank of an iterator equals its distance from the beginning, nth(n) is the element at that distance (end when out of bounds), and the find/lower_bound/upper_bound/equal_range/range rank variants and count agree with the corresponding iterators. This holds after any history of insertions, erasures, modifications, extractions, transfers, swaps and copies.",
H,"all histories that restructure the tree and all positions/keys queried",
"Per-node counters drift only for particular rebalancing cases or operation combinations; tests do one scripted sequence.",
[R+"ranked_index.hpp",R+"detail/rnk_index_ops.hpp",R+"detail/ord_index_node.hpp"],
[("subtree size augmentation",R+"ranked_index.hpp: rank policies add/remove/copy/rotate_left/rotate_right/check; "+R+"detail/rnk_index_ops.hpp")],
"rank of every iterator, nth of every position and the rank queries")
p("P06","Hashed lookup finds exactly the equivalent elements, kept adjacent",
"On hashed indices, find, contains, count and equal_range return exactly the elements whose key is equivalent to the argument (also through compatible key/hash/equality extensions), and elements with equivalent keys are always adjacent in traversal. Erasing elements preserves the relative order of those that remain, and rehashing preserves the relative order of equivalent elements.",
H,"all histories, group sizes, hash functions (including colliding ones) and keys queried",
"Group bookkeeping differs for groups of one, two and three or more elements and for group position inside the bucket; tests exercise few of those combinations.",
[R+"hashed_index.hpp",R+"detail/hash_index_node.hpp",R+"detail/hash_index_iterator.hpp"],
[("grouped bucket lists",R+"detail/hash_index_node.hpp: hashed_index_node_alg link/unlink/after/unlink_last_group; "+R+"hashed_index.hpp: find, equal_range, link_point")],
"lookups for every key in the domain plus traversal")
p("P07","Buckets partition the elements and honour the load policy",
"The buckets of a hashed index partition its elements: each element is found by bucket iteration exactly once, in the bucket reported for its key, and bucket sizes agree. After a successful insertion or a rehash the load factor does not exceed the maximum load factor, rehash and reserve provide at least the requested room, and no rehash happens while the requested room suffices; rehashing never loses, duplicates or invalidates elements.",
H,"all insertion/erasure/rehash/reserve/max-load-factor histories, bucket counts and hash distributions",
"Growth thresholds and bucket-boundary cases are hit at a few sizes only.",
[R+"hashed_index.hpp",R+"detail/bucket_array.hpp",R+"detail/hash_index_iterator.hpp",R+"detail/hash_index_node.hpp"],
[("bucket array sizing and rehash",R+"hashed_index.hpp: reserve_for_insert, unchecked_rehash, calculate_max_load; "+R+"detail/bucket_array.hpp"),("bucket traversal",R+"detail/hash_index_iterator.hpp")],
"bucket interface and hash policy calls after every operation")
p("P08","Sequenced indices behave as a list whose insertions may be vetoed",
"A sequenced index keeps insertion order (elements inserted through other indices go to the back) and every list operation (positional insertion, push/pop, resize, assign, remove, unique, sort, merge, reverse, splice, relocate, rearrange) yields exactly the order the corresponding list operation would, except for insertions banned by other indices. Sorting and merging are stable and none of these operations reorders the non-positional indices.",
H,"all sequences of list operations, positions, ranges and predicates, alone or combined with other indices",
"List algorithms have boundary cases (empty, adjacent, self, position inside neighbours); tests use one or two fixed lists.",
[R+"sequenced_index.hpp",R+"detail/seq_index_ops.hpp",R+"detail/seq_index_node.hpp"],
[("relinking of doubly linked nodes",R+"detail/seq_index_node.hpp: relink; "+R+"detail/seq_index_ops.hpp: unique, merge, sort, rearrange; "+R+"sequenced_index.hpp: insert, splice, relocate")],
"traversal order after every list operation")
p("P09","Random access indices offer exact positional access over the same order",
"On a random access index, positional access, iterator arithmetic, differences and comparisons agree with the traversal order at all times, and every list, relocation, sort, rearrange, resize and positional insertion/erasure yields exactly the order the corresponding vector/list operation would, except for insertions banned by other indices. Capacity is never below size, reserve provides at least what is asked, shrink_to_fit reduces capacity to size, and no growth happens while capacity suffices.",
H,"all sequences of positional operations, sizes across growth thresholds, and combinations with other indices",
"The back-pointer array is rewritten by index shifts whose boundary cases (front/back, block moves left/right, reallocation) are only sampled.",
[R+"random_access_index.hpp",R+"detail/rnd_index_ops.hpp",R+"detail/rnd_index_node.hpp",R+"detail/rnd_index_ptr_array.hpp"],
[("pointer array and in-place relocation",R+"detail/rnd_index_node.hpp: relocate, extract; "+R+"detail/rnd_index_ops.hpp; "+R+"detail/rnd_index_ptr_array.hpp: reserve, room_for_one, shrink_to_fit")],
"positional access, arithmetic and traversal after every operation")
p("P10","Replacing or modifying an element updates exactly that element",
"replace, modify and modify_key change the value of exactly the designated element and reposition it in every index whose key changed, succeeding if and only if no unique index holds another element with an equivalent key. A refused replace leaves everything unchanged, a refused modify erases exactly that element; in all successful cases the element's identity is preserved, positions in sequenced and random access indices are untouched and elements keep their place where their key is equivalent to the former one.",
H,"all elements, new values, containers and index combinations, including values that collide in a later index only",
"The in-place shortcut and relinking are decided per index per neighbour configuration; tests check a few scripted updates.",
[C,R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"detail/modify_key_adaptor.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp"],
[("replace/modify down the index stack with in-place test",R+"detail/ord_index_impl.hpp: replace_, modify_, in_place; "+R+"hashed_index.hpp: replace_, modify_, in_place; "+C+": modify_, replace_")],
"return value, element identity and full contents after each call")
p("P11","Erasure removes exactly the designated elements and nothing else",
"Erasing by position, by range or by key, popping, clearing, and removing by value, predicate or consecutive duplication remove exactly the designated elements from all indices, preserve the relative order of the survivors in every index, and return the number removed or the position following the removed elements in that index.",
H,"all positions, ranges, keys and predicates on all containers",
"Unlinking has distinct cases per index (tree shapes, group ends, array shifts); tests erase a few fixed positions.",
[C,R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp",R+"detail/rnd_index_ops.hpp"],
[("unlinking from every index",C+": erase_, clear_; per-index extract_/erase"),("group erase",R+"hashed_index.hpp: erase(key)")],
"return value and contents after each call")
p("P12","A failed modification rolls back or erases just that element",
"modify and modify_key with a rollback keep the element, restored and in its original place in every index, whenever the change is refused or a user-provided comparison, equality or hash operation throws while rearranging, provided the rollback itself completes and restores the value. If the modifier or the rollback throws or the rollback does not restore a consistent value, exactly that element is erased; without rollback any refusal or exception erases exactly that element. No other element is ever affected, and the exception that reaches the caller is that of the rollback if it threw, else the original one.",
["inputs","histories","configurations","fault_sequences"],"all contents, modifications, failing user operations (each call in turn) and rollback outcomes, on all index combinations",
"Only a couple of collisions with well-behaved rollbacks are tested; no test makes a comparison or hash throw during rearrangement.",
[C,R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"detail/index_base.hpp"],
[("modify with rollback and its handlers",C+": modify_(mod,back,x); "+R+"detail/ord_index_impl.hpp: modify_rollback_, check_rollback_; "+R+"hashed_index.hpp: modify_rollback_, check_rollback_")],
"contents, return value and exception after each call with injected faults")
p("P13","Single-element operations are all-or-nothing when user code throws",
"If an element constructor or assignment, a comparison, a hash or equality object or an allocation throws during a single-element insertion, node insertion, single-element transfer, replace, lookup, reserve/rehash or container assignment, the container is left exactly as before (hashed tables may have grown, capacity may have grown). Multi-element operations and sorts left by an exception keep the container consistent: every index still holds the same elements, sorted and unique as required, none lost other than by the operation's own erasures and none invented.",
["inputs","histories","configurations","fault_sequences"],"every possible failing call inside each operation, on all contents and index combinations",
"The suite injects practically no faults; the rollback code in the insertion paths, rehash, sort and copying is not executed by tests.",
[C,R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"random_access_index.hpp",R+"detail/seq_index_ops.hpp",R+"detail/copy_map.hpp",R+"detail/rnd_index_ops.hpp"],
[("exception paths of insertion, rehash, sort and copy",C+": insert_, insert_ref_, emplace_; "+R+"hashed_index.hpp: unchecked_rehash; "+R+"detail/seq_index_ops.hpp: sequenced_index_sort; "+R+"detail/copy_map.hpp")],
"full contents before/after an operation whose k-th user call throws, for every k")
p("P14","Node handles carry an element out of and into containers unharmed",
"extract removes exactly the designated element (or nothing, giving an empty handle, when no key matches) and the handle owns that same object; inserting the handle into a compatible container links the very same object, without copying or moving it, or, when banned, reports the banning element and leaves the handle owning the object. Empty handles insert as no-ops, the handled element may be altered meanwhile, and handles that are moved, swapped, assigned over or destroyed neither lose nor leak or doubly destroy their element.",
H,"all extraction points, handle manipulations, destination containers (same or compatible type) and hints",
"A few scripted extract/insert rounds are tested.",
[C,R+"detail/node_handle.hpp",R+"detail/index_base.hpp",R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp"],
[("node handle ownership",R+"detail/node_handle.hpp: move ctor, move assignment, swap, release_node, destructor"),("insert_nh_/extract_",C)],
"object identity, handle state and contents after each call")
p("P15","Merging and splicing transfer the very elements that are accepted",
"Merging or splicing (one element, a range or everything) between compatible containers moves, in source order, exactly those elements the destination accepts, as the same objects without copying (copying is used only between unequal allocators), and leaves the rejected ones in the source with their order intact in all indices. Between indices of one same container, merge does nothing and splice only repositions.",
H,"all pairs of compatible containers, source indices, positions and ranges, with arbitrary collisions, and equal or unequal allocators",
"Tests merge a couple of fixed containers; partial rejection through each index kind and source index is not enumerated.",
[C,R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp",R+"detail/index_base.hpp",R+"detail/any_container_view.hpp"],
[("transfer between containers",C+": transfer_, transfer_range_; "+R+"detail/index_base.hpp: transfer; splice in "+R+"sequenced_index.hpp and "+R+"random_access_index.hpp")],
"contents of both containers and object identities after each call")
p("P16","Copy, move, swap and assignment reproduce contents and every order",
"Copying (construction, assignment, with or without a given allocator) yields a container with equal elements in the same order in every sequenced, random access, ordered and ranked index, and independent of the source; moving and swapping transfer the very same objects when allocators permit (otherwise move-construct equal ones), preserving every order. Assignment from a list or range yields what inserting its elements in order into an empty container would; self-assignment and self-swap change nothing.",
H,"all contents, index combinations, allocator traits and equal/unequal allocators",
"Tests compare a few small containers, mostly with operator==, which ignores the order of the other indices.",
[C,R+"detail/copy_map.hpp",R+"hashed_index.hpp",R+"random_access_index.hpp",R+"detail/ord_index_impl.hpp",R+"sequenced_index.hpp"],
[("order-preserving copy through a node map",R+"detail/copy_map.hpp; copy_ in each index"),("swap_/swap_elements_",C)],
"contents and orders of both containers after each call")
p("P17","Iterators and references stay valid until their element is erased",
"Iterators (including end) and references obtained from any index remain valid and designate the same element across any other operation (insertion, erasure of other elements, modification, rehash, reallocation of capacity, sort, transfer to a container with the same iterator types, move and swap) until that element is erased or extracted. References to an extracted element are valid again once it is re-inserted.",
H,"all histories of operations applied while iterators and references are held",
"Tests seldom hold iterators across unrelated operations.",
[C,R+"detail/index_base.hpp",R+"detail/rnd_index_ptr_array.hpp",R+"hashed_index.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp"],
[("node-based storage; header node travels on swap",C+": swap_, swap_elements_; "+R+"detail/rnd_index_node.hpp; "+R+"detail/bidir_node_iterator.hpp")],
"a pool of held iterators/references dereferenced after every operation")
p("P18","Every object is destroyed once and all memory returns to its allocator",
"Each element object constructed by a container is destroyed exactly once, and each piece of memory obtained from an allocator is returned exactly once, with the same size, to an equal allocator. A container never obtains memory from an allocator other than its own current one, also after copies, moves, swaps and assignments with any combination of allocator propagation, and with exceptions at any point; when a container and the handles extracted from it are gone, nothing it allocated or constructed is left.",
["inputs","histories","configurations","fault_sequences"],"all histories including exceptions, allocators equal/unequal and all propagation traits",
"Leak counting is done in very few tests and only for nodes; auxiliary arrays and exception paths are not observed.",
[C,R+"detail/auto_space.hpp",R+"detail/bucket_array.hpp",R+"detail/rnd_index_ptr_array.hpp",R+"detail/copy_map.hpp",R+"detail/node_handle.hpp",R+"detail/header_holder.hpp"],
[("node and array allocation",C+": allocate_node, deallocate_node, delete_node_, operator=; "+R+"detail/auto_space.hpp; "+R+"detail/copy_map.hpp")],
"instrumented allocator and element type")
p("P19","Serialization round trips restore contents and every stable order",
"Loading an archive saved from a container (text, binary or XML) replaces the previous contents by restored copies of all its elements, in the same order in every ordered, ranked, sequenced and random access index, including the relative order of equivalent elements. Iterators and bucket iterators saved after the container are restored as iterators to the corresponding elements or ends.",
H,"all containers (any contents and any rearrangement of their indices) and iterators into them",
"Order reconstruction stores only a minimal difference, so correctness depends on the particular permutation; tests try a few.",
[C,R+"detail/index_saver.hpp",R+"detail/index_loader.hpp",R+"detail/index_matcher.hpp",R+"detail/duplicates_iterator.hpp",R+"detail/rnd_index_loader.hpp",R+"sequenced_index.hpp",R+"detail/ord_index_impl.hpp"],
[("minimal rearrangement by longest increasing subsequence",R+"detail/index_matcher.hpp; "+R+"detail/index_saver.hpp; "+R+"detail/index_loader.hpp; "+R+"detail/rnd_index_loader.hpp")],
"contents and order of every index of the restored container; restored iterators")
p("P20","Safe mode diagnoses every documented misuse and never a correct use",
"With safe mode enabled, using an uninitialised, invalidated, end, foreign or out-of-range iterator, or an invalid range, where an operation forbids it is reported with the corresponding error code before the container is touched. Correct programs are never diagnosed: iterators are tracked across erasure, clearing, modification failure, extraction, transfer, swap, move, assignment and destruction so that each is considered valid exactly as long as it is, and owned by exactly the container that holds its element.",
H,"all histories of iterator creation, copying, use and container operations in safe mode",
"Tests check one scripted error per code; ownership tracking over histories is not explored.",
[R+"detail/safe_mode.hpp",R+"safe_mode_errors.hpp",R+"detail/index_base.hpp",R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp"],
[("per-container registry of checked iterators",R+"detail/safe_mode.hpp: safe_iterator, safe_container, detach_dereferenceable_iterators, swap; "+R+"detail/index_base.hpp: transfer")],
"error code (or none) of each operation on a pool of iterators")
p("P21","Composite keys compare lexicographically; all key extractors agree",
"Composite keys compare, test equal and hash component by component with the supplied per-component functions, also against tuples of values, and a tuple shorter than the key matches by prefix, so that lookups by partial key return exactly the elements matching the given leading components. Every way of specifying the same key (data member, const or non-const member function, global function, identity, or key shorthand; on values, pointers and reference wrappers) yields an index with identical behaviour.",
["inputs","configurations","histories"],"all component values, numbers of components, per-component orderings and partial tuples; all extractor forms",
"Tests compare a handful of constant tuples.",
[R+"composite_key.hpp",R+"member.hpp",R+"mem_fun.hpp",R+"global_fun.hpp",R+"identity.hpp",R+"key.hpp"],
[("recursive component-wise operations",R+"composite_key.hpp: compare_ckey_ckey, compare_ckey_cval, equal_ckey_cval, hash_ckey; "+R+"key.hpp")],
"results of lookups and of the comparison operators; iteration order")
p("P22","Container comparison follows the order of the index compared",
"Comparing two containers through ordered, ranked, sequenced or random access indices is equality and lexicographical comparison of their traversals, with the six relational operators mutually consistent. Hashed indices compare equal if and only if both hold, for every key, the same elements up to permutation, independently of insertion history, bucket counts and iteration order.",
H,"all pairs of containers, including same contents reached by different histories",
"Tests compare a few fixed pairs.",
[R+"detail/ord_index_impl.hpp",R+"hashed_index.hpp",R+"sequenced_index.hpp",R+"random_access_index.hpp",R+"detail/index_base.hpp"],
[("comparison operators",R+"hashed_index.hpp: equals; "+R+"detail/ord_index_impl.hpp: operator==, operator<; "+R+"sequenced_index.hpp; "+R+"random_access_index.hpp")],
"results of the operators")
p("P23","Operations do no more work than their complexity promises",
"For every insertion and erasure order, lookup, insertion, range and rank queries and repositioning in ordered and ranked indices call the comparison predicate, and take steps inside the structure, at most logarithmically in the size (plus the elements counted, for count on a non-ranked ordered index); insertion with an exact hint compares a constant number of times, and erasing by position, extracting, splicing, relocating, rearranging and reversing within a container, moving and swapping compare nothing and construct no element, sequenced relocation, swapping and moving taking constant time. Hashed lookups compare only with elements of one bucket and with a bounded number of elements per distinct key whatever the size of its group, n insertions hash, compare and allocate O(n) in total, and each single-element insertion constructs at most one element; extraction, transfer between equal allocators and sorting construct none.",
H,"all sizes and insertion/erasure orders",
"Tests never count operations; a lost rebalance, a lost group link or a linear scan leaves all results correct.",
[R+"detail/ord_index_node.hpp",R+"detail/ord_index_ops.hpp",R+"hashed_index.hpp",R+"detail/rnk_index_ops.hpp",C],
[("red-black balance",R+"detail/ord_index_node.hpp: rebalance, rebalance_for_extract"),("group skipping in buckets",R+"hashed_index.hpp: find; "+R+"detail/hash_index_node.hpp: next_to_inspect")],
"counts of comparison, hash, equality calls and element constructions per operation")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
