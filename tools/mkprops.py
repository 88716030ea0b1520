#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
T='tommyds/'
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a={"files":[T+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(observe),"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
HF=["tommyhashtbl.c","tommyhashtbl.h","tommyhashdyn.c","tommyhashdyn.h","tommyhashlin.c","tommyhashlin.h"]
props=[
P("C01","Hash tables: a lookup finds a stored match, the earliest inserted one",
 "In each of the three hash tables, searching with a hash and a comparison that accept some stored element returns the data of an element that is stored, has exactly that hash and is accepted by the comparison; among all such elements it is the one inserted first. If no stored element matches, the search returns null. The bucket list returned for a hash contains every stored element with that hash, in insertion order.",
 ["inputs","histories"],"every table content reachable by any history of inserts and removals (any number of elements, any hash values, any collision pattern, any bucket count, any stage of incremental growth or shrink), every hash, every comparison function",
 "check.c uses dense hashes 0..N or one fixed multiplicative pattern, unique keys and checks only that some object is returned; it never stores equal hashes and looks at the order, nor all split positions of the incremental table.",
 HF,[("bucket selection from hash","tommyhashtbl.h:tommy_hashtable_bucket, tommyhashdyn.h:tommy_hashdyn_bucket, tommyhashlin.h:tommy_hashlin_bucket_ref/tommy_hashlin_pos"),("walk and match","tommy_hashtable_search, tommy_hashdyn_search, tommy_hashlin_search"),("placement on insert","tommy_hashtable_insert, tommy_hashdyn_insert, tommy_hashlin_insert")],
 [("bucket array","bucket[k] heads the list of the elements whose hash selects k","tommy_hashtable/tommy_hashdyn/tommy_hashlin structs"),("split/low_max/state","position of the incremental resize","tommy_hashlin struct")],
 ["tommy_hashtable_search","tommy_hashdyn_search","tommy_hashlin_search","tommy_*_bucket"]),
P("C02","Hash tables: removal takes out exactly the right element",
 "Removing by hash and comparison takes out exactly the first inserted element that has that hash and is accepted, and returns its data; removing an existing node takes out exactly that node and returns its data. Every other stored element stays stored, is still found by its hash, and keeps its order relative to the elements of equal hash. When nothing matches, null is returned and the table is unchanged.",
 ["inputs","histories"],"every reachable table content, every position of the element in its bucket (first, middle, last, only), every resize stage that the removal triggers",
 "check.c removes elements with unique hashes in a few fixed orders; which of several equal elements goes, and the fate of the untouched ones at each shrink step, is not observed.",
 HF,[("unlink","tommylist.h:tommy_list_remove_existing"),("match and unlink","tommy_hashtable_remove, tommy_hashdyn_remove, tommy_hashlin_remove and the _remove_existing forms")],
 observe=["tommy_*_remove","tommy_*_remove_existing","tommy_*_search"]),
P("C03","Resizing a hash table never loses, duplicates, misplaces or reorders",
 "When an insertion or a removal makes the dynamic or the linear hash table grow, shrink or advance its incremental reorganisation by any number of steps, every element stored before is stored after, exactly once, in the bucket where a lookup by its hash looks, and elements of equal hash keep their relative order. The table stays ready for the next resize in either direction.",
 ["inputs","histories"],"every table size, every distribution of elements over buckets, every split position and direction (including changes of direction in the middle of a reorganisation)",
 "Tests grow and shrink monotonically with distinct hashes spread over the buckets, so partially reorganised states, direction changes and the order inside a split bucket are hardly reached and never asserted.",
 HF[2:]+["tommylist.h"],[("full rehash","tommyhashdyn.c:tommy_hashdyn_resize"),("grow split step","tommyhashlin.c:hashlin_grow_step"),("shrink join step","tommyhashlin.c:hashlin_shrink_step"),("virtual position to segment","tommyhashlin.h:tommy_hashlin_pos")],
 [("bucket_bit/bucket_max/bucket_mask","current size","tommy_hashdyn, tommy_hashlin"),("low_max/low_mask/split/state","incremental reorganisation","tommy_hashlin")],
 ["tommy_hashdyn_insert","tommy_hashdyn_remove","tommy_hashlin_insert","tommy_hashlin_remove"]),
P("C04","Iteration visits every stored element once, even if the callback frees it",
 "The foreach functions of the list, the three hash tables and the tree call the callback exactly once for the data of each stored element and for nothing else, passing the caller's argument unchanged in the two-argument forms. An element's node is never accessed after its callback was called, so the callback may free it. List iteration follows list order.",
 ["inputs","histories"],"every reachable content of each container, including the hash tables in the middle of a reorganisation; callbacks that free the visited element",
 "check.c compares only the number of calls, mostly in stable states, and frees nothing where a later read would be noticed; each visit of each element at each split position is out of reach.",
 ["tommylist.h","tommyhashtbl.c","tommyhashdyn.c","tommyhashlin.c","tommytree.c"],[("iteration loops","tommy_list_foreach, tommy_hashtable_foreach, tommy_hashdyn_foreach, tommy_hashlin_foreach and the _arg forms"),("recursive iteration","tommytree.c:tommy_tree_foreach_node, tommy_tree_foreach_arg_node")],
 observe=["calls of the user callback"]),
P("C05","The element count is always exact",
 "In every container the reported count equals the number of stored elements: it grows by one on a successful insert, shrinks by one on a successful removal, is unchanged by a removal or search that finds nothing and by inserting an equal element in a tree, is zero after initialisation, and for a list equals the number of linked nodes. For the arrays the reported size is the largest size ever requested; for the allocator the usage report is the number of live blocks times the block size.",
 ["inputs","histories"],"every history of operations, successful or not, on each container",
 "check.c looks at counts after inserts only, never after a failed removal, a removal by node, or a refused insert.",
 HF+["tommylist.h","tommytree.c","tommytrie.c","tommytrieinp.c","tommyalloc.c","tommyarray.c","tommyarrayof.c","tommyarrayblk.c","tommyarrayblkof.c"],[("count field updates","every insert/remove function"),("list count","tommylist.h:tommy_list_count")],
 [("count","number of stored elements","all container structs")],["tommy_*_count","tommy_*_size"]),
P("C06","Lists stay well linked and hold exactly the expected nodes in order",
 "After any operation on a list, following next from the head visits exactly the stored nodes in order and ends at null, following prev backwards visits them in reverse, and the head's prev is the tail. Insert at head or tail puts the node at that end, concat appends the second list after the first, removal unlinks only the given node; the relative order of all the other nodes is unchanged.",
 ["inputs","histories"],"lists of any length, node at any position, both lists empty or not, any operation sequence",
 "check.c builds a few long lists and never walks them backwards or checks the links around an arbitrary removed node.",
 ["tommylist.h","tommylist.c"],[("link updates","tommy_list_insert_first, tommy_list_insert_head_not_empty, tommy_list_insert_tail_not_empty, tommy_list_remove_existing, tommy_list_concat"),("accessors","tommy_list_head, tommy_list_tail, tommy_list_empty")],
 [("list","pointer to the head; head->prev is the tail; tail->next is null","tommy_list, tommy_node")],["tommy_list_head","tommy_list_tail","node->next","node->prev"]),
P("C07","List sort yields a stable sorted permutation of the same nodes",
 "Sorting a list with a consistent comparison leaves exactly the same nodes in the list, in non-decreasing order, with nodes that compare equal in their original relative order, and the list is well linked. No other memory is changed.",
 ["inputs"],"lists of any length, any consistent comparison function, any input order",
 "check.c sorts three fixed patterns; stability is judged by address on one of them.",
 ["tommylist.c","tommychain.h"],[("merge","tommychain.h:tommy_chain_merge, tommy_chain_merge_degenerated"),("bottom-up sort","tommychain.h:tommy_chain_mergesort"),("list set up","tommylist.c:tommy_list_sort")],
 observe=["tommy_list_sort"]),
P("C08","Tree: searches, inserts and removals agree with the comparison order",
 "In the tree a search finds the stored element that compares equal to the argument whenever there is one and returns null otherwise. Insert stores the new element unless an equal one is stored, in which case that one is returned and the tree keeps the same elements; removal takes out exactly the equal element and returns it, or returns null. All the other elements stay stored and findable.",
 ["inputs","histories"],"every tree reachable by any history, every consistent comparison function, every argument, every rotation pattern",
 "check.c inserts and removes four dense integer patterns, so only a few rotation shapes occur.",
 ["tommytree.c","tommytree.h"],[("ordered insert/remove/search","tommy_tree_insert_node, tommy_tree_remove_node, tommy_tree_search_node"),("rotations","tommy_tree_rotate_left, tommy_tree_rotate_right, tommy_tree_balance, tommy_tree_move_right")],
 [("prev/next/index","left child, right child, height","tommy_tree_node")],["tommy_tree_search","tommy_tree_search_compare","tommy_tree_insert","tommy_tree_remove","tommy_tree_remove_existing"]),
P("C09","Tree stays height balanced",
 "After any history of insertions and removals, for every node of the tree the heights of the left and right subtrees differ by at most one, so that searches are logarithmic.",
 ["histories","inputs"],"every history, every insertion order, every removal position",
 "No test looks at the height; an unbalanced tree still returns right answers, only slowly.",
 ["tommytree.c"],[("height bookkeeping","tommy_tree_balance, tommy_tree_delta, tommy_tree_insert"),("rotations","tommy_tree_rotate_left, tommy_tree_rotate_right")],
 [("index","height of the subtree rooted at the node","tommy_tree_node")],["search cost; the node links"]),
P("C10","Tree iteration is in comparison order",
 "Iterating over a tree calls the callback for the stored elements in strictly increasing order of the comparison function.",
 ["inputs","histories"],"every tree reachable by any history, any consistent comparison",
 "check.c only counts the calls.",
 ["tommytree.c"],[("in-order recursion","tommy_tree_foreach_node, tommy_tree_foreach_arg_node"),("order-preserving rotations","tommy_tree_rotate_left, tommy_tree_rotate_right, tommy_tree_move_right")],
 observe=["order of callback calls"]),
P("C11","Trie: a key's list holds all and only its elements, in insertion order",
 "In the trie the list returned for a key contains exactly the stored elements inserted with that key, in insertion order, and a search returns the first of them, or null if there is none. Inserting or removing an element never changes what is stored under any other key; removing by key takes out the first inserted element of that key and removing an existing node takes out exactly that node.",
 ["inputs","histories"],"every set of 32 bit keys, every history, every depth at which two keys first differ",
 "check.c uses dense keys from 0 to 4 million inserted in order, with at most one element per key; sparse keys, duplicates and deep expansion and reduction chains are not sampled.",
 ["tommytrie.c","tommytrie.h"],[("descend and expand","trie_bucket_insert"),("remove and reduce","trie_bucket_remove_existing"),("lookup","tommy_trie_bucket, tommy_trie_search")],
 [("bucket/map","null, list head or tagged inner node","tommy_trie, tommy_trie_tree")],["tommy_trie_bucket","tommy_trie_search","tommy_trie_remove","tommy_trie_remove_existing"]),
P("C12","Trie returns its inner nodes to the allocator when they become useless",
 "The number of inner nodes that the trie reports is the number of allocator blocks it holds: each block is taken from the allocator once and given back once. An inner node exists only if below it at least two different keys are stored or another inner node is needed, so removing all elements gives back every block.",
 ["histories","inputs"],"every history of inserts and removals with any keys",
 "check.c empties the trie but never compares the allocator usage with the number of inner nodes.",
 ["tommytrie.c"],[("allocation on expand","trie_bucket_insert"),("release on reduce","trie_bucket_remove_existing")],
 [("node_count","number of inner nodes","tommy_trie")],["tommy_trie_memory_usage","tommy_allocator_memory_usage"]),
P("C13","Inplace trie: a key's list holds all and only its elements",
 "In the inplace trie the list returned for a key contains exactly the stored elements inserted with that key, in insertion order, and a search returns the first of them, or null. Inserting or removing an element never makes an element of any other key unreachable or changes its list, whichever element (inner, leaf, first or later of its key) is taken out.",
 ["inputs","histories"],"every set of 32 bit keys, every history, every shape of the trie around the removed node",
 "check.c uses dense unique keys; removal of an inner node with several subtrees and duplicates is not systematically reached.",
 ["tommytrieinp.c","tommytrieinp.h"],[("insert","trie_inplace_bucket_insert"),("remove with leaf replacement","trie_inplace_bucket_remove"),("lookup","tommy_trie_inplace_bucket")],
 [("map","subtrees by the next two key bits","tommy_trie_inplace_node")],["tommy_trie_inplace_bucket","tommy_trie_inplace_search","tommy_trie_inplace_remove"]),
P("C14","Arrays: growing keeps values and addresses, new elements are zero",
 "Growing any of the four arrays never changes the value or the address of an element that exists, and each element that becomes available is zero until written. Growing to a size not larger than the current one does nothing. Inserting stores the value at the first new position.",
 ["inputs","histories"],"every sequence of sizes (including jumps over many segments), every element size, every position",
 "check.c grows by one element at a time to one size and does not keep element addresses across a growth.",
 ["tommyarray.c","tommyarray.h","tommyarrayof.c","tommyarrayof.h","tommyarrayblk.c","tommyarrayblk.h","tommyarrayblkof.c","tommyarrayblkof.h"],[("segment or block allocation","tommy_array_grow, tommy_arrayof_grow, tommy_arrayblk_grow, tommy_arrayblkof_grow")],
 [("bucket/bucket_bit/bucket_max","segments of doubling size, each biased by its start","tommy_array, tommy_arrayof"),("block","array of fixed size blocks","tommy_arrayblk, tommy_arrayblkof")],["tommy_array_ref/get","tommy_arrayof_ref","tommy_arrayblk_ref/get","tommy_arrayblkof_ref"]),
P("C15","Arrays: each valid position has its own storage inside allocated memory",
 "For every position below the size, the element reference of any of the four arrays points to element-size bytes that lie inside memory the array has allocated, and the storage of two different positions never overlaps. A set followed by a get of the same position returns the value, and leaves the other positions alone.",
 ["inputs","histories"],"every size and position, every element size, every segment boundary",
 "check.c touches every position of a few sizes with two element sizes; an overrun at an untested boundary is invisible without instrumentation.",
 ["tommyarray.h","tommyarray.c","tommyarrayof.h","tommyarrayof.c","tommyarrayblk.h","tommyarrayblk.c","tommyarrayblkof.h","tommyarrayblkof.c"],[("position to segment","tommy_array_ref, tommy_arrayof_ref, tommy_arrayblk_ref, tommy_arrayblkof_ref"),("biased segment pointers","tommy_array_grow, tommy_arrayof_grow")],
 observe=["tommy_*_ref, _get, _set"]),
P("C16","Allocator: live blocks are disjoint, aligned and inside allocated memory",
 "Each block the allocator hands out is at least the requested size, aligned as requested, lies entirely inside memory obtained from the heap, and overlaps no other live block nor the allocator's own bookkeeping. A block is handed out again only after it was freed.",
 ["inputs","histories"],"every block size and power-of-two alignment, every history of alloc and free, every address the heap returns",
 "check.c tries four size pairs and writes only part of the blocks; overruns at the end of a segment need the right size and address to show.",
 ["tommyalloc.c","tommyalloc.h"],[("segment carving","tommy_allocator_alloc"),("size rounding","tommy_allocator_init"),("free list","tommy_allocator_alloc, tommy_allocator_free")],
 [("free_block/used_segment","lists of free blocks and of heap segments","tommy_allocator")],["tommy_allocator_alloc"]),
P("C17","No leak and no double free: everything taken from the heap is freed once",
 "Every heap block that a container obtains is freed exactly once, at the latest by the container's done function, and is never used afterwards; a replaced bucket array or released segment is freed when it is replaced. The in-place containers (list, tree, inplace trie) never touch the heap, and no container frees memory of the user.",
 ["histories","inputs"],"every history from init to done, including every growth and shrink",
 "check.c calls done but nothing checks what is freed; a leaked segment or one freed at the wrong address is not observed by its assertions.",
 ["tommyhashtbl.c","tommyhashdyn.c","tommyhashlin.c","tommyalloc.c","tommyarray.c","tommyarrayof.c","tommyarrayblk.c","tommyarrayblkof.c","tommylist.c","tommytree.c","tommytrieinp.c"],[("done functions","tommy_*_done"),("replacement","tommy_hashdyn_resize, hashlin_shrink_step"),("allocator reset","allocator_reset")],
 observe=["malloc/calloc/free calls"]),
P("C18","Valid use never touches memory out of bounds, freed or uninitialised",
 "As long as the caller respects the documented preconditions, no operation of any container reads or writes outside live objects, reads a value that was never written, dereferences null, or shifts by the width of the type or more.",
 ["inputs","histories"],"every operation from every reachable state of every container",
 "The tests run without instrumentation, on regular data; a stray access that hits mapped memory is silent.",
 HF+["tommylist.h","tommylist.c","tommychain.h","tommytree.c","tommytrie.c","tommytrieinp.c","tommyalloc.c","tommyarray.c","tommyarray.h","tommyarrayof.c","tommyarrayof.h","tommyarrayblk.c","tommyarrayblk.h","tommyarrayblkof.c","tommyarrayblkof.h"],[("all loads and stores","every function")],
 observe=["every memory access"]),
P("C19","Hash functions read exactly their input bytes",
 "The buffer hash functions read only bytes inside the given buffer, and read each of them; the string hash reads no byte after the terminator. None of them writes memory visible to the caller.",
 ["inputs"],"every length, every alignment and buffer position, every string",
 "check.c hashes strings inside larger buffers with the lengths 0 to 16 and three more; an over-read returns the right hash and stays unnoticed.",
 ["tommyhash.c"],[("block loop and tail switch","tommy_hash_u32, tommy_hash_u64"),("string loop","tommy_strhash_u32")],
 observe=["memory reads of the hash functions"]),
P("C20","Hash results depend on every input byte and on nothing else",
 "A hash result is a function only of the initial value, the length and the content of the key: it does not depend on the address, on the machine byte order, on memory outside the key or on earlier calls. Each byte of the key and the initial value do enter the computation of the result.",
 ["inputs","configurations"],"every key content, length and alignment, both byte orders of the reading code",
 "The vectors of check.c cover 20 short keys on one byte order.",
 ["tommyhash.c","tommyhash.h"],[("little endian read","tommyhash.c:tommy_le_uint32_read"),("mixing","tommy_hash_u32, tommy_hash_u64, tommy_strhash_u32")],
 observe=["return values"]),
P("C21","Integer hashes are reversible",
 "The 32 and 64 bit integer hash functions are one-to-one: two different integers never have the same hash.",
 ["inputs"],"all 2^32 and 2^64 inputs",
 "check.c does not test them; 2^64 inputs cannot be enumerated.",
 ["tommyhash.h"],[("invertible steps","tommy_inthash_u32, tommy_inthash_u64")],
 observe=["tommy_inthash_u32","tommy_inthash_u64"]),
P("C22","The library keeps no hidden shared state",
 "The library has no mutable global or static data: an operation reads and writes only the objects reachable from its arguments, so operations on different objects never influence each other and may run in different threads.",
 ["programs","schedules"],"every program using several containers, every interleaving of operations on distinct containers",
 "Tests are single threaded and use one container at a time.",
 ["tommy.c"],[("absence of mutable globals","all functions")],
 observe=["results of operations on other containers"]),
P("C23","All heap use goes through the user-definable allocation macros",
 "When the user redefines the malloc, calloc, realloc and free macros of the library, every allocation and release in the library uses them and the standard heap is never called directly.",
 ["configurations"],"every configuration in which the four macros are defined by the user, every function",
 "No test defines the macros.",
 ["tommytypes.h","tommyalloc.c","tommyarray.c","tommyarrayof.c","tommyarrayblk.c","tommyarrayblkof.c","tommyhashtbl.c","tommyhashdyn.c","tommyhashlin.c"],[("macro indirection","tommytypes.h:tommy_malloc, tommy_calloc, tommy_realloc, tommy_free")],
 observe=["calls of the heap functions"]),
P("C24","Memory usage reports match what is allocated",
 "The memory usage function of each container returns the bytes of the bucket, segment or block memory that it holds at that moment plus, for the containers of elements, the node size times the number of stored elements.",
 ["histories","inputs"],"every reachable state of every container, including partially reorganised tables",
 "check.c only calls the functions, or checks them for being non-zero.",
 ["tommyhashtbl.c","tommyhashdyn.c","tommyhashlin.c","tommyarray.c","tommyarrayof.c","tommyarrayblk.c","tommyarrayblkof.c","tommytree.c","tommytrie.c","tommytrieinp.c","tommyalloc.c"],[("report functions","tommy_*_memory_usage")],
 observe=["tommy_*_memory_usage"]),
P("C25","Lookups and reports leave the container untouched",
 "Search, bucket, count, size, reference, get, empty, head, tail and memory usage operations write to no memory other than their own local variables, so concurrent readers without a writer are safe and a lookup never changes a later result.",
 ["schedules","histories"],"every read operation in every state, any number of concurrent readers",
 "Tests are single threaded and cannot see a write of an unchanged value.",
 HF+["tommylist.h","tommytree.c","tommytrie.c","tommytrie.h","tommytrieinp.c","tommytrieinp.h","tommyarray.h","tommyarrayof.h","tommyarrayblk.h","tommyarrayblkof.h"],[("read operations","tommy_*_search, _bucket, _count, _size, _ref, _get, _memory_usage")],
 observe=["memory writes of the read operations"]),
P("C26","Callbacks get the documented arguments; user data is never dereferenced",
 "Comparison and search callbacks are called only with the caller's argument and the data of stored elements, in the documented argument order; the library itself never reads or writes through a data pointer nor calls any other function of the user. The value, the hash and the data pointer of a stored or removed element are never altered by the library.",
 ["inputs","programs"],"every operation that takes a callback, every state, data pointers of any value including null",
 "The comparison functions of check.c are symmetric in their use of the arguments, so a swapped or stale argument is rarely visible.",
 HF+["tommylist.h","tommychain.h","tommytree.c"],[("callback calls","tommy_*_search, tommy_*_remove, tommy_tree_*_node, tommy_chain_merge*, tommy_*_foreach*")],
 observe=["calls of the user callbacks"]),
P("C27","Bit helpers are exact on their whole domain",
 "The integer log2 and trailing-zero helpers are exact for every non-zero value, the round-up helper returns the smallest power of two not below its argument for every argument from 1 to the largest power of two, and the zero-byte test is true exactly when one of the four bytes is zero. This holds for the compiler-builtin and for the portable implementations.",
 ["inputs","configurations"],"all 2^32 and 2^64 arguments, both implementations",
 "Tests reach the helpers only through the containers, with the builtin implementation, on few values.",
 ["tommytypes.h"],[("helpers","tommy_ilog2_u32/u64, tommy_ctz_u32/u64, tommy_roundup_pow2_u32/u64, tommy_haszero_u32")],
 observe=["return values"]),
P("C28","Hash results equal the published lookup3 values",
 "For every key and every initial value the buffer hashes (tommy_hash_u32, tommy_hash_u64) return the values of the published lookup3 functions hashlittle and hashlittle2 (low 32 bits of the initial value and of the result for the primary hash, high 32 bits for the secondary one), so that results are comparable across versions and with other implementations.",
 ["inputs"],"all keys",
 "The test compares 20 vectors of keys up to 40 bytes with one initial value; any length and content must agree.",
 ["tommyhash.c"],[("mix and final","tommy_mix, tommy_final")],
 observe=["return values"]),
P("C29","The linear hash table never stalls on a resize",
 "Each insertion or removal in the linear hash table moves a bounded number of buckets (at most 16) and does no other work proportional to the table, regardless of the table size and of the history, so no single operation has a delay proportional to the number of elements. At the same time the load stays as documented: after each insertion the buckets in use (low_max + split) are at least twice the elements, and after each removal they are at most eight times the elements or not more than the initial 64.",
 ["histories"],"every history of insertions and removals, growth and shrink reversed at any point",
 "Tests measure totals, not the work of a single operation, and never reverse a resize that is nearly complete.",
 ["tommyhashlin.c"],[("incremental split","hashlin_grow_step, hashlin_shrink_step")],
 observe=["time of one operation", "low_max + split before and after an operation"]),
P("C30","The dynamic hash table keeps its load and its resizes are far apart",
 "After each insertion in the dynamic hash table the elements are at most half of the buckets, and after each removal at least an eighth of them, unless the table has its initial 16 buckets, which it never goes below. One operation changes the number of buckets at most by a factor of two, and after a resize a number of insertions or removals proportional to the table (at least a sixteenth of its buckets) comes before the next, so a resize, which touches all the elements, is paid by the operations between two of them in every history, also one that goes back and forth around a threshold.",
 ["histories"],"every history of insertions and removals, also those that alternate around a threshold",
 "Tests insert all and remove all; they measure neither the load at each step nor the number of resizes of an alternating history.",
 ["tommyhashdyn.c"],[("thresholds of the resize","hashdyn_grow_step, hashdyn_shrink_step")],
 observe=["bucket_max and count after an operation", "operations between two changes of bucket_max"]),
P("C31","Arrays hold no more memory than documented",
 "Growing an array to any size, in any sequence of growths, leaves the exponential arrays (array, arrayof) with a capacity of less than twice the size, or the initial 64 elements, and the block arrays (arrayblk, arrayblkof) with exactly as many blocks as the size needs, so that less than one block of 4096 elements is unused; their vector of blocks has less than twice as many entries as blocks, or the initial 64. The capacity is never less than the size.",
 ["inputs","histories"],"every size and every sequence of growths",
 "Tests grow one element at a time or to a few sizes and never look at the spare capacity.",
 ["tommyarray.c","tommyarrayof.c","tommyarrayblk.c","tommyarrayblkof.c"],[("segments until the size fits","tommy_array_grow, tommy_arrayof_grow"),("blocks needed by the size","tommy_arrayblk_grow, tommy_arrayblkof_grow")],
 observe=["memory usage compared to the size"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
print(len(props), max(len(p['title']) for p in props))
