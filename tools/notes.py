NOTES = {
'C01': """Runs: insert (the new node ends behind every stored element of the same hash, in the bucket of its hash), search (the result is the
data of an accepted element of that hash with no accepted one before it; segments are marked as before/after the witness), bucket,
init. Tests sample a few keys; here key, table size and bucket contents are symbols.""",
'C02': """Runs: remove (with the comparison accepting or refusing each element, witness accepted) and remove_existing, over every position of
the removed node among the witnesses of the same bucket and in other buckets; every other witness stays in its bucket in order.""",
'C03': """hashdyn: insert/remove with the resize analysed in place for a witness bucket of explicit nodes (empty/one/several nodes of one or two
hashes, lower or upper half of the vector when shrinking) and arbitrary other buckets; the remaining shapes take the resize by contract.
hashlin: the table is stable or between two passes of a split or merge, at any split position; the witness bucket is not yet split,
a low half or a high half. insert/remove/foreach/search run with the step function taken by contract (it keeps the invariant); the step
functions themselves run from every such state: their outer loop is cut at its header, where the state must satisfy the table invariant
again (so later passes are covered by the family of initial states), and values carried between passes in locals make it undecided.
While a bucket with the witnesses is split, the other elements are before, between or behind the witnesses, one group at a time.""",
'C04': """foreach and foreach_arg with a callback that releases the element: the witness must have been given to the callback, and no node may be
touched after its release (a second visit would be a use of released memory).""",
'C05': """count after each operation equals count before plus or minus one, and list lengths are symbolic sums over the segments.""",
'C06': """every list operation over all shapes of explicit nodes and segments; `walk` checks next/prev/head-tail links.""",
'C16': """alloc with an empty free list: the new segment is a region whose cells are at symbolic offsets; the address is `alignment * integer + residue`, so alignment, bounds and
distances of the blocks are linear facts. All blocks in the free list and the one handed out must be inside the segment, behind its link, aligned, and at least one block size apart.
alloc and free on a list of blocks: what is handed out is the head, what is given back is linked in, nothing else is written. init: the block size is not less than asked for and a
multiple of the alignment. done: every segment is released once.""",
'C24': """the result of each report function is compared, as a polynomial, with the sum of the sizes of the live heap blocks of the state plus count times node size (trie: plus number of inner
nodes times their size; allocator: count times block size). Hash tables and arrays are also in the middle of a reorganisation.""",
'C17': """leaks are unreachable live heap blocks at any fold point; double frees are faults.""",
'C18': """every access on every path: bounds, liveness, initialisation, shift amounts, division by zero, assertion failures.""",
'C29': """`linwork.py`. Only the counters of the table are followed, as linear expressions over the number of elements, the split position and the table
size (low_max is a constant times Q, Q a power of two, bucket_bit a constant plus log2 Q), with integer linear constraints (own Fourier-Motzkin); nodes,
chains and vectors are unknown. From the invariant (stable/growing/shrinking with the load of the buckets in use between 1/8, or the initial 64 buckets, and
1/2) insert, remove and remove_existing are followed interprocedurally; a loop that changes no counter is cut when a state repeats (chain walk), any other must
end under the constraints. Obligations: passes of loops bounded, at most 16 buckets enter or leave, no calloc/memset/memcpy/realloc whose size grows with
the table, load again within the bounds, invariant again. This found that the pinned code does stall (fixed, see KNOWN_FINDINGS): an insertion during
a nearly finished shrink re-split the whole table. Tests measure only totals.""",
'C31': """`linwork.py`, with the counters of the arrays. The loop that adds segments doubles bucket_max an unknown number of times: whenever it comes
back to its head with twice the power of two, that is renamed to the power of two (symbols of before are projected out of the constraints), until nothing
changes. From each capacity the invariant allows, the capacity at the end must be less than twice the size (or the initial one), and the block arrays must
have ceil(size / 4096) blocks. Tests do not look at the spare memory.""",
'C30': """`linwork.py`, as C29, with the counters of the dynamic table. Loops that touch only vectors and chains are cut by widening. From count <
bucket_max/2 and count > bucket_max/8 (or the initial size) each operation must leave count at most half (insert), at least an eighth (removal), change the
size at most by two, and leave a resized table 1/16 of its buckets away from both thresholds. When a state at the border of the invariant is left,
the operation is followed a second time from there, and only what then exceeds the promised bound is a violation. Tests never alternate at a threshold.""",
'C28': """`hashref.py`. The IR of each buffer hash is cut at its loop header; the pieces entry-header, header-header and header-return are
value-numbered (a word is a linear form modulo 2^w over canonical bits, a non-linear use names its bits after the sum modulo 2^(i+1), so
`+`/`|`/`^` of disjoint parts, shifts, rotations and byte-wise or word-wise reads have one form) and compared with the value numbers of the same
piece of lookup3 from arbitrary a, b, c. The loop variables for the position (pointer, index, bytes left, end pointer) are recognised as affine in
the number of blocks; only the number of bytes left is partitioned, where the code compares it. As a second, separate obligation the whole
function is value-numbered for each length up to 49 with the loop unrolled. Different value numbers are only a violation when constants for the
bytes and the initial value are found on which they differ numerically (else undecided). The tests compare 20 short vectors.""",
'C26': """callbacks are checked to be called with the caller's argument and the data pointer of a stored element; data pointers are opaque
symbols that cannot be dereferenced, and data/key fields of stored elements must not change.""",
'C07': """the comparison is any consistent one: its answers are kept as a relation of `at most` and `less`, closed under transitivity; an answer that is already implied is given as such, and both
outcomes are followed otherwise. At the end neighbours in the list must be in order by what is known, and in the original order unless known to be different. The list must be well
linked and hold the same nodes.""",
'C08': """a subtree that is not looked into is one predicate: its height, the open interval of comparison ranks of its elements, the explicit
nodes inside. It is unfolded when code looks into it. The comparison answers with any int of the sign of the rank difference. After each function the
tree reached from the root must hold the initial items in order, plus the new element or minus the equal one, which is also what must be returned;
"not found" is only right where every subtree that could hold the rank was searched.""",
'C09': """heights are symbols. tommy_tree_balance is proven for two subtrees of any heights (result max..max+1, balanced, stored heights right), by
induction on the recursive calls whose sides differ by 3 or more; insert_node returns height h or h+1, remove_node at least h-1 (the join of the two
subtrees of a removed node may come out taller than the node was: this really happens, and the contract allows it), move_right at least the taller.""",
'C10': """foreach functions on every tree: the callback releases each element; the sequence of visits must be the in-order sequence of items.""",
'C11': """insert, remove, remove_existing, bucket, search. The path of the key is explicit for every number of levels it can have and every thing that can be
at its end (nothing, a list with the key, a list with another key that first differs at each lower level). The other slots are decided only when the code looks:
empty, the list of a key that belongs there, an inner node. After the call every list must be where its key belongs and hold the same elements in the same order, plus
or minus the one of the operation. Keys are three concrete patterns: a fault that needs a particular key value beyond digit, level and collision is not seen.""",
'C12': """same runs: allocator blocks are counted by contract (taken, given back, not used after), and must equal node_count; after each call every inner node on the
path must be useful (two used slots, or an inner node below; with the exception of level 0, which repeats bits of the bucket).""",
'C13': """as C11; every node has its branches, those off the path are decided when looked at. When an inner node is removed its subtree is opened to up to three
levels, and the elements found must all be below a place where their key leads.""",
'C14': """grow from an empty and from a used array (any size, any element size, any number of segments) to any size: the vector of all segments is
one virtual region indexed by position, so "the address of an element" is a linear expression; new positions must hold zero and a witness
element must keep its value. Two exact iterations of each loop are kept next to the loop invariant, so that a wrong content is definite.""",
'C15': """the segment tables must map every position below the size into allocated memory of the right size; ref/get/set are run at a symbolic
position (also across the 4096 element blocks) and their result compared with base + position * element size, which is injective.""",
'C19': """The key is a region of exactly the given length (or with the terminator at its last byte) and of any alignment. Every read must be inside, and
a byte at a symbolic position (the witness) must be read on every path. The first eight passes of the loops are also followed as they are for nine
fixed lengths, where only definite violations count.""",
'C20': """values computed from the key are abstracted by the set of witness bits, initial value bits, length and address bits each result bit may
depend on, and by which key byte each byte of the value is. All 8 bits of the witness byte and all bits of the initial value that fit must be in
the dependence set of the result; the address must not be. The word reader must give the same four bytes in the same order in the native and in the portable
sources, and the portable sources may not read a word of the key at once. No state between calls: the library has no mutable globals (C22).""",
}
MISSED = {}
