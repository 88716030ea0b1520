#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TB = ('Trusts clang-18 (source to IR, data layout) and the analyser itself; no code of the library is run. ')
CLAIM = {
 'C21': ('value-graph dominator cuts + affine domains over Z/2^w and GF(2)', 'Exact for every value of the argument: each step of both integer hashes is shown one-to-one. '),
 'C22': ('IR lint of globals, writes and external calls', 'Covers all library functions in the plain and portable configurations. '),
 'C23': ('IR who-may-call rule under redefined macros', 'Every call site and taken address in five configurations (C, NDEBUG, C++, 32 bit, portable). '),
 'C25': ('interprocedural origin/effect analysis on IR', 'Every store reachable from the 43 lookup and report functions. Assumes the user callback itself writes nothing. '),
 'C27': ('bit-level abstract interpretation with a complete partition of the input domain', 'Exact on the whole input domain of each helper, for the builtin and the portable sources. '),
}
AI = 'abstract interpretation of the IR: linear numeric domain, symbolic heap with list segments and segmented arrays, loop joins and widening'
SCOPE = 'Obligations of every initial state of the invariant family described in DESIGN.md, for every table size, key, element count. Assumes malloc succeeds. '
for _p, _n in (('C01', 'hashtable, hashdyn and hashlin. '), ('C02', 'hashtable, hashdyn and hashlin. '), ('C03', 'hashdyn and hashlin (growing, shrinking, and their reversal). '), ('C04', 'lists, hashtable, hashdyn, hashlin and the tree. '),
               ('C05', 'Lists (sorted up to the bounds of C07), hashtable, hashdyn, hashlin, the four arrays, the tree, the tries (bounds as in C11 and C13), the allocator (up to four segments when it is released). '), ('C06', 'All list operations. '), ('C17', 'Lists (sorted up to the bounds of C07), hashtable, hashdyn, hashlin, the four arrays, the tree, the tries (bounds as in C11 and C13), the allocator (up to four segments when it is released). '), ('C18', 'Lists (sorted up to the bounds of C07), hashtable, hashdyn, hashlin, the four arrays, the tree, the tries (bounds as in C11 and C13), the allocator (up to four segments when it is released). '),
               ('C14', 'The four arrays. '), ('C15', 'The four arrays, any element size. '), ('C26', 'Lists (sorted up to the bounds of C07), hashtable, hashdyn, hashlin, the tree, the tries (bounds as in C11 and C13). ')):
    CLAIM[_p] = (AI, 'Containers covered: ' + _n + SCOPE)
HN = 'All three key hashes, in the native and in the portable sources, any length up to 2^62, any position of the witness byte. '
CLAIM['C19'] = (AI + '; witness byte of a symbolic key', HN)
CLAIM['C20'] = (AI + '; per-bit dependence domain and byte recognition', HN + 'May-dependence: that a bit enters the result is an over-approximation (no cancellation is tracked). ')
TN = 'Every tree, whatever its height and contents. The recursive helpers are verified one by one against contracts assumed at their recursive calls, so termination is not shown; a rewrite of a helper without recursion is only followed in trees of height up to 4. '
for _p in ('C08', 'C09', 'C10'):
    CLAIM[_p] = (AI + '; inductive height/interval contracts of the recursive helpers', TN)
RN = ('Every shape of the path of the operation key, at every depth, with arbitrary content off the path; the operation key itself is one of three concrete patterns '
      '(each slot, level and shift is used, but not every 32 bit value), lists have up to three elements%s. ')
CLAIM['C11'] = CLAIM['C12'] = (AI + '; lazily decided trie content', RN % '')
CLAIM['C13'] = (AI + '; lazily decided trie content', RN % ', and the subtree below a removed inner node is looked into up to three levels deep')
AN = ('Allocator: every power-of-two alignment up to 2^16, every block size (one by one below 640 bytes, a symbol from there on), any address of a segment, '
      'any other content of the allocator; %s. ')
CLAIM['C16'] = (AI, AN % 'the functions assume and keep the lists of free blocks and segments')
CLAIM['C24'] = (AI, 'Every container and the allocator, in every state of the invariant family. The number of elements and blocks is a symbol, so is the size of each heap block; that the counters are '
                'right is decided with C05 and C12. ')
CLAIM['C07'] = (AI + '; partial order of the elements learnt from the comparisons', 'Lists of up to 7 nodes (8 in the thorough tier) in any order and with any equal elements, every sequence of consistent answers of the '
                'comparison; lists of 9 to 12 (15) nodes made of two runs, each ascending or descending, in any order to each other; some fixed orders up to 100 nodes. Longer lists only by the inner merge and by the '
                'driver with the merge taken by contract (up to 100 nodes, any order), where a failure is only reported as undecided. ')
CLAIM['C28'] = ('value numbering of the loop-free pieces of the IR (linear forms mod 2^w over canonical bits), compared with the value numbers of the published algorithm',
                'Keys of every length, by induction over the loop cut at its header; any bytes, any initial value. The transcription of lookup3 (mix, final, hashlittle, hashlittle2) in the '
                'analyser is trusted. A rewrite whose loop does not follow blocks of 12 bytes is only compared for lengths up to 49 (109 in the thorough tier), the rest is reported as undecided. ')
CLAIM['C29'] = ('abstract interpretation of the table counters (linear constraints over count, split and table size), inductive load invariant, bounded passes of every loop except chain walks',
                'Every size, count and split position of the invariant, so every history. The walk of one chain and malloc/free are taken as not depending on the table size; '
                'what is stored in the buckets is decided elsewhere (C01 to C03). ')
CLAIM['C30'] = ('abstract interpretation of the table counters (linear constraints over count and table size), inductive load bounds, distance of the next threshold after a resize',
                'Every size and count of the invariant, so every history. Walks of chains and what is stored in the buckets are not followed (C01 to C03 decide that). ')
CLAIM['C31'] = ('abstract interpretation of the capacity (linear constraints over sizes, blocks and a power of two that loops may double), inductive over the growth loop and over calls',
                'Every size and every earlier size. That the capacity is what is really allocated is C24. ')
LEVEL = {'C07': 'other', 'C11': 'other', 'C12': 'other', 'C13': 'other'}
NA = {
}
todo = {}
checks = []
for p in props:
    if p in CLAIM:
        t, note = CLAIM[p]
        checks.append({'property': p, 'quick_cmd': 'python3 absint/check.py %s quick' % p, 'thorough_cmd': 'python3 absint/check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': 'static analysis: ' + t, 'level': LEVEL.get(p, 'proof'), 'level_note': note + TB})
    elif p not in NA:
        NA[p] = 'Not claimed yet: the analysis for it is under construction.'
m = {'version': 1, 'setup_cmd': 'python3 absint/ir.py >/dev/null', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA],
     'notes': 'No hooks in /repo. All checks read /repo (or $VERIF_REPO) and only compile it to LLVM IR; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
