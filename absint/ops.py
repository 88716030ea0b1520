"""The runs of the abstract interpreter, and which of them decide which property."""
import os, sys, time
import ir, harness
from report import Report
import ops_list, ops_hash, ops_lin, ops_array, ops_key, ops_tree, ops_trie, ops_alloc, ops_sort

# (name, function of the module, properties it contributes to)
RUNS = []


def reg(name, fn, props):
    RUNS.append((name, fn, frozenset(props)))


HASHP = {'C01', 'C02', 'C03', 'C05', 'C17', 'C18', 'C26'}
for _k in ('hashlin', 'hashdyn', 'hashtable'):
    for _f, _p in (('remove', HASHP), ('remove_existing', HASHP), ('insert', HASHP)):
        for _m in {'hashdyn': ('resize', 'skip'), 'hashlin': ('skip',), 'hashtable': (None,)}[_k]:
            reg(('%s %s %s' % (_k, _f, _m or '')).strip(), (lambda m, _k=_k, _f=_f, _m=_m: getattr(ops_hash, 'run_' + _f)(m, _k, mode=_m)), _p)
    for _f, _p in (('foreach', {'C04', 'C17', 'C18', 'C26'}), ('search', {'C01', 'C18', 'C26'}), ('life', {'C01', 'C05', 'C17', 'C18', 'C24'})):
        reg('%s %s' % (_k, _f), (lambda m, _k=_k, _f=_f: getattr(ops_hash, 'run_' + _f)(m, _k)), _p)
reg('hashlin pos', ops_lin.run_pos, {'C01', 'C02', 'C03', 'C04', 'C18'})
for _w in ('grow', 'shrink'):
    reg('hashlin %s step' % _w, lambda m, _w=_w: ops_lin.run_step(m, _w), HASHP)
LISTP = {'C05', 'C06', 'C17', 'C18', 'C26'}
for _n, _f in (('insert head', lambda m: ops_list.run_insert(m, 'tommy_list_insert_head', True)),
               ('insert tail', lambda m: ops_list.run_insert(m, 'tommy_list_insert_tail', False)),
               ('remove', ops_list.run_remove), ('concat', ops_list.run_concat), ('queries', ops_list.run_simple)):
    reg('list ' + _n, _f, LISTP)
reg('list foreach', ops_list.run_foreach, {'C04', 'C06', 'C17', 'C18', 'C26'})

for _k in ops_array.KINDS:
    reg(_k + ' grow', lambda m, _k=_k: ops_array.run_grow(m, _k), {'C05', 'C14', 'C15', 'C17', 'C18'})
    reg(_k + ' access', lambda m, _k=_k: ops_array.run_access(m, _k), {'C05', 'C14', 'C15', 'C17', 'C18', 'C24'})
    reg(_k + ' life', lambda m, _k=_k: ops_array.run_life(m, _k), {'C05', 'C14', 'C15', 'C17', 'C18'})
reg('hash buffer', ops_key.run_buf, {'C19', 'C20'})
reg('hash string', ops_key.run_str, {'C19', 'C20'})
reg('hash order', ops_key.run_read, {'C20'})
reg('hash portable', ops_key.run_portable, {'C19', 'C20'})

TREEP = {'C05', 'C08', 'C09', 'C18', 'C26'}
reg('tree insert', lambda m: ops_tree.run_insert_node(m) + ops_tree.run_insert(m), TREEP)
reg('tree remove', lambda m: ops_tree.run_remove_node(m) + ops_tree.run_remove(m), TREEP)
reg('tree balance', ops_tree.run_balance, {'C08', 'C09', 'C18', 'C26'})
reg('tree move', ops_tree.run_move, {'C08', 'C09', 'C18'})
reg('tree search', ops_tree.run_search, {'C08', 'C18', 'C26'})
reg('tree foreach', ops_tree.run_foreach, {'C04', 'C10', 'C18', 'C26'})
reg('tree life', ops_tree.run_life, {'C05', 'C08', 'C18', 'C24'})
reg('tree small', lambda m: ops_tree.run_insert(m, (1, 2, 3, 4)) + ops_tree.run_remove(m, (1, 2, 3, 4)) + ops_tree.run_search(m, (3,)) + ops_tree.run_foreach(m, (1, 2)), TREEP | {'C04', 'C10'})

for _k, _i in (('trie', False), ('trie inplace', True)):
    _c = {'C13'} if _i else {'C11', 'C12', 'C17', 'C24'}
    reg(_k + ' insert', lambda m, _i=_i: ops_trie.run_insert(m, _i), {'C05', 'C18', 'C26'} | _c)
    reg(_k + ' remove', lambda m, _i=_i: ops_trie.run_remove(m, _i), {'C05', 'C18', 'C26'} | _c)
    reg(_k + ' search', lambda m, _i=_i: ops_trie.run_search(m, _i), {'C18', 'C26'} | _c - {'C12', 'C17', 'C24'})
    reg(_k + ' life', lambda m, _i=_i: ops_trie.run_life(m, _i), {'C05', 'C18', 'C24'} | _c - {'C17'})

reg('alloc alloc', ops_alloc.run_alloc, {'C05', 'C16', 'C17', 'C18'})
reg('alloc free', ops_alloc.run_free, {'C05', 'C16', 'C17', 'C18'})
reg('alloc life', ops_alloc.run_life, {'C05', 'C16', 'C17', 'C18', 'C24'})

reg('list sort', ops_sort.run_sort, ops_sort.LP)
reg('list sort runs', ops_sort.run_runs, ops_sort.LP)
reg('list merge', ops_sort.run_merge, ops_sort.LP)
reg('list sort long', ops_sort.run_driver, ops_sort.LP)


def collect(props, tier, names=None, jobs=None, limit=800):
    m = ir.load()
    harness.POOL = harness.Pool(jobs or min(8, os.cpu_count() or 4), time.time() + limit)
    runs = []
    try:
        for name, fn, ps in RUNS:
            if names is not None and name not in names:
                continue
            if props is not None and not ps & props:
                continue
            r = fn(m)
            for x in r if isinstance(r, (list, tuple)) else [r]:
                runs.append(x)
    finally:
        harness.POOL.wait()
    slow = harness.POOL.slow
    harness.POOL = None
    return runs, slow


def check(prop, tier):
    R = Report(prop, tier)
    R.rule = 'abstract interpretation of the IR from the specified family of initial states; every access and every post condition is an obligation'
    if not any(prop in ps for _, _, ps in RUNS):
        print('ANALYSIS BROKEN: no run decides %s' % prop)
        return 2
    harness.THOROUGH = tier == 'thorough'
    harness.CASE_LIMIT = 120 if tier == 'quick' else 300
    runs, slow = collect({prop}, tier, limit=500 if tier == 'quick' else 780)
    for r in runs:
        R.count('runs')
        R.count('initial states', r.cases)
        R.count('paths', r.paths)
        n = 0
        for k, (status, where, msg, ps) in r.sink.obl.items():
            if prop not in ps:
                continue
            n += 1
            key = (r.name,) + (k if isinstance(k, tuple) else (k,))
            if status is True:
                R.ok(key)
            elif status is False:
                R.bad(key, where, msg)
            else:
                R.undecided(key, where, msg)
        R.samples.append('%s: %d initial states, %d paths, %d obligations' % (r.name, r.cases, r.paths, n))
    R.samples += ['slow case %s: %ss' % s for s in slow]
    return R.finish(floor=5)


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    t = time.time()
    runs, slow = collect(None, 'quick', set(sys.argv[1].split(',')) if len(sys.argv) > 1 else None, limit=int(sys.argv[2]) if len(sys.argv) > 2 else 800)
    for r in runs:
        bad = [(k, v) for k, v in r.sink.obl.items() if v[0] is not True]
        print(r.name, 'cases', r.cases, 'paths', r.paths, 'obl', len(r.sink.obl), 'bad', len(bad))
        for k, v in bad[:int(os.environ.get('NBAD', 4))]:
            print('   ', v[0], k, v[1], v[2][:600], sorted(v[3]) if os.environ.get('PR') else '')
    print('slow', sorted(slow, key=lambda x: -x[1])[:30])
    print('%.1fs' % (time.time() - t))
