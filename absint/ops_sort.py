"""Sorting of lists. The comparison is any consistent one: what its answers have told so far is kept as a relation of `at most` and `less` between the
elements, closed under transitivity, and every answer that is compatible with it is followed."""
from harness import *
import harness, ops_tree

LP = {'C05', 'C07', 'C18', 'C26'}


def closure(n, edges):
    """edges: (i, j, strict). Returns m with m[i][j] = 0 unknown, 1 i <= j, 2 i < j; None when contradictory."""
    m = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i, j, s in edges:
        m[i][j] = max(m[i][j], 2 if s else 1)
    for k in range(n):
        mk = m[k]
        for i in range(n):
            a = m[i][k]
            if a:
                r = m[i]
                for j in range(n):
                    b = mk[j]
                    if b and r[j] < 2:
                        r[j] = max(r[j], a, b)
    return None if any(m[i][i] == 2 for i in range(n)) else m


def learn(s):
    """What the answers of the comparison tell by now."""
    n = s.num
    edges, rest = list(s.gh['edges']), []
    for i, j, r in s.gh['asked']:
        r = n.norm(r)
        if n.ge(r - 1):
            edges.append((j, i, True))
        elif n.ge(-1 - r):
            edges.append((i, j, True))
        elif n.ge(r) and n.ge(-r):
            edges += [(i, j, False), (j, i, False)]
        else:
            if n.ge(-r):
                edges.append((i, j, False))
            elif n.ge(r):
                edges.append((j, i, False))
            rest.append((i, j, r))
    s.gh['edges'] = tuple(dict.fromkeys(edges))
    s.gh['asked'] = tuple(rest)
    return closure(len(s.gh['nodes']), s.gh['edges'])


def comparison(R, st):
    def h(I, s, args, ins):
        ids = [s.resolve(x) for x in s.gh['data']]
        a = [s.num.norm(x) for x in args]
        k = [ids.index(x) if x in ids else None for x in a]
        if len(a) != 2 or None in k:
            raise Fault('callback', 'the comparison is called with something that is not the data of two elements of the list')
        i, j = k
        if i == j:
            return [(s, ZERO)]
        rank = s.gh.get('rank')
        if rank:
            d = rank[i] - rank[j]
            return [(s, rsym('cmp', 1, (1 << 31) - 1) if d > 0 else rsym('cmp', -(1 << 31), -1) if d < 0 else ZERO)]
        m = learn(s)
        if m is None:
            raise Infeasible()
        lo, hi = -(1 << 31), (1 << 31) - 1
        if m[i][j]:
            hi = -1 if m[i][j] == 2 else 0
        if m[j][i]:
            lo = max(lo, 1 if m[j][i] == 2 else 0)
        if lo > hi:
            raise Infeasible()
        if lo == hi:
            return [(s, K(lo))]
        r = rsym('cmp', lo, hi)
        s.gh['asked'] = s.gh['asked'] + ((i, j, r),)
        return [(s, r)]
    return ops_tree.fnptr(R, st, 'cmp', h)


def sorted_post(C, s, items, what='the list'):
    """items: original positions in the final order."""
    m = learn(s)
    if m is None:
        return
    C.require('same nodes', sorted(items) == list(range(len(s.gh['nodes']))), '%s does not hold the same nodes: %s' % (what, items), {'C07', 'C05'})
    for x, y in zip(items, items[1:]):
        C.require('order', m[x][y] > 0, 'element %d comes before element %d, and the comparisons made (%s) allow that it is greater' % (x, y, show(s)), {'C07'})
        if m[x][y] == 1:
            C.require('stable', x < y, 'element %d comes before element %d, and they may be equal after the comparisons made (%s)' % (x, y, show(s)), {'C07'})


def show(s):
    return ', '.join('%d%s%d' % (i, '<' if t else '<=', j) for i, j, t in s.gh['edges'])


def new_run(m, name):
    R = Run(m, name, LP)
    c = R.ctx
    c.fault_props = lambda kind: {'C26', 'C07'} if kind == 'callback' else {'C18', 'C07'}
    c.mem_props = {'C18'}
    c.unroll = 130
    c.unroll_strict = True
    c.maxsteps = 20000000
    return R


def sort_case(R, n, edges, label, rank=()):
    st = R.new_state()
    N = [new_node(st, 'e%d' % i) for i in range(n)]
    head, tail, _ = link(st, N)
    lst = var_region(st, 'list', {0: (R.ctx.P, head)}, R.ctx.P)
    st.gh = {'list': lst.addr, 'nodes': tuple(x.addr for x in N), 'data': tuple(x.info['data'] for x in N),
             'edges': tuple(edges), 'asked': (), 'rank': tuple(rank)}
    ids = [x.id for x in N]

    def post(C, s, ret):
        items = [ids.index(r.id) for r in walk(s, s.heap[lst.id].fields[0][1])]
        if rank:
            want = sorted(range(n), key=lambda i: rank[i])
            C.require('order', items == want, 'the order is %s and should be %s' % (items, want), {'C07'})
        else:
            sorted_post(C, s, items)
        for x in N:
            intact(C, s, x, 'element', props={'C07', 'C26'})
    R.exec(st, 'tommy_list_sort', [lst.addr, comparison(R, st)], post, label, canon=False)


def run_sort(m):
    """All lists of up to 7 nodes, whatever the order of the elements."""
    R = new_run(m, 'tommy_list_sort')
    for n in range(0, (8 if harness.THOROUGH else 7) + 1):
        pairs = [(i, i + 1) for i in range(0, n - 1, 2)] if n >= 5 else []
        for pre in itertools.product((0, 1), repeat=len(pairs)):
            sort_case(R, n, [(j, i, True) if p else (i, j, False) for (i, j), p in zip(pairs, pre)], '%d nodes %s' % (n, ''.join(map(str, pre))))
    return [R]


def run_runs(m):
    """Longer lists: two runs that are already in order or in reverse order, in any order to each other; and some fixed orders."""
    R = new_run(m, 'tommy_list_sort runs')
    for n in range(9, 16 if harness.THOROUGH else 13):
        for up1, up2 in itertools.product((0, 1), repeat=2):
            e = [(i, i + 1, False) if up else (i + 1, i, True) for lo, hi, up in ((0, 8, up1), (8, n, up2)) for i in range(lo, hi - 1)]
            sort_case(R, n, e, '%d nodes %s%s' % (n, 'du'[up1], 'du'[up2]))
    for n in list(range(8, 36)) + [63, 64, 65, 100]:
        for k, rank in enumerate(([i * 7 % 19 for i in range(n)], list(range(n)), list(range(n, 0, -1)), [0] * n)):
            if k == 0 or n % 8 in (0, 3, 7):
                sort_case(R, n, (), '%d nodes order %d' % (n, k), rank or [0])
    return [R]


def chain_fields(st, lo, hi):
    return {0: (8, st.gh['nodes'][lo]), 8: (8, st.gh['nodes'][hi - 1])}


def run_merge(m):
    """The merge of two sorted chains, the first of which came before the second."""
    out = []
    for fn in ('tommy_chain_merge', 'tommy_chain_merge_degenerated'):
        if fn not in m.funcs or len(m.funcs[fn].params) != 3:
            continue
        R = new_run(m, fn)
        R.soft = True
        out.append(R)
        top = 7 if harness.THOROUGH else 6
        for p, q in itertools.product(range(1, top + 1), repeat=2):
            st = R.new_state()
            N = [new_node(st, 'e%d' % i) for i in range(p + q)]
            link(st, N[:p])
            link(st, N[p:])
            L = R.ctx.layouts['node']
            for x in (N[0], N[p]):
                st.heap[x.id].fields[L.prev] = (8, rsym('raw', bits=64))
            for x in (N[p - 1], N[-1]):
                st.heap[x.id].fields[L.next] = (8, rsym('raw', bits=64))
            st.gh = {'nodes': tuple(x.addr for x in N), 'data': tuple(x.info['data'] for x in N), 'asked': (),
                     'edges': tuple((i, i + 1, False) for i in range(p + q - 1) if i != p - 1)}
            a = var_region(st, 'first', chain_fields(st, 0, p), 16)
            b = var_region(st, 'second', chain_fields(st, p, p + q), 16)
            ids = [x.id for x in N]

            def post(C, s, ret, N=N, ids=ids, a=a, L=L):
                f = s.heap[a.id].fields
                cur, end = s.num.norm(f[0][1]), s.num.norm(f[8][1])
                items, prev = [], None
                while True:
                    i, off = s.base_of(cur)
                    if i not in ids or off.const() != 0:
                        raise Post('the merged chain leads to %r' % cur)
                    k = ids.index(i)
                    if k in items:
                        raise Post('the merged chain is cyclic')
                    items.append(k)
                    g = s.heap[i].fields
                    if prev is not None and s.num.norm(g[L.prev][1]) != prev:
                        raise Post('a prev link of the merged chain does not point to the previous node')
                    if cur == end:
                        break
                    prev, cur = cur, s.num.norm(g[L.next][1])
                sorted_post(C, s, items, 'the merged chain')
                for x in N:
                    intact(C, s, x, 'element', props={'C07', 'C26'})
            R.exec(st, fn, [a.addr, b.addr, comparison(R, st)], post, '%d and %d nodes' % (p, q), canon=False)
    return out


def run_driver(m):
    """Longer lists, with the merge of two chains taken by contract: it joins what came before with what came behind."""
    fn, mg = 'tommy_list_sort', 'tommy_chain_merge_degenerated'
    if mg not in m.funcs or len(m.funcs[mg].params) != 3:
        return []
    R = new_run(m, fn + ' driver')
    R.soft = True
    L = R.ctx.layouts['node']

    def merge(I, s, args, ins):
        n = s.num
        part = []
        for x in args[:2]:
            h, t = n.norm(s.load(x, 8)), n.norm(s.load(x + 8, 8))
            k = [c for c in s.gh['chains'] if s.resolve(c[0]) == h and s.resolve(c[1]) == t]
            if len(k) != 1:
                raise Undecided('a chain that was not made by a merge')
            part.append(k[0])
        a, b = part
        lo, hi = [int(c[2].const()) for c in part], [int(c[3].const()) for c in part]
        if hi[0] > lo[1]:
            raise Fault('order', 'the nodes from %d to %d are merged as if they came before those from %d to %d' % (lo[0], hi[0] - 1, lo[1], hi[1] - 1))
        if hi[0] != lo[1]:
            raise Undecided('chains that are not neighbours are merged')
        new = (a[0], b[1], a[2], b[3])
        s.gh['chains'] = tuple(c for c in s.gh['chains'] if c not in (a, b)) + (new,)
        for c in (a, b):
            for e in c[:2]:
                i, _ = s.base_of(s.resolve(e))
                r = s.heap[i].copy()
                r.fields[L.next] = (8, rsym('raw', bits=64))
                r.fields[L.prev] = (8, rsym('raw', bits=64))
                s.heap[i] = r
        s.store(args[0], s.resolve(new[0]), 8)
        s.store(args[0] + 8, s.resolve(new[1]), 8)
        return [(s, None)]
    R.I.intercept[mg] = merge
    for n in (list(range(8, 36)) + [63, 64, 65, 100]):
        st = R.new_state()
        N = [new_node(st, 'e%d' % i, pin=False) for i in range(n)]
        head, tail, _ = link(st, N)
        lst = var_region(st, 'list', {0: (R.ctx.P, head)}, R.ctx.P)
        st.gh = {'list': lst.addr, 'nodes': tuple(x.addr for x in N), 'data': (), 'edges': (), 'asked': (),
                 'chains': tuple((x.addr, x.addr, K(i), K(i + 1)) for i, x in enumerate(N))}

        def post(C, s, ret, n=n):
            h = s.num.norm(s.heap[lst.id].fields[0][1])
            k = [c for c in s.gh['chains'] if s.resolve(c[0]) == h]
            if C.require('chain', len(k) == 1 and k[0][2].const() == 0 and k[0][3].const() == n, 'the list is not the chain of all nodes', {'C07', 'C05'}):
                t = s.resolve(k[0][1])
                C.eq(s, 'tail', s.heap[s.base_of(h)[0]].fields[L.prev][1], t, "the head's prev is not the tail", {'C07'})
                C.eq(s, 'end', s.heap[s.base_of(t)[0]].fields[L.next][1], ZERO, 'the list is not terminated', {'C07'})
        R.exec(st, fn, [lst.addr, comparison(R, st)], post, '%d nodes' % n, canon=False)
    return [R]
