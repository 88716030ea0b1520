"""Hash tables with one bucket vector: hashtable and hashdyn."""
from harness import *


class HCtx(Ctx):
    """Adds: comparison and visitor callbacks, power of two rounding by contract."""


# ---------------------------------------------------------------- callbacks
def fnptr(R, st, name, handler):
    a = atom('addr', '&' + name, align=16)
    st.heap[a.id] = Region(a.id, name, 'fn', K(0))
    R.I.callbacks[a.id] = handler
    return Lin.atom(a)


def find_data(st, d, alive=True):
    """The explicit node whose data pointer is d."""
    for r in st.heap.values():
        if r.kind in ('node', 'tnode') and 'data' in r.info and r.alive and st.resolve(r.info['data']) == d and not r.info.get('foreign'):
            return r
    return None


def search_cmp(R, arg):
    """tommy_search_func: called with the caller's argument and the data of a stored element."""
    def h(I, st, args, ins):
        d = st.num.norm(args[1])
        if st.num.norm(args[0]) != st.resolve(arg):
            raise Fault('callback', 'the comparison is not given the argument of the caller')
        r = find_data(st, d)
        if r is None:
            raise Fault('callback', 'the comparison is called with something that is not the data of a stored element')
        known = r.info.get('cmp')
        out = []
        for v in ('z', 'nz'):
            if known is not None and known != v:
                continue
            s = st.copy() if known is None and v == 'z' else st
            q = s.heap[r.id].copy()
            q.info = dict(q.info)
            q.info['cmp'] = v
            s.heap[r.id] = q
            out.append((s, ZERO if v == 'z' else rsym('cmp', 1, (1 << 32) - 1)))
        return out
    return h


def visitor(R, arg):
    """tommy_foreach_func: may free the element, so its node must not be used any more."""
    def h(I, st, args, ins):
        if arg is not None and st.num.norm(args[0]) != st.resolve(arg):
            raise Fault('callback', 'the callback is not given the argument of the caller')
        d = st.num.norm(args[-1])
        r = find_data(st, d)
        if r is None:
            raise Fault('callback', 'the callback is called with something that is not the data of an element still to visit')
        if r.info.get('pin'):
            q = r.copy()
            q.alive = False
            q.fields = {}
            st.heap[r.id] = q
        else:
            del st.heap[r.id]       # the address dangles
        if 'visits' in st.gh:
            st.gh['visits'] = st.gh['visits'] + 1
        return [(st, None)]
    return h


def roundup(I, st, args, ins):
    w = ins.ty.n
    v = st.norm_u(args[0], w)
    if not st.decide(v - 1, 'roundup of zero'):
        return None
    if not st.num.ge(K(1 << (w - 2)) - v):
        raise Fault('shift', 'rounding up may overflow')
    e = rsym('e', 0, w - 2)
    st.num.add(pow2(e) - v)
    st.num.add(2 * v - pow2(e) - 1 + (1 if False else 0))
    return [(st, pow2(e))]


# ---------------------------------------------------------------- tables
class Table:
    """A table in an arbitrary state of its invariant with explicit witnesses."""

    def __init__(self, R, kind):
        self.R, self.kind = R, kind
        m = R.m
        self.F = m.struct_fields('tommy_%s_struct' % kind)
        self.size = self.F['__size__'][0]
        self.P = R.ctx.P
        self.L = R.ctx.layouts['node']

    def build(self, st, buckets, bmin=4):
        """buckets: list of (pos Lin, items, name of explicit nodes...) already ordered by position; the state is filled."""
        W = self.R.ctx.W
        b = rsym('b', bmin, W - 6)
        self.b = b
        st.gh['exps'] = (b, b + 1, b - 1)
        st.gh['b'] = b
        return b

    def finish(self, st, b, cells, count_min):
        W, P = self.R.ctx.W, self.P
        r = st.new_region('bucket', 'heap', P * pow2(b))
        segs = []
        pos = ZERO
        for p, head in cells:
            segs.append((pos, p, ('list', b)))
            State.stamp += 1
            segs.append((p, p + 1, ('val', head, State.stamp)))
            pos = p + 1
        segs.append((pos, pow2(b), ('list', b)))
        r.arrs = (Arr(0, K(P), segs),)
        cnt = rsym('count', 0, 1 << (W - 8))
        st.num.add(cnt - count_min)
        F = self.F
        fields = {}

        def put(n, v):
            o, s = F[n]
            fields[o] = (s, v)
        put('bucket', r.addr)
        put('bucket_max', pow2(b))
        put('bucket_mask', pow2(b) - 1)
        put('count', cnt)
        if 'bucket_bit' in F:
            put('bucket_bit', b)
        o = var_region(st, self.kind, fields, self.size)
        st.gh['table'] = o.addr
        st.gh['count'] = cnt
        self.obj = o.id
        return o

    def key(self, st, b, name, var=0):
        """A hash, the exponent that decides its bucket and the bucket."""
        k, p = mk_key(st, b, name)
        return k, b, p

    def blank(self, st):
        o = var_region(st, self.kind, {}, self.size)
        self.obj = o.id
        return o

    def coarse(self, st):
        pass

    def weaken(self, st):
        pass

    def released(self, s, i):
        return not s.heap[i].alive

    def skip(self, rel, var, var2):
        return False

    def label(self, *v):
        return ''

    def check(self, C, s, props, bmin):
        return check_flat(self, C, s, props, bmin)

    def place(self, s):
        r = vector(s, self)
        return Place(r, [(ZERO, self.get(s, 'bucket_max'), s.pow2_exp(s.num.norm(self.get(s, 'bucket_max'))))])

    def pos(self, s, key):
        return self.place(s).pos(s, key)

    def vec(self, s):
        b, off = s.base_of(self.get(s, 'bucket'))
        return s.heap[b]

    def get(self, st, name):
        o, s = self.F[name]
        f = st.heap[self.obj].fields.get(o)
        return f[1] if f else None


class Place:
    """Where the elements must be: sections (lo, hi, exponent) of the vector and the position of a hash."""

    def __init__(self, r, sections, split=None):
        self.r, self.sections, self.split = r, sections, split

    def pos(self, s, key):
        e = s.resolve(self.sections[0][2])
        if self.split is None:
            return s.low(s.num.norm(key), e)
        e = s.resolve(self.sections[1][2])
        q = s.low(s.num.norm(key), e)
        if s.decide(s.resolve(self.split) - 1 - q, 'position'):
            return s.low(s.num.norm(key), e + 1)
        return q

    def exp_at(self, s, pos):
        for lo, hi, e in self.sections:
            if s.decide(s.resolve(hi) - 1 - pos, 'section'):
                return s.resolve(e)
        raise Post('an element outside of the valid buckets')


def check_table(T, C, s, props_shape, bmin=4):
    """The table invariant holds; returns the Place for the placement checks."""
    return T.check(C, s, props_shape, bmin)


def check_flat(T, C, s, props_shape, bmin=4):
    n = s.num
    mx = T.get(s, 'bucket_max')
    if mx is None:
        C.fail('invariant', 'the number of buckets is not set', props_shape)
        raise Post('no bucket_max')
    e = s.pow2_exp(n.norm(mx))
    if not C.require('invariant power', e is not None, 'the number of buckets %r is not a power of two' % n.norm(mx), props_shape, not lossy(n.norm(mx))):
        raise Post('bucket_max is not a power of two')
    C.require('invariant range', n.ge(e - bmin), 'the number of buckets may become less than %d' % (1 << bmin), props_shape, s.sure_outside(e, K(bmin), K(64)))
    C.eq(s, 'invariant mask', T.get(s, 'bucket_mask'), mx - 1, 'the bucket mask', props_shape)
    if 'bucket_bit' in T.F:
        C.eq(s, 'invariant bit', T.get(s, 'bucket_bit'), e, 'the bucket bits', props_shape)
    b, off = s.base_of(T.get(s, 'bucket'))
    r = s.heap.get(b) if b is not None else None
    if not C.require('invariant vector', r is not None and r.alive and r.kind == 'heap' and off.const() == 0, 'the bucket pointer is not a live heap block', props_shape | {'C17'}):
        raise Post('no bucket vector')
    C.eq(s, 'invariant size', r.size, mx * T.P, 'bytes of the bucket vector', props_shape | {'C18'})
    pl = Place(r, [(ZERO, pow2(e), e)])
    if r.arrs:
        check_cells(T, C, s, r, pl, props_shape)
    else:
        C.fail('invariant cells', 'the bucket vector is not filled', props_shape)
    return pl


def check_cells(T, C, s, r, pl, props):
    n = s.num
    seen = set()
    for lo, hi, t in r.arrs[0].segs:
        if n.eq0(hi - lo):
            continue
        if not s.decide(pl.sections[-1][1] - 1 - lo, 'unused part'):
            continue
        if t[0] == 'val':
            items = walk(s, t[1])
            for it in items:
                i = it.id if isinstance(it, Region) else ('s', it.id)
                if i in seen:
                    raise Post('an element is in two buckets')
                seen.add(i)
                check_place(C, s, it, pl, lo, props)
            continue
        for a, b, e in pl.sections:
            if not s.decide(b - 1 - lo, 'section') or not s.decide(hi - 1 - a, 'section'):
                continue
            x = a if s.decide(a - lo, 'section') else lo
            y = b if s.decide(hi - b, 'section') else hi
            if n.eq0(y - x):
                continue
            ok = s.ctx.tmpl_le(s, t, ('list', e), x, y)
            C.require('invariant cells', ok, 'buckets [%r,%r) hold %s, expected elements of that bucket' % (x, y, t), props, not s.lossy or t[0] == 'uninit' or t[0] == 'list')


def check_place(C, s, it, pl, pos, props):
    n = s.num
    sure = True
    if isinstance(it, Seg):
        e = pl.exp_at(s, pos)
        sure = not s.lossy or any(t[0] == 'low' and n.eq0(t[1] - e) for t in it.tags)
        ok = merge.has_tag(s, it.tags, ('low', e, pos))
    else:
        L = s.ctx.layouts['node']
        k = it.fields.get(L.key)
        if k is None:
            C.fail('placement', 'the hash of node %s is not set' % it.name, props)
            return
        v = pl.pos(s, k[1])
        ok = n.eq0(v - pos)
        sure = differ(s, n.norm(v - pos))
    C.require('placement', ok, 'an element is in bucket %r, where its hash does not lead' % (pos,), props, sure)


def cell_items(s, r, idx, ai=0):
    """Items of the bucket idx (materialised)."""
    v = s.arr_load(s.heap[r.id], ai, s.num.norm(idx))
    return walk(s, v)


def combos(shs, R, kind):
    for sh in shs:
        for x in tables(R, kind):
            yield sh, x


def keyvars(kind):
    if kind == 'hashlin':
        import ops_lin
        return ops_lin.VARS
    return (0,)


def tables(R, kind):
    """(table, position variant of the key)"""
    if kind == 'hashlin':
        import ops_lin
        return ops_lin.tables(R)
    return [(Table(R, kind), 0)]


class Sh(list):
    """The shape of a bucket with the label of the table variant."""

    def __init__(self, sh, lab):
        list.__init__(self, sh)
        self.lab = lab

    def __str__(self):
        return str(list(self)) + self.lab
    __repr__ = __str__


def mk_key(st, b, name):
    k = rsym('key_' + name, bits=st.ctx.W) if isinstance(name, str) else name
    p = st.num.norm(Lin.atom(atom('low', args=(k, b))))
    st.gh['lows'] = st.gh.get('lows', frozenset()) | {p.single().id}
    return k, p


def bucket_list(st, items, b, p):
    """Link explicit nodes and segments of bucket p."""
    tags = frozenset([('low', b, p)])
    return link(st, [x if isinstance(x, Region) else ('seg', tags) for x in items])


def cases_one(R, kind, fixed, bmin=4):
    """Tables with the explicit nodes `fixed` (same hash) in one bucket."""
    for sh, (T, var) in combos(shapes(fixed), R, kind):
        st = R.new_state()
        b = T.build(st, None, bmin)
        k, b, p = T.key(st, b, 'h', var)
        N = {x: new_node(st, x, key=k) for x in fixed}
        head, tail, tot = bucket_list(st, [N.get(x, 'S') for x in sh], b, p)
        T.finish(st, b, [(p, head)], tot)
        st.gh['nodes'] = tuple(N[x].addr for x in fixed)
        st.gh['k'] = k
        yield Sh(sh, T.label(var)), st, T, b, k, p, N
    return


def modes(R, kind, mode):
    """'skip': a call of the resize function is taken by its contract, which keeps what the table stores (decided by the
    other mode); 'resize': it is analysed in place, from tables whose witness bucket holds explicit nodes only."""
    R.mode = mode
    if mode == 'skip' and kind == 'hashlin':
        for n in ('hashlin_grow_step', 'hashlin_shrink_step'):
            if n in R.m.funcs:
                R.I.intercept[n] = lambda I, st, args, ins: [(st, None)]
    elif mode == 'skip':
        n = 'tommy_%s_resize' % kind
        if n in R.m.funcs and len(R.m.funcs[n].params) == 2:
            R.I.intercept[n] = resize_contract(R, kind)
        return lambda sh: True
    if mode == 'resize':
        return lambda sh: 'S' not in sh
    return lambda sh: True


def halves(mode, todo, b_of):
    """In the resize mode the witness bucket is in the lower or in the upper half of the vector."""
    if mode != 'resize' or todo and 'split' in todo[0][2].F:
        return todo
    out = []
    for c in todo:
        for up in (False, True):
            st = c[1].copy()
            b = st.gh['b']
            p = st.low(st.num.norm(st.gh['k']), b)
            st.num.add(p - pow2(b - 1) if up else pow2(b - 1) - 1 - p)
            out.append(('%s %s' % (c[0], 'upper' if up else 'lower'), st) + c[2:])
    return out


def resize_contract(R, kind):
    def h(I, st, args, ins):
        F = R.m.struct_fields('tommy_%s_struct' % kind)
        o = st.heap.get(st.base_of(args[0])[0])
        if o is None or 'bucket_bit' not in F:
            raise Undecided('resize of something else')
        b = st.num.norm(o.fields[F['bucket_bit'][0]][1])
        d = st.num.norm(args[1] - b).const()
        if d not in (1, -1):
            raise Undecided('resize by more than a step')
        if d == -1 and not st.decide(b - 5, 'shrink below the minimum'):
            raise Fault('invariant', 'the table may shrink below its minimal size', 'C03')
        return [(st, None)]
    return h


def intercepts(R):
    for n in ('tommy_roundup_pow2_u64', 'tommy_roundup_pow2_u32'):
        R.I.intercept[n] = roundup


BUCKET_MIN = {'hashtable': 4, 'hashdyn': 4}


def marks(sh, x):
    """Tags of the segments of a shape relative to the explicit node x."""
    out = []
    seen = False
    for y in sh:
        if y == x:
            seen = True
        out.append(('post',) if seen else ('pre',))
    return out


def cases_marked(R, kind, fixed, pivot, bmin=4):
    """Like cases_one, the segments being marked as before or after the explicit node `pivot`."""
    for sh, (T, var) in combos(shapes(fixed), R, kind):
        st = R.new_state()
        b = T.build(st, None, bmin)
        k, b, p = T.key(st, b, 'h', var)
        N = {x: new_node(st, x, key=k) for x in fixed}
        mk = marks(sh, pivot)
        items = []
        for x, t in zip(sh, mk):
            items.append(N[x] if x in N else ('seg', frozenset([('low', b, p)] + ([t] if pivot else []))))
        head, tail, tot = link(st, items)
        T.finish(st, b, [(p, head)], tot)
        st.gh['nodes'] = tuple(N[x].addr for x in fixed)
        st.gh['k'] = k
        yield Sh(sh, T.label(var)), st, T, b, k, p, N


def cases_two(R, kind, first, second, bmin=4):
    """Explicit nodes `first` of hash k and `second` of hash k2 != k: in the same bucket (every order) or in two buckets."""
    for rel in ('same', 'before', 'after'):
        shs = [(sh, None) for sh in shapes(first + second)] + [(sh, None) for sh in shapes(second + first)] if rel == 'same' else \
            [(a, c) for a in shapes(first) for c in shapes(second)]
        for ((sh, sh2), var2), (T, var) in combos([(x, v) for x in shs for v in (keyvars(kind) if rel != 'same' else (0,))], R, kind):
            if T.skip(rel, var, var2):
                continue
            st = R.new_state()
            b0 = T.build(st, None, bmin)
            k, b, p = T.key(st, b0, 'h', var)
            k2 = rsym('key_g', bits=R.ctx.W)
            st.num.add_ne(k - k2)
            N = {x: new_node(st, x, key=k) for x in first}
            N.update({x: new_node(st, x, key=k2) for x in second})
            if rel == 'same':
                set_low(st, k2, b, p)
                head, tail, tot = bucket_list(st, [N.get(x, 'S') for x in sh], b, p)
                T.finish(st, b, [(p, head)], tot)
                p2 = p
            else:
                k2, b2, p2 = T.key(st, b0, k2, var2)
                st.num.add(p - p2 - 1 if rel == 'after' else p2 - p - 1)
                h1, _, t1 = bucket_list(st, [N.get(x, 'S') for x in sh], b, p)
                h2, _, t2 = bucket_list(st, [N.get(x, 'S') for x in sh2], b2, p2)
                cells = [(p, h1), (p2, h2)]
                T.finish(st, b, cells if rel == 'before' else cells[::-1], t1 + t2)
            st.gh['nodes'] = tuple(N[x].addr for x in first + second)
            st.gh['k'] = k
            st.gh['k2'] = k2
            yield '%s %s %s%s' % (rel, sh, sh2, T.label(var, var2)), st, T, b, k, k2, N


def set_cmp(st, r, v):
    q = st.heap[r.id].copy()
    q.info = dict(q.info)
    q.info['cmp'] = v
    st.heap[r.id] = q


def set_callback(R, st):
    arg = rsym('arg', bits=R.ctx.W)
    st.gh['arg'] = arg
    cmp = fnptr(R, st, 'cmp', search_cmp(R, arg))
    st.gh['cmp'] = cmp
    return cmp, arg


def check_found(C, s, ret, N, props):
    """The returned data is that of an accepted element of that hash which is not after e; returns its node."""
    ret = s.num.norm(ret)
    if 'e' in N:
        C.require('found', ret.const() != 0, 'a stored match is not found', props)
    if ret.const() == 0:
        return None
    q = find_data(s, ret)
    if not C.require('stored', q is not None, 'the result is not the data of a stored element', props):
        return None
    C.require('accepted', q.info.get('cmp') == 'z', 'the result was not accepted by the comparison', props)
    C.require('hash', s.num.eq0(s.resolve(q.info['key']) - s.gh['k']), 'the result has another hash', props)
    if 'e' in N:
        C.require('first', q.id == N['e'].id or ('pre',) in q.info.get('tags', ()), 'the result is not the first inserted match', props)
    return q


def vector(s, T):
    return T.vec(s)


def run_search(m, kind, bmin=4):
    fn = 'tommy_%s_search' % kind
    R = Run(m, fn, {'C01', 'C18', 'C26'})
    for fixed in ([], ['e'], ['e', 'f']):
        for sh, st, T, b, k, p, N in cases_marked(R, kind, fixed, 'e' if fixed else None, bmin):
            if N:
                set_cmp(st, N['e'], 'z')
            cmp, arg = set_callback(R, st)

            def post(C, s, ret):
                q = check_found(C, s, ret, N, {'C01'})
                if q is not None:
                    items = cell_items(s, vector(s, T), T.pos(s, s.gh['k']))
                    C.require('member', position(items, q.id) is not None, 'the result is not in its bucket', {'C01'})
            R.exec(st, fn, [st.gh['table'], cmp, arg, k], post, '%s %s' % (fn, sh), canon=False)
    fn = 'tommy_%s_bucket' % kind
    for fixed in ([], ['e', 'f']):
        for sh, st, T, b, k, p, N in cases_one(R, kind, fixed, bmin):
            def post(C, s, ret):
                items = walk(s, ret)
                ks = [position(items, N[x].id) for x in fixed]
                C.require('bucket', None not in ks and ks == sorted(ks), 'the bucket of a hash does not hold its elements in insertion order', {'C01'})
                own = cell_items(s, vector(s, T), T.pos(s, s.gh['k']))
                C.require('bucket', [getattr(i, 'id') for i in own] == [getattr(i, 'id') for i in items], 'the result is not the bucket of the hash', {'C01'})
            R.exec(st, fn, [st.gh['table'], k], post, '%s %s' % (fn, sh), canon=False)
    return R


def check_kept(T, C, s, e, N, names, key, props):
    """The explicit nodes `names` (all of hash key) are in the bucket of the hash, in that order."""
    items = cell_items(s, s.heap[e.r.id], e.pos(s, key))
    ks = [position(items, N[x].id) for x in names]
    C.require('kept', None not in ks, 'a stored element is not in the bucket of its hash any more', props)
    if None not in ks:
        C.require('order', ks == sorted(ks), 'elements of equal hash are not in insertion order', props)
    for x in names:
        intact(C, s, N[x], 'element', props={'C26', 'C03'} | set(props))


def run_insert(m, kind, bmin=4, mode=None):
    fn = 'tommy_%s_insert' % kind
    R = Run(m, fn, {'C01', 'C02', 'C03', 'C05', 'C17', 'C18', 'C26'})
    R.name += ' ' + mode if mode else ''
    intercepts(R)
    keep_sh = modes(R, kind, mode)
    PR = {'C01', 'C03'}
    todo = []
    for fixed in ([], ['e', 'f'], ['e']):
        for same_key in ((True,) if not fixed else (True, False)):
            if fixed == ['e', 'f'] and not same_key and (kind == 'hashtable' or mode == 'skip'):
                continue
            for c in cases_one(R, kind, fixed, bmin):
                if keep_sh(c[0]) and (same_key or mode != 'resize'):
                    todo.append((fixed, same_key, None) + c)
    if mode == 'resize':
        # the new element has another hash but the same bucket
        for rel in ('same',):
            for c in cases_one(R, kind, ['e'], bmin):
                if keep_sh(c[0]):
                    todo.append((['e'], False, rel) + c)
    for fixed, same_key, rel, sh, st, T, b, k, p, N in todo:
        n = new_node(st, 'n', init=False)
        h = k if same_key else rsym('hash', bits=R.ctx.W)
        data = n.info['data']
        n.info['key'] = h
        if rel is not None:
            st.num.add_ne(h - k)
            if rel == 'same':
                set_low(st, ZERO + h, b, p)
            else:
                p2 = st.num.norm(Lin.atom(atom('low', args=(ZERO + h, b))))
                st.gh['lows'] = st.gh['lows'] | {p2.single().id}
                st.num.add(p - p2 - 1 if rel == 'before' else p2 - p - 1)
        st.gh.update({'n': n.addr, 'h': h, 'data': data})

        def post(C, s, ret):
            C.eq(s, 'count', T.get(s, 'count'), s.gh['count'] + 1, 'number of elements after an insert', {'C05'})
            e = check_table(T, C, s, {'C03', 'C01', 'C02'}, bmin)
            L = T.L
            q = s.heap[n.id]
            C.require('data', L.data in q.fields and same(s, q.fields[L.data][1], s.gh['data']), 'the data of the new node is not the argument', {'C01', 'C26'})
            C.require('key', L.key in q.fields and same(s, q.fields[L.key][1], s.gh['h']), 'the hash of the new node is not the argument', {'C01', 'C26'})
            if same_key:
                check_kept(T, C, s, e, dict(N, n=n), fixed + ['n'], s.gh['k'], PR)
            else:
                check_kept(T, C, s, e, {'n': n}, ['n'], s.gh['h'], PR)
                check_kept(T, C, s, e, N, fixed, s.gh['k'], PR)
        R.exec(st, fn, [st.gh['table'], n.addr, data, h], post, '%s %s %s' % (fn, sh, 'same hash' if same_key else 'other hash %s' % rel))
    return R


def run_remove_existing(m, kind, bmin=4, mode=None):
    fn = 'tommy_%s_remove_existing' % kind
    R = Run(m, fn, {'C01', 'C02', 'C03', 'C05', 'C17', 'C18', 'C26'})
    R.name += ' ' + mode if mode else ''
    intercepts(R)
    keep_sh = modes(R, kind, mode)
    todo = []
    for fixed in (['r'], ['e', 'f', 'r'], ['e', 'r', 'f'], ['r', 'e', 'f']):
        for sh, st, T, b, k, p, N in cases_one(R, kind, fixed, bmin):
            if keep_sh(sh):
                todo.append((sh, st, T, N, [(k, [x for x in fixed if x != 'r'])]))
    for lab, st, T, b, k, k2, N in cases_two(R, kind, ['r'], ['g'], bmin):
        if keep_sh(lab) and (mode != 'resize' or lab.startswith('same')):
            todo.append((lab, st, T, N, [(k2, ['g'])]))
    for lab, st, T, N, keep in halves(mode, todo, None):
        st.gh['keep'] = tuple(k for k, _ in keep)

        def post(C, s, ret):
            C.eq(s, 'count', T.get(s, 'count'), s.gh['count'] - 1, 'number of elements after a removal', {'C05'})
            e = check_table(T, C, s, {'C03', 'C01', 'C02'}, bmin)
            C.eq(s, 'result', ret, N['r'].info['data'], 'data returned by the removal', {'C02', 'C26'})
            items = cell_items(s, s.heap[e.r.id], e.pos(s, N['r'].info['key']))
            C.require('removed', position(items, N['r'].id) is None, 'the removed node is still in the table', {'C02'})
            for k, (_, names) in zip(s.gh['keep'], keep):
                check_kept(T, C, s, e, N, names, k, {'C02', 'C03'})
        R.exec(st, fn, [st.gh['table'], N['r'].addr], post, '%s %s' % (fn, lab))
    return R


def run_remove(m, kind, bmin=4, mode=None):
    fn = 'tommy_%s_remove' % kind
    R = Run(m, fn, {'C01', 'C02', 'C03', 'C05', 'C17', 'C18', 'C26'})
    R.name += ' ' + mode if mode else ''
    intercepts(R)
    keep_sh = modes(R, kind, mode)
    todo = []
    for fixed in ([], ['e'], ['g', 'f'], ['g', 'e'], ['e', 'g']):
        for sh, st, T, b, k, p, N in cases_marked(R, kind, fixed, 'e' if 'e' in fixed else None, bmin):
            if keep_sh(sh):
                todo.append((sh, st, T, N, k, fixed, [(k, [x for x in fixed if x != 'e'])]))
    for lab, st, T, b, k, k2, N in cases_two(R, kind, [], ['g'], bmin):
        if lab.startswith('same') and keep_sh(lab):
            todo.append((lab, st, T, N, k, ['g'], [(k2, ['g'])]))
    for lab, st, T, N, k, fixed, keep in halves(mode, todo, None):
        if 'e' in N:
            set_cmp(st, N['e'], 'z')
        for x in fixed:
            if x != 'e':
                set_cmp(st, N[x], 'nz')
        cmp, arg = set_callback(R, st)
        st.gh['keep'] = tuple(k for k, _ in keep)

        def prep(s, ret):
            # the removed node stays visible
            q = find_data(s, s.num.norm(ret))
            if q is not None:
                s.gh['#hit'] = K(1)
                s.gh['removed'] = q.addr
                q2 = q.copy()
                q2.info = dict(q2.info)
                q2.info['pin'] = 'removed'
                s.heap[q.id] = q2
            return s

        def post(C, s, ret):
            ret = s.num.norm(ret)
            e = check_table(T, C, s, {'C03', 'C01', 'C02'}, bmin)
            q = check_found(C, s, ret, N, {'C02'})
            if ret.const() == 0:
                C.eq(s, 'count', T.get(s, 'count'), s.gh['count'], 'number of elements after a removal that finds nothing', {'C05'})
            else:
                C.eq(s, 'count', T.get(s, 'count'), s.gh['count'] - 1, 'number of elements after a removal', {'C05'})
                items = cell_items(s, s.heap[e.r.id], e.pos(s, s.gh['k']))
                if q is not None:
                    C.require('removed', position(items, q.id) is None, 'the removed node is still in the table', {'C02'})
            if 'e' in N and (q is None or q.id != N['e'].id):
                check_kept(T, C, s, e, N, ['e'], s.gh['k'], {'C02', 'C03'})
            for k, (_, names) in zip(s.gh['keep'], keep):
                check_kept(T, C, s, e, N, names, k, {'C02', 'C03'})
        R.exec(st, fn, [st.gh['table'], cmp, arg, k], post, '%s %s' % (fn, lab), prep=prep)
    return R


def run_foreach(m, kind, bmin=4):
    R = Run(m, 'tommy_%s_foreach' % kind, {'C04', 'C17', 'C18', 'C26'})
    for fn, two in (('tommy_%s_foreach' % kind, False), ('tommy_%s_foreach_arg' % kind, True)):
        for fixed in (['e'], []):
            for sh, st, T, b, k, p, N in cases_one(R, kind, fixed, bmin):
                if not fixed and sh:
                    continue
                T.weaken(st)
                arg = rsym('arg', bits=R.ctx.W) if two else None
                st.gh['arg'] = arg
                f = fnptr(R, st, 'func', visitor(R, arg))
                st.gh['func'] = f

                def post(C, s, ret):
                    if N:
                        C.require('visited', not s.heap[N['e'].id].alive, 'an element is not visited', {'C04'})
                    else:
                        C.ok('visited', {'C04'})
                R.exec(st, fn, [st.gh['table'], f] + ([arg] if two else []), post, '%s %s' % (fn, sh))
    return R


def run_life(m, kind, bmin=4):
    R = Run(m, 'tommy_%s_init' % kind, {'C01', 'C05', 'C17', 'C18', 'C24'})
    intercepts(R)
    fn = 'tommy_%s_init' % kind
    st = R.new_state()
    T = tables(R, kind)[0][0]
    o = T.blank(st)
    st.gh['table'] = o.addr
    st.gh['exps'] = ()
    args = [o.addr]
    if kind == 'hashtable':
        mx = rsym('bucket_max', 0, 1 << (R.ctx.W - 6))
        st.gh['mx'] = mx
        args.append(mx)

    def post(C, s, ret):
        C.eq(s, 'count', T.get(s, 'count'), ZERO, 'number of elements after init', {'C05'})
        e = check_table(T, C, s, {'C01'}, bmin)
        for lo, hi, t in e.r.arrs[0].segs if e.r.arrs else ():
            C.require('empty', s.num.eq0(hi - lo) or t[0] == 'zero' or t[0] == 'val' and t[1].const() == 0, 'a bucket is not empty after init', {'C01'})
        if kind == 'hashtable':
            C.require('size', s.num.ge(e.sections[0][1] - s.gh['mx']), 'fewer buckets than requested', {'C01'})
    R.exec(st, fn, args, post)
    for sh, st, T, b, k, p, N in cases_one(R, kind, ['e'] if kind != 'hashlin' else [], bmin):
        if kind == 'hashlin' and sh:
            continue
        vec = vector(st, T).id
        fn = 'tommy_%s_done' % kind
        s0 = st.copy()
        T.coarse(st)
        st.gh['vec'] = st.heap[vec].addr

        def post(C, s, ret):
            C.require('released', T.released(s, vec), 'the buckets are not released', {'C17'})
            for r in s.heap.values():
                C.require('leak', not (r.alive and r.kind == 'heap'), 'a block is not released', {'C17'})
            if N:
                intact(C, s, N['e'], 'element', props={'C17'})
        R.exec(st, fn, [st.gh['table']], post, '%s %s' % (fn, sh), canon=False)
        fn = 'tommy_%s_count' % kind

        def post2(C, s, ret):
            C.eq(s, 'result', ret, s.gh['count'], 'reported count', {'C05'})
        R.exec(s0.copy(), fn, [st.gh['table']], post2, '%s %s' % (fn, sh), canon=False)
        fn = 'tommy_%s_memory_usage' % kind

        def post3(C, s, ret):
            C.eq(s, 'result', ret, total_heap(s) + s.gh['count'] * T.L.size, 'reported memory', {'C24'})
        R.exec(s0.copy(), fn, [st.gh['table']], post3, '%s %s' % (fn, sh), canon=False)
    return R


def total_heap(s):
    t = ZERO
    for r in s.heap.values():
        if r.kind == 'heap' and r.alive:
            t = t + r.size
        elif r.kind == 'virt':
            for lo, hi, x in r.arrs[0].segs:
                if x[0] != 'gone':
                    t = t + r.arrs[0].es * (hi - lo)
    return t
