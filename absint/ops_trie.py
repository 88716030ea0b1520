"""The two tries. The key of the operation is concrete and taken from several patterns; the part of the trie along its path is explicit, at
every depth it can have. What hangs off the path is a predicate `Child` (nothing, the list of another key, an inner node; for the inplace
trie a node with children) that is decided only when the code looks at it. All loops are followed as they are, without joins."""
from harness import *
from state import Layout
import harness, ops_hash

A = lambda i: Lin.atom(Atom.byid[i])
LIMIT = 3           # levels of the subtrees below a removed inplace node


class Spec:
    def __init__(self, m, inplace):
        self.inplace = inplace
        self.kind = 'trie_inplace' if inplace else 'trie'
        F = m.struct_fields('tommy_%s_struct' % self.kind)
        self.F, self.size, self.P = F, F['__size__'][0], 8
        self.nbucket = F['bucket'][1] // self.P
        if inplace:
            N = m.struct_fields('tommy_trie_inplace_node_struct')
            self.nmap = N['map'][1] // self.P
            self.map0 = N['map'][0]
            self.layout = Layout('node', N, 'key', self.P)
        else:
            N = m.struct_fields('tommy_trie_tree_struct')
            self.nmap = N['map'][1] // self.P
            self.map0 = N['map'][0]
            self.layout = None
        self.block = N['__size__'][0]
        self.bb, self.tb = self.nbucket.bit_length() - 1, self.nmap.bit_length() - 1
        self.shift = 32 - self.bb
        if 1 << self.bb != self.nbucket or 1 << self.tb != self.nmap or self.shift % self.tb:
            raise Undecided('geometry of the trie')
        self.levels = self.shift // self.tb + 1     # the first level repeats bits of the bucket

    def key(self, digits):
        """digits: bucket, then one per level after the first."""
        k = digits[0]
        for d in digits[1:]:
            k = k << self.tb | d
        return k

    def slot(self, digits, level):
        return digits[0] & self.nmap - 1 if level == 0 else digits[level]

    def digits(self, key):
        out = [key >> self.shift]
        for l in range(1, self.levels):
            out.append(key >> self.shift - l * self.tb & self.nmap - 1)
        return tuple(out)

    def under(self, loc, used):
        """A key whose place is at or below loc = (bucket, slot of level 0, ...), not one of those used."""
        d = [loc[0]] + list(loc[2:])
        free = self.levels - len(d)
        seed = sum(loc) * 2654435761 % (1 << 20)
        for n in range(min(self.nmap ** free, 1000)):
            t, x = [], seed + n
            for _ in range(free):
                t.append(x % self.nmap)
                x //= self.nmap
            k = self.key(d + t)
            if k not in used:
                return k
        return None

    def pattern(self, p):
        d = [(p * 11 + 5) % self.nbucket]
        for l in range(1, self.levels):
            d.append((p * 3 + 3 * l + l * l // 2 + (p >> 1)) % self.nmap)
        return tuple(d)

    def prefix(self, digits, depth):
        """The location reached after `depth` levels."""
        return (digits[0],) + tuple(self.slot(digits, l) for l in range(depth))


class Child:
    """What a slot off the path holds: '?' not decided yet, 'list' elements of one key, 'tree' an inner node, 'node' an inplace node."""

    def __init__(self, sp, loc, kind='?', depth=0):
        self.sp, self.loc, self.kind, self.depth = sp, loc, kind, depth

    def map(self, f, ren):
        return self

    def lins(self):
        return []

    def match(self, M, o):
        raise Undecided('tries in a loop')

    def __repr__(self):
        return '%s under %s' % (self.kind, self.loc)

    def null_split(self, st, b):
        if self.kind != '?':
            return
        alts = [lambda s: self.null(s, b), lambda s: self.full(s, b, 'node' if self.sp.inplace else 'list')]
        if not self.sp.inplace and len(self.loc) - 1 < self.sp.levels:
            alts.append(lambda s: self.full(s, b, 'tree'))
        raise NeedSplit(alts, 'slot')

    def null(self, s, b):
        del s.preds[b]
        s.gh['off'] = tuple(x for x in s.gh['off'] if x != A(b))
        s.subst({b: ZERO})
        return not s.num.bot

    def full(self, s, b, kind):
        if kind == 'tree':
            t = s.new_addr('tree', 64)
            s.preds[t.id] = Child(self.sp, self.loc, 'tree', self.depth)
            s.gh['off'] = tuple(x if x != A(b) else Lin.atom(t) + 1 for x in s.gh['off'])
            del s.preds[b]
            s.subst({b: Lin.atom(t) + 1})
        else:
            s.preds[b] = Child(self.sp, self.loc, kind, self.depth)
        return not s.num.bot

    def unfold(self, st, b):
        if self.kind == '?':
            self.null_split(st, b)
        if self.kind == 'tree':
            raise Undecided('an inner node off the path is read')
        raise NeedSplit([lambda s: self.open(s, b)], 'element')

    def open(self, s, b):
        """The list of one key at this place, explicit."""
        p = s.preds.pop(b)
        s.gh['off'] = tuple(x for x in s.gh['off'] if x != A(b))
        L = s.ctx.layouts['node']
        k = self.sp.under(self.loc, {int(s.num.norm(x).const()) for x in [s.gh['K']] + [l[0] for l in s.gh['lists']]})
        if k is None:
            return False
        k = K(k)
        a = Region(b, 'o', 'node', K(L.size), {}, info={'lay': 'node', 'data': rsym('data', bits=64), 'key': k, 'tags': frozenset()})
        a.fields = {L.data: (8, a.info['data']), L.key: (8, k)}
        s.heap[b] = a
        items = [a]
        if sum(self.loc) & 1:
            items.append(new_node(s, 'o2', key=k, pin=False))
        link(s, items)
        s.gh['lists'] = s.gh['lists'] + ((k,) + tuple(A(x.id) for x in items),)
        if self.sp.inplace:
            offs = []
            r = s.heap[b]
            for i in range(self.sp.nmap):
                r.fields[self.sp.map0 + 8 * i] = (8, child(s, self.sp, p.loc + (i,), offs, self.depth + 1))
            s.gh['off'] = s.gh['off'] + tuple(offs)
        return not s.num.bot


def child(s, sp, loc, offs, depth=0, kind='?'):
    """A new undecided slot at loc."""
    if depth > LIMIT or len(loc) - 1 > sp.levels or len(loc) > 1 and loc[1] != loc[0] & sp.nmap - 1:
        return ZERO
    a = s.new_addr('slot', 8)
    if kind == 'tree':
        a = s.new_addr('tree', 64)
        s.preds[a.id] = Child(sp, loc, kind)
        offs.append(Lin.atom(a) + 1)
        return Lin.atom(a) + 1
    s.preds[a.id] = Child(sp, loc, kind, depth)
    offs.append(Lin.atom(a))
    return Lin.atom(a)


def new_run(m, name, props, sp):
    R = Run(m, name, props)
    c = R.ctx
    c.all_props = set(props)
    main = {'C13'} if sp.inplace else {'C11'}
    c.fault_props = lambda kind: {'C12', 'C17'} & set(props) if kind in ('order', 'free') else {'C18'} | main
    c.mem_props = {'C18'}
    c.unroll = 48
    c.unroll_strict = True
    c.maxsteps = 5000000
    if sp.inplace:
        c.layouts['node'] = sp.layout
    else:
        def alloc(I, st, args, ins):
            if st.num.norm(args[0]) != st.resolve(st.gh['alloc']):
                raise Fault('order', 'a block is taken from something that is not the allocator of the trie')
            a = st.new_addr('blk', 64)
            st.heap[a.id] = Region(a.id, 'block', 'block', K(sp.block), {}, info={})
            st.gh['held'] = st.gh['held'] + 1
            return [(st, Lin.atom(a))]

        def free(I, st, args, ins):
            if st.num.norm(args[0]) != st.resolve(st.gh['alloc']):
                raise Fault('order', 'a block is given back to something that is not the allocator of the trie')
            b, o = st.base_of(st.num.norm(args[1]))
            r = st.heap.get(b)
            if r is None or r.kind != 'block' or o.const() != 0:
                raise Fault('free', 'what is given back to the allocator is not a block of it')
            if not r.alive:
                raise Fault('free', 'a block is given back to the allocator twice')
            q = r.copy()
            q.alive = False
            st.heap[b] = q
            st.gh['held'] = st.gh['held'] - 1
            return [(st, None)]
        R.I.intercept['tommy_allocator_alloc'] = alloc
        R.I.intercept['tommy_allocator_free'] = free
    return R


def elems(st, names, key, sp, heads=True):
    """A list of explicit elements of one key."""
    N = [new_node(st, x, key=K(key), pin=False) for x in names]
    head, tail, _ = link(st, N)
    st.gh['lists'] = st.gh['lists'] + ((K(key),) + tuple(A(n.id) for n in N),)
    return N, head


def build(R, sp, digits, L, leaf, cfg=None):
    """The state with L levels along the path of the key; leaf(st) gives what the slot at its end holds."""
    st = R.new_state()
    key = sp.key(digits)
    st.gh = {'K': K(key), 'lists': (), 'off': (), 'held': rsym('held', 64, 1 << 40)}
    offs = []
    link_ = leaf(st, offs)
    for i in range(L - 1, -1, -1):
        loc = sp.prefix(digits, i)
        on = sp.slot(digits, i)
        f = {}
        for j in range(sp.nmap):
            if j == on:
                v = link_
            elif cfg is not None and i == L - 1 and j in cfg:
                v = child(st, sp, loc + (j,), offs, kind=cfg[j])
            else:
                v = child(st, sp, loc + (j,), offs)
            f[sp.map0 + 8 * j] = (8, v)
        if sp.inplace:
            l = max(i, 1)
            d = list(digits)
            d[l] = (d[l] + (2 if i == 1 else 1)) % sp.nmap
            N, link_ = elems(st, ['p%d' % i] + (['q%d' % i] if i % 3 == 1 else []), sp.key(d), sp)
            r = st.heap[N[0].id]
            r.fields = dict(r.fields)
            r.fields.update(f)
        else:
            a = st.new_addr('blk', 64)
            st.heap[a.id] = Region(a.id, 'block', 'block', K(sp.block), f, info={})
            link_ = Lin.atom(a) + 1
    fields = {}
    o = sp.F['bucket'][0]
    for j in range(sp.nbucket):
        if j == digits[0]:
            fields[o + 8 * j] = (8, link_)
        else:
            a = st.new_addr('bucket', 8)
            st.preds[a.id] = Child(sp, (j,))
            offs.append(Lin.atom(a))
            fields[o + 8 * j] = (8, Lin.atom(a))
    cnt = rsym('count', 16, 1 << 40)
    fields[sp.F['count'][0]] = (8, cnt)
    st.gh['cnt'] = cnt
    if not sp.inplace:
        al = st.new_region('alloc', 'opaque', 64)
        st.gh['alloc'] = al.addr
        fields[sp.F['alloc'][0]] = (8, al.addr)
        fields[sp.F['node_count'][0]] = (8, st.gh['held'])
    t = var_region(st, 'trie', fields, sp.size)
    st.gh['trie'] = t.addr
    st.gh['off'] = tuple(offs)
    return st, t


class Found:
    def __init__(self):
        self.off, self.lists, self.blocks, self.nodes = [], {}, set(), set()


def key_of(s, sp, r):
    L = s.ctx.layouts['node']
    if L.key not in r.fields:
        raise Post('the key of a node is not set')
    k = s.num.norm(r.fields[L.key][1]).const()
    if k is None:
        raise Post('the key of a node is %r' % r.fields[L.key][1])
    return int(k)


def content(s, sp, v, loc, F, lazy=True):
    """Checks what hangs at loc and collects it; the kind of it."""
    v = s.num.norm(v)
    if v.const() == 0:
        return 'null'
    b, off = s.base_of(v)
    if b is None:
        raise Post('a slot of the trie holds %r' % v)
    p = s.preds.get(b)
    if p is not None:
        if off.const() != (1 if p.kind == 'tree' else 0):
            raise Post('a slot of the trie holds a wrong pointer')
        if p.kind == 'list':
            if loc != p.loc[:len(loc)]:
                raise Post('elements are in a place where their key is not looked for')
        elif loc != p.loc:
            raise Post('a part of the trie is moved to a place where its keys are not looked for')
        F.off.append(b)
        return p.kind
    r = s.heap.get(b)
    if r is None or not r.alive:
        raise Post('a slot of the trie holds a released block or a dangling pointer')
    if r.kind == 'block' and off.const() == 1:
        if b in F.blocks:
            raise Post('an inner node is in the trie twice')
        F.blocks.add(b)
        if len(loc) - 1 >= sp.levels:
            raise Post('an inner node is below the last level')
        kinds = []
        for j in range(sp.nmap):
            x = r.fields.get(sp.map0 + 8 * j)
            if x is None:
                raise Post('a slot of an inner node is not set')
            kinds.append((content(s, sp, x[1], loc + (j,), F), x[1]))
        ks = [k for k, _ in kinds]
        if 'tree' not in ks and ks.count('list') < 2:
            for k, x in kinds:
                if k == '?':
                    s.preds[s.base_of(s.num.norm(x))[0]].null_split(s, s.base_of(s.num.norm(x))[0])
            raise Useless('an inner node has %s' % ('one list only' if 'list' in ks else 'nothing below'))
        return 'tree'
    if r.kind != 'node' or off.const() != 0:
        raise Post('a slot of the trie holds %s' % r.name)
    items = walk(s, v)
    k = key_of(s, sp, items[0])
    if k in F.lists:
        raise Post('elements of one key are in two places')
    for x in items:
        if x.id in F.nodes:
            raise Post('an element is in the trie twice')
        F.nodes.add(x.id)
        if key_of(s, sp, x) != k:
            raise Post('elements of different keys are in one list')
    if k >> 32 or sp.prefix(sp.digits(k), len(loc) - 1) != tuple(loc):
        raise Post('elements are in a place where their key is not looked for')
    F.lists[k] = [x.id for x in items]
    if sp.inplace:
        for j in range(sp.nmap):
            x = r.fields.get(sp.map0 + 8 * j)
            if x is None:
                raise Post('a branch of a node is not set')
            content(s, sp, x[1], loc + (j,), F)
        return 'node'
    return 'list'


class Useless(Post):
    pass


def whole(C, s, sp, t, digits, change, dcnt, shape=True):
    """The trie after an operation. change(key, ids): the expected list of a key."""
    main = {'C13'} if sp.inplace else {'C11'}
    F = Found()
    fields = s.heap[t.id].fields
    o = sp.F['bucket'][0]
    try:
        for j in range(sp.nbucket):
            x = fields.get(o + 8 * j)
            if x is None:
                raise Post('a bucket is not set')
            content(s, sp, x[1], (j,), F)
    except Useless as e:
        C.fail('useful', str(e), {'C12'}, e.sure)
        return None
    except Post as e:
        C.fail('shape', str(e), main, e.sure)
        return None
    C.ok('shape', main)
    want = {}
    for l in s.gh['lists']:
        k = int(s.num.norm(l[0]).const())
        want[k] = [s.base_of(x)[0] for x in l[1:]]
    want = change(want)
    want = {k: v for k, v in want.items() if v}
    offs = sorted(s.base_of(x)[0] for x in s.gh['off'])
    C.require('rest', sorted(F.off) == offs, 'a part of the trie off the path of the key is lost or there twice', main)
    K0 = int(s.gh['K'].const())
    C.require('key', F.lists.get(K0) == want.get(K0), 'the list of the key is not the one expected', main)
    C.require('others', {k: v for k, v in F.lists.items() if k != K0} == {k: v for k, v in want.items() if k != K0}, 'the list of another key is lost or changed', main)
    C.eq(s, 'count', fields[sp.F['count'][0]][1], s.gh['cnt'] + dcnt, 'count', {'C05'})
    L = s.ctx.layouts['node']
    for r in s.heap.values():
        if r.kind == 'node' and r.alive and L.data in r.fields:
            C.require('data', same(s, r.fields[L.data][1], s.resolve(r.info['data'])), 'the data pointer of an element is not that given by the caller', main | {'C26'})
            C.require('node key', same(s, r.fields[L.key][1], s.resolve(r.info['key'])), 'the key of an element is not that given by the caller', main)
    if not sp.inplace:
        C.ok('useful', {'C12'})
        C.eq(s, 'inner nodes', fields[sp.F['node_count'][0]][1], s.gh['held'], 'number of inner nodes', {'C12', 'C24'})
        lost = [r for r in s.heap.values() if r.kind == 'block' and r.alive and r.id not in F.blocks]
        C.require('blocks', not lost, 'a block of the allocator is not in the trie any more and was not given back', {'C12', 'C17'})
        C.require('alloc kept', s.num.norm(fields[sp.F['alloc'][0]][1]) == s.resolve(s.gh['alloc']), 'the allocator of the trie is changed', {'C12'})
    return F


def lengths(sp):
    """How many explicit levels the path can have."""
    return range(sp.levels + 1) if sp.inplace else [0] + list(range(2, sp.levels + 1))


def configs(sp, digits, L, slot, few=False):
    """What else the deepest inner node on the path holds, so that it is useful; slot: what its slot on the path holds."""
    if sp.inplace or not L:
        return [None]
    on = sp.slot(digits, L - 1)
    others = [j for j in range(sp.nmap) if j != on]
    trees = [{j: 'tree'} for j in others] if L < sp.levels else []
    if slot == 'list':
        out = trees + [{j: 'list'} for j in others]
    elif slot == 'null':
        out = trees + [{j: 'list', others[(n + 1 + L) % len(others)]: 'list'} for n, j in enumerate(others)]
        out = [c for c in out if len(c) == 2 or 'tree' in c.values()]
    else:
        return [{}]
    if few:
        out = out[::3] + out[-1:]
    return out


def tags(sp):
    return {'C13', 'C05', 'C18', 'C26'} if sp.inplace else {'C11', 'C12', 'C05', 'C17', 'C18', 'C26'}


def maps_of(st, sp, r, loc, offs, zero=False):
    """The branches of an explicit inplace node."""
    if not sp.inplace:
        return
    q = st.heap[r.id]
    q.fields = dict(q.fields)
    for j in range(sp.nmap):
        q.fields[sp.map0 + 8 * j] = (8, ZERO if zero else child(st, sp, loc + (j,), offs))


def patterns():
    """Key patterns: three, more of them in the thorough tier."""
    return range(8) if harness.THOROUGH else range(3)


def run_insert(m, inplace):
    try:
        sp = Spec(m, inplace)
    except Undecided:
        return []
    fn = 'tommy_%s_insert' % sp.kind
    R = new_run(m, fn, tags(sp), sp)
    for p in patterns():
        digits = sp.pattern(p)
        key = sp.key(digits)
        for L in lengths(sp):
            def case(leaf, cfg, label):
                st, t = build(R, sp, digits, L, leaf, cfg)
                n = new_node(st, 'n', init=False, key=K(key))
                st.gh['n'] = n.addr

                def change(w, n=n):
                    w = dict(w)
                    w[key] = w.get(key, []) + [n.id]
                    return w

                def post(C, s, ret, t=t):
                    whole(C, s, sp, t, digits, change, 1)
                R.exec(st, fn, [t.addr, n.addr, n.info['data'], K(key)], post, '%s %x %d %s' % (fn, key, L, label), canon=False)
            for c in configs(sp, digits, L, 'null', p > 0):
                case(lambda st, offs: ZERO, c, 'null')
            for names in (['e'], ['e', 'f'], ['e', 'f', 'g']):
                for c in configs(sp, digits, L, 'list', True):
                    def leaf(st, offs, names=names):
                        N, h = elems(st, names, key, sp)
                        maps_of(st, sp, N[0], sp.prefix(digits, L), offs)
                        return h
                    case(leaf, c, 'list')
            if not inplace:
                for M in range(max(L, 1), sp.levels):
                    for delta in (1, sp.nmap // 2):
                        d = list(digits)
                        d[M] = (d[M] + delta) % sp.nmap
                        if M + 1 < sp.levels and delta == 1:
                            d[M + 1] = (d[M + 1] + 1) % sp.nmap
                        names = ['e'] if delta == 1 else ['e', 'f']
                        for c in configs(sp, digits, L, 'list', True)[:2]:
                            case(lambda st, offs, d=d, names=names: elems(st, names, sp.key(d), sp)[1], c, 'other %d' % M)
    return [R]


def run_remove(m, inplace):
    try:
        sp = Spec(m, inplace)
    except Undecided:
        return []
    out = []
    for fn in ('tommy_%s_remove' % sp.kind, 'tommy_%s_remove_existing' % sp.kind):
        ex = 'existing' in fn
        R = new_run(m, fn, tags(sp), sp)
        out.append(R)
        for p in patterns():
            digits = sp.pattern(p)
            key = sp.key(digits)
            for L in lengths(sp):
                def case(leaf, cfg, label, who):
                    st, t = build(R, sp, digits, L, leaf, cfg)
                    r = next((x for x in st.heap.values() if x.kind == 'node' and x.name == who), None)
                    rid = r.id if r is not None else None
                    st.gh['r'] = r.addr if r is not None else ZERO

                    def change(w, rid=rid):
                        return {k: [x for x in v if x != rid] for k, v in w.items()}

                    def post(C, s, ret, t=t, r=r):
                        main = {'C13'} if sp.inplace else {'C11'}
                        C.eq(s, 'returned', ret, s.resolve(r.info['data']) if r is not None else ZERO, 'what is returned', main)
                        whole(C, s, sp, t, digits, change, -1 if r is not None else 0)
                    R.exec(st, fn, [t.addr, st.gh['r'] if ex else K(key)], post, '%s %x %d %s' % (fn, key, L, label), canon=False)
                if not ex:
                    for c in configs(sp, digits, L, 'null', True)[:3]:
                        case(lambda st, offs: ZERO, c, 'null', None)
                for names in (['r'], ['r', 'e'], ['e', 'r'], ['r', 'e', 'f'], ['e', 'r', 'f'], ['e', 'f', 'r']):
                    if not ex and names[0] != 'r':
                        continue
                    for c in configs(sp, digits, L, 'list', len(names) > 1 or p > 1):
                        def leaf(st, offs, names=names):
                            N, h = elems(st, names, key, sp)
                            maps_of(st, sp, N[0], sp.prefix(digits, L), offs)
                            return h
                        case(leaf, c, 'list %s' % ''.join(names), 'r')
                if not inplace and not ex and L < sp.levels:
                    for M in range(max(L, 1), sp.levels):
                        d = list(digits)
                        d[M] = (d[M] + 1) % sp.nmap
                        for c in configs(sp, digits, L, 'list', True)[:1]:
                            case(lambda st, offs, d=d: elems(st, ['e'], sp.key(d), sp)[1], c, 'other %d' % M, None)
    return out


def run_search(m, inplace):
    try:
        sp = Spec(m, inplace)
    except Undecided:
        return []
    out = []
    for fn in ('tommy_%s_bucket' % sp.kind, 'tommy_%s_search' % sp.kind):
        if fn not in m.funcs:
            continue
        R = new_run(m, fn, {'C13' if inplace else 'C11', 'C18', 'C26'}, sp)
        out.append(R)
        for p in patterns():
            digits = sp.pattern(p)
            key = sp.key(digits)
            for L in lengths(sp):
                def case(leaf, cfg, label, there):
                    st, t = build(R, sp, digits, L, leaf, cfg)

                    def post(C, s, ret, t=t):
                        main = {'C13'} if sp.inplace else {'C11'}
                        want = ZERO
                        if there:
                            l = next(l for l in s.gh['lists'] if l[0] == s.gh['K'])
                            want = l[1] if fn.endswith('bucket') else s.resolve(s.heap[s.base_of(l[1])[0]].info['data'])
                        C.eq(s, 'result', ret, want, 'what is returned', main)
                        whole(C, s, sp, t, digits, lambda w: w, 0)
                    R.exec(st, fn, [t.addr, K(key)], post, '%s %x %d %s' % (fn, key, L, label), canon=False)
                c0 = configs(sp, digits, L, 'null')[0]
                case(lambda st, offs: ZERO, c0, 'null', False)
                c1 = configs(sp, digits, L, 'list')[0]

                def leaf(st, offs):
                    N, h = elems(st, ['e', 'f'], key, sp)
                    maps_of(st, sp, N[0], sp.prefix(digits, L), offs)
                    return h
                case(leaf, c1, 'list', True)
                if not inplace and L < sp.levels:
                    for M in range(max(L, 1), sp.levels):
                        d = list(digits)
                        d[M] = (d[M] + 1) % sp.nmap
                        case(lambda st, offs, d=d: elems(st, ['e'], sp.key(d), sp)[1], c1, 'other %d' % M, False)
    return out


def run_life(m, inplace):
    try:
        sp = Spec(m, inplace)
    except Undecided:
        return []
    R = new_run(m, sp.kind + ' life', {'C05', 'C11', 'C12', 'C13', 'C18', 'C24'}, sp)
    main = {'C13'} if inplace else {'C11', 'C12'}
    st = R.new_state()
    t = var_region(st, 'trie', {}, sp.size)
    al = st.new_region('alloc', 'opaque', 64)
    st.gh = {'trie': t.addr, 'alloc': al.addr, 'held': ZERO, 'off': (), 'lists': ()}

    def post(C, s, ret):
        f = s.heap[t.id].fields
        z = lambda o: o in f and s.num.norm(f[o][1]).const() == 0
        C.require('buckets', all(z(sp.F['bucket'][0] + 8 * j) for j in range(sp.nbucket)), 'a bucket is not empty after init', main - {'C12'})
        C.require('count', z(sp.F['count'][0]), 'count is not 0 after init', {'C05'})
        if not inplace:
            C.require('node count', z(sp.F['node_count'][0]), 'the number of inner nodes is not 0 after init', {'C12', 'C24'})
            C.require('alloc', sp.F['alloc'][0] in f and s.num.norm(f[sp.F['alloc'][0]][1]) == s.resolve(s.gh['alloc']), 'the allocator is not kept', {'C12'})
    R.ctx.unroll = max(48, sp.nbucket + 1)
    R.exec(st, 'tommy_%s_init' % sp.kind, [t.addr] + ([] if inplace else [al.addr]), post, 'init', canon=False)
    for q in ('count', 'memory_usage'):
        fn = 'tommy_%s_%s' % (sp.kind, q)
        if fn not in m.funcs:
            continue
        st = R.new_state()
        cnt, nc = rsym('count', 0, 1 << 40), rsym('nc', 0, 1 << 40)
        f = {sp.F['count'][0]: (8, cnt)}
        if not inplace:
            f[sp.F['node_count'][0]] = (8, nc)
        t2 = var_region(st, 'trie', f, sp.size)
        st.gh = {'trie': t2.addr, 'cnt': cnt, 'nc': nc, 'off': (), 'lists': (), 'held': ZERO}
        L = R.ctx.layouts['node']

        def post2(C, s, ret, q=q):
            if q == 'count':
                C.eq(s, 'count', ret, s.gh['cnt'], 'count', {'C05'})
            else:
                C.eq(s, 'usage', ret, s.gh['cnt'] * L.size + (ZERO if inplace else s.gh['nc'] * sp.block), 'memory usage', {'C24'})
        R.exec(st, fn, [t2.addr], post2, fn, canon=False)
    return [R]
