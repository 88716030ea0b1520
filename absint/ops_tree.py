"""The AVL tree. A subtree that is not looked into is one predicate: its height, the open interval of comparison ranks that holds its
elements, and the explicit nodes known to be inside. The recursive helpers are verified against a contract, assuming it for the calls on
smaller subtrees; the same functions are also followed without contracts in trees of a small height, where only violations count."""
from harness import *
import ops_hash
from ops_hash import fnptr

TP = {'C08', 'C09', 'C10', 'C04', 'C05', 'C17', 'C18', 'C26'}
A = lambda i: Lin.atom(Atom.byid[i])
RMAX = 1 << 60


def rank(name):
    return rsym('rk_' + name, 1, RMAX)


class Sub:
    """A subtree: height h, ranks in the open interval (lo, hi), explicit members; h >= 1, or with maybe h >= 0 and a null link for 0."""

    def __init__(self, h, lo, hi, mem=(), maybe=False):
        self.h, self.lo, self.hi, self.mem, self.maybe = h, lo, hi, tuple(mem), maybe

    def map(self, f, ren):
        return Sub(f(self.h), f(self.lo), f(self.hi), [f(x) for x in self.mem], self.maybe)

    def lins(self):
        return [self.h, self.lo, self.hi] + list(self.mem)

    def match(self, M, o):
        raise Undecided('trees in a loop')

    def __repr__(self):
        return 'tree(h=%r in (%r,%r) with %r)%s' % (self.h, self.lo, self.hi, self.mem, '?' if self.maybe else '')

    def null_split(self, st, b):
        """The link is compared with null or followed: is the subtree empty?"""
        if not self.maybe:
            return
        if st.num.ge(self.h - 1):
            st.preds[b] = Sub(self.h, self.lo, self.hi, self.mem)
            return

        def empty(s):
            p = s.preds[b]
            if not s.assume_eq(p.h):
                return False
            del s.preds[b]
            replace_exp(s, A(b), ())
            s.subst({b: ZERO})
            return not s.num.bot

        def full(s):
            p = s.preds[b]
            s.preds[b] = Sub(p.h, p.lo, p.hi, p.mem)
            return s.assume_ge(p.h - 1)
        raise NeedSplit([empty, full], 'empty subtree')

    def peek(self, st, b, off, size):
        """The height of a subtree, without looking into it."""
        L = st.ctx.layouts['node']
        if off.const() == L.key and size == L.ptr:
            self.null_split(st, b)
            return self.h
        return None

    def unfold(self, st, b):
        self.null_split(st, b)
        alts = []
        hc = st.num.norm(self.h).const()
        for dl, dr in ((1, 1), (1, 2), (2, 1)):
            if hc is not None and (hc < dl or hc < dr):
                continue
            cases = [[]]
            for m in self.mem:
                cases = [c + [x] for c in cases for x in ([0] if 0 not in c else []) + [-1, 1]]
            for c in cases:
                alts.append(lambda s, dl=dl, dr=dr, c=c: unfold_case(s, b, dl, dr, c))
        raise NeedSplit(alts, 'tree node')


class Stale:
    """An address inside a subtree that was changed as a whole: what it holds is not known."""

    def __init__(self, msg='the node of a subtree after a change of the subtree', fault=False):
        self.msg, self.bad = msg, fault

    def map(self, f, ren):
        return self

    def lins(self):
        return []

    def match(self, M, o):
        raise Undecided('trees in a loop')

    def unfold(self, st, b):
        if self.bad:
            raise Fault('uaf', self.msg)
        raise Undecided(self.msg)


def unfold_case(s, b, dl, dr, c):
    p = s.preds.get(b)
    if not isinstance(p, Sub):
        return False
    for d, k in ((dl, -1), (dr, 1)):
        if not s.assume_ge(p.h - d - (1 if k in c else 0)):
            return False
    p = s.preds[b]
    L = s.ctx.layouts['node']
    me = [s.heap[s.base_of(m)[0]] for m, x in zip(p.mem, c) if x == 0]
    r = s.resolve(me[0].info['rank']) if me else rank('n')
    if not me and not (s.assume_ge(r - p.lo - 1) and s.assume_ge(p.hi - r - 1)):
        return False
    kids = []
    exp = []
    for k in (-1, 1):
        hk = s.num.norm(p.h - (dl if k < 0 else dr))
        if hk.const() == 0 or s.num.ge(-hk):
            kids.append(ZERO)
            continue
        mem = [m for m, y in zip(p.mem, c) if y == k]
        for m in mem:
            q = s.resolve(s.heap[s.base_of(m)[0]].info['rank'])
            if not (s.assume_ge(r - q - 1) if k < 0 else s.assume_ge(q - r - 1)):
                return False
        a = s.new_addr('t', 8)
        s.preds[a.id] = Sub(hk, p.lo if k < 0 else r, r if k < 0 else p.hi, mem, not mem and not s.num.ge(hk - 1))
        kids.append(Lin.atom(a))
    del s.preds[b]
    f = {L.prev: (L.ptr, kids[0]), L.next: (L.ptr, kids[1]), L.key: (L.ptr, p.h)}
    if me:
        n = me[0].copy()
        n.fields = dict(n.fields)
        n.fields.update(f)
        n.info = dict(n.info, inside=0)
        s.heap[n.id] = n
        nid = n.id
        exp_self = [] if n.info.get('new') else [A(b)]
        s.subst({b: A(nid)})
    else:
        d = rsym('data', bits=s.ctx.W)
        f[L.data] = (L.ptr, d)
        s.heap[b] = Region(b, 'node', 'node', K(L.size), f, info={'lay': 'node', 'data': d, 'key': ZERO, 'rank': r, 'tags': frozenset()})
        nid = b
    new = tuple(x for x in (kids[0], None if me and s.heap[nid].info.get('new') else A(nid), kids[1]) if x is not None and x.const() != 0)
    replace_exp(s, A(nid if me else b), new)
    return not s.num.bot


def replace_exp(s, old, new):
    for k in ('exp', 'done'):
        e = s.gh.get(k)
        if e is None:
            continue
        out = []
        for x in e:
            if x == old:
                out += new
            else:
                out.append(x)
        s.gh[k] = tuple(out)


def flatten(st, v, props=None, what='the tree'):
    """(height, items in order) of the tree at v; raises Post when it is not a tree."""
    L = st.ctx.layouts['node']
    seen = set()

    def go(v):
        v = st.num.norm(v)
        if v.const() == 0:
            return ZERO, []
        b, o = st.base_of(v)
        if b is None or o.const() != 0:
            raise Post('a link of %s holds %r' % (what, v), not lossy(v))
        if b in seen:
            raise Post('%s holds a node twice' % what)
        seen.add(b)
        p = st.preds.get(b)
        if isinstance(p, Sub):
            for m in p.mem:
                seen.add(st.base_of(m)[0])
            return p.h, [b]
        if p is not None:
            raise Undecided(p.msg)
        r = st.heap.get(b)
        if r is None or not r.alive:
            raise Post('%s holds a released node or a dangling link' % what)
        if r.kind != 'node':
            raise Post('%s holds %s' % (what, r.name))
        if r.info.get('inside'):
            raise Post('%s holds a node twice' % what)
        for x, nm in ((L.prev, 'prev'), (L.next, 'next'), (L.key, 'index'), (L.data, 'data')):
            if x not in r.fields:
                raise Post('%s of a node in %s is not set' % (nm, what))
        hl, sl = go(r.fields[L.prev][1])
        hr, sr = go(r.fields[L.next][1])
        for x in (hl - hr, hr - hl):
            if not st.decide(1 - x, 'balance'):
                raise Bad('C09', 'a node has subtrees of heights %r and %r' % (hl, hr))
        h = (hl if st.decide(hl - hr, 'taller') else hr) + 1
        ix = r.fields[L.key][1]
        d = st.num.norm(ix - h)
        if not st.decide_eq(d, 'index'):
            raise Bad('C09', 'the height kept in a node is %r and not %r' % (st.num.norm(ix), h), not lossy(d))
        return h, sl + [b] + sr
    h, seq = go(v)
    in_order(st, seq, what)
    return h, seq


def in_order(st, seq, what):
    last = None
    for b in seq:
        p = st.preds.get(b)
        lo, hi = (p.lo, p.hi) if p is not None else (None, None)
        r = None if p is not None else st.resolve(st.heap[b].info['rank']) if 'rank' in st.heap[b].info else None
        if p is None and r is None:
            raise Post('%s holds a node that was never inserted' % what)
        if last is not None:
            k, x = last
            if p is None:
                ok = st.decide(r - x - (1 if k == 'node' else 0), 'order')
            else:
                ok = st.decide(lo - x, 'order')
            if not ok:
                raise Bad('C08', 'the nodes of %s are not in the order of the comparison' % what)
        last = ('node', r) if p is None else ('sub', hi)


class Bad(Post):
    def __init__(self, prop, msg, sure=True):
        Post.__init__(self, msg, sure)
        self.prop = prop


def compare(R, st):
    """The comparison function of the tree: the sign of the difference of the ranks."""
    def h(I, s, args, ins):
        x, y = s.num.norm(args[0]), s.num.norm(args[1])
        if s.gh.get('arg') is not None and x != s.resolve(s.gh['arg']):
            raise Fault('callback', 'the comparison is not given the argument of the caller first')
        ra, rb = of_data(s, x), of_data(s, y)
        if ra is None or rb is None:
            raise Fault('callback', 'the comparison is called with something that is not the data of an element')
        d = ra - rb
        if s.decide_eq(d, 'cmp'):
            return [(s, ZERO)]
        c = rsym('c', 1, (1 << 31) - 1)
        if s.decide(d, 'cmp'):
            return [(s, c)]
        return [(s, (1 << 32) - c)]
    return fnptr(R, st, 'cmp', h)


def of_data(s, d):
    if s.gh.get('key') is not None and d == s.resolve(s.gh['key']):
        return s.resolve(s.gh['X'])
    for r in s.heap.values():
        if 'rank' in r.info and s.resolve(r.info['data']) == d:
            return s.resolve(r.info['rank'])
    return None


def absorb(s, rid):
    """The structure fields of a node that went into a subtree as a whole are not known any more."""
    L = s.ctx.layouts['node']
    r = s.heap[rid].copy()
    r.fields = dict(r.fields)
    for o in (L.prev, L.next, L.key):
        r.fields[o] = (L.ptr, rsym('any', bits=s.ctx.W))
    r.info = dict(r.info, inside=1)
    s.heap[rid] = r


def new_member(s, name, X):
    """An explicit element of a subtree, of rank X."""
    L = s.ctx.layouts['node']
    d = rsym('data_' + name, bits=s.ctx.W)
    a = s.new_addr(name, 8)
    s.heap[a.id] = Region(a.id, name, 'node', K(L.size), {L.data: (L.ptr, d)}, info={'lay': 'node', 'data': d, 'key': ZERO, 'rank': X, 'tags': frozenset(), 'inside': 1})
    absorb(s, a.id)
    return Lin.atom(a)


def inside_of(s, p, X):
    """Does X belong to the interval of p? Decided on each path."""
    return s.decide(X - p.lo - 1, 'interval') and s.decide(p.hi - X - 1, 'interval')


def depth(st, name):
    return sum(1 for fr in st.frames if fr.fn.name == name)


def sub_of(st, v):
    v = st.num.norm(v)
    b, o = st.base_of(v)
    if b is None or o.const() != 0:
        return None, None
    p = st.preds.get(b)
    if isinstance(p, Sub):
        p.null_split(st, b)
        p = st.preds[b]
    return (b, p) if isinstance(p, Sub) else (b, None)


def renew(s, b, h, mem):
    """Subtree b changed as a whole."""
    return merge(s, [b], h, mem, s.preds[b].lo, s.preds[b].hi)


def merge(s, seq, h, mem, lo, hi):
    """The items of seq become one subtree."""
    X = s.gh.get('X')
    tried = X is not None and all(has_rank(s, [b], s.resolve(X)) is None for b in seq)
    a = s.new_addr('t', 8)
    s.preds[a.id] = Sub(h, lo, hi, mem)
    new = (Lin.atom(a),)
    for b in seq:
        e = s.gh.get('exp')
        if A(b) in e:
            replace_exp(s, A(b), new)
            new = ()
        if b in s.preds:
            s.preds[b] = Stale()
        else:
            absorb(s, b)
    if tried:
        s.gh['tried'] = s.gh.get('tried', ()) + (Lin.atom(a),)
    return Lin.atom(a)


def members(s, seq):
    """The explicit nodes of seq to be remembered when it becomes one subtree."""
    out = []
    X = s.gh.get('X')
    for b in seq:
        p = s.preds.get(b)
        if p is not None:
            out += p.mem
        elif s.heap[b].info.get('new') or X is not None and s.num.eq0(s.resolve(s.heap[b].info['rank']) - s.resolve(X)):
            out.append(A(b))
    return out


def span(s, seq):
    p, q = s.preds.get(seq[0]), s.preds.get(seq[-1])
    lo = p.lo if p is not None else s.resolve(s.heap[seq[0]].info['rank']) - 1
    hi = q.hi if q is not None else s.resolve(s.heap[seq[-1]].info['rank']) + 1
    return lo, hi


def put(I, st, ins, key, msg, props):
    I.sink.put((key, I.where(ins)), None if st.lossy else False, I.where(ins), msg, props)


class Contracts:
    """Contracts of the recursive helpers; `first` = names whose outermost call is analysed."""

    def __init__(self, R, names, first=()):
        self.R, self.first = R, set(first)
        for role, n in names.items():
            f = R.m.funcs.get(n)
            want = {'insert': 3, 'remove': 4, 'search': 3, 'foreach': 2, 'foreach_arg': 3, 'move': 2, 'balance': 1}[role]
            if f is None or len(f.params) != want:
                continue
            R.I.intercept[n] = lambda I, st, args, ins, role=role, n=n: self.apply(role, n, I, st, args, ins)

    def apply(self, role, n, I, st, args, ins):
        if n in self.first and depth(st, n) == 0:
            return None
        return getattr(self, 'c_' + role)(I, st, args, ins)

    def c_insert(self, I, st, args, ins):
        b, p = sub_of(st, args[1])
        if p is None:
            return None
        if I.W and st.gh.get('n') is None:
            return None
        n = I.load(st, args[2], I.ctx.P)
        nb, o = st.base_of(n)
        N = st.resolve(st.gh['n'])
        if st.num.norm(n) != N:
            raise Undecided('insertion of another node')
        X = st.resolve(st.heap[nb].info['rank'])
        h, seq = flatten(st, n, what='the new node')
        if seq != [nb]:
            raise Undecided('insertion of several nodes')
        if not inside_of(st, p, X):
            raise Fault('order', 'a node is inserted in a subtree where its place is not')
        out = []
        for k in (0, 1):
            s = st.copy()
            v = renew(s, b, p.h + k, p.mem + (N,))
            absorb(s, nb)
            out.append((s, v))
        s = st.copy()
        e = new_member(s, 'e', X)
        s.preds[b] = Sub(p.h, p.lo, p.hi, p.mem + (e,))
        s.gh['eq'] = e
        s.store(args[2], e, I.ctx.P)
        out.append((s, A(b)))
        return out

    def c_remove(self, I, st, args, ins):
        b, p = sub_of(st, args[1])
        if p is None:
            return None
        X = st.resolve(st.gh['X'])
        if of_data(st, st.num.norm(args[2])) is None or not st.num.eq0(of_data(st, st.num.norm(args[2])) - X):
            raise Undecided('removal of something else')
        out = []
        for m in p.mem:
            if st.num.eq0(st.resolve(st.heap[st.base_of(m)[0]].info['rank']) - X):
                self.taken(I, st, b, args[3], m, tuple(x for x in p.mem if x != m), out)
                return out
        s = st.copy()
        s.gh['tried'] = s.gh.get('tried', ()) + (A(b),)
        out.append((s, A(b)))                   # not there
        if not st.num.ge(p.lo - X) and not st.num.ge(X - p.hi):
            s = st.copy()
            if s.assume_ge(X - p.lo - 1) and s.assume_ge(p.hi - X - 1) and s.num.feasible():
                self.taken(I, s, b, args[3], new_member(s, 'r', X), p.mem, out)
        return out

    def taken(self, I, s, b, let, r, mem, out):
        s.gh['gone'] = r
        s.store(let, r, I.ctx.P)
        p = s.preds[b]
        if not mem:
            s1 = s.copy()
            if s1.assume_eq(p.h - 1):
                s1.preds[b] = Stale('the node of a subtree that is gone')
                replace_exp(s1, A(b), ())
                out.append((s1, ZERO))
        H = hsym()
        if s.assume_ge(H - p.h + 1):
            s.gh['tried'] = s.gh.get('tried', ()) + (A(b),)
            out.append((s, renew(s, b, s.num.norm(H), mem)))

    def c_search(self, I, st, args, ins):
        b, p = sub_of(st, args[1])
        if p is None:
            return None
        X = st.resolve(st.gh['X'])
        out = []
        for m in p.mem:
            if st.num.eq0(st.resolve(st.heap[st.base_of(m)[0]].info['rank']) - X):
                return [(st, m)]
        s = st.copy()
        s.gh['tried'] = s.gh.get('tried', ()) + (A(b),)
        out.append((s, ZERO))
        if not st.num.ge(p.lo - X) and not st.num.ge(X - p.hi):
            s = st.copy()
            if s.assume_ge(X - p.lo - 1) and s.assume_ge(p.hi - X - 1) and s.num.feasible():
                e = new_member(s, 'e', X)
                s.preds[b] = Sub(p.h, p.lo, p.hi, p.mem + (e,))
                s.gh['eq'] = e
                out.append((s, e))
        return out

    def c_foreach(self, I, st, args, ins):
        b, p = sub_of(st, args[0])
        if p is None:
            return None
        if st.num.norm(args[1]) != st.resolve(st.gh['func']) or len(args) > 2 and st.num.norm(args[2]) != st.resolve(st.gh['farg']):
            raise Fault('callback', 'the callback or its argument is not that of the caller')
        s = st
        s.gh['done'] = s.gh['done'] + (A(b),)
        s.preds[b] = Stale('a node is used after the callback was called for it', True)
        s.gh['subs'] = s.gh['subs'] + (A(b),)
        return [(s, None)]

    c_foreach_arg = c_foreach

    def c_move(self, I, st, args, ins):
        a, b = st.num.norm(args[0]), st.num.norm(args[1])
        ia, p = sub_of(st, a)
        if p is None:
            return None
        if b.const() == 0:
            ib = q = None
        else:
            ib, q = sub_of(st, b)
            if q is None:
                return None
            if not st.decide(q.lo - p.hi, 'order'):
                raise Fault('order', 'two subtrees are put together in the wrong order')
        H = hsym()
        s = st
        if not s.assume_ge(H - p.h) or q is not None and not s.assume_ge(H - q.h):
            return []
        p, q = s.preds[ia], s.preds.get(ib)
        v = merge(s, [ia] + ([ib] if q else []), s.num.norm(H), p.mem + (q.mem if q else ()), p.lo, q.hi if q else p.hi)
        return [(s, v)]

    def c_balance(self, I, st, args, ins):
        b, o = st.base_of(st.num.norm(args[0]))
        r = st.heap.get(b)
        L = I.ctx.layouts['node']
        if r is None or r.kind != 'node' or not r.alive or r.info.get('inside') or not all(x in r.fields for x in (L.prev, L.next)) or 'rank' not in r.info:
            return None
        try:
            hl, sl = flatten(st, r.fields[L.prev][1])
            hr, sr = flatten(st, r.fields[L.next][1])
        except Post:
            return None
        if not st.decide(hl - hr - 3, 'far') and not st.decide(hr - hl - 3, 'far'):
            return None
        seq = sl + [b] + sr
        try:
            in_order(st, seq, 'the tree')
        except Post:
            return None
        m = hl if st.decide(hl - hr, 'taller') else hr
        lo, hi = span(st, seq)
        H = hsym()
        if not (st.assume_ge(H - m) and st.assume_ge(m + 1 - H)):
            return []
        return [(st, merge(st, seq, st.num.norm(H), members(st, seq), lo, hi))]


NAMES = {'insert': 'tommy_tree_insert_node', 'remove': 'tommy_tree_remove_node', 'search': 'tommy_tree_search_node',
         'foreach': 'tommy_tree_foreach_node', 'foreach_arg': 'tommy_tree_foreach_arg_node', 'move': 'tommy_tree_move_right', 'balance': 'tommy_tree_balance'}


def new_run(m, name, props, bounded=False):
    R = Run(m, name, props)
    c = R.ctx
    c.all_props = set(props)
    c.maxdepth = 40
    c.maxsteps = 5000000
    c.fault_props = lambda kind: {'C08'} & set(props) or set(props) if kind == 'order' else {'C26'} if kind == 'callback' else {'C18', 'C08'} & set(props) or set(props)
    c.mem_props = {'C18'}
    c.cb_props = {'C26'}
    if bounded:
        c.unroll = 12
    return R


def finish(R, bounded):
    """Bounded runs count only for what is wrong in them."""
    return R


def only_bad(R):
    R.only_bad = True
    return R


def tree(st, h, name='T', lo=None, hi=None):
    a = st.new_addr(name, 8)
    lo = lo if lo is not None else ZERO
    hi = hi if hi is not None else K(RMAX + 1)
    st.preds[a.id] = Sub(h, lo, hi)
    return Lin.atom(a)


def hsym(n=69):
    return rsym('h', 1, n)


def new_n(st, name, X, init):
    """The node given by the caller."""
    L = st.ctx.layouts['node']
    n = new_node(st, name, init=False)
    r = st.heap[n.id]
    r.info['rank'] = X
    r.info['new'] = 1
    if init:
        r.fields = {L.prev: (L.ptr, ZERO), L.next: (L.ptr, ZERO), L.key: (L.ptr, ONE), L.data: (L.ptr, r.info['data'])}
    return r


def check(C, f):
    """Run a post condition whose failures name their property."""
    try:
        return f()
    except Bad as e:
        C.fail('tree', str(e), {e.prop}, e.sure)
    except Post as e:
        C.fail('tree', str(e), {'C08'}, e.sure)
    return None


def same_items(C, s, seq, want, what, props):
    got = [x for x in seq]
    exp = [s.base_of(x)[0] for x in want]
    if got == exp:
        C.ok(what, props)
        return True
    lost = [x for x in exp if x not in got]
    more = [x for x in got if x not in exp]
    return C.require(what, False, '%s%s' % ('an element is lost' if lost else '', ' an element is there that should not' if more else '') if lost or more else 'the elements are in another order', props)


def height_in(C, s, h, lo, hi, what):
    """The height of the result is in the interval the contract promises (used by the calls above)."""
    n = s.num
    C.require(what, n.ge(h - lo) and (hi is None or n.ge(hi - h)) or not n.feasible(), 'the height of the result is %r, and not between %r and %r' % (n.norm(h), lo, hi), {'C09'}, False)


def post_insert(C, s, root, ret_let, hrange=None):
    """ret_let: address of the node said to be the stored one."""
    N = s.resolve(s.gh['n'])
    nb = s.base_of(N)[0]
    X = s.resolve(s.gh['X'])
    r = check(C, lambda: flatten(s, root))
    if r is None:
        return None
    h, seq = r
    C.ok('balanced', {'C09'})
    C.ok('ordered', {'C08', 'C10'})
    exp = s.gh['exp']
    n_in = nb in seq or any(isinstance(s.preds.get(b), Sub) and N in [s.num.norm(m) for m in s.preds[b].mem] for b in seq)
    same_items(C, s, [b for b in seq if b != nb], exp, 'other elements', {'C08'})
    if hrange:
        height_in(C, s, h, hrange[0], hrange[1], 'height')
    return h, seq, n_in


def has_rank(s, seq, X):
    """A node of rank X in the sequence; '?' when there may be one in a subtree that was not searched."""
    tried = [s.num.norm(x) for x in s.gh.get('tried', ())]
    for b in seq:
        p = s.preds.get(b)
        if p is None:
            if s.num.eq0(s.resolve(s.heap[b].info['rank']) - X):
                return b
        else:
            for m in p.mem:
                if s.num.eq0(s.resolve(s.heap[s.base_of(m)[0]].info['rank']) - X):
                    return s.base_of(m)[0]
    for b in seq:
        p = s.preds.get(b)
        if isinstance(p, Sub) and A(b) not in tried and not (s.num.ge(p.lo - X) or s.num.ge(X - p.hi)):
            return '?'
    return None


def run_insert_node(m, bounded=False, H=(1, 2, 3)):
    fn = NAMES['insert']
    if fn not in m.funcs:
        return []
    R = new_run(m, fn, {'C08', 'C09', 'C18', 'C26'})
    Contracts(R, NAMES, [fn])
    for sh in ('null', 'tree'):
        st = R.new_state()
        X = rank('X')
        n = new_n(st, 'n', X, True)
        h = hsym()
        root = tree(st, h) if sh == 'tree' else ZERO
        let = st.new_region('let', 'local', K(R.ctx.P))
        let.fields = {0: (R.ctx.P, n.addr)}
        st.gh = {'n': n.addr, 'X': X, 'exp': (root,) if sh == 'tree' else (), 'let': let.addr, 'h': h if sh == 'tree' else ZERO}
        cmp = compare(R, st)
        st.gh['cmp'] = cmp

        def post(C, s, ret, let=let):
            v = s.num.norm(s.heap[let.id].fields[0][1])
            h0 = s.gh['h']
            r = post_insert(C, s, ret, v, None)
            if r is None:
                return
            h, seq, n_in = r
            if v == s.resolve(s.gh['n']):
                C.require('inserted', n_in, 'the new node is not in the tree', {'C08'})
                height_in(C, s, h, h0, h0 + 1, 'height')
            else:
                b = s.base_of(v)[0]
                C.require('equal', b is not None and b in s.heap and 'rank' in s.heap[b].info and s.num.eq0(s.resolve(s.heap[b].info['rank']) - s.gh['X']), 'the element said to be equal is not', {'C08'})
                C.require('not inserted', not n_in, 'the new node is in the tree next to an equal one', {'C08'})
                height_in(C, s, h, h0, h0, 'height')
        R.exec(st, fn, [cmp, root, let.addr], post, '%s %s' % (fn, sh), canon=False)
    return [R]


def api_state(R, h, sh):
    st = R.new_state()
    root = tree(st, h) if sh else ZERO
    cmp = compare(R, st)
    F = R.m.struct_fields('tommy_tree_struct')
    cnt = rsym('count', 1, None) if sh else ZERO
    P = R.ctx.P
    if sh:
        st.num.add((1 << 48) - cnt)
    t = var_region(st, 'tree', {F['root'][0]: (P, root), F['count'][0]: (P, cnt), F['cmp'][0]: (P, cmp)}, F['__size__'][0])
    st.gh = {'tree': t.addr, 'cmp': cmp, 'exp': (root,) if sh else (), 'cnt': cnt, 'root': root}
    return st, t, F


def count_is(C, s, t, F, want, props={'C05'}):
    C.eq(s, 'count', s.heap[t.id].fields[F['count'][0]][1], want, 'element count', props)
    C.require('cmp kept', s.num.norm(s.heap[t.id].fields[F['cmp'][0]][1]) == s.gh['cmp'], 'the comparison function is changed', {'C08'})


def shapes_of(bounded):
    return [None] + (list(bounded) if bounded else ['h'])


def run_insert(m, bounded=()):
    fn = 'tommy_tree_insert'
    R = new_run(m, fn + (' small' if bounded else ''), {'C05', 'C08', 'C09', 'C18', 'C26'}, bool(bounded))
    R.only_bad = bool(bounded)
    if not bounded:
        Contracts(R, NAMES)
    L = R.ctx.layouts['node']
    for sh in shapes_of(bounded):
        st, t, F = api_state(R, hsym() if sh == 'h' else K(sh or 1), sh)
        X = rank('X')
        n = new_n(st, 'n', X, False)
        d = n.info['data']
        st.gh.update({'n': n.addr, 'X': X, 'data': d})

        def post(C, s, ret, t=t, F=F, n=n):
            root = s.heap[t.id].fields[F['root'][0]][1]
            r = post_insert(C, s, root, None)
            if r is None:
                return
            h, seq, n_in = r
            X = s.resolve(s.gh['X'])
            e = has_rank(s, [b for b in seq if b != n.id], X) if s.gh.get('eq') is None else s.base_of(s.gh['eq'])[0]
            if e == n.id:
                e = None
            if e is None or e == '?' or 'new' in s.heap[e].info:
                C.require('inserted', n_in, 'the new node is not in the tree', {'C08'})
                C.eq(s, 'returned', ret, s.gh['data'], 'data returned for a new element', {'C08'})
                count_is(C, s, t, F, s.gh['cnt'] + 1)
                C.require('data', L.data in s.heap[n.id].fields and same(s, s.heap[n.id].fields[L.data][1], s.gh['data']), 'the data of the new node is not the argument', {'C08', 'C26'})
            else:
                C.require('not inserted', not n_in, 'the new node is in the tree next to an equal one', {'C08'})
                C.eq(s, 'equal', ret, s.resolve(s.heap[e].info['data']), 'data returned for an equal element', {'C08'})
                count_is(C, s, t, F, s.gh['cnt'])
            datas(C, s)
        R.exec(st, fn, [t.addr, n.addr, d], post, '%s %s' % (fn, sh), canon=False)
    return [R]


def datas(C, s):
    L = s.ctx.layouts['node']
    for r in s.heap.values():
        if r.kind == 'node' and r.alive and L.data in r.fields and 'rank' in r.info and not r.info.get('new'):
            C.require('data kept', same(s, r.fields[L.data][1], s.resolve(r.info['data'])), 'the data pointer of an element is changed', {'C26'})


def post_remove(C, s, root, rid, h0=None):
    """rid: the node said to be removed, None when nothing is."""
    X = s.resolve(s.gh['X'])
    r = check(C, lambda: flatten(s, root))
    if r is None:
        return None
    h, seq = r
    C.ok('balanced', {'C09'})
    C.ok('ordered', {'C08', 'C10'})
    exp = [x for x in s.gh['exp'] if rid is None or x != A(rid)]
    same_items(C, s, seq, exp, 'other elements', {'C08'})
    if rid is None:
        C.require('not found', has_rank(s, seq, X) is None, 'an element that compares equal is not found', {'C08'})
    else:
        C.require('the equal one', rid in s.heap and 'rank' in s.heap[rid].info and s.num.eq0(s.resolve(s.heap[rid].info['rank']) - X), 'the element removed does not compare equal', {'C08'})
        C.require('really in', s.gh.get('gone') is not None or A(rid) in s.gh['exp'], 'the element removed was not in the tree', {'C08'}, False)
    return h, seq


def run_remove_node(m):
    fn = NAMES['remove']
    if fn not in m.funcs:
        return []
    R = new_run(m, fn, {'C08', 'C09', 'C18', 'C26'})
    Contracts(R, NAMES, [fn])
    for sh in ('null', 'tree'):
        st = R.new_state()
        X = rank('X')
        key = rsym('key', bits=R.ctx.W)
        h = hsym()
        root = tree(st, h) if sh == 'tree' else ZERO
        let = st.new_region('let', 'local', K(R.ctx.P))
        let.fields = {0: (R.ctx.P, ZERO)}
        st.gh = {'X': X, 'key': key, 'exp': (root,) if sh == 'tree' else (), 'let': let.addr, 'h': h if sh == 'tree' else ZERO}
        cmp = compare(R, st)
        st.gh['cmp'] = cmp

        def post(C, s, ret, let=let):
            v = s.num.norm(s.heap[let.id].fields[0][1])
            rid = s.base_of(v)[0] if v.const() is None else None
            r = post_remove(C, s, ret, rid)
            if r is None:
                return
            h0 = s.gh['h']
            if rid is None:
                height_in(C, s, r[0], h0, h0, 'height')
            else:
                height_in(C, s, r[0], h0 - 1, None, 'height')
        R.exec(st, fn, [cmp, root, key, let.addr], post, '%s %s' % (fn, sh), canon=False)
    return [R]


def run_move(m):
    """The join of the two subtrees of a removed node."""
    fn = NAMES['move']
    f = m.funcs.get(fn)
    if f is None or len(f.params) != 2:
        return []
    R = new_run(m, fn, {'C08', 'C09', 'C18'})
    Contracts(R, NAMES, [fn])
    for a in (0, 1):
        for b in (0, 1):
            st = R.new_state()
            mid = rank('mid')
            ha, hb = hsym(), hsym()
            l = tree(st, ha, 'L', hi=mid) if a else ZERO
            r = tree(st, hb, 'R', lo=mid) if b else ZERO
            st.gh = {'exp': tuple(x for x in (l, r) if x.const() != 0), 'X': mid, 'ha': ha if a else ZERO, 'hb': hb if b else ZERO}

            def post(C, s, ret):
                r = check(C, lambda: flatten(s, ret))
                if r is None:
                    return
                C.ok('balanced', {'C09'})
                C.ok('ordered', {'C08', 'C10'})
                same_items(C, s, r[1], s.gh['exp'], 'elements', {'C08'})
                height_in(C, s, r[0], s.gh['ha'], None, 'height')
                height_in(C, s, r[0], s.gh['hb'], None, 'height')
            R.exec(st, fn, [l, r], post, '%s %d %d' % (fn, a, b), canon=False)
    return [R]


def run_balance(m):
    """A node over two balanced subtrees of any heights."""
    fn = NAMES['balance']
    f = m.funcs.get(fn)
    if f is None or len(f.params) != 1:
        return []
    R = new_run(m, fn, {'C08', 'C09', 'C18', 'C26'})
    Contracts(R, NAMES, [fn])
    L = R.ctx.layouts['node']
    for a in (0, 1):
        for b in (0, 1):
            for side in ('left', 'right', 'left far', 'right far'):
                st = R.new_state()
                mid = rank('mid')
                ha, hb = hsym() if a else ZERO, hsym() if b else ZERO
                l = tree(st, ha, 'L', hi=mid) if a else ZERO
                r = tree(st, hb, 'R', lo=mid) if b else ZERO
                d = ha - hb if 'left' in side else hb - ha - 1
                if not st.assume_ge(d - 3 if 'far' in side else d) or 'far' not in side and not st.assume_ge(2 - d) or not st.num.feasible():
                    continue
                n = new_n(st, 'n', mid, False)
                d = n.info['data']
                del n.info['new']
                n.fields = {L.prev: (L.ptr, l), L.next: (L.ptr, r), L.key: (L.ptr, rsym('old', 0, 69)), L.data: (L.ptr, d)}
                st.gh = {'exp': tuple(x for x in (l, n.addr, r) if x.const() != 0), 'X': mid, 'max': ha if 'left' in side else hb}

                def post(C, s, ret):
                    r = check(C, lambda: flatten(s, ret))
                    if r is None:
                        return
                    C.ok('balanced', {'C09'})
                    C.ok('ordered', {'C08', 'C10'})
                    same_items(C, s, r[1], s.gh['exp'], 'elements', {'C08'})
                    height_in(C, s, r[0], s.gh['max'], s.gh['max'] + 1, 'height')
                R.exec(st, fn, [n.addr], post, '%s %d %d %s' % (fn, a, b, side), canon=False)
    return [R]


def run_remove(m, bounded=()):
    out = []
    for fn in ('tommy_tree_remove', 'tommy_tree_remove_existing'):
        R = new_run(m, fn + (' small' if bounded else ''), {'C05', 'C08', 'C09', 'C18', 'C26'}, bool(bounded))
        R.only_bad = bool(bounded)
        out.append(R)
        if not bounded:
            Contracts(R, NAMES)
        for sh in shapes_of(bounded):
            if 'existing' in fn and not sh:
                continue
            st, t, F = api_state(R, hsym() if sh == 'h' else K(sh or 1), sh)
            X = rank('X')
            if 'existing' in fn:
                # a stored node: a member of the tree
                n = new_member(st, 'r', X)
                st.num.add(st.heap[st.base_of(n)[0]].info['data'] - 1)      # asserted by the function
                b = st.base_of(st.gh['root'])[0]
                p = st.preds[b]
                st.preds[b] = Sub(p.h, p.lo, p.hi, (n,))
                st.gh.update({'X': X, 'r': n})
                args = [t.addr, n]
            else:
                key = rsym('key', bits=R.ctx.W)
                st.gh.update({'X': X, 'key': key})
                args = [t.addr, key]

            def post(C, s, ret, t=t, F=F, fn=fn):
                root = s.heap[t.id].fields[F['root'][0]][1]
                ret = s.num.norm(ret)
                rid = None
                if not (ret.const() == 0):
                    for r in s.heap.values():
                        if 'rank' in r.info and s.num.eq0(s.resolve(r.info['data']) - ret):
                            rid = r.id
                    if not C.require('returned', rid is not None, 'what is returned is not the data of an element', {'C08'}):
                        return
                r = post_remove(C, s, root, rid)
                if r is None:
                    return
                count_is(C, s, t, F, s.gh['cnt'] - (1 if rid is not None else 0))
                datas(C, s)
                if 'r' in s.gh:
                    C.require('the given one', rid is not None and A(rid) == s.resolve(s.gh['r']), 'the node given is not the one removed', {'C08'})
            R.exec(st, fn, args, post, '%s %s' % (fn, sh), canon=False)
    return out


def run_search(m, bounded=()):
    out = []
    fn0 = NAMES['search']
    for fn in ((fn0,) if not bounded and fn0 in m.funcs else ()) + ('tommy_tree_search', 'tommy_tree_search_compare'):
        R = new_run(m, fn + (' small' if bounded else ''), {'C08', 'C18', 'C26'}, bool(bounded))
        R.only_bad = bool(bounded)
        out.append(R)
        if not bounded:
            Contracts(R, NAMES, [fn0] if fn == fn0 else [])
        for sh in shapes_of(bounded):
            st, t, F = api_state(R, hsym() if sh == 'h' else K(sh or 1), sh)
            X = rank('X')
            key = rsym('key', bits=R.ctx.W)
            st.gh.update({'X': X, 'key': key})
            if fn == 'tommy_tree_search_compare':
                # with its own comparison, given the argument first; that of the tree must not be used
                st.gh['arg'] = key
                cmp2 = compare(R, st)
                st.gh['cmp2'] = cmp2
                r = st.heap[t.id]
                bad = fnptr(R, st, 'treecmp', lambda I, s, a, i: (_ for _ in ()).throw(Fault('callback', 'the comparison of the tree is used and not the one given')))
                r.fields[F['cmp'][0]] = (R.ctx.P, bad)
                st.gh['cmp'] = bad
                args = [t.addr, cmp2, key]
            elif fn == fn0:
                args = [st.gh['cmp'], st.gh['root'], key]
            else:
                args = [t.addr, key]

            def post(C, s, ret, t=t, F=F, fn=fn):
                ret = s.num.norm(ret)
                X = s.resolve(s.gh['X'])
                exp = [s.base_of(x)[0] for x in s.gh['exp']]
                e = has_rank(s, exp, X)
                if ret.const() == 0:
                    C.require('found', e is None, 'an element that compares equal is stored and not found', {'C08'})
                else:
                    ok = e not in (None, '?') and s.num.eq0(ret - (A(e) if fn == fn0 else s.resolve(s.heap[e].info['data'])))
                    C.require('the equal one', ok, 'what is returned is not the element that compares equal', {'C08'})
                if fn != fn0:
                    C.eq(s, 'root', s.heap[t.id].fields[F['root'][0]][1], A(s.base_of(s.gh['root'])[0]) if s.gh['root'].const() is None else ZERO, 'the root after a search', {'C08'})
            R.exec(st, fn, args, post, '%s %s' % (fn, sh), canon=False)
    return out


def run_foreach(m, bounded=()):
    out = []
    for fn, two in ((NAMES['foreach'], 0), (NAMES['foreach_arg'], 1), ('tommy_tree_foreach', 0), ('tommy_tree_foreach_arg', 1)):
        inner = fn.endswith('_node')
        if inner and (bounded or fn not in m.funcs or len(m.funcs[fn].params) != 2 + two):
            continue
        R = new_run(m, fn + (' small' if bounded else ''), {'C04', 'C10', 'C18', 'C26'}, bool(bounded))
        R.ctx.fault_props = lambda kind: {'C26', 'C04'} if kind == 'callback' else {'C04', 'C18'} if kind == 'uaf' else {'C18'}
        R.only_bad = bool(bounded)
        out.append(R)
        if not bounded:
            Contracts(R, NAMES, [fn] if inner else [])
        for sh in shapes_of(bounded):
            st, t, F = api_state(R, hsym() if sh == 'h' else K(sh or 1), sh)
            arg = rsym('arg', bits=R.ctx.W)

            def h(I, s, args, ins, two=two):
                if two and s.num.norm(args[0]) != s.resolve(s.gh['farg']):
                    raise Fault('callback', 'the callback is not given the argument of the caller')
                d = s.num.norm(args[-1])
                r = next((r for r in s.heap.values() if 'rank' in r.info and s.resolve(r.info['data']) == d), None)
                if r is None:
                    raise Fault('callback', 'the callback is called with something that is not the data of an element')
                if not r.alive:
                    raise Fault('callback', 'the callback is called twice for an element')
                q = r.copy()
                q.alive = False
                s.heap[r.id] = q
                s.gh['done'] = s.gh['done'] + (A(r.id),)
                return [(s, None)]
            func = fnptr(R, st, 'func', h)
            st.gh.update({'func': func, 'farg': arg, 'done': (), 'subs': ()})
            args = [st.gh['root'] if inner else t.addr, func] + ([arg] if two else [])

            def post(C, s, ret):
                done = [s.base_of(x)[0] for x in s.gh['done']]
                exp = [s.base_of(x)[0] for x in s.gh['exp']]
                C.require('each once', sorted(done) == sorted(exp), 'the elements visited are not those stored, each once', {'C04'})
                C.require('in order', done == exp or sorted(done) != sorted(exp), 'the elements are not visited in the order of the comparison', {'C10'})
            R.exec(st, fn, args, post, '%s %s' % (fn, sh), canon=False)
    return out


def run_life(m):
    R = new_run(m, 'tree life', {'C05', 'C08', 'C18', 'C24'})
    for fn in ('tommy_tree_init', 'tommy_tree_count', 'tommy_tree_memory_usage'):
        st, t, F = api_state(R, hsym(), 'h')
        L = R.ctx.layouts['node']
        if fn == 'tommy_tree_init':
            st.heap[t.id].fields = {}
            st.preds = {}

            def post(C, s, ret, t=t, F=F):
                f = s.heap[t.id].fields
                for x, v, p in (('root', ZERO, 'C08'), ('count', ZERO, 'C05'), ('cmp', s.gh['cmp'], 'C08')):
                    C.require(x, F[x][0] in f and s.num.norm(f[F[x][0]][1]) == v, '%s is not set by init' % x, {p})
            R.exec(st, fn, [t.addr, st.gh['cmp']], post, fn, canon=False)
        else:
            if fn not in m.funcs:
                continue
            def post(C, s, ret, fn=fn):
                if 'usage' in fn:
                    C.eq(s, 'usage', ret, s.gh['cnt'] * L.size, 'memory usage', {'C24'})
                else:
                    C.eq(s, 'count', ret, s.gh['cnt'], 'count', {'C05'})
            R.exec(st, fn, [t.addr], post, fn, canon=False)
    return [R]
