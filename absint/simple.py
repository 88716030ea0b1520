"""Checks that need no heap model: C21 (reversible integer hashes), C22 (no shared state), C23 (allocation macros),
C25 (lookups write nothing), C27 (bit helpers)."""
import re
import ir, bits
from report import Report

PORTABLE = ('-U__GNUC__', '-U__GNUC_MINOR__')


def need(m, name):
    if name not in m.funcs:
        raise ir.AnalysisBroken('function %s not found' % name)
    return m.funcs[name]


def variants(tier):
    v = [('64', ir.load())]
    if tier == 'thorough':
        v.append(('32', ir.load(ptrbits=32)))
        v.append(('ndebug', ir.load(defines=('NDEBUG',))))
        v.append(('c++', ir.load(lang='c++')))
    return v


# ------------------------------------------------------------------ C21
def gf2_rank(rows):
    """rows: list of ints; returns (rank, kernel vector of the transposed system or None)."""
    n = len(rows)
    # solve for a nonzero x with M x = 0, rows are equations: eliminate columns
    piv = {}
    rows = list(rows)
    rank = 0
    basis = []
    for r in rows:
        for p, b in basis:
            if (r >> p) & 1:
                r ^= b
        if r:
            p = r.bit_length() - 1
            basis = [(q, b ^ r if (b >> p) & 1 else b) for q, b in basis]
            basis.append((p, r))
            rank += 1
    if rank == n:
        return rank, None
    free = next(i for i in range(n) if i not in [p for p, _ in basis])
    x = 1 << free
    for p, b in basis:
        if (b >> free) & 1:
            x |= 1 << p
    return rank, x


class DAG:
    """Value graph of a straight-line integer function of one argument."""

    def __init__(self, m, f):
        self.m = m
        self.nodes = {}
        self.names = []
        p = f.params[0]
        self.w = p[0].n
        self.loc = {}
        self.x = self.mk('x', self.w)
        self.root = self.inline(f, [self.x])

    def mk(self, op, w, *a, loc=None):
        if all(x[0] == 'c' for x in a) and op not in ('x', 'c'):
            c = self.fold(op, w, [x[2] for x in a], a)
            return self.mk('c', w, c) if False else ('c', w, c % (1 << w))
        k = (op, w) + a
        if loc and k not in self.loc:
            self.loc[k] = loc
        return k

    def fold(self, op, w, c, a):
        M = 1 << w
        if op == 'add':
            return c[0] + c[1]
        if op == 'sub':
            return c[0] - c[1]
        if op == 'mul':
            return c[0] * c[1]
        if op == 'and':
            return c[0] & c[1]
        if op == 'or':
            return c[0] | c[1]
        if op == 'xor':
            return c[0] ^ c[1]
        if op == 'shl':
            return c[0] << c[1]
        if op == 'lshr':
            return c[0] >> c[1]
        if op in ('zext', 'trunc'):
            return c[0]
        if op == 'select':
            return c[1] if c[0] else c[2]
        raise bits.Unknown('constant %s' % op)

    def select(self, c, a, b, ins):
        if a == b:
            return a
        return self.mk('select', a[1], c, a, b, loc=self.m.loc(ins))

    def inline(self, f, args, depth=0, start=None):
        if depth > 30:
            raise bits.Unknown('recursion')
        regs = {n: v for (t, n), v in zip(f.params, args)}
        prev, cur = None, f.order[0]
        if start:
            prev, cur, regs = start
        steps = 0

        def val(v, ty):
            if v[0] == 'reg':
                return regs[v[1]]
            if v[0] == 'int':
                return ('c', ty.n, v[1] % (1 << ty.n))
            raise bits.Unknown('operand %r' % (v,))
        while True:
            b = f.blocks[cur]
            ph = {}
            for ins in b.ins:
                if ins.op == 'phi':
                    for v, l in ins.a:
                        if l == prev:
                            ph[ins.res] = val(v, ins.ty)
            regs.update(ph)
            nxt = None
            for ins in b.ins:
                steps += 1
                if steps > 5000:
                    raise bits.Unknown('loop', ins)
                o = ins.op
                if o == 'phi':
                    continue
                if o == 'ret':
                    return val(ins.a[0], ins.ty)
                if o == 'br':
                    if ins.a:
                        c = val(ins.a[0], ir.Ty('int', 1))
                        if c[0] != 'c':
                            if depth > 20 or steps > 2000:
                                raise bits.Unknown('data dependent branch', ins)
                            rs = [self.inline(f, args, depth + 1, (cur, t, dict(regs))) for t in ins.x[:2]]
                            return self.select(c, rs[0], rs[1], ins)
                        nxt = ins.x[0] if c[2] else ins.x[1]
                    else:
                        nxt = ins.x[0]
                    break
                if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                    regs[ins.res] = self.mk(o, ins.ty.n, val(ins.a[0], ins.ty), val(ins.a[1], ins.ty), loc=self.m.loc(ins))
                elif o in ('zext', 'trunc'):
                    regs[ins.res] = self.mk(o, ins.ty.n, val(ins.a[0], ins.x), loc=self.m.loc(ins))
                elif o == 'icmp':
                    a, c = val(ins.a[0], ins.ty), val(ins.a[1], ins.ty)
                    if a[0] != 'c' or c[0] != 'c':
                        regs[ins.res] = self.mk('icmp', 1, ins.x, a, c)
                        continue
                    r = bits.icmp(ins.x, bits.const(a[2], ins.ty.n), bits.const(c[2], ins.ty.n))
                    regs[ins.res] = ('c', 1, r)
                elif o == 'select':
                    c, a, b2 = val(ins.a[0], ir.Ty('int', 1)), val(ins.a[1], ins.ty), val(ins.a[2], ins.ty)
                    regs[ins.res] = (a if c[2] else b2) if c[0] == 'c' else self.select(c, a, b2, ins)
                elif o == 'call' and ins.x[0] == 'glob' and ins.x[1] in self.m.funcs:
                    regs[ins.res] = self.inline(self.m.funcs[ins.x[1]], [val(v, t) for t, v in ins.a], depth + 1)
                elif o == 'call' and ins.x[0] == 'glob' and ins.x[1].startswith('llvm.fsh'):
                    a, b2, c = [val(v, t) for t, v in ins.a]
                    if a != b2 or c[0] != 'c':
                        raise bits.Unknown('funnel shift', ins)
                    w = ins.ty.n
                    k = c[2] % w
                    if 'fshr' in ins.x[1]:
                        k = (w - k) % w
                    regs[ins.res] = self.mk('or', w, self.mk('shl', w, a, ('c', w, k)), self.mk('lshr', w, a, ('c', w, w - k))) if k else a
                elif o == 'call' and ins.x[0] == 'glob' and ins.x[1].startswith('llvm.bswap'):
                    regs[ins.res] = self.mk('bswap', ins.ty.n, val(ins.a[0][1], ins.a[0][0]))
                else:
                    raise bits.Unknown('instruction %s' % o, ins)
            prev, cur = cur, nxt

    def order(self):
        """Nodes in dependency order (constants excluded)."""
        out, seen = [], set()

        def go(n):
            if n in seen or n[0] == 'c':
                return
            seen.add(n)
            for a in n[2:]:
                if isinstance(a, tuple):
                    go(a)
            out.append(n)
        import sys
        sys.setrecursionlimit(100000)
        go(self.root)
        return out

    def dominators(self):
        """Nodes of the argument's width through which every path from the argument to the result passes."""
        order = self.order()
        users = {}
        for n in order:
            for a in n[2:]:
                if isinstance(a, tuple) and a[0] not in ('c',):
                    users.setdefault(a, []).append(n)
        pos = {n: i for i, n in enumerate(order)}
        # n is a dominator iff no edge jumps over it
        far = -1
        doms = []
        for i, n in enumerate(order):
            # edges from nodes before i to nodes after i
            if far <= i:
                doms.append(n)
            for u in users.get(n, ()):
                far = max(far, pos[u])
        return [n for n in doms if n[1] == self.w]


def affine(n, base, w, memo):
    """(a, b) with n = a*base + b mod 2^w, or None."""
    if n == base:
        return (1, 0)
    if n[0] == 'c':
        return (0, n[2])
    if n in memo:
        return memo[n]
    r = None
    M = 1 << w
    if n[1] == w:
        o = n[0]
        if o in ('add', 'sub'):
            x, y = affine(n[2], base, w, memo), affine(n[3], base, w, memo)
            if x and y:
                s = 1 if o == 'add' else -1
                r = ((x[0] + s * y[0]) % M, (x[1] + s * y[1]) % M)
        elif o == 'mul':
            x, y = affine(n[2], base, w, memo), affine(n[3], base, w, memo)
            if x and y:
                if x[0] == 0:
                    x, y = y, x
                if y[0] == 0:
                    r = (x[0] * y[1] % M, x[1] * y[1] % M)
        elif o == 'shl' and n[3][0] == 'c':
            x = affine(n[2], base, w, memo)
            if x:
                r = ((x[0] << n[3][2]) % M, (x[1] << n[3][2]) % M)
        elif o == 'xor':
            for p, q in ((n[2], n[3]), (n[3], n[2])):
                if q[0] == 'c' and q[2] == M - 1:
                    x = affine(p, base, w, memo)
                    if x:
                        r = (-x[0] % M, (-x[1] - 1) % M)
    memo[n] = r
    return r


def linear(n, base, w, memo):
    """Rows (one int per output bit: mask of input bits, bit `w` = constant) of a GF(2)-affine map, or None."""
    if n == base:
        return [1 << i for i in range(w)]
    if n[0] == 'c':
        return [((n[2] >> i) & 1) << w for i in range(n[1])]
    if n in memo:
        return memo[n]
    o, ww = n[0], n[1]
    r = None
    if o == 'xor':
        x, y = linear(n[2], base, w, memo), linear(n[3], base, w, memo)
        if x and y:
            r = [p ^ q for p, q in zip(x, y)]
    elif o in ('shl', 'lshr') and n[3][0] == 'c' and n[3][2] < ww:
        x = linear(n[2], base, w, memo)
        c = n[3][2]
        if x:
            r = [0] * c + x[:ww - c] if o == 'shl' else x[c:] + [0] * c
    elif o == 'and':
        x, y = linear(n[2], base, w, memo), linear(n[3], base, w, memo)
        if x and y:
            r = []
            for p, q in zip(x, y):
                if p in (0, 1 << w):
                    p, q = q, p
                if q == 0:
                    r.append(0)
                elif q == 1 << w or p == q:
                    r.append(p)
                elif p == q ^ (1 << w):
                    r.append(0)
                else:
                    r = None
                    break
    elif o in ('or', 'add'):
        # disjoint bits only
        x, y = linear(n[2], base, w, memo), linear(n[3], base, w, memo)
        if x and y and all(p == 0 or q == 0 for p, q in zip(x, y)):
            r = [p ^ q for p, q in zip(x, y)]
    elif o == 'zext':
        x = linear(n[2], base, w, memo)
        if x:
            r = x + [0] * (ww - len(x))
    elif o == 'trunc':
        x = linear(n[2], base, w, memo)
        if x:
            r = x[:ww]
    elif o == 'bswap':
        x = linear(n[2], base, w, memo)
        if x:
            r = sum((x[i:i + 8] for i in range(ww - 8, -1, -8)), [])
    memo[n] = r
    return r


def at_point(n, base, c, memo):
    """Constant folding of the value graph n with base = c."""
    if n == base:
        return c
    if n[0] == 'c':
        return n[2]
    if n not in memo:
        if n[0] == 'x':
            raise bits.Unknown('not a function of the cut')
        a = [at_point(x, base, c, memo) for x in n[2:] if isinstance(x, tuple)]
        if n[0] == 'icmp':
            k = n[3][1]
            v = bits.icmp(n[2], bits.const(a[0], k), bits.const(a[1], k))
        else:
            v = DAG.fold(None, n[0], n[1], a, None)
        memo[n] = v % (1 << n[1])
    return memo[n]


def exceptional_point(n, base, w, m):
    """select(u == c, A, B) where u and B are one-to-one functions of base: one-to-one iff A and B agree at that point."""
    cond, a, b = n[2], n[3], n[4]
    if cond[0] != 'icmp' or cond[2] not in ('eq', 'ne'):
        return None
    if cond[2] == 'ne':
        a, b = b, a
    u, k = cond[3], cond[4]
    if u[0] == 'c':
        u, k = k, u
    if k[0] != 'c' or u[1] != w:
        return None
    for x, what in ((u, 'compared value'), (b, 'general case')):
        r = one_to_one(x, base, w)
        if r is None or not r[1]:
            return r
    # the point where u == c: u is affine over one of the two rings, so it can be solved
    t = affine(u, base, w, {})
    M = 1 << w
    if t is not None:
        p = (k[2] - t[1]) * pow(t[0], -1, M) % M
    elif u == b or True:
        p = solve(u, base, k[2], w)
        if p is None:
            return None
    try:
        va, vb = at_point(a, base, p, {}), at_point(b, base, p, {})
    except bits.Unknown:
        return None
    if va == vb:
        return ('redundant exceptional case', True)
    return ('the value 0x%x is mapped to 0x%x, which is also the result of another value' % (p, va), False)


def cuts(n, base):
    """Dominators between base and n, in order."""
    g = DAG.__new__(DAG)
    g.root, g.w = n, n[1]
    order = [x for x in g.order()]
    if base not in order:
        return None
    below = {base}
    for x in order:
        if any(isinstance(y, tuple) and y in below for y in x[2:]):
            below.add(x)
    order = [x for x in order if x in below]
    pos = {x: i for i, x in enumerate(order)}
    far, doms = -1, []
    for i, x in enumerate(order):
        if far <= i:
            doms.append(x)
        for u in order[i + 1:]:
            if any(y == x for y in u[2:] if isinstance(y, tuple)):
                far = max(far, pos[u])
    return [x for x in doms if x[1] == g.w]


def one_to_one(n, base, w):
    """Is n a one-to-one function of base? (text, verdict) or None; decided piecewise between dominators."""
    ds = cuts(n, base)
    if not ds or ds[0] != base or ds[-1] != n:
        return None
    i = 0
    while i + 1 < len(ds):
        for j in range(i + 1, len(ds)):
            a = affine(ds[j], ds[i], w, {})
            if a is not None:
                v = ('affine factor %d' % a[0], a[0] % 2 == 1)
                break
            L = linear(ds[j], ds[i], w, {})
            if L is not None:
                rk, ker = gf2_rank([r & ((1 << w) - 1) for r in L])
                v = ('GF(2) rank %d of %d' % (rk, w), rk == w)
                break
        else:
            return None
        if not v[1]:
            return v
        i = j
    return ('one-to-one', True)


def solve(n, base, c, w):
    """The value of base for which the one-to-one function n equals c."""
    ds = cuts(n, base)
    M = 1 << w
    i = len(ds) - 1
    while i > 0:
        for j in range(i - 1, -1, -1):
            a = affine(ds[i], ds[j], w, {})
            if a is not None:
                c = (c - a[1]) * pow(a[0], -1, M) % M
                break
            L = linear(ds[i], ds[j], w, {})
            if L is not None:
                # Gauss-Jordan on the rows extended with the wanted bit
                rows = [((r & (M - 1)), ((r >> w) & 1) ^ ((c >> k) & 1)) for k, r in enumerate(L)]
                sol = []
                for r, v in rows:
                    for p, q, z in sol:
                        if (r >> p) & 1:
                            r, v = r ^ q, v ^ z
                    p = r.bit_length() - 1
                    sol = [(pp, q ^ r, z ^ v) if (q >> p) & 1 else (pp, q, z) for pp, q, z in sol] + [(p, r, v)]
                c = sum(v << p for p, r, v in sol)
                break
        else:
            return None
        i = j
    return c


def c21(tier):
    R = Report('C21', tier)
    R.rule = ('The value graph of each integer hash is cut at its dominators; every piece must be affine over Z/2^w with an odd '
              'factor or affine over GF(2) with a matrix of full rank; a composition of one-to-one pieces is one-to-one. An even '
              'factor or a singular matrix after one-to-one pieces is a collision.')
    for vn, m in variants(tier):
        for fn, w in (('tommy_inthash_u32', 32), ('tommy_inthash_u64', 64)):
            f = need(m, fn)
            R.count('functions')
            key0 = '%s/%s' % (vn, fn)
            if f.params[0][0].n != w or f.ret.n != w:
                raise ir.AnalysisBroken('%s has an unexpected type' % fn)
            try:
                g = DAG(m, f)
                doms = g.dominators()
                if not doms or doms[0] != g.x or doms[-1] != g.root:
                    if g.root[0] == 'c':
                        R.bad(key0, '%s:%s' % (f.file, f.line), '%s returns a constant' % fn)
                        continue
                    raise bits.Unknown('no dominator chain')
            except bits.Unknown as e:
                R.undecided(key0, '%s:%s' % (f.file, f.line), 'value graph not in the domain: %s %s' % (e, m.loc(e.ins) if getattr(e, 'ins', None) else ''))
                continue
            i = 0
            while i + 1 < len(doms):
                base = doms[i]
                # the shortest piece in one of the domains; longer pieces are tried when the short one is not
                verdict = None
                for j in range(i + 1, len(doms)):
                    nd = doms[j]
                    if nd[0] == 'select':
                        verdict = exceptional_point(nd, base, w, m)
                        if verdict:
                            break
                        continue
                    a = affine(nd, base, w, {})
                    if a is not None:
                        verdict = ('affine factor %d' % a[0], a[0] % 2 == 1)
                    else:
                        L = linear(nd, base, w, {})
                        if L is not None:
                            rk, ker = gf2_rank([r & ((1 << w) - 1) for r in L])
                            verdict = ('GF(2) rank %d of %d%s' % (rk, w, '' if ker is None else ', inputs differing by 0x%x collide' % ker), rk == w)
                    if verdict:
                        break
                where = g.loc.get(doms[j], '%s:%s' % (f.file, f.line))
                key = '%s/step%d' % (key0, i)
                if verdict is None:
                    R.undecided(key, where, 'no domain decides this step')
                    break
                R.count('steps')
                if verdict[1]:
                    R.ok(key)
                    R.samples.append('%s %s: %s' % (key, where, verdict[0]))
                else:
                    R.bad(key, where, '%s is not one-to-one: %s' % (fn, verdict[0]))
                    break
                i = j
    R.assumptions = ['unsigned arithmetic modulo 2^w as fixed by the C standard']
    return R.finish(floor=2)


# ------------------------------------------------------------------ flow of addresses
class Flow:
    """Flow-insensitive, context-sensitive origins of values: 'L' own local (or freshly allocated) memory, 'O' anything else,
    ('G', name) a global object."""

    HEAP = ('malloc', 'calloc', 'realloc', 'free')

    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.stack = set()
        self.content = frozenset()
        self.changed = False
        self.stores = {}        # (ins id) -> (func, ins, origins)
        self.ext = {}
        self.calls = 0

    def analyse(self, f, params):
        for _ in range(20):
            self.memo, self.stores, self.ext = {}, {}, {}
            old = self.content
            self.go(f, tuple(params))
            if self.content == old:
                break

    def go(self, f, params):
        k = (f.name, params)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset()
        for _ in range(10):
            old = self.memo[k]
            r = self.body(f, params)
            self.memo[k] = r
            if r == old:
                break
        return self.memo[k]

    def body(self, f, params):
        reg = {n: p for (t, n), p in zip(f.params, params)}
        E = frozenset()

        def val(v):
            if v[0] == 'reg':
                return reg.get(v[1], E)
            if v[0] == 'glob':
                if v[1] in self.m.funcs or v[1] in self.m.decls:
                    return E
                return frozenset([('G', v[1])])
            if v[0] == 'cexpr':
                s = E
                for _, x in v[3]:
                    s = s | val(x)
                return s
            return E
        ret = E
        ch = True
        rounds = 0
        while ch and rounds < 30:
            ch = False
            rounds += 1
            for lb in f.rpo:
                for ins in f.blocks[lb].ins:
                    o = ins.op
                    r = E
                    if o == 'alloca':
                        r = frozenset('L')
                    elif o == 'phi':
                        for v, b in ins.a:
                            r = r | val(v)
                    elif o == 'load':
                        p = val(ins.a[0])
                        if 'L' in p:
                            r = r | self.content
                        if 'O' in p or any(isinstance(x, tuple) for x in p) or not p:
                            r = r | frozenset('O')
                    elif o == 'store':
                        p = val(ins.a[1])
                        self.stores[(f.name, id(ins), params)] = (f, ins, p or frozenset('O'))
                        if 'L' in p and not val(ins.a[0]) <= self.content:
                            self.content = self.content | val(ins.a[0])
                            ch = True
                    elif o == 'getelementptr':
                        r = val(ins.a[0][1])
                    elif o == 'call':
                        nm = ins.x[1] if ins.x[0] == 'glob' else None
                        args = tuple(val(v) for t, v in ins.a)
                        if nm in self.m.funcs:
                            r = self.go(self.m.funcs[nm], args)
                        elif nm is None:
                            r = frozenset('O')
                        elif nm.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')) or nm in ('memset', 'memcpy', 'memmove'):
                            self.stores[(f.name, id(ins), params)] = (f, ins, args[0] or frozenset('O'))
                            r = args[0]
                            if 'L' in args[0] and len(args) > 1 and 'set' not in nm:
                                self.content = self.content | frozenset('O')
                        elif nm in ('malloc', 'calloc', 'aligned_alloc'):
                            r = frozenset('L')
                            self.ext[(f.name, id(ins))] = (f, ins, nm)
                        elif nm.startswith('llvm.'):
                            for a in args:
                                r = r | a
                        else:
                            self.ext[(f.name, id(ins))] = (f, ins, nm)
                            r = frozenset('O')
                    elif ins.res:
                        for v in ins.a:
                            if isinstance(v, tuple) and v and isinstance(v[0], str):
                                r = r | val(v)
                    if o == 'ret' and ins.a:
                        ret = ret | val(ins.a[0])
                    if ins.res and not r <= reg.get(ins.res, E):
                        reg[ins.res] = reg.get(ins.res, E) | r
                        ch = True
        return ret


LOOKUPS = '''tommy_list_head tommy_list_tail tommy_list_empty tommy_list_count
tommy_hashtable_bucket tommy_hashtable_search tommy_hashtable_count tommy_hashtable_memory_usage
tommy_hashdyn_bucket tommy_hashdyn_search tommy_hashdyn_count tommy_hashdyn_memory_usage
tommy_hashlin_bucket tommy_hashlin_search tommy_hashlin_count tommy_hashlin_memory_usage
tommy_tree_search tommy_tree_search_compare tommy_tree_count tommy_tree_memory_usage
tommy_trie_bucket tommy_trie_search tommy_trie_count tommy_trie_memory_usage
tommy_trie_inplace_bucket tommy_trie_inplace_search tommy_trie_inplace_count tommy_trie_inplace_memory_usage
tommy_array_ref tommy_array_get tommy_array_size tommy_array_memory_usage
tommy_arrayof_ref tommy_arrayof_size tommy_arrayof_memory_usage
tommy_arrayblk_ref tommy_arrayblk_get tommy_arrayblk_size tommy_arrayblk_memory_usage
tommy_arrayblkof_ref tommy_arrayblkof_size tommy_arrayblkof_memory_usage
tommy_allocator_memory_usage'''.split()

HARMLESS = ('__assert_fail', 'abort', '__assert', '_assert', 'memcmp', 'strlen', 'strcmp', '__assert_rtn')


def c25(tier):
    R = Report('C25', tier)
    R.rule = ('From every lookup and report function, over the resolved call graph: each store, memset/memcpy destination and '
              'external call; the destination of a store must originate only from the function\'s own local variables.')
    for vn, m in variants(tier):
        for fn in LOOKUPS:
            f = need(m, fn)
            R.count('functions')
            F = Flow(m)
            F.analyse(f, [frozenset('O') for _ in f.params])
            R.count('reached_functions', len({k[0] for k in F.memo}))
            key = '%s/%s' % (vn, fn)
            R.ok(key)
            seen = set()
            for (g, ins, o) in F.stores.values():
                R.count('store_contexts')
                if o <= frozenset('L'):
                    continue
                if id(ins) not in seen:
                    seen.add(id(ins))
                    R.bad(key, m.loc(ins), '%s reaches a write to memory that is not its own in %s' % (fn, g.name))
            for (g, ins, nm) in F.ext.values():
                R.count('external_calls')
                if nm in HARMLESS:
                    continue
                if nm in Flow.HEAP or nm.startswith('tommy_'):
                    R.bad(key, m.loc(ins), '%s reaches a call of %s in %s' % (fn, nm, g.name))
                else:
                    R.undecided(key, m.loc(ins), 'call of unknown function %s' % nm)
    R.assumptions = ['the comparison callback given by the user writes nothing itself']
    return R.finish(floor=len(LOOKUPS))


STATELESS = {'malloc', 'calloc', 'realloc', 'free', 'memset', 'memcpy', 'memmove', 'memcmp', 'strlen', 'strcmp', 'abort',
             '__assert_fail', '__assert', '_assert', '__assert_rtn', 'strncmp', 'memchr', 'aligned_alloc', 'posix_memalign'}
STATEFUL = {'rand', 'srand', 'random', 'drand48', 'strtok', 'time', 'clock', 'getenv', 'setenv', 'localtime', 'gmtime', 'signal',
            'setlocale', 'asctime', 'strerror', 'tmpnam', 'getpid', 'lrand48', 'rand_r'}


def c22(tier):
    R = Report('C22', tier)
    R.rule = ('Every global or static object of the library that is not constant, and every instruction that uses it: none may be '
              'written or have its address passed on; every external function called must be free of hidden state.')
    vs = variants(tier) + [('portable', portable_module())]
    for vn, m in vs:
        mut = {}
        for g, (kind, t, v, rest) in m.globals.items():
            if g == 'verif_roots' or kind == 'constant':
                continue
            mut[g] = rest
        R.count('globals', len(m.globals) - 1)
        R.count('mutable_globals', len(mut))
        for g in m.globals:
            if g != 'verif_roots':
                R.ok('%s/global/%s' % (vn, re.sub(r'\.str.*', '.str', g)))
        for f in m.funcs.values():
            R.count('functions')
            R.ok('%s/function/%s' % (vn, f.name))
            for lb in f.order:
                for ins in f.blocks[lb].ins:
                    if ins.op == 'call' and ins.x[0] == 'glob':
                        nm = ins.x[1]
                        if nm in m.funcs or nm.startswith('llvm.') or nm in STATELESS:
                            pass
                        elif nm in STATEFUL:
                            R.bad('%s/function/%s' % (vn, f.name), m.loc(ins), '%s calls %s, which keeps hidden state' % (f.name, nm))
                        else:
                            R.undecided('%s/function/%s' % (vn, f.name), m.loc(ins), '%s calls the unknown function %s' % (f.name, nm))
                    elif ins.op == 'call' and ins.x[0] not in ('reg',):
                        R.undecided('%s/function/%s' % (vn, f.name), m.loc(ins), 'inline assembly or unknown callee')
                    elif ins.op == 'unsupported':
                        R.bad('%s/function/%s' % (vn, f.name), m.loc(ins), 'atomic or unknown instruction: ' + ins.x[:80]) if 'atomic' in ins.x else R.undecided('%s/function/%s' % (vn, f.name), m.loc(ins), ins.x[:80])
        if not mut:
            continue
        # origins of mutable globals through every function, parameters unknown
        for f in m.funcs.values():
            F = Flow(m)
            F.analyse(f, [frozenset() for _ in f.params])
            for (g, ins, o) in F.stores.values():
                for x in o:
                    if isinstance(x, tuple) and x[1] in mut:
                        R.bad('%s/global/%s' % (vn, x[1]), m.loc(ins), 'the static object %s is written in %s' % (x[1], g.name))
            # address stored, returned or passed to unknown code
            for x in F.content:
                if isinstance(x, tuple) and x[1] in mut:
                    pass
        for f in m.funcs.values():
            for lb in f.order:
                for ins in f.blocks[lb].ins:
                    if ins.op == 'load' or ins.op == 'getelementptr':
                        continue
                    for g in mut:
                        if '@' + g in ins.text and re.search(r'@"?%s\b' % re.escape(g), ins.text):
                            if ins.op == 'store':
                                d = ins.a[1]
                                direct = re.search(r'@"?%s\b' % re.escape(g), repr(d)) or ("'%s'" % g) in repr(d)
                                R.bad('%s/global/%s' % (vn, g), m.loc(ins), 'the static object %s is written or its address stored in %s' % (g, f.name))
                            elif ins.op == 'call' and ins.x[0] == 'reg':
                                R.undecided('%s/global/%s' % (vn, g), m.loc(ins), 'address of %s passed to a callback' % g)
    return R.finish(floor=100)


def portable_module(ptrbits=64):
    # the compiler macro is removed only for the library's own headers
    return ir.load(ptrbits=ptrbits, pre='portable')


MACROS = ('malloc', 'calloc', 'realloc', 'free')
RAW = {'malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'pvalloc', 'cfree', 'strdup', 'strndup',
       'mmap', 'munmap', 'sbrk', 'brk', 'reallocarray', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', 'alloca'}
PROTO = '''
#include <stddef.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
void* verif_user_malloc(size_t); void* verif_user_calloc(size_t, size_t); void* verif_user_realloc(void*, size_t); void verif_user_free(void*);
#ifdef __cplusplus
}
#endif
#define tommy_malloc verif_user_malloc
#define tommy_calloc verif_user_calloc
#define tommy_realloc verif_user_realloc
#define tommy_free verif_user_free
'''


def c23(tier):
    R = Report('C23', tier)
    R.rule = ('The library is compiled with the four macros redefined to user functions; over every call instruction and every '
              'address taken of every function, no standard heap function may remain. Control: with the macros left alone the same '
              'call sites must show the standard functions.')
    confs = [('all redefined', dict(pre=PROTO)), ('all redefined, ndebug', dict(pre=PROTO, defines=('NDEBUG',)))]
    confs.append(('all redefined, c++', dict(pre=PROTO, lang='c++')))
    confs.append(('all redefined, 32', dict(pre=PROTO, ptrbits=32)))
    confs.append(('all redefined, portable', dict(pre=PROTO + '\n#define VERIF_PORTABLE\n', portable=True)))
    ref = ir.load()
    sites = sum(1 for f in ref.funcs.values() for b in f.blocks.values() for i in b.ins if i.op == 'call' and i.x[0] == 'glob' and i.x[1] in RAW)
    if sites < 5:
        raise ir.AnalysisBroken('only %d heap call sites in the plain build' % sites)
    R.count('plain_heap_call_sites', sites)
    for cn, kw in confs:
        m = ir.load(**kw)
        user = 0
        for f in m.funcs.values():
            R.count('functions')
            key = '%s/%s' % (cn, f.name)
            R.ok(key)
            for b in f.blocks.values():
                for ins in b.ins:
                    names = set(re.findall(r'@([\w.$]+)', ins.text))
                    if any(n.startswith('verif_user_') for n in names):
                        user += 1
                    for n in names & RAW:
                        R.bad(key, m.loc(ins), '%s uses %s directly although the macros are redefined (%s)' % (f.name, n, cn))
        R.count('user_heap_call_sites', user)
        if user < 5 and not R.viol:
            raise ir.AnalysisBroken('no redefined heap call sites in configuration %s' % cn)
    return R.finish(floor=200)


# ------------------------------------------------------------------ C27
def lits(n, start=2):
    return tuple(range(start, start + n))


def classes_log2(w):
    """Partition of the nonzero words by highest set bit, expected value = its index."""
    for k in range(w):
        yield 'highest bit %d' % k, lits(k) + (1,) + (0,) * (w - k - 1), k


def classes_ctz(w):
    for k in range(w):
        yield 'lowest bit %d' % k, (0,) * k + (1,) + lits(w - k - 1), k


def classes_round(w):
    for k in range(w):
        yield '2^%d' % k, bits.const(1 << k, w), 1 << k
        if k == w - 1:
            continue
        for j in range(k):
            yield '2^%d plus lowest bit %d' % (k, j), (0,) * j + (1,) + lits(k - j - 1) + (1,) + (0,) * (w - k - 1), 1 << (k + 1)


def classes_haszero():
    import itertools
    # per byte: zero, or lowest set bit j and the higher bits free
    for combo in itertools.product(range(9), repeat=4):
        wd = ()
        for n, j in enumerate(combo):
            if j == 8:
                wd += (0,) * 8
            else:
                wd += (0,) * j + (1,) + lits(7 - j, 2 + 8 * n)
        yield 'bytes %s' % (combo,), wd, 1 if 8 in combo else 0


def restrict(word, lit, v):
    return tuple((v if x == lit else 1 - v) if x in (lit, -lit) and x is not None and x not in (0, 1) else x for x in word)


def decide_bits(m, f, word, expect, budget):
    """True, False or None: the result of f equals expect on the whole class."""
    try:
        r = bits.Eval(m).run(f, [word])
        w = len(r)
        for i, x in enumerate(r):
            e = (expect >> i) & 1
            if x in (0, 1) and x is not None and x != e:
                return False, 'result %s for input %s' % (show(r), show(word)), None
        if bits.value(r) is not None:
            return True, '', None
        why = 'result %s not exact' % show(r)
        ins = None
    except bits.Unknown as e:
        why, ins = str(e), e.ins
        if 'out of bounds' in why or 'shift by' in why or 'bit scan of zero' in why:
            return False, why + ' for input %s' % show(word), ins
    free = [x for x in word if x is not None and x not in (0, 1)]
    if not free:
        return None, why, ins
    if budget <= 0:
        # the class is not decided as a whole: smaller classes with more fixed bits can still refute it
        if budget == 0:
            for pick in [()] + [(x,) for x in free] + [tuple(free), tuple(free[::2]), tuple(free[1::2])]:
                wd = word
                for x in free:
                    wd = restrict(wd, x, 1 if x in pick else 0)
                r = decide_bits(m, f, wd, expect, -1)
                if r[0] is False:
                    return r
        return None, why, ins
    for v in (0, 1):
        r = decide_bits(m, f, restrict(word, free[0], v), expect, budget - 1)
        if r[0] is not True:
            return r
    return True, '', None


def show(w):
    return ''.join('0' if x == 0 else '1' if x == 1 else '?' if x is None else 'x' for x in reversed(w))


def c27(tier):
    R = Report('C27', tier)
    R.rule = ('Abstract evaluation of each helper over a bit domain, with the whole input domain partitioned by highest bit, lowest '
              'bit or lowest bit per byte; every class of inputs must give exactly the expected constant. Both the compiler-builtin '
              'and the portable source variant are analysed.')
    vs = [('builtin', ir.load()), ('portable', portable_module()), ('builtin32', ir.load(ptrbits=32))]
    if tier == 'thorough':
        vs += [('portable32', portable_module(32)), ('c++', ir.load(lang='c++'))]
    for vn, m in vs:
        todo = [('tommy_ilog2_u32', classes_log2(32)), ('tommy_ctz_u32', classes_ctz(32)), ('tommy_roundup_pow2_u32', classes_round(32))]
        if '32' not in vn:
            todo += [('tommy_ilog2_u64', classes_log2(64)), ('tommy_ctz_u64', classes_ctz(64))]
        todo += [('tommy_roundup_pow2_u64', classes_round(64)), ('tommy_haszero_u32', classes_haszero())]
        for fn, cls in todo:
            f = need(m, fn)
            R.count('functions')
            uses = 0
            lost = 0
            for name, word, exp in cls:
                key = '%s/%s/%s' % (vn, fn, name if 'bytes' not in name else 'all byte classes')
                R.count('input_classes')
                if len(word) != f.params[0][0].n:
                    raise ir.AnalysisBroken('%s: unexpected parameter width' % fn)
                v, why, ins = decide_bits(m, f, word, exp, 4)
                if v:
                    R.ok(key)
                elif v is False:
                    R.bad(key, m.loc(ins) if ins is not None else '%s:%s' % (f.file, f.line), '%s (%s): %s, expected %d' % (fn, name, why, exp))
                    break
                else:
                    R.undecided(key, '%s:%s' % (f.file, f.line), why)
                    lost += 1
                    if lost > 8:
                        break
    return R.finish(floor=300)


def c28(tier):
    import hashref
    return hashref.check(tier)


def c29(tier):
    import linwork
    return linwork.check(tier)


def c30(tier):
    import linwork
    return linwork.check_dyn(tier)


def c31(tier):
    import linwork
    return linwork.check_array(tier)


CHECKS = {'C21': c21, 'C22': c22, 'C23': c23, 'C25': c25, 'C27': c27, 'C28': c28, 'C29': c29, 'C30': c30, 'C31': c31}
