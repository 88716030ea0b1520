"""C29: the work of one insertion or removal in the linear hash table is bounded.

Abstract interpretation of the table's own counters only: count, split, low_max, bucket_max, bucket_bit and the state are linear
expressions over the number of elements C, the split position S, Q (low_max is a constant times Q, a power of two) and q = log2 Q,
with linear constraints; nodes, chains and buckets are unknown. Every operation starts from the invariant

    stable : split = 0, low_max = bucket_max, 2 C <= bucket_max, and 8 C >= bucket_max unless the table has its minimal size
    growing / shrinking : bucket_max = 2 low_max, 0 < split < low_max, 2 C <= low_max + split, and 4 C >= low_max (growing),
                          8 C >= low_max + split (shrinking)

Loops that do not change the counters (walks of a chain) are cut when a state repeats; the others are followed with the constraints,
so that a loop of a bounded number of passes ends. Decided: the number of such passes, the number of buckets that enter or leave the
table, that no other work is proportional to the table, and that the invariant holds again.
"""
import time
from math import gcd
import ir
import ops_lin
from report import Report

LIMIT = 16      # buckets moved by one operation
PASSES = 80     # visits of one block on one path, constant loops included


class Lost(Exception):
    def __init__(self, msg, ins=None):
        Exception.__init__(self, msg)
        self.ins = ins


# ---- linear expressions: (const, ((sym, coef)...)), constraints e >= 0
def lin(c, **k):
    return (c, tuple(sorted((s, v) for s, v in k.items() if v)))


def add(a, b, f=1):
    d = dict(a[1])
    for s, v in b[1]:
        d[s] = d.get(s, 0) + f * v
    return (a[0] + f * b[0], tuple(sorted((s, v) for s, v in d.items() if v)))


def scale(a, k):
    return (a[0] * k, tuple((s, v * k) for s, v in a[1]) if k else ())


def tight(e):
    """Integer tightening of e >= 0."""
    g = 0
    for _, v in e[1]:
        g = gcd(g, v)
    if g > 1:
        return (e[0] // g, tuple((s, v // g) for s, v in e[1]))
    return e


def feasible(cs):
    """False when the integer constraints e >= 0 have no rational solution (after tightening at each step)."""
    cs = {tight(e) for e in cs}
    while True:
        syms = {}
        best = {}
        for e in cs:
            if not e[1]:
                if e[0] < 0:
                    return False
                continue
            if e[1] not in best or e[0] < best[e[1]]:
                best[e[1]] = e[0]
        cs = {(c, t) for t, c in best.items()}
        if not cs:
            return True
        for _, t in cs:
            for s, v in t:
                p, n = syms.get(s, (0, 0))
                syms[s] = (p + (v > 0), n + (v < 0))
        s = min(syms, key=lambda x: (syms[x][0] * syms[x][1] - sum(syms[x]), x))
        pos, neg, rest = [], [], set()
        for e in cs:
            v = dict(e[1]).get(s, 0)
            (pos if v > 0 else neg).append((v, e)) if v else rest.add(e)
        for v, e in pos:
            for w, f in neg:
                rest.add(tight(add(scale(e, -w), scale(f, v))))
        if len(rest) > 3000:
            return True
        cs = rest


def implied(cs, e):
    return not feasible(list(cs) + [add((-1, ()), e, -1)])


def project(cs, keep):
    """What the constraints say about the symbols to keep."""
    cs = set(cs)
    for s in sorted({s for _, t in cs for s, _ in t} - set(keep)):
        pos, neg, rest = [], [], set()
        for e in cs:
            v = dict(e[1]).get(s, 0)
            (pos if v > 0 else neg).append((v, e)) if v else rest.add(e)
        for v, e in pos:
            for u, g in neg:
                x = tight(add(scale(e, -u), g, v))
                if x[1]:
                    rest.add(x)
        cs = rest
    return cs


W = 'W'                 # was linear, but what was known about it has been left behind; branches on it may be impossible
U, N = 'U', 'N'         # heap dependent; a function of the counters that is not linear


class St:
    """mem: counters by offset; cons: constraints; exact: no branch depended on a lost value."""

    def __init__(self, mem, cons, exact=True, trail=(), work=0):
        self.mem, self.cons, self.exact, self.trail, self.work = mem, cons, exact, trail, work
        self.fresh = self.soft = False

    def copy(self):
        s = St(dict(self.mem), self.cons, self.exact, self.trail, self.work)
        s.soft = self.soft
        return s

    def key(self):
        return (tuple(sorted(self.mem.items(), key=lambda kv: kv[0])), self.cons, self.exact, self.work, self.trail, self.soft)

    def assume(self, *es):
        s = self.copy()
        s.cons = frozenset(self.cons | {tight(e) for e in es if e[1] or e[0] < 0})
        return s if feasible(s.cons) else None


class Walk:
    def __init__(self, mod, table, base, widen=False, renorm=None):
        self.m, self.base, self.widen = mod, base, widen
        self.renorm = renorm        # offset of a power of two that a loop may double any number of times
        self.F = table              # name -> (offset, size)
        self.scal = {o: n for n, (o, s) in table.items() if n != 'bucket'}
        self.notes = []             # (ins, msg): proportional work
        self.lost = []
        self.over = []              # (state, ins): loops that go on
        self.steps, self.t0, self.heads = 0, None, {}
        self.nfun = set()

    # ---- expressions of q: 1 << (const + q) = 2^const * Q
    def pow2(self, e):
        d = dict(e[1])
        if not d:
            return (1 << e[0], ()) if 0 <= e[0] < 64 else N
        if d == {'q': 1} and e[0] >= 0:
            return (0, (('Q', 1 << e[0]),))
        return N

    def div(self, st, e, d):
        if not d:
            return st, N
        if e[0] % d == 0 and all(v % d == 0 for _, v in e[1]):
            return st, (e[0] // d, tuple((s, v // d) for s, v in e[1]))
        nm = 'F%d_%s' % (d, abs(hash((e, d))))
        f = (0, ((nm, 1),))
        r = st.copy()
        r.cons = frozenset(st.cons | {add(e, f, -d), add(add((d - 1, ()), e, -1), f, d)})
        # the floor is one of a known pair of expressions when the constraints say so
        return r, f

    def val(self, v, ty, regs):
        k = v[0]
        if k == 'reg':
            return regs.get(v[1], N)
        if k == 'int':
            c = v[1]
            if ty.k == 'int' and ty.n > 1 and c >= 1 << (ty.n - 1):
                c -= 1 << ty.n
            return (c, ())
        if k == 'zero':
            return (0, ())
        if k == 'cexpr':
            return U
        return U

    def run(self, f, args, st, depth=0):
        """All outcomes (state, value)."""
        if depth > 12:
            raise Lost('recursion')
        self.nfun.add(f.name)
        outs = []
        regs = {n: v for (t, n), v in zip(f.params, args)}
        todo = [(f.order[0], None, regs, st, {})]
        seen = set()
        while todo:
            cur, prev, regs, st, visits = todo.pop()
            blk = f.blocks[cur]
            ph = {}
            for ins in blk.ins:
                if ins.op != 'phi':
                    break
                for v, b in ins.a:
                    if b == prev:
                        ph[ins.res] = self.val(v, ins.ty, regs)
            regs = dict(regs)
            regs.update(ph)
            k = (cur, tuple(sorted((a, b) for a, b in regs.items() if a in self.live(f, cur))), st.key())
            if k in seen:
                continue
            seen.add(k)
            n, mem0 = visits.get(cur, (0, st.mem))
            if self.renorm is not None and n >= 1 and st.mem.get(self.renorm) == (0, (('Q', 2 * self.base),)):
                regs, st = self.rename(f, cur, regs, st)
                n = min(n, 2)
                k = (cur, tuple(sorted(((a, b) for a, b in regs.items()), key=repr)), st.key())
                if k in seen:
                    continue
                seen.add(k)
                visits = {}
            n += 1
            visits = dict(visits)
            visits[cur] = (n, mem0)
            if self.widen and n > 3 and ph and mem0 == st.mem:
                # a loop that leaves the counters alone: any number of passes, its variables are anything
                wide = {a: U for a in ph if isinstance(regs[a], tuple) and isinstance(regs[a][0], int)}
                if wide:
                    regs.update(wide)
                    k = (cur, tuple(sorted((a, b) for a, b in regs.items() if a in self.live(f, cur))), st.key())
                    if k in seen:
                        continue
                    seen.add(k)
            if n > PASSES:
                self.over.append((st, blk.ins[-1], cur))
                continue
            self.steps += 1
            if self.t0 is None:
                self.t0 = time.time()
            if self.steps > 60000 or time.time() - self.t0 > 20:
                raise Lost('too many cases', blk.ins[-1])
            states = [(regs, st)]
            for ins in blk.ins:
                if ins.op == 'phi':
                    continue
                if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                    for rg, s in states:
                        self.term(f, ins, rg, s, cur, visits, todo, outs, depth)
                    break
                nxt = []
                for rg, s in states:
                    s.fresh = False
                    for s2, r in self.step(ins, rg, s, depth):
                        rg2 = rg
                        if s2.fresh:            # Q has another meaning than before the call
                            known = {x for _, t in s2.cons for x, _ in t} - {'Q', 'q'}
                            rg2 = {a: N if ("'Q'" in repr(b) or "'q'" in repr(b)) else W if isinstance(b, tuple) and isinstance(b[0], int) and {x for x, _ in b[1]} - known else b
                                   for a, b in rg.items()}
                        if ins.res:
                            rg2 = dict(rg2)
                            rg2[ins.res] = r
                        nxt.append((rg2, s2))
                states = nxt
        # outcomes that agree on the counters are one
        res, got = [], set()
        for s, v in outs:
            k = (s.key(), v)
            if k not in got:
                got.add(k)
                res.append((s, v))
        return res

    def rename(self, f, cur, regs, st):
        """The power of two has doubled: call it Q again."""
        def sub(v):
            if not isinstance(v, tuple) or v[0] == 'T':
                return v
            if not isinstance(v[0], int):
                return N
            d = dict(v[1])
            if d.get('Q', 0) % 2:
                return N
            c = v[0] - d.get('q', 0)
            if 'Q' in d:
                d['Q'] //= 2
            if c < 0 and 'q' in d:
                return N
            return (c, tuple(sorted((s, x) for s, x in d.items() if x)))
        # registers of the loop are computed again, except the variables of its head
        reach = lambda b0: self._reach(f, b0)
        loop = {b for b in reach(cur) if cur in reach(b)} | {cur}
        inner = {i.res for b in loop for i in f.blocks[b].ins if i.res and not (b == cur and i.op == 'phi')}
        c = getattr(f, '_after', None)
        if c is None:
            c = f._after = {}
        if cur not in c:
            got, todo = set(), [i.a for b in reach(cur) | {cur} for i in f.blocks[b].ins]
            while todo:
                x = todo.pop()
                if isinstance(x, (tuple, list)):
                    if len(x) == 2 and x[0] == 'reg':
                        got.add(x[1])
                    else:
                        todo += list(x)
            c[cur] = got
        regs = {a: sub(b) for a, b in regs.items() if a not in inner and a in c[cur]}
        st = st.copy()
        st.mem = {o: sub(v) for o, v in st.mem.items()}
        used = {'Q', 'q'}
        for v in list(regs.values()) + list(st.mem.values()):
            if isinstance(v, tuple) and isinstance(v[0], int):
                used |= set(dict(v[1]))
        cs = set()
        for c, t in project(st.cons, used):
            d = dict(t)
            if not set(d) - {'Q', 'q'}:
                continue
            k = 2 if d.get('Q', 0) % 2 else 1
            c = c * k - d.get('q', 0) * k
            d = {s: x * k for s, x in d.items()}
            if 'Q' in d:
                d['Q'] //= 2
            cs.add(tight((c, tuple(sorted((s, x) for s, x in d.items() if x)))))
        cs |= {tight(e) for e in ((-1, (('q', 1),)), (-2, (('Q', 1),)), (1 << 40, (('Q', -1),)))}
        for e in sorted(cs):            # what follows from the rest is not kept
            if set(dict(e[1])) - {'Q', 'q'} and implied(cs - {e}, e):
                cs = cs - {e}
        old = self.heads.setdefault((f.name, cur), [0, frozenset()])
        old[0] += 1
        if old[0] > 8 and cs - old[1] and not old[1] - cs == set():     # still changing: keep what stays
            cs &= old[1]
            st.exact = False
        old[1] = frozenset(cs)
        st.cons = frozenset(cs)
        st.trail = (1,)
        return regs, st

    def _reach(self, f, b0):
        c = getattr(f, '_reach', None)
        if c is None:
            c = f._reach = {}
        if b0 not in c:
            succ = lambda b: [x for i in f.blocks[b].ins[-1:] for x in ([i.x[0], i.x[1]] if i.op == 'br' and i.a else [i.x[0]] if i.op == 'br' else [i.x[0]] + [l for _, l in i.x[1]] if i.op == 'switch' else [])]
            got, todo = set(), [b0]
            while todo:
                for x in succ(todo.pop()):
                    if x not in got:
                        got.add(x)
                        todo.append(x)
            c[b0] = got
        return c[b0]

    def live(self, f, cur):
        """Registers used anywhere (an over-approximation of the live ones that keeps the keys comparable)."""
        c = getattr(f, '_used', None)
        if c is None:
            c = f._used = {i.res for b in f.order for i in f.blocks[b].ins if i.res} | {n for _, n in f.params}
        return c

    def cond(self, st, pred, a, b):
        """[(state, 0/1)]"""
        if not isinstance(a, tuple) or not isinstance(b, tuple) or a[0] == 'T' or b[0] == 'T':
            bad = N in (a, b)
            r = []
            for t in (1, 0):
                s = st.copy()
                if bad:
                    s.exact = False
                if W in (a, b):
                    s.soft = s.soft or (tuple(sorted(st.mem.items(), key=lambda kv: kv[0])), st.cons)
                r.append((s, t))
            return r
        d = add(b, a, -1)       # b - a
        lt = (add(d, (-1, ())),)
        le = (d,)
        gt = (add(scale(d, -1), (-1, ())),)
        ge = (scale(d, -1),)
        op = pred if pred in ('eq', 'ne') else pred[1:]
        alts = {'lt': ((1, lt), (0, ge)), 'le': ((1, le), (0, gt)), 'gt': ((1, gt), (0, le)), 'ge': ((1, ge), (0, lt)),
                'eq': ((1, le + ge), (0, lt), (0, gt)), 'ne': ((0, le + ge), (1, lt), (1, gt))}[op]
        out = []
        for t, cs in alts:
            s = st.assume(*[x for e in cs for x in self.link(e)])
            if s is not None:
                out.append((s, t))
        return out

    def link(self, e):
        """A bound of q says something about Q = 2^q."""
        d = dict(e[1])
        out = [e]
        if set(d) == {'q'} and abs(d['q']) == 1:
            if d['q'] == 1:             # q >= -c
                if 0 < -e[0] < 60:
                    out.append((-(1 << -e[0]), (('Q', 1),)))
            elif 0 <= e[0] < 60:        # q <= c
                out.append(((1 << e[0]), (('Q', -1),)))
        return out

    def term(self, f, ins, regs, st, cur, visits, todo, outs, depth):
        if ins.op == 'unreachable':
            return
        if ins.op == 'ret':
            outs.append((st, self.val(ins.a[0], ins.ty, regs) if ins.a else None))
            return
        if ins.op == 'br':
            if not ins.a:
                todo.append((ins.x[0], cur, regs, st, visits))
                return
            c = self.val(ins.a[0], ir.Ty('int', 1), regs)
            for s, t in self.truth(st, c):
                todo.append((ins.x[0] if t else ins.x[1], cur, regs, s, visits))
            return
        v = self.val(ins.a[0], ins.ty, regs)
        rest = [st]
        for k, l in ins.x[1]:
            nr = []
            for s in rest:
                for s2, t in self.cond(s, 'eq', v, (k, ())):
                    if t:
                        todo.append((l, cur, regs, s2, visits))
                    else:
                        nr.append(s2)
            rest = nr
        for s in rest:
            todo.append((ins.x[0], cur, regs, s, visits))

    def truth(self, st, c):
        if isinstance(c, tuple) and c[0] == 'C':
            return self.cond(st, c[1], c[2], c[3])
        if isinstance(c, tuple) and c[0] == 'not':
            return [(s, 1 - t) for s, t in self.truth(st, c[1])]
        if isinstance(c, tuple) and c[0] in ('and', 'or'):
            out = []
            for s, t in self.truth(st, c[1]):
                if (c[0] == 'and') == bool(t):
                    out += self.truth(s, c[2])
                else:
                    out.append((s, t))
            return out
        return self.cond(st, 'ne', c, (0, ()))

    def step(self, ins, regs, st, depth):
        o = ins.op
        V = lambda i, ty=None: self.val(ins.a[i], ty or ins.ty, regs)
        isnum = lambda x: isinstance(x, tuple) and isinstance(x[0], int)
        if o in ('add', 'sub', 'mul', 'shl', 'lshr', 'udiv', 'ashr', 'sdiv', 'and', 'or', 'xor', 'urem', 'srem'):
            a, b = V(0), V(1)
            if ins.ty.k == 'int' and ins.ty.n == 1:
                if o == 'xor' and b in ((1, ()), (-1, ())):
                    return [(st, ('not', a))]
                if o in ('and', 'or') and U not in (a, b) and N not in (a, b) and W not in (a, b):
                    return [(st, (o, a, b))]
            if W in (a, b):
                return [(st, W)]
            if U in (a, b):
                return [(st, U)]
            if not isnum(a) or not isnum(b):
                return [(st, N)]
            if o == 'add':
                return [(st, add(a, b))]
            if o == 'sub':
                return [(st, add(a, b, -1))]
            if o == 'mul' and (not a[1] or not b[1]):
                return [(st, scale(a, b[0]) if not b[1] else scale(b, a[0]))]
            if o == 'shl':
                if not b[1]:
                    return [(st, scale(a, 1 << b[0]))]
                p = self.pow2(b)
                if p == N:
                    return [(st, N)]
                if not a[1]:
                    return [(st, scale(p, a[0]))]
                return [(st, N)]
            if o in ('lshr', 'ashr', 'udiv', 'sdiv') and not b[1]:
                d = 1 << b[0] if o in ('lshr', 'ashr') else b[0]
                if d > 0 and implied(st.cons, a):
                    return [self.div(st, a, d)]
            if o == 'and' and not b[1] and b[0] < 0 and -b[0] & (-b[0] - 1) == 0 and a[1] and implied(st.cons, a):
                s2, f = self.div(st, a, -b[0])
                return [(s2, scale(f, -b[0]))]
            if o in ('and', 'urem') and not b[1] and b[0] > 0 and a[1] and implied(st.cons, a):
                d = b[0] + 1 if o == 'and' else b[0]
                if o == 'urem' or d & (d - 1) == 0:
                    s2, f = self.div(st, a, d)
                    return [(s2, add(a, f, -d))]
            if not a[1] and not b[1] and a[0] >= 0 and b[0] >= 0:
                f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}.get(o)
                if f:
                    return [(st, (f(a[0], b[0]), ()))]
            return [(st, N)]
        if o == 'icmp':
            return [(st, ('C', ins.x, V(0), V(1)))]
        if o in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = self.val(ins.a[0], ins.x if isinstance(ins.x, ir.Ty) else ins.ty, regs)
            if isinstance(a, tuple) and a[0] in ('C', 'not', 'and', 'or'):
                return [(s, (t if o != 'sext' else -t, ())) for s, t in self.truth(st, a)] if o in ('zext', 'sext') else [(st, a)]
            if o == 'trunc' and isnum(a) and a[1] and set(dict(a[1])) != {'q'}:
                return [(st, N)]
            if o in ('ptrtoint', 'inttoptr'):
                return [(st, U)]
            return [(st, a)]
        if o == 'select':
            c = self.val(ins.a[0], ir.Ty('int', 1), regs)
            return [(s, V(1) if t else V(2)) for s, t in self.truth(st, c)]
        if o == 'getelementptr':
            p = self.val(ins.a[0][1], ins.a[0][0], regs)
            if not (isinstance(p, tuple) and p[0] == 'T'):
                return [(st, U)]
            off, t = p[1], ins.x
            for n, (ty, v) in enumerate(ins.a[1:]):
                i = self.val(v, ty, regs)
                if n and t.k in ('named', 'struct') and isnum(i):
                    d, e = self.m.offset(t, i[0])
                    off, t = off + d, e
                    continue
                if n:
                    t = t.e
                if not isnum(i) or i[1]:
                    # an element of the vector of segments, decided by C17 and C18
                    return [(st, U)] if self.F['bucket'][0] <= off < self.F['bucket'][0] + self.F['bucket'][1] else [(st, N)]
                off += i[0] * self.m.sizeof(t)
            return [(st, ('T', off))]
        if o == 'load':
            p = V(0, ir.PTR)
            if isinstance(p, tuple) and p[0] == 'T':
                if p[1] in self.scal:
                    return [(st, st.mem.get(p[1], N))]
                return [(st, U)]
            return [(st, U if p == U else N)]
        if o == 'store':
            p = self.val(ins.a[1], ir.PTR, regs)
            if isinstance(p, tuple) and p[0] == 'T':
                if p[1] in self.scal:
                    s = st.copy()
                    v = V(0)
                    if isinstance(v, tuple) and v[0] == 'C':
                        v = N
                    s.mem[p[1]] = v
                    if s.soft:
                        s.exact = False
                    return [(s, None)]
                return [(st, None)]
            if p == N:
                raise Lost('store through a lost address', ins)
            return [(st, None)]
        if o == 'alloca':
            return [(st, U)]
        if o == 'call':
            nm = ins.x[1] if ins.x[0] == 'glob' else None
            args = [self.val(v, t, regs) for t, v in ins.a if t.k != 'metadata'] if not (nm or '').startswith('llvm.dbg') else []
            if nm in self.m.funcs:
                f = self.m.funcs[nm]
                if self.renorm is not None:
                    st0 = st.copy()
                    st0.trail = ()
                    outs = self.run(f, args, st0, depth + 1)
                    for s, _ in outs:
                        s.fresh = bool(s.trail)
                        s.trail = s.trail or st.trail
                    return outs
                outs = self.run(f, args, st, depth + 1)
                # a helper that only computes: its branches do not matter
                if outs and all(s.mem == st.mem and s.work == st.work for s, _ in outs) and all(v in (U, N, None) for _, v in outs):
                    vs = {v for _, v in outs}
                    return [(st, N if N in vs else U if U in vs else None)]
                return outs
            if nm in ('calloc', 'realloc', 'memset', 'memcpy', 'memmove') or (nm or '').startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                sz = [a for a in (args[:2] if nm == 'calloc' else args[-1:] if nm in ('realloc', 'memset', 'memcpy', 'memmove') else args[2:3])]
                if any(isnum(a) and a[1] for a in sz):
                    self.notes.append((ins, nm, st))
                elif any(not isnum(a) for a in sz):
                    self.lost.append((ins, 'the size given to %s is not followed' % nm))
                return [(st, U)]
            if (nm or '').startswith('llvm.expect') or (nm or '').startswith('llvm.ssa'):
                return [(st, args[0])]
            if (nm or '').startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.umin', 'llvm.umax')):
                return [(st, U if U in args else N)]
            return [(st, U)]        # the allocator or the user's comparison: they do not see the table
        return [(st, N)]


def cases(base):
    """The invariant: (name, counters, constraints)."""
    L = (0, (('Q', base),))
    C, S = (0, (('C', 1),)), (0, (('S', 1),))
    bit0 = base.bit_length() - 1
    q = (0, (('q', 1),))
    pos = [C, add((0, (('Q', 1),)), (-1, ())), add((1 << 40, ()), (0, (('Q', 1),)), -1), q, add((0, (('Q', 1),)), add(q, (1, ())), -1)]
    two = scale(L, 2)
    one = (-1, ())
    mask = lambda e: add(e, one)
    out = []
    st = dict(bucket_max=L, bucket_mask=mask(L), low_max=L, low_mask=mask(L), split=(0, ()), count=C, bucket_bit=add(q, (bit0, ())))
    load = add(L, C, -2)
    out.append(('stable, minimal size', 'STABLE', st, pos + [load, scale(q, -1), add((1, ()), (0, (('Q', 1),)), -1)]))
    out.append(('stable', 'STABLE', st, pos + [load, add(scale(C, 8), L, -1)]))
    mv = dict(bucket_max=two, bucket_mask=mask(two), low_max=L, low_mask=mask(L), split=S, count=C, bucket_bit=add(q, (bit0 + 1, ())))
    inside = [add(S, one), add(add(L, S, -1), one)]
    use = add(L, S)
    out.append(('growing', 'GROW', mv, pos + inside + [add(use, C, -2), add(scale(C, 4), L, -1)]))
    out.append(('shrinking', 'SHRINK', mv, pos + inside + [add(use, C, -2), add(scale(C, 8), use, -1)]))
    return out


def witness(cs, syms, vals, budget):
    """Integer values of the symbols that satisfy the constraints, or None."""
    if not feasible(cs):
        return None
    if not syms:
        return vals if all(not t and c >= 0 for c, t in cs) else None
    s = syms[0]
    lo, hi = -(1 << 45), 1 << 45
    while lo < hi:
        mid = (lo + hi) // 2
        if feasible(cs + [(mid, ((s, -1),))]):
            hi = mid
        else:
            lo = mid + 1
    for v in range(lo, lo + 10):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        r = witness([(c + v * dict(t).get(s, 0), tuple((x, y) for x, y in t if x != s)) for c, t in cs], syms[1:], dict(vals, **{str(s): v}), budget)
        if r is not None:
            return r
    return None


def describe(st, base, text='e.g. low_max or bucket_max %(M)d, count %(C)s, split %(S)s before the call'):
    """An integer point of the constraints (Q a power of two), for the message; '' when none is found."""
    for e in (10, 11, 12, 14, 0, 1, 2, 3, 4, 16, 18, 20, 24, 6, 8):
        v0 = {'Q': 1 << e, 'q': e}
        cs = [(c + sum(v * v0[s] for s, v in t if s in v0), tuple((s, v) for s, v in t if s not in v0)) for c, t in st.cons]
        syms = sorted({s for _, t in cs for s, _ in t}, key=lambda s: (s not in ('C', 'S'), str(s)))
        r = witness(cs, syms, {}, [60])
        if r is not None:
            return text % {'M': (1 << e) * base, 'C': r.get('C', '?'), 'S': r.get('S', 0), 'B': r.get('B', 0)}
    return ''


def check(tier):
    R = Report('C29', tier)
    R.rule = ('from every state of the invariant an insertion or removal makes a bounded number (at most %d) of passes of any loop other than the walk of a chain, moves at most %d buckets, '
              'does no other work proportional to the table, keeps the load of the buckets in use at or below one half and re-establishes the invariant' % (PASSES, LIMIT))
    R.assumptions = ['malloc and free take a time that does not depend on the size', 'fewer than 2^46 buckets', 'nodes, vectors and the table are separate objects (C17, C18)']
    todo = [('native', ir.load())]
    if tier == 'thorough':
        todo += [('portable', ir.load(pre='portable')), ('c++', ir.load(lang='c++'))]
    for vn, m in todo:
        codes, bit0 = ops_lin.consts(m)
        base = 1 << bit0
        F = m.struct_fields('tommy_hashlin_struct')
        need = {'bucket', 'bucket_max', 'low_max', 'split', 'count', 'bucket_bit', 'state'}
        if not need <= set(F):
            R.undecided('%s/fields' % vn, 'tommyhashlin.h', 'the table has other fields than expected: %s' % sorted(F))
            continue
        for fn in ('tommy_hashlin_insert', 'tommy_hashlin_remove', 'tommy_hashlin_remove_existing'):
            f = m.funcs.get(fn)
            if f is None:
                raise ir.AnalysisBroken('%s is missing' % fn)
            where = '%s:%s' % (f.file, f.line)
            R.count('functions')
            for name, code, fields, cons in cases(base):
                key = '%s/%s from %s' % (vn, fn, name)
                if code not in codes:
                    R.undecided(key, where, 'state codes not found')
                    continue
                w = Walk(m, F, base)
                mem = {F[n][0]: v for n, v in fields.items() if n in F}
                mem[F['state'][0]] = (codes[code], ())
                cs = list(cons)
                if 'remove' in fn:
                    cs.append((-1, (('C', 1),)))
                st = St(mem, frozenset(tight(e) for e in cs))
                if not feasible(st.cons):
                    continue
                R.count('starting_states')
                args = [('T', 0)] + [U] * (len(f.params) - 1)
                try:
                    outs = w.run(f, args, st)
                except Lost as e:
                    R.undecided(key, m.loc(e.ins) if e.ins is not None else where, str(e))
                    continue
                R.count('blocks_followed', w.steps)
                R.count('paths', len(outs))
                # passes
                k = key + ': passes of the loops'
                if not w.over:
                    R.ok(k)
                for s, ins, b in w.over[:1]:
                    ex = [(x, d) for x in w.over if x[0].exact for d in [describe(x[0], base)] if d][:1]
                    if ex:
                        R.bad(k, m.loc(ex[0][0][1]), '%s: more than %d passes in one operation; %s' % (fn, PASSES, ex[0][1]))
                    else:
                        R.undecided(k, m.loc(ins), 'a loop that may go on, on values that are not followed')
                k = key + ': no copy or clearing of a whole vector'
                if w.notes:
                    ins, nm, s = w.notes[0]
                    R.bad(k, m.loc(ins), '%s calls %s with a size proportional to the table' % (fn, nm))
                elif w.lost:
                    R.undecided(k, m.loc(w.lost[0][0]), w.lost[0][1])
                else:
                    R.ok(k)
                g = lambda s, n: s.mem.get(F[n][0], N)
                use0 = add(fields['low_max'], fields['split'])
                for s, v in outs:
                    vals = [g(s, n) for n in ('low_max', 'split', 'count', 'bucket_max', 'bucket_bit', 'state')]
                    if any(not (isinstance(x, tuple) and isinstance(x[0], int)) for x in vals):
                        R.undecided(key + ': counters', where, 'a counter is not followed')
                        continue
                    lo, sp, C, mx, bit, stt = vals
                    use = add(lo, sp)

                    def must(what, e, definite):
                        kk = '%s: %s' % (key, what)
                        if implied(s.cons, e):
                            R.ok(kk)
                            return
                        t = s.assume(add((-1, ()), e, -1)) if definite and s.exact else None
                        d = describe(t, base) if t else ''
                        if d:
                            R.bad(kk, where, '%s: %s fails; %s' % (fn, what, d))
                        else:
                            R.undecided(kk, where, '%s is not shown' % what)
                    must('at most %d buckets enter the table' % LIMIT, add(add(use0, (LIMIT, ())), use, -1), True)
                    must('at most %d buckets leave the table' % LIMIT, add(use, add(use0, (-LIMIT, ())), -1), True)
                    must('the buckets in use are at most half full', add(use, C, -2), 'insert' in fn)
                    kk = key + ': the buckets in use are at least an eighth full, or as many as at the beginning'
                    t = s.assume(add(add(use, scale(C, 8), -1), (-1, ())), add(use, (-base - 1, ())))
                    if t is None:
                        R.ok(kk)
                    elif 'remove' in fn and s.exact and describe(t, base):
                        R.bad(kk, where, '%s: the buckets in use are less than an eighth full and not shrunk; %s' % (fn, describe(t, base)))
                    else:
                        R.undecided(kk, where, 'not shown')
                    if stt[1]:
                        R.undecided(key + ': state', where, 'the state is not followed')
                        continue
                    if stt[0] == codes['STABLE']:
                        must('stable: no bucket is missing', add(use, mx, -1), False)
                        must('stable: no bucket is beyond', add(mx, use, -1), False)
                        k = '%s: stable: not too large' % key
                        big = s.assume(add(add(bit, (-bit0 - 1, ())), (0, ())), *w.link(add(bit, (-bit0 - 1, ()))))
                        if big is None or implied(big.cons, add(scale(C, 8), mx, -1)):
                            R.ok(k)
                        else:
                            R.undecided(k, where, 'a stable table may be less than 12.5% full')
                    elif stt[0] in (codes['GROW'], codes['SHRINK']):
                        must('moving: the vector is twice the lower half', add(mx, lo, -2), False)
                        must('moving: the vector is not more', add(scale(lo, 2), mx, -1), False)
                        must('moving: split is inside', add(add(lo, sp, -1), (-1, ())), False)
                        must('moving: split has started', add(sp, (-1, ())), False)
                        if stt[0] == codes['GROW']:
                            must('growing: at least a quarter of the lower half is full', add(scale(C, 4), lo, -1), False)
                        else:
                            must('shrinking: at least an eighth is full', add(scale(C, 8), use, -1), False)
                    else:
                        R.undecided(key + ': state', where, 'unknown state code %d' % stt[0])
        f = m.funcs.get('tommy_hashlin_init')
        if f is not None:
            w = Walk(m, F, base)
            try:
                outs = [o for o in w.run(f, [('T', 0)], St({}, frozenset()))]
                for s, v in outs:
                    want = {'low_max': base, 'split': 0, 'count': 0, 'bucket_max': base, 'bucket_bit': bit0, 'state': codes['STABLE']}
                    for n, c in want.items():
                        if s.mem.get(F[n][0]) == (c, ()):
                            R.ok('%s/tommy_hashlin_init: %s' % (vn, n))
                        else:
                            R.undecided('%s/tommy_hashlin_init: %s' % (vn, n), '%s:%s' % (f.file, f.line), 'the initial %s is not %d' % (n, c))
            except Lost as e:
                R.undecided('%s/tommy_hashlin_init' % vn, '%s:%s' % (f.file, f.line), str(e))
    return R.finish(floor=8)


def check_dyn(tier):
    """C30: the load of the dynamic hash table, and the distance between two resizes."""
    R = Report('C30', tier)
    R.rule = ('from every state with count < bucket_max / 2 and count > bucket_max / 8 (or the initial size) an insertion or removal changes the size at most by a factor of two, '
              'keeps those bounds, and leaves a resized table at least bucket_max / 16 operations away from the next resize')
    R.assumptions = ['fewer than 2^46 buckets', 'nodes, vectors and the table are separate objects (C17, C18)']
    todo = [('native', ir.load())]
    if tier == 'thorough':
        todo += [('portable', ir.load(pre='portable')), ('c++', ir.load(lang='c++')), ('32 bit', ir.load(ptrbits=32))]
    import os, re
    t = ''.join(open(os.path.join(ir.REPO, 'tommyds', f)).read() for f in ('tommyhashdyn.h', 'tommyhashdyn.c'))
    x = re.search(r'#\s*define\s+TOMMY_HASHDYN_BIT\s+(\d+)', t)
    bit0 = int(x.group(1)) if x else 4
    base = 1 << bit0
    C = (0, (('C', 1),))
    q = (0, (('q', 1),))
    Q = (0, (('Q', 1),))
    M = scale(Q, base)
    pos = [C, add(Q, (-1, ())), add((1 << 40, ()), Q, -1), q, add(Q, add(q, (1, ())), -1)]
    for vn, m in todo:
        if m.ptr != 8:
            pos = pos[:2] + [add((1 << 20, ()), Q, -1)] + pos[3:]
        F = m.struct_fields('tommy_hashdyn_struct')
        if not {'bucket', 'bucket_max', 'count', 'bucket_bit'} <= set(F):
            R.undecided('%s/fields' % vn, 'tommyhashdyn.h', 'the table has other fields than expected: %s' % sorted(F))
            continue
        for fn in ('tommy_hashdyn_insert', 'tommy_hashdyn_remove', 'tommy_hashdyn_remove_existing'):
            f = m.funcs.get(fn)
            if f is None:
                raise ir.AnalysisBroken('%s is missing' % fn)
            where = '%s:%s' % (f.file, f.line)
            R.count('functions')
            load = add(add(M, C, -2), (-1, ()))
            starts = [('the initial size', pos + [load, scale(q, -1), add((1, ()), Q, -1)], None),
                      ('a grown table', pos + [load, add(add(scale(C, 8), M, -1), (-1, ())), add(q, (-1, ())), add(Q, (-2, ()))], None)]
            for name, cons, frm in starts:
                key = '%s/%s from %s' % (vn, fn, name)
                w = Walk(m, F, base, widen=True)
                mem = {F[n][0]: v for n, v in dict(bucket_max=M, bucket_mask=add(M, (-1, ())), count=C, bucket_bit=add(q, (bit0, ()))).items() if n in F}
                if frm is not None:             # a second call after one that left the invariant
                    mem = dict(frm.mem)
                cn0 = mem[F['count'][0]]
                cs = list(cons) + ([add(cn0, (-1, ()))] if 'remove' in fn else [])
                st = St(mem, frozenset(tight(e) for e in cs))
                if not feasible(st.cons):
                    continue
                R.count('starting_states')
                try:
                    outs = w.run(f, [('T', 0)] + [U] * (len(f.params) - 1), st)
                except Lost as e:
                    R.undecided(key, m.loc(e.ins) if e.ins is not None else where, str(e))
                    continue
                for s, ins, b in w.over[:1]:
                    R.undecided(key, m.loc(ins), 'a loop that may go on')
                R.count('blocks_followed', w.steps)
                R.count('paths', len(outs))
                for s, v in outs:
                    vals = [s.mem.get(F[n][0], N) for n in ('bucket_max', 'count', 'bucket_bit')]
                    if any(not (isinstance(x, tuple) and isinstance(x[0], int)) for x in vals):
                        R.undecided(key + ': counters', where, 'a counter is not followed')
                        continue
                    mx, cn, bit = vals

                    def must(what, bad, definite=True):
                        """bad: constraints of the opposite."""
                        kk = '%s: %s' % (key, what)
                        t = s.assume(*bad)
                        if t is None:
                            R.ok(kk)
                            return
                        d = describe(t, base) if definite and s.exact else ''
                        if d:
                            R.bad(kk, where, '%s: %s fails; %s' % (fn, what, d))
                        else:
                            R.undecided(kk, where, '%s is not shown' % what)
                            if frm is None and s.exact and mx == M and bit == mem[F['bucket_bit'][0]]:
                                starts.append(('%s, called twice' % name, list(t.cons), t))
                    below = lambda a, b: add(add(b, a, -1), (-1, ()))       # a < b
                    must('the size is at most doubled', [below(scale(M, 2), mx)])
                    must('the size is at most halved', [below(scale(mx, 2), M)])
                    must('the table is at most half full', [below(mx, scale(cn, 2))], 'insert' in fn)
                    must('the table is less than half full', [below(mx, add(scale(cn, 2), (1, ())))], False)
                    small = w.link(add(bit, (-bit0 - 1, ())))
                    must('the table is at least an eighth full or has its initial size', [below(scale(cn, 8), mx)] + small, 'remove' in fn)
                    must('the table is more than an eighth full or has its initial size', [below(scale(cn, 8), add(mx, (1, ())))] + small, False)
                    must('the table is not smaller than at the beginning', [below(mx, (base, ()))])
                    if mx != M:
                        must('after a resize the next growth is far', [below(scale(mx, 7), scale(cn, 16))])
                        must('after a resize the next shrink is far', [below(scale(cn, 16), scale(mx, 3))] + small)
                    # the number of bits goes with the size
                    d = dict(bit[1])
                    p = w.pow2(bit) if bit[0] >= 0 else (0, (('Q', 1 << bit[0] + 64),))
                    kk = key + ': bucket_bit is the logarithm of bucket_max'
                    if p == mx:
                        R.ok(kk)
                    else:
                        R.undecided(kk, where, 'bucket_bit and bucket_max are not related')
        f = m.funcs.get('tommy_hashdyn_init')
        if f is not None:
            w = Walk(m, F, base)
            try:
                for s, v in w.run(f, [('T', 0)], St({}, frozenset())):
                    for n, c in {'count': 0, 'bucket_max': base, 'bucket_bit': bit0}.items():
                        if s.mem.get(F[n][0]) == (c, ()):
                            R.ok('%s/tommy_hashdyn_init: %s' % (vn, n))
                        else:
                            R.undecided('%s/tommy_hashdyn_init: %s' % (vn, n), '%s:%s' % (f.file, f.line), 'the initial %s is not %d' % (n, c))
            except Lost as e:
                R.undecided('%s/tommy_hashdyn_init' % vn, '%s:%s' % (f.file, f.line), str(e))
    return R.finish(floor=8)


def check_array(tier):
    """C31: the arrays hold no more memory than documented."""
    R = Report('C31', tier)
    R.rule = ('from every state with the capacity less than twice the size (or the initial 64 elements) a growth to any size leaves such a state; '
              'in the arrays of blocks the number of blocks is the size divided by the elements of a block, rounded up')
    R.assumptions = ['sizes below 2^40 (2^28 on 32 bits)', 'the segments, the blocks and the array are separate objects (C15, C17)', 'the heap memory held is the capacity (C24)']
    todo = [('native', ir.load())]
    if tier == 'thorough':
        todo += [('portable', ir.load(pre='portable')), ('c++', ir.load(lang='c++')), ('32 bit', ir.load(ptrbits=32))]
    import os, re
    t = ''.join(open(os.path.join(ir.REPO, 'tommyds', f)).read() for f in sorted(os.listdir(os.path.join(ir.REPO, 'tommyds'))) if 'array' in f)

    def const(n, d):
        x = re.search(r'#\s*define\s+%s\s+([0-9* ()]+)' % n, t)
        try:
            return eval(x.group(1)) if x else d
        except Exception:
            return d
    C, S, q, Q, B = [(0, ((n, 1),)) for n in 'CSqQB']
    below = lambda a, b: add(add(b, a, -1), (-1, ()))       # a < b
    for vn, m in todo:
        lim = (1 << (40 if m.ptr == 8 else 28), ())
        for fn, sn, bitn, blkn in (('tommy_array_grow', 'tommy_array_struct', 'TOMMY_ARRAY_BIT', None), ('tommy_arrayof_grow', 'tommy_arrayof_struct', 'TOMMY_ARRAYOF_BIT', None),
                                   ('tommy_arrayblk_grow', 'tommy_arrayblk_struct', 'TOMMY_ARRAY_BIT', 'TOMMY_ARRAYBLK_SIZE'),
                                   ('tommy_arrayblkof_grow', 'tommy_arrayblkof_struct', 'TOMMY_ARRAY_BIT', 'TOMMY_ARRAYBLKOF_SIZE')):
            f = m.funcs.get(fn)
            if f is None:
                raise ir.AnalysisBroken('%s is missing' % fn)
            where = '%s:%s' % (f.file, f.line)
            R.count('functions')
            bit0 = const(bitn, 6)
            base = 1 << bit0
            M = scale(Q, base)
            G = m.struct_fields(sn)
            per = const(blkn, 4096) if blkn else 0
            inner = m.struct_fields('tommy_array_struct') if blkn else G
            o0 = G['block'][0] if blkn and 'block' in G else 0
            if not {'bucket', 'bucket_max', 'bucket_bit', 'count'} <= set(inner) or blkn and not {'block', 'count'} <= set(G):
                R.undecided('%s/%s/fields' % (vn, fn), where, 'the array has other fields than expected')
                continue
            F = {n: (o0 + o, z) for n, (o, z) in inner.items() if n != '__size__'}
            if blkn:
                F.update({'total ' + n: v for n, v in G.items() if n not in ('block', '__size__')})
            used = B if blkn else C
            pos = [C, add(lim, C, -1), S, add(lim, S, -1), Q, add(Q, (-1, ())), add(lim, Q, -1), q, add(Q, add(q, (1, ())), -1), add(M, used, -1)]
            if blkn:
                pos += [B, add(scale(B, per), C, -1), add(add(C, scale(B, -per)), (per - 1, ()))]
            for name, cons in (('the initial capacity', pos + [scale(q, -1), add((1, ()), Q, -1)]),
                               ('a larger capacity', pos + [below(M, scale(used, 2)), add(q, (-1, ())), add(Q, (-2, ()))])):
                key = '%s/%s from %s' % (vn, fn, name)
                st = St({F['bucket_max'][0]: M, F['count'][0]: used, F['bucket_bit'][0]: add(q, (bit0, ()))}, frozenset(tight(e) for e in cons))
                if blkn:
                    st.mem[F['total count'][0]] = C
                if not feasible(st.cons):
                    continue
                R.count('starting_states')
                w = Walk(m, F, base, widen=True, renorm=F['bucket_max'][0])
                try:
                    outs = w.run(f, [('T', 0), S] + [U] * (len(f.params) - 2), st)
                except Lost as e:
                    R.undecided(key, m.loc(e.ins) if e.ins is not None else where, str(e))
                    continue
                for s, ins, b in w.over[:1]:
                    R.undecided(key, m.loc(ins), 'a loop that may go on')
                R.count('blocks_followed', w.steps)
                R.count('paths', len(outs))
                # of the branches on a value of which too little is known one is taken: sure when all end with the same counters
                ends = {}
                for s, v in outs:
                    if s.soft:
                        ends.setdefault(s.soft, set()).add(tuple(sorted(s.mem.items(), key=lambda kv: kv[0])))
                for s, v in outs:
                    if s.soft and (w.over or len(ends[s.soft]) > 1):
                        s.exact = False
                for s, v in outs:
                    g = [s.mem.get(F[n][0], N) for n in ('bucket_max', 'count', 'bucket_bit') + (('total count',) if blkn else ())]
                    if any(not (isinstance(x, tuple) and isinstance(x[0], int)) for x in g):
                        R.undecided(key + ': counters', where, 'a counter is not followed')
                        continue
                    mx, cn, bit = g[:3]

                    def must(what, bad, definite=True):
                        kk = '%s: %s' % (key, what)
                        z = s.assume(*bad)
                        if z is None:
                            R.ok(kk)
                            return
                        d = describe(z, base, 'e.g. size %(S)s is asked for; in the loop or before the call: capacity %(M)s, size %(C)s, blocks %(B)s') if definite and s.exact else ''
                        if d:
                            R.bad(kk, where, '%s: %s fails; %s' % (fn, what, d))
                        else:
                            R.undecided(kk, where, '%s is not shown' % what)
                    small = w.link(add(bit, (-bit0 - 1, ())))
                    what = 'block pointers' if blkn else 'elements'
                    must('the capacity is less than twice the %s or the initial one' % what, [below(scale(cn, 2), add(mx, (1, ())))] + small)
                    must('the capacity is enough', [below(mx, cn)])
                    if blkn:
                        must('no block is unused', [below(g[3], add(scale(cn, per), (-per + 1, ())))])
                        must('no block is missing', [below(scale(cn, per), g[3])])
                    p = w.pow2(bit)
                    if p == mx:
                        R.ok(key + ': bucket_bit is the logarithm of bucket_max')
                    else:
                        R.undecided(key + ': bucket_bit is the logarithm of bucket_max', where, 'bucket_bit and bucket_max are not related')
    return R.finish(floor=6)
