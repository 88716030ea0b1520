"""Subsumption and join of abstract states at loop heads (and for call summaries)."""
from fractions import Fraction
import data
from num import (Num, Lin, Atom, atom, K, ZERO, ONE, pow2, subst_deep, deep_frozen, rebuild_plain, NeedSplit, Undecided)
from state import Infeasible, State, Region, Arr, Seg, Frame, rsym, map_val


class Mismatch(Exception):
    pass


def lins_of_val(v):
    if isinstance(v, Lin):
        yield v
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            yield from lins_of_val(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from lins_of_val(x)


def lins_of(st):
    """Every term of the state outside the numeric facts."""
    for fr in st.frames:
        for v in fr.regs.values():
            if isinstance(v, Lin):
                yield v
    for v in st.gh.values():
        yield from lins_of_val(v)
    for r in st.heap.values():
        yield r.addr
        yield r.size
        for s, v in r.fields.values():
            yield v
        for a in r.arrs:
            yield a.es
            for lo, hi, t in a.segs:
                yield lo
                yield hi
                yield from lins_of_val(t)
        yield from lins_of_val(r.info)
    for s in st.segs.values():
        yield Lin.atom(Atom.byid[s.first])
        yield Lin.atom(Atom.byid[s.last])
        yield s.P
        yield s.N
        yield s.n
        yield from lins_of_val(s.tags)
    for k, p in st.preds.items():
        yield Lin.atom(Atom.byid[k])
        yield from p.lins()


def atoms_of(st):
    ids = set()
    for l in lins_of(st):
        for i in l.ids():
            ids |= deep_frozen(i)
    for f in st.num.facts:
        for i in f.ids():
            ids |= deep_frozen(i)
    return frozenset(ids)


def slot_atoms(st):
    ids = set()
    for l in lins_of(st):
        for i in l.ids():
            ids |= deep_frozen(i)
    return ids


def gc_facts(st, rigid):
    """Drop the facts about atoms that no longer occur anywhere."""
    keep = slot_atoms(st) | rigid
    n = st.num

    def ok(l):
        for i in l.ids():
            if not (deep_frozen(i) - {i} if Atom.byid[i].kind == 'low' else deep_frozen(i)) <= keep:
                return False
        return True
    facts = n.facts
    # eliminate dead symbols that occur linearly (Fourier-Motzkin), so that transitive bounds survive
    dead = {}
    for f in facts:
        for m, c in f.t:
            for i in m:
                if i not in keep and Atom.byid[i].kind == 'sym':
                    dead.setdefault(i, 0)
                    dead[i] += 1
    for i in sorted(dead):
        pos, neg, rest, bad = [], [], [], False
        for f in facts:
            cs = [c for m, c in f.t if m == (i,)]
            if any(i in deep_frozen(j) for j in f.ids() if j != i) or any(i in m and m != (i,) for m, _ in f.t):
                bad = True
                break
            if not cs:
                rest.append(f)
            elif cs[0] > 0:
                pos.append((f, cs[0]))
            else:
                neg.append((f, cs[0]))
        if bad or len(pos) * len(neg) > 12:
            continue
        for a in n.intrinsic([i]):
            cs = [c for m, c in a.t if m == (i,)]
            if cs and (cs[0] > 0):
                pos.append((a, cs[0]))
            elif cs:
                neg.append((a, cs[0]))
        for f, c in pos:
            for g, d in neg:
                h = f * (-d) + g * c
                if h.const() is None:
                    rest.append(h)
        facts = tuple(dict.fromkeys(rest))
    n.facts = tuple(f for f in facts if ok(f))
    n.diseq = tuple(d for d in n.diseq if ok(d))
    n.known = {k: v for k, v in n.known.items() if deep_frozen(k) - {k} <= keep and ok(v)}
    n._satfor = None


class Match:
    """Walks two states in parallel from the roots."""

    def __init__(self, G, S, rigid, join):
        self.G, self.S, self.rigid, self.join = G, S, rigid, join
        self.addr = {}          # (ag, as) -> J atom id
        self.gmap, self.smap = {}, {}   # region maps
        self.segpairs = {}      # G seg id -> S seg id
        self.segrev = {}
        self.todo = []
        self.slots = []
        self.objs = []          # pairs of regions in order
        self.predpairs = []

    def elimS(self, l):
        return self.S.resolve(l)

    def run(self):
        G, S = self.G, self.S
        if len(G.frames) != len(S.frames):
            raise Mismatch('frames')
        if set(G.gh) != set(S.gh):
            raise Mismatch('ghosts')
        for fg, fs in zip(G.frames, S.frames):
            if fg.fn is not fs.fn or set(fg.regs) != set(fs.regs):
                raise Mismatch('frame')
            for k in sorted(fg.regs):
                self.val(fg.regs[k], fs.regs[k])
            if len(fg.allocas) != len(fs.allocas):
                raise Mismatch('allocas')
            for a, b in zip(fg.allocas, fs.allocas):
                self.pair(a, b)
        for k in sorted(G.gh, key=str):
            self.ghost(k, G.gh[k], S.gh[k])
        while self.todo:
            self.obj(*self.todo.pop())
        # everything must be reached on both sides
        for r in G.heap:
            if r not in self.gmap and not self.ignorable(G, r):
                raise Mismatch('unmatched region of G %r' % Atom.byid[r])
        for r in S.heap:
            if r not in self.smap and not self.ignorable(S, r):
                raise Mismatch('unmatched region of S %r' % Atom.byid[r])
        if len(self.segpairs) != len(G.segs) or len(self.segpairs) != len(S.segs):
            raise Mismatch('segments')
        if len({a for a, _ in self.predpairs}) != len(G.preds) or len({b for _, b in self.predpairs}) != len(S.preds):
            raise Mismatch('predicates')

    def ignorable(self, st, r):
        return st.heap[r].kind in ('fn', 'const', 'glob')

    def ghost(self, k, g, s):
        if isinstance(g, Lin) and isinstance(s, Lin):
            if isinstance(k, str) and k.startswith('#'):
                if g != s:
                    raise Mismatch('ghost %s' % k)
                return
            self.val(g, s)
        elif isinstance(g, tuple) and isinstance(s, tuple) and len(g) == len(s):
            for a, b in zip(g, s):
                self.ghost(k, a, b)
        elif k == 'lows':
            return
        elif g != s:
            raise Mismatch('ghost %s' % (k,))

    def val(self, g, s):
        bg, og = self.G.base_of(g)
        bs, os_ = self.S.base_of(s)
        if (bg is None) != (bs is None):
            raise Mismatch('pointer against non pointer')
        if bg is None:
            # null is structure
            if (g.const() == 0) != (s.const() == 0) and self.ptrish(g, s):
                raise Mismatch('null')
            self.slots.append((g, s))
            return
        self.pair(bg, bs)
        if og != os_ or og.ids():
            self.slots.append((og, os_))

    def ptrish(self, g, s):
        return False

    def pair(self, a, b):
        if (a, b) in self.addr:
            return
        self.addr[(a, b)] = None
        self.todo.append((a, b))

    def seg_role(self, st, a):
        for s in st.segs.values():
            if s.first == a or s.last == a:
                return s
        return None

    def obj(self, a, b):
        G, S = self.G, self.S
        rg, rs = G.heap.get(a), S.heap.get(b)
        if (rg is None) != (rs is None):
            raise Mismatch('object kind')
        if rg is not None:
            if self.gmap.get(a, b) != b or self.smap.get(b, a) != a:
                raise Mismatch('aliasing differs')
            self.gmap[a], self.smap[b] = b, a
            self.region(rg, rs)
            return
        sg, ss = self.seg_role(G, a), self.seg_role(S, b)
        if (sg is None) != (ss is None):
            raise Mismatch('segment against something else')
        if sg is not None:
            # roles: first with first, last with last
            okf = sg.first == a and ss.first == b
            okl = sg.last == a and ss.last == b
            if not (okf or okl):
                raise Mismatch('segment roles')
            if self.segpairs.get(sg.id, ss.id) != ss.id or self.segrev.get(ss.id, sg.id) != sg.id:
                raise Mismatch('segment aliasing')
            new = sg.id not in self.segpairs
            self.segpairs[sg.id], self.segrev[ss.id] = ss.id, sg.id
            if new:
                if sg.lay != ss.lay:
                    raise Mismatch('layout')
                self.pair(sg.first, ss.first)
                self.pair(sg.last, ss.last)
                self.val(sg.P, ss.P)
                self.val(sg.N, ss.N)
                self.slots.append((sg.n, ss.n))
            return
        pg, ps = G.preds.get(a), S.preds.get(b)
        if (pg is None) != (ps is None):
            raise Mismatch('predicate against something else')
        if pg is not None:
            self.predpairs.append((a, b))
            if type(pg) is not type(ps):
                raise Mismatch('predicate type')
            pg.match(self, ps)
            return
        # dangling addresses: any use of them is a fault

    def region(self, r, q):
        if r.kind != q.kind or r.alive != q.alive or len(r.arrs) != len(q.arrs) or set(r.fields) != set(q.fields):
            raise Mismatch('region shape %s' % r.name)
        self.objs.append((r.id, q.id))
        self.slots.append((r.size, q.size))
        for o in sorted(r.fields):
            if r.fields[o][0] != q.fields[o][0]:
                raise Mismatch('field size')
            self.val(r.fields[o][1], q.fields[o][1])
        if set(r.info) != set(q.info):
            raise Mismatch('info')
        for k in sorted(r.info):
            a, b = r.info[k], q.info[k]
            if k == 'tags':
                continue
            if isinstance(a, Lin) and isinstance(b, Lin):
                self.val(a, b)
            elif a != b:
                raise Mismatch('info %s' % k)
        for a, b in zip(r.arrs, q.arrs):
            if a.base != b.base:
                raise Mismatch('array base')
            self.slots.append((a.es, b.es))
            va = [t for _, _, t in a.segs if t[0] == 'val']
            vb = [t for _, _, t in b.segs if t[0] == 'val']
            if len(va) != len(vb):
                raise Mismatch('explicit cells')
            for x, y in zip(va, vb):
                self.val(x[1], y[1])


# ---------------------------------------------------------------- subsumption
def covers(G, S, rigid):
    """Is every concrete state of S described by G?"""
    M = Match(G, S, rigid, False)
    try:
        M.run()
    except Mismatch as e:
        if G.ctx.debug:
            print('  cover mismatch', e)
        return False
    if data.INFO:
        for g, s in M.slots:
            if (data.has(g) or data.has(s)) and not data.le(s, g):
                return False
        M.slots = [x for x in M.slots if not data.has(x[0]) and not data.has(x[1])]
    th = {}
    for (a, b), _ in M.addr.items():
        if th.get(a, b) != b:
            return False
        th[a] = b
        if a in rigid:
            e = S.elim.get(a)
            if b != (e.single().id if e is not None and e.single() is not None else a):
                return False
    T = {a: Lin.atom(Atom.byid[b]) for a, b in th.items() if a != b}
    for a in rigid:
        e = S.elim.get(a)
        if e is not None and a not in T:
            T[a] = e
    bound = set(th) | set(rigid)
    # bounds of arrays with the same number of pieces also bind
    soft = []
    for a, b in M.objs:
        for x, y in zip(G.heap[a].arrs, S.heap[b].arrs):
            if len(x.segs) == len(y.segs):
                for (l1, h1, t1), (l2, h2, t2) in zip(x.segs, y.segs):
                    soft.append((l1, l2))
                    soft.append((h1, h2))
                    for u, v in zip(lins_of_val(t1[1:]), lins_of_val(t2[1:])):
                        soft.append((u, v))
    pend = list(M.slots)
    softp = list(soft)
    memo_rb = S.rebuild
    prog = True
    while prog:
        prog = False
        for lst in (pend, softp):
            for g, s in lst:
                un = [i for i in g.ids() if i not in bound]
                if len(un) == 1 and Atom.byid[un[0]].kind == 'sym':
                    i = un[0]
                    cs = [(m, c) for m, c in g.t if i in m]
                    if len(cs) == 1 and cs[0][0] == (i,):
                        rest = g - Lin(((cs[0][0], cs[0][1]),))
                        try:
                            v = (s - subst_deep(rest, T, memo_rb)) * (Fraction(1) / cs[0][1])
                        except Exception:
                            continue
                        T[i] = v
                        bound.add(i)
                        prog = True
                        break
                # structured unbound atoms: bind their inner symbols by shape
                if un and all(Atom.byid[i].kind not in ('sym', 'addr') for i in un):
                    for i in un:
                        if all(j in bound for j in deep_frozen(i) if Atom.byid[j].kind in ('sym', 'addr')):
                            bound.add(i)
                            prog = True
            if prog:
                break
        if not prog:
            # 2^x bound to 2^y
            for g, s in pend:
                for i in g.ids():
                    a = Atom.byid[i]
                    if i not in bound and a.kind == 'pow2' and len(g.t) == 1:
                        e = S.pow2_exp(s)
                        x = a.args[0].single()
                        if e is not None and x is not None and x.id not in bound:
                            k = g.t[0][1]
                            ee = S.pow2_exp(K(k))
                            if ee is not None:
                                T[x.id] = e - ee
                                bound.add(x.id)
                                bound.add(i)
                                prog = True
    n = S.num

    def th_(l):
        return n.norm(subst_deep(l, T, memo_rb)) if T else n.norm(l)
    dbg = G.ctx.debug
    for g, s in M.slots:
        d = th_(g) - s
        if not n.eq0(d):
            if dbg:
                print('  cover slot', g, s)
            return False
    allb = bound

    def isbound(l):
        return all(j in allb for i in l.ids() for j in deep_frozen(i) if Atom.byid[j].kind in ('sym', 'addr'))
    for f in G.num.facts:
        if isbound(f) and not n.ge(th_(f)):
            if dbg:
                print('  cover fact', f, th_(f))
            return False
    # intrinsic ranges of the symbols
    for i, v in T.items():
        a = Atom.byid[i]
        if a.kind == 'sym' and a.args and v.single() is not a:
            for f in G.num.intrinsic([i]):
                if not n.ge(th_(f)):
                    if dbg:
                        print('  cover range', f, th_(f))
                    return False
    for d in G.num.diseq:
        if isbound(d) and not n.ne0(th_(d)):
            if dbg:
                print('  cover diseq', d)
            return False
    for k, v in G.num.known.items():
        l = Lin.atom(Atom.byid[k])
        if isbound(l) and isbound(v):
            if not n.eq0(th_(l) - th_(v)):
                if dbg:
                    print('  cover known', l, v)
                return False
    for sg, ss in M.segpairs.items():
        A, B = G.segs[sg], S.segs[ss]
        for t in A.tags:
            if not has_tag(S, B.tags, map_val(t, th_)):
                if dbg:
                    print('  cover tag', t, B.tags)
                return False
    for a, b in M.objs:
        for t in G.heap[a].info.get('tags', ()):
            if not has_tag(S, S.heap[b].info.get('tags', ()), map_val(t, th_)):
                if dbg:
                    print('  cover node tag', t)
                return False
        for x, y in zip(G.heap[a].arrs, S.heap[b].arrs):
            if not arr_covers(S, x, y, th_):
                if dbg:
                    print('  cover array', Atom.byid[a], x.segs, y.segs)
                return False
    for a, b in M.predpairs:
        if not G.preds[a].covers(S.preds[b], S, th_):
            return False
    return True


def has_tag(S, tags, t):
    for u in tags:
        if u[0] == t[0] and len(u) == len(t) and all((S.num.eq0(p - q) if isinstance(p, Lin) and isinstance(q, Lin) else p == q) for p, q in zip(u[1:], t[1:])):
            return True
    return S.ctx.derive_tag(S, tags, t)


def arr_covers(S, x, y, th):
    n = S.num
    pos = y.segs[0][0]
    if not n.eq0(th(x.segs[0][0]) - pos) or not n.eq0(th(x.segs[-1][1]) - y.segs[-1][1]):
        return False
    k = 0
    segs = y.segs
    for lo, hi, t in x.segs:
        hi = th(hi)
        t = map_val(t, th)
        while not n.eq0(hi - pos):
            while k < len(segs) and n.eq0(segs[k][1] - segs[k][0]):
                k += 1
            if k >= len(segs):
                return False
            l2, h2, t2 = segs[k]
            if not S.ctx.tmpl_le(S, t2, t, l2, h2):
                return False
            if n.ge(hi - h2):
                pos = h2
                k += 1
            elif t2[0] != 'val' and n.ge(h2 - hi) and n.ge(hi - pos):
                pos = hi
            else:
                return False
            # a possibly empty remainder
    while k < len(segs):
        if not n.eq0(segs[k][1] - pos) and not n.eq0(segs[k][1] - segs[k][0]):
            return False
        k += 1
    return True


# ---------------------------------------------------------------- join
class Joiner:
    def __init__(self, M):
        self.M = M
        self.G, self.S = M.G, M.S
        self.memo = {}
        self.thG, self.thS = {}, {}     # J atom id -> term
        self.fresh = []                 # (J Lin, g, s)
        for a in M.rigid:
            e = self.S.elim.get(a)
            if e is not None:
                self.thS[a] = e
            e = self.G.elim.get(a)
            if e is not None:
                self.thG[a] = e
        self.owned = set()
        self.bpool = None
        self.wpool = None
        self.opool = None

    def boundpool(self):
        """Terms over the fixed symbols at which arrays are cut, on either side."""
        out = set()
        for st in (self.G, self.S):
            for r in st.heap.values():
                for a in r.arrs:
                    for lo, hi, t in a.segs:
                        out.add(lo)
                        out.add(hi)
            # the buckets of the witnesses
            for r in st.heap.values():
                if r.kind == 'node' and r.info.get('pin'):
                    key = r.info['key']
                    for e in st.gh.get('exps', ()):
                        try:
                            v = st.num.norm(st.low(st.num.norm(key), e))
                        except (NeedSplit, Infeasible):
                            continue
                        out.add(v)
                        out.add(v + 1)
        return sorted((p for p in out if p.const() is None and all(
            q in self.M.rigid for i in p.ids() for q in deep_frozen(i) if Atom.byid[q].kind in ('sym', 'addr'))), key=repr)

    def mapS(self, l):
        return self.S.num.norm(subst_deep(l, self.thS, self.S.rebuild))

    def mapG(self, l):
        return self.G.num.norm(subst_deep(l, self.thG, self.G.rebuild))

    def known_atoms(self, l):
        """All symbols of l have a meaning in J."""
        return all(j in self.M.rigid or j in self.owned for i in l.ids() for j in deep_frozen(i) if Atom.byid[j].kind in ('sym', 'addr'))

    def conv(self, g, s, fresh=True):
        if data.INFO and (data.has(g) or data.has(s)):
            return g if g == s else data.join(g, s)
        r = self.memo.get((g, s))
        if r is not None:
            return r
        r = self.conv_(g, s, fresh)
        if r is not None:
            self.memo[(g, s)] = r
        return r

    def same(self, g, s):
        """One term with the same meaning on both sides, if g or s is one."""
        G, S = self.G, self.S
        if self.known_atoms(g) and not any(i in self.G.elim for i in g.ids()):
            if S.num.eq0(self.mapS(g) - s):
                return g
        if self.known_atoms(s) and not any(i in self.S.elim for i in s.ids()):
            # s as a J term: its meaning in S must be itself, and in G it must be g
            if self.mapS(s) == S.num.norm(s) and G.num.eq0(self.mapG(s) - g):
                return s
        return None

    def witness(self, g, s):
        """A term over the bucket positions of the witnesses."""
        if self.wpool is None:
            w = []
            ex = [e for e in self.G.gh.get('exps', ()) if e in self.S.gh.get('exps', ())]
            for i in sorted(self.G.gh.get('lows', frozenset()) & self.S.gh.get('lows', frozenset())):
                p = Lin.atom(Atom.byid[i])
                w.append(p)
                for e in ex:
                    w += [p + pow2(e), p - pow2(e)]
            self.wpool = w
        for c in self.wpool:
            if self.G.num.eq0(self.mapG(c) - g) and self.S.num.eq0(self.mapS(c) - s):
                return c
        return None

    def conv_(self, g, s, fresh):
        G, S = self.G, self.S
        r = self.same(g, s)
        if r is not None:
            return r
        eg, es = G.pow2_exp(g), S.pow2_exp(s)
        if eg is not None and es is not None and (eg in G.gh.get('exps', ()) or eg.const() is not None) and (es in S.gh.get('exps', ()) or es.const() is not None):
            eg = es = None          # two different table sizes: not one term of a counter
        pows = eg is not None and es is not None
        # affine in an already introduced pair symbol
        if self.known_atoms(g):
            d = s - self.mapS(g)
            for x, gp, sp in self.fresh:
                if not self.known_atoms(gp):
                    continue
                dp = sp - self.mapS(gp)
                q = ratio(S, d, dp)
                if q is not None and (not isinstance(q, Fraction) or q.denominator == 1):
                    r = g + (x - gp) * q
                    if G.num.eq0(self.mapG(r) - g) and S.num.eq0(self.mapS(r) - s):
                        return r
                # 2^x style: s = s(gp->sp) for terms built over gp
            for x, gp, sp in self.fresh:
                ga = gp.const()
                # g = f(gp), s = f(sp) with f = 2^.
                if pows:
                    e = self.conv(eg, es, False)
                    if e is not None:
                        r = pow2(e)
                        if S.num.eq0(self.mapS(r) - s) and G.num.eq0(self.mapG(r) - g):
                            return r
                    break
        for base, at in ((g, 1), (s, 2)):
            for f in self.fresh:
                if not self.known_atoms(base - f[at]):
                    continue
                r = base + f[0] - f[at]
                if G.num.eq0(self.mapG(r) - g) and S.num.eq0(self.mapS(r) - s):
                    return r
        if pows and (eg.const() is None or es.const() is None):
            e = self.conv(eg, es, fresh)
            if e is not None:
                return pow2(e)
        if self.bpool is None:
            self.bpool = self.boundpool()
        for c in self.bpool:
            if G.num.eq0(self.mapG(c) - g) and S.num.eq0(self.mapS(c) - s):
                return c
        if self.opool is None:
            ex = [e for e in G.gh.get('exps', ()) if e in S.gh.get('exps', ())]
            self.opool = [pow2(e) for e in ex] + [Lin.atom(Atom.byid[i]) for i in sorted(G.gh.get('lows', frozenset()) & S.gh.get('lows', frozenset()))]
        for c in self.opool:
            for f in self.fresh:
                if G.num.eq0(self.mapG(c) + f[1] - g) and S.num.eq0(self.mapS(c) + f[2] - s):
                    return c + f[0]
        if not fresh:
            return None
        a = g.single()
        if a is not None and a.kind == 'sym' and a.id not in self.M.rigid and a.id not in self.owned:
            self.owned.add(a.id)
            self.thG.pop(a.id, None)
            self.thS[a.id] = s
            x = g
        else:
            # g = atom + constant
            x = rsym('j', None, None)
            i = x.single().id
            self.owned.add(i)
            self.thG[i] = g
            self.thS[i] = s
        self.fresh.append((x, g, s))
        return x


def ratio(S, d, dp):
    """q with d = q*dp (rational constant), or None."""
    n = S.num
    d, dp = n.norm(d), n.norm(dp)
    if not dp.t or dp.const() == 0:
        return None
    if not d.t:
        return None
    m, c = dp.t[-1]
    dd = dict(d.t)
    if m not in dd:
        return None
    q = Fraction(dd[m]) / Fraction(c)
    if d - dp * q == ZERO:
        return q.numerator if q.denominator == 1 else q
    return None


def rigid_tag(t, rigid):
    return all(j in rigid for p in t[1:] if isinstance(p, Lin) for i in p.ids() for j in deep_frozen(i) if Atom.byid[j].kind in ('sym', 'addr'))


def join_tags(Jn, xt, yt):
    tags = set()
    conv = Jn.conv
    rigid = Jn.M.rigid
    for t in xt:
        rt = rigid_tag(t, rigid)
        for u in yt:
            if u[0] == t[0] and len(u) == len(t):
                both = t != u and rt and rigid_tag(u, rigid)
                nt = []
                for p, q in zip(t[1:], u[1:]):
                    if isinstance(p, Lin) and isinstance(q, Lin):
                        c = Jn.same(p, q)
                        if c is None and not both:
                            c = Jn.witness(p, q)
                        if c is None and not both:
                            c = conv(p, q, False)
                        if c is None:
                            break
                        nt.append(c)
                    elif p == q:
                        nt.append(p)
                    else:
                        break
                else:
                    tags.add((t[0],) + tuple(nt))
    return frozenset(tags)


def join(G, S, rigid, ctx, relaxed=False):
    """The smallest state found that describes both, or None when their shapes differ."""
    M = Match(G, S, rigid, True)
    try:
        M.run()
    except Mismatch as e:
        if ctx.debug:
            print('  join mismatch', e)
        return None
    if not relaxed:
        for k, v in G.num.known.items():
            u = S.num.known.get(k)
            if u is not None and u != v and Atom.byid[k].kind == 'bit' and deep_frozen(k) - {k} <= rigid:
                return None         # the cases of a decided bit stay apart
    Jn = Joiner(M)
    Jn.relaxed = relaxed
    # address atoms of J
    usedJ = {}
    for (a, b) in M.addr:
        if a == b and a in rigid and a not in S.elim and a not in G.elim:
            j = a
        elif a not in rigid and a not in usedJ:
            j = a
        else:
            j = atom('addr', Atom.byid[a].name.split('#')[0], align=min(Atom.byid[a].align, Atom.byid[b].align)).id
        usedJ[j] = (a, b)
        M.addr[(a, b)] = j
        Jn.owned.add(j)
        Jn.thG[j] = Lin.atom(Atom.byid[a])
        Jn.thS[j] = Lin.atom(Atom.byid[b])
        if j == a:
            Jn.thG.pop(j)
        if j == b:
            Jn.thS.pop(j)
    conv = Jn.conv
    for g, s in M.slots:
        if conv(g, s) is None:
            return None

    def val(g, s):
        bg, og = G.base_of(g)
        bs, os_ = S.base_of(s)
        if bg is None:
            return conv(g, s)
        A = Lin.atom(Atom.byid[M.addr[(bg, bs)]])
        if og == os_ and not og.ids():
            return A + og
        r = G.heap.get(bg)
        es = r.arrs[0].es.const() if r is not None and r.arrs else None
        if es is not None and es > 1 and r.arrs[0].base == 0 and G.divisible(og, es) and S.divisible(os_, es):
            # a pointer into a vector: its index is generalised
            dv = lambda l: Lin.of({m: Fraction(k) / int(es) for m, k in l.t})
            return A + conv(dv(og), dv(os_)) * es
        return A + conv(og, os_)
    J = State.__new__(State)
    J.ctx = ctx
    J.joins = G.joins + 1
    J.lossy = True
    J.probe = G.probe
    J.num = Num()
    J.heap, J.segs, J.preds, J.frames, J.gh, J.elim = {}, {}, {}, [], {}, {}
    for a, v in G.elim.items():
        if S.elim.get(a) == v and Jn.known_atoms(v):
            J.elim[a] = v
    for fg, fs in zip(G.frames, S.frames):
        fr = Frame(fg.fn, {k: val(fg.regs[k], fs.regs[k]) for k in fg.regs}, tuple(M.addr[(a, b)] for a, b in zip(fg.allocas, fs.allocas)))
        fr.live = fg.live
        J.frames.append(fr)

    def gval(k, g, s):
        if isinstance(g, Lin):
            if isinstance(k, str) and k.startswith('#'):
                return g
            return val(g, s)
        if isinstance(g, tuple):
            return tuple(gval(k, a, b) for a, b in zip(g, s))
        if k == 'lows':
            return g & s
        return g
    J.gh = {k: gval(k, G.gh[k], S.gh[k]) for k in G.gh}
    for a, b in M.objs:
        r, q = G.heap[a], S.heap[b]
        j = M.addr[(a, b)]
        nr = Region(j, r.name, r.kind, conv(r.size, q.size))
        nr.alive = r.alive
        nr.fields = {o: (r.fields[o][0], val(r.fields[o][1], q.fields[o][1])) for o in r.fields}
        nr.info = {k: (val(v, q.info[k]) if isinstance(v, Lin) else join_tags(Jn, v, q.info[k]) if k == 'tags' else v) for k, v in r.info.items()}
        arrs = []
        for x, y in zip(r.arrs, q.arrs):
            na = join_arr(Jn, x, y, val, ctx)
            if na is None:
                if ctx.debug:
                    print('  join array fails', x.segs, y.segs)
                return None
            arrs.append(na)
        nr.arrs = tuple(arrs)
        J.heap[j] = nr
    for st in (G, S):
        for i, r in st.heap.items():
            if M.ignorable(st, i) and i not in J.heap:
                J.heap[i] = r
    for a, b in M.segpairs.items():
        x, y = G.segs[a], S.segs[b]
        tags = join_tags(Jn, x.tags, y.tags)
        nid = ctx.newid()
        J.segs[nid] = Seg(nid, x.lay, M.addr[(x.first, y.first)], M.addr[(x.last, y.last)], val(x.P, y.P), val(x.N, y.N), conv(x.n, y.n), frozenset(tags))
    for a, b in M.predpairs:
        p = G.preds[a].join(S.preds[b], Jn, val)
        if p is None:
            return None
        J.preds[M.addr[(a, b)]] = p
    # facts
    add_facts(J, Jn, G, S, rigid)
    fresh = [x for x, g, s in Jn.fresh]
    gone = set()
    for i, x in enumerate(fresh):
        for y in fresh[i + 1:]:
            if y in gone or x in gone or x.single() is None or y.single() is None:
                continue
            if J.num.eq0(x - y):
                gone.add(y)
                J.subst({y.single().id: x})
                J.elim.pop(y.single().id, None)
    return J


def join_arr(Jn, x, y, val, ctx):
    """Align two segmentations. Either side may contribute an empty piece."""
    G, S = Jn.G, Jn.S
    best = [None, 10 ** 9]
    ga, sa = list(x.segs), list(y.segs)
    memo = {}

    def conv(g, s, fresh=True):
        k = (g, s)
        if k not in memo:
            memo[k] = Jn.same(g, s)
            if memo[k] is None and (g.ids() or s.ids()):
                memo[k] = Jn.witness(g, s)
                if memo[k] is None:
                    w = Jn.witness(g - 1, s - 1)
                    memo[k] = w + 1 if w is not None else None
        return memo[k] if memo[k] is not None else Jn.conv(g, s, fresh)
    shifts = [(g, s) for _, g, s in Jn.fresh]

    def cost_of(g, s):
        if Jn.same(g, s):
            return 0
        c = conv(g, s, False)
        return 3 if c is not None else 30

    def gcands(sb, glo, ghi):
        """Positions in G that may correspond to the bound sb of S."""
        out = [glo]
        if Jn.known_atoms(sb) and Jn.mapS(sb) == S.num.norm(sb):
            out.append(Jn.mapG(sb))
        for g, s in shifts:
            out.append(sb - s + g)
        out.append(ghi)
        res = []
        for c in out:
            if c not in res and G.num.ge(c - glo) and G.num.ge(ghi - c):
                res.append(c)
        return res

    def scands(gb, slo, shi):
        out = [slo]
        if Jn.known_atoms(gb):
            out.append(Jn.mapS(gb))
        for g, s in shifts:
            out.append(gb - g + s)
        out.append(shi)
        res = []
        for c in out:
            if c not in res and S.num.ge(c - slo) and S.num.ge(shi - c):
                res.append(c)
        return res
    import heapq
    start = (0, ga[0][0], 0, sa[0][0])
    lo = conv(ga[0][0], sa[0][0])
    heap = [(0, 0, start, None)]
    done = set()
    tick = 0
    goal = None
    tj = {}
    while heap and len(done) < 4000:
        cost, _, node, link = heapq.heappop(heap)
        if node in done:
            continue
        done.add(node)
        gi, gpos, si, spos = node
        if gi == len(ga) and si == len(sa):
            goal = link
            break

        def push(n, piece, c):
            nonlocal tick
            if n not in done:
                tick += 1
                heapq.heappush(heap, (cost + c + cost_of(piece[0], piece[1]), tick, n, (link, piece)))
        if gi < len(ga) and si < len(sa):
            glo, ghi, gt = ga[gi]
            slo, shi, st = sa[si]
            if (gi, si) not in tj:
                tj[gi, si] = tmpl_join(Jn, gt, st, val, ctx)
            t, c = tj[gi, si]
            if t is not None and gt[0] == 'val' and not Jn.relaxed and (conv(glo, slo, False) is None or conv(ghi, shi, False) is None):
                t = None            # an explicit cell at positions that nothing relates
            if t is not None:
                # whole pieces together
                push((gi + 1, ghi, si + 1, shi), (ghi, shi, t), c)
                if gt[0] != 'val':
                    # the rest of S's piece against a part of G's piece
                    for m in gcands(shi, gpos, ghi):
                        if m != ghi:
                            push((gi, m, si + 1, shi), (m, shi, t), c + 1)
                    for m in scands(ghi, spos, shi):
                        if m != shi:
                            push((gi + 1, ghi, si, m), (ghi, m, t), c + 1)
        if si < len(sa) and sa[si][2][0] != 'val':
            # G contributes an empty piece
            slo, shi, st = sa[si]
            t = tmpl_conv(Jn, st, False)
            if t is not None:
                push((gi, gpos, si + 1, shi), (gpos, shi, t), 2)
        if gi < len(ga) and ga[gi][2][0] != 'val':
            glo, ghi, gt = ga[gi]
            t = tmpl_conv(Jn, gt, True)
            if t is not None:
                push((gi + 1, ghi, si, spos), (ghi, spos, t), 2)
    if goal is not None:
        acc = []
        while goal is not None:
            acc.append(goal[1])
            goal = goal[0]
        best[0] = acc[::-1]
    if best[0] is None:
        return None
    segs = []
    pos = lo
    for g, s, t in best[0]:
        h = conv(g, s)
        segs.append((pos, h, t))
        pos = h
    es = conv(x.es, y.es)
    return Arr(x.base, es, merge_segs(segs))


def merge_segs(segs):
    out = []
    for lo, hi, t in segs:
        if out and out[-1][2] == t and t[0] != 'val':
            out[-1] = (out[-1][0], hi, t)
        else:
            out.append((lo, hi, t))
    return out


def tmpl_conv(Jn, t, fromG):
    """The template as a J template (its other side being empty)."""
    out = []
    for v in t[1:]:
        if isinstance(v, Lin):
            if not Jn.known_atoms(v):
                # a term that already has a J name
                for (g, s), j in list(Jn.memo.items()):
                    if (g if fromG else s) == v:
                        v = j
                        break
                else:
                    return None
            elif any(i in (Jn.thG if fromG else Jn.thS) for i in v.ids()):
                for (g, s), j in list(Jn.memo.items()):
                    if (g if fromG else s) == v:
                        v = j
                        break
                else:
                    if (Jn.mapG(v) if fromG else Jn.mapS(v)) != v:
                        return None
            out.append(v)
        else:
            out.append(v)
    return (t[0],) + tuple(out)


def tmpl_join(Jn, g, s, val, ctx):
    """(template, extra cost) or (None, 0)."""
    if g[0] == 'val' and s[0] == 'val':
        try:
            return ('val', val(g[1], s[1]), 0), 0
        except KeyError:
            return None, 0
    if g[0] == s[0] and len(g) == len(s):
        out = []
        for a, b in zip(g[1:], s[1:]):
            if isinstance(a, Lin) and isinstance(b, Lin):
                c = Jn.conv(a, b, False)
                if c is None:
                    return None, 0
                out.append(c)
            elif a == b:
                out.append(a)
            else:
                return None, 0
        return (g[0],) + tuple(out), 0
    return ctx.tmpl_join2(Jn, g, s)


def const_ub(n, l):
    """A small constant upper bound."""
    c = l.const()
    if c is None:
        c = n.minimum(-l)
        if c is None:
            return None
        c = -c
    c = int(c // 1)
    return c if -4096 <= c <= 4096 else None


def add_facts(J, Jn, G, S, rigid):
    gn, sn = G.num, S.num
    cands = []
    invG, invS = {}, {}
    for x, g, s in Jn.fresh:
        a = g.single()
        if a is not None and a.kind == 'sym':
            invG.setdefault(a.id, x)
        for l, inv in ((g, invG), (s, invS)):
            syms = [(m, c) for m, c in l.t if len(m) == 1 and Atom.byid[m[0]].kind == 'sym' and m[0] not in rigid and abs(c) == 1]
            if len(syms) == 1:
                m, c = syms[0]
                rest = l - Lin((syms[0],))
                if m[0] not in inv:
                    inv[m[0]] = ('aff', x, rest, c)
    for (a, b), j in Jn.M.addr.items():
        invG.setdefault(a, Lin.atom(Atom.byid[j]))
        invS.setdefault(b, Lin.atom(Atom.byid[j]))

    def back(l, inv, th):
        mp = {}
        for i in l.ids():
            for q in deep_frozen(i):
                a = Atom.byid[q]
                if a.kind not in ('sym', 'addr'):
                    continue
                if q in inv:
                    v = inv[q]
                    if isinstance(v, tuple):
                        _, x, rest, c = v
                        if not all(w in rigid for k in rest.ids() for w in deep_frozen(k) if Atom.byid[w].kind in ('sym', 'addr')):
                            return None
                        v = (x - rest) * c
                    mp[q] = v
                elif q in rigid:
                    pass
                else:
                    return None
        return subst_deep(l, mp, rebuild_plain)
    srcs = ((gn, invG, None), (sn, invS, None))
    if G.joins:
        srcs = srcs[:1]         # widening: only what the previous iterate had
    for n, inv, th in srcs:
        for f in n.facts:
            try:
                b = back(f, inv, th)
            except Exception:
                b = None
            if b is not None:
                cands.append(b)
    # templates for the new symbols
    pool = set()
    for st in (G, S):
        for r in st.heap.values():
            for a in r.arrs:
                for lo, hi, t in a.segs:
                    pool.add(lo)
                    pool.add(hi)
        for fr in st.frames:
            for v in fr.regs.values():
                if isinstance(v, Lin) and st.base_of(v)[0] is None:
                    pool.add(v)
        for f in st.num.facts:
            if len(f.t) <= 3:
                for m, c in f.t:
                    if m and c in (1, -1):
                        pool.add(Lin(((m, 1),)))
    pool = [p for p in pool if p.const() is None and len(p.t) <= 3 and all(q in rigid for i in p.ids() for q in deep_frozen(i) if Atom.byid[q].kind in ('sym', 'addr'))
            and not any(Atom.byid[i].kind == 'addr' for i in p.ids())]
    pool = sorted(set(pool) | {ZERO, ONE}, key=repr)[:40]
    fresh = [x for x, g, s in Jn.fresh]
    for x, g, s in Jn.fresh:
        if G.joins >= 2 and not (G.ctx.probe and g.const() is not None):
            continue
        if not G.joins and len(Jn.fresh) <= 12:
            u, v = const_ub(gn, g), const_ub(sn, s)
            if u is not None and v is not None:
                cands.append(K(max(u, v)) - x)
        for p in pool:
            c, d = (g - p).const(), (s - p).const()
            if c is not None and d is not None and c != d:
                cands.append(x - p - min(c, d))
            cands.append(x - p)
            cands.append(p - x)
            cands.append(p - x - 1)
            cands.append(x - p - 1)
        a = x.single()
    for a, b in ((p, q) for p in fresh for q in fresh if p is not q):
        cands.append(a - b)
        if len(fresh) > 6:
            break
    for s in J.segs.values():
        cands.append(s.n - 1)
    for r in J.heap.values():
        for a in r.arrs:
            for lo, hi, t in a.segs:
                if (hi - lo).const() is None:
                    cands.append(hi - lo)
    seen = set()
    good = []
    for c in cands:
        if c in seen or c.const() is not None:
            continue
        seen.add(c)
        try:
            if gn.ge(Jn.mapG(c)) and sn.ge(Jn.mapS(c)):
                good.append(c)
        except Undecided:
            pass
    # known values of structured atoms
    for n, inv in ((gn, invG), (sn, invS)):
        for k, v in n.known.items():
            a = back(Lin.atom(Atom.byid[k]), inv, None)
            b = back(v, inv, None)
            if a is None or b is None or a.single() is None or a.single().kind in ('sym', 'addr'):
                continue
            i = a.single().id
            if i in J.num.known:
                continue
            if a == b:
                continue
            if gn.eq0(Jn.mapG(a) - Jn.mapG(b)) and sn.eq0(Jn.mapS(a) - Jn.mapS(b)):
                J.num.known = dict(J.num.known)
                J.num.known[i] = b
    for n, inv in ((gn, invG), (sn, invS)):
        for d in n.diseq:
            b = back(d, inv, None)
            if b is not None and gn.ne0(Jn.mapG(b)) and sn.ne0(Jn.mapS(b)):
                J.num.add_ne(b)
    # keep an irredundant subset: add in order, skipping the implied ones
    for c in good:
        if not J.num.ge(c):
            J.num.add(c)
