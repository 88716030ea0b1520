"""Symbolic linear terms over atoms, and the linear-inequality (polyhedra) abstract domain.

Lin     a polynomial with rational coefficients over atoms; canonical and hashable.
Atom    a symbol, an address, or a structured term (2^b, x mod 2^b, bit b of x, floor(x/c), floor(log2 x)).
Num     a conjunction of facts `lin >= 0`, known values of structured atoms, and disequalities;
        entailment is decided by an exact rational simplex (no external solver), closed under a few lemmas
        on powers of two.
"""
from fractions import Fraction
import itertools


LOSSY = set()       # ids of atoms that stand for a value about which information was given up


def lossy(l):
    """Does the value depend on an atom that was made by generalisation?"""
    return any(j in LOSSY for i in l.ids() for j in deep_frozen(i))


class NeedSplit(Exception):
    """The abstract state must be partitioned: `alts` is a list of functions state -> bool (feasible)."""

    def __init__(self, alts, why=''):
        self.alts = alts
        self.why = why


class Undecided(Exception):
    """The domain cannot represent or decide this: no verdict."""


def _n(c):
    if type(c) is int:
        return c
    return c.numerator if c.denominator == 1 else c


class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'align')
    table = {}
    count = itertools.count(1)
    byid = {}

    def __repr__(self):
        if self.kind in ('sym', 'addr'):
            return self.name
        return '%s(%s)' % (self.kind, ','.join(map(repr, self.args)))


def atom(kind, name='', args=(), align=1):
    """Structured atoms are interned by their arguments; 'sym' and 'addr' atoms are always new."""
    if kind not in ('sym', 'addr'):
        k = (kind, args)
        a = Atom.table.get(k)
        if a is not None:
            return a
    a = Atom()
    a.id = next(Atom.count)
    a.kind, a.args, a.align = kind, args, align
    a.name = name if kind not in ('sym', 'addr') else '%s#%d' % (name, a.id)
    Atom.byid[a.id] = a
    if kind not in ('sym', 'addr'):
        Atom.table[k] = a
    return a


class Lin:
    __slots__ = ('t', 'h', '_d')

    def __init__(self, t):
        self.t = t          # tuple of (mono, coeff), sorted by mono; mono = sorted tuple of atom ids
        self.h = hash(t)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @staticmethod
    def of(d):
        return Lin(tuple(sorted((m, _n(c)) for m, c in d.items() if c != 0)))

    @staticmethod
    def atom(a):
        return Lin((((a.id,), 1),))

    def const(self):
        """The value when constant, else None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    @property
    def c0(self):
        return self.t[0][1] if self.t and self.t[0][0] == () else 0

    def __add__(self, o):
        if isinstance(o, (int, Fraction)):
            o = K(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Lin.of(d)

    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        if isinstance(o, (int, Fraction)):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            if o == 0:
                return ZERO
            return Lin(tuple((m, _n(c * o)) for m, c in self.t))
        k = o.const()
        if k is not None:
            return self * k
        k = self.const()
        if k is not None:
            return o * k
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = tuple(sorted(m1 + m2))
                d[m] = d.get(m, 0) + c1 * c2
        return Lin.of(d)

    __rmul__ = __mul__

    def ids(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s

    def atoms(self):
        return [Atom.byid[i] for i in sorted(self.ids())]

    def single(self):
        """The atom when the term is exactly one atom."""
        if len(self.t) == 1 and len(self.t[0][0]) == 1 and self.t[0][1] == 1:
            return Atom.byid[self.t[0][0][0]]
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t:
            s = '*'.join(repr(Atom.byid[i]) for i in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return '+'.join(out).replace('+-', '-')


_kc = {}


def K(c):
    r = _kc.get(c)
    if r is None:
        r = Lin((((), _n(c)),)) if c != 0 else Lin(())
        _kc[c] = r
    return r


ZERO = K(0)
ONE = K(1)


def sym(name, align=1):
    return Lin.atom(atom('sym', name, align=align))


def pow2(e):
    """2^e for a Lin exponent; the constant part becomes a coefficient."""
    c = e.const()
    if c is not None:
        return K(Fraction(2) ** c if c < 0 else 1 << c)
    k = e.c0
    f = Fraction(2) ** k if k < 0 else (1 << k)
    return Lin.atom(atom('pow2', args=(e - k,))) * f


def deep_ids(l, acc=None):
    """Atom ids of l including those inside structured atoms."""
    if acc is None:
        acc = set()
    for i in l.ids():
        if i not in acc:
            acc.add(i)
            for x in Atom.byid[i].args:
                if isinstance(x, Lin):
                    deep_ids(x, acc)
    return acc


_deep = {}


def deep_frozen(i):
    r = _deep.get(i)
    if r is None:
        s = {i}
        for x in Atom.byid[i].args:
            if isinstance(x, Lin):
                for j in x.ids():
                    s |= deep_frozen(j)
        r = frozenset(s)
        _deep[i] = r
    return r


# ------------------------------------------------------------------ simplex
class LP:
    """Feasibility and minimisation of linear constraints row >= 0 with exact rationals.

    Variables are monomials (tuples); each constraint gets a slack s = row - const with s >= -const.
    """

    def __init__(self, cons=()):
        self.rows = {}      # basic var -> {nonbasic: coeff}
        self.val = {}
        self.lb = {}
        self.ok = True
        self.n = 0
        self.seen = set()   # atoms whose intrinsic facts are in
        self.has = set()    # constraints present
        for l in cons:
            self.row(l)
        if self.ok:
            self.ok = self.solve()

    def copy(self):
        c = LP.__new__(LP)
        c.rows = {b: dict(r) for b, r in self.rows.items()}
        c.val, c.lb, c.ok, c.n, c.seen, c.has = dict(self.val), dict(self.lb), self.ok, self.n, set(self.seen), set(self.has)
        return c

    def row(self, l):
        """Add the constraint l >= 0, without solving."""
        if l in self.has:
            return
        self.has.add(l)
        c = 0
        body = {}
        v = 0
        for m, k in l.t:
            if m == ():
                c = k
                continue
            r = self.rows.get(m)
            if r is not None:
                for mm, kk in r.items():
                    x = body.get(mm, 0) + k * kk
                    if x == 0:
                        body.pop(mm, None)
                    else:
                        body[mm] = _n(x)
            else:
                x = body.get(m, 0) + k
                if x == 0:
                    body.pop(m, None)
                else:
                    body[m] = _n(x)
            v += k * self.val.setdefault(m, 0)
        if not body:
            if v + c < 0:
                self.ok = False
            return
        s = ('s', self.n)
        self.n += 1
        self.rows[s] = body
        self.lb[s] = -c
        self.val[s] = _n(v) if not isinstance(v, int) else v

    def extend(self, cons):
        for l in cons:
            self.row(l)
        if self.ok:
            self.ok = self.solve()
        return self.ok

    def pivot(self, b, n):
        """basic b leaves, nonbasic n enters."""
        row = self.rows.pop(b)
        a = row.pop(n)
        inv = Fraction(1) / a if a not in (1, -1) else a
        new = {m: -c * inv for m, c in row.items()}
        new[b] = inv
        for m in new:
            new[m] = _n(new[m])
        for bb, r in self.rows.items():
            k = r.pop(n, 0)
            if k:
                for m, c in new.items():
                    v = r.get(m, 0) + k * c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = _n(v)
        self.rows[n] = new

    def update(self, n, delta):
        self.val[n] = _n(self.val[n] + delta)
        for b, r in self.rows.items():
            k = r.get(n)
            if k:
                self.val[b] = _n(self.val[b] + k * delta)

    def solve(self):
        it = 0
        while True:
            it += 1
            viol = None
            for b in sorted((b for b in self.rows if b in self.lb), key=repr) if it > 40 else self.rows:
                if b in self.lb and self.val[b] < self.lb[b]:
                    viol = b
                    break
            if viol is None:
                return True
            row = self.rows[viol]
            cand = None
            for n in (sorted(row, key=repr) if it > 40 else row):
                k = row[n]
                # need to increase viol
                if k > 0 or (n not in self.lb) or self.val[n] > self.lb[n]:
                    cand = n
                    if n not in self.lb:
                        break
                    if it > 40:
                        break
            if cand is None:
                return False
            if it > 2000:
                raise Undecided('simplex iteration limit')
            k = row[cand]
            need = self.lb[viol] - self.val[viol]
            self.update(cand, need if k == 1 else _n(need * (Fraction(1) / k)))
            self.pivot(viol, cand)

    def minimize(self, l):
        """Infimum of l, or None when unbounded (the constraints must be feasible)."""
        obj = {}
        c0 = 0
        for m, k in l.t:
            if m == ():
                c0 += k
                continue
            if m in self.rows:
                for mm, kk in self.rows[m].items():
                    obj[mm] = obj.get(mm, 0) + k * kk
            else:
                if m not in self.val:
                    return None
                obj[m] = obj.get(m, 0) + k
        it = 0
        while True:
            it += 1
            if it > 500:
                raise Undecided('simplex iteration limit')
            ent = None
            for n in (sorted(obj, key=repr) if it > 20 else obj):
                k = obj[n]
                if k == 0:
                    continue
                if n not in self.lb:
                    ent = (n, -1 if k > 0 else 1)
                    break
                if k > 0 and self.val[n] > self.lb[n]:
                    ent = (n, -1)
                    break
                if k < 0:
                    ent = (n, 1)
                    break
            if ent is None:
                v = c0
                for n, k in obj.items():
                    v += k * self.val[n]
                return _n(Fraction(v)) if not isinstance(v, int) else v
            n, d = ent
            # ratio test
            best, bb = None, None
            for b, r in self.rows.items():
                k = r.get(n)
                if not k or b not in self.lb:
                    continue
                rate = k * d
                if rate < 0:
                    lim = self.val[b] - self.lb[b]
                    if rate != -1:
                        lim = _n(Fraction(lim) / (-rate))
                    if best is None or lim < best or (lim == best and repr(b) < repr(bb)):
                        best, bb = lim, b
            if n in self.lb and d < 0:
                lim = self.val[n] - self.lb[n]
                if best is None or lim <= best:
                    self.update(n, -lim)
                    continue
            if best is None:
                return None
            self.update(n, best * d)
            r = self.rows[bb]
            self.pivot(bb, n)
            k = obj.pop(n)
            for m, c in self.rows[n].items():
                obj[m] = obj.get(m, 0) + k * c


STATS = {'lp': 0, 'lpcache': 0}
_entcache = {}
_tabs = {}
_satcache = {}


def clog2(x):
    """ceil(log2 x) for a rational x > 0."""
    x = Fraction(x)
    e = 0
    while (1 << e) < x:
        e += 1
    if e == 0:
        while x <= Fraction(1, 2):
            x *= 2
            e -= 1
    return e


def flog2(x):
    x = Fraction(x)
    e = 0
    while (1 << (e + 1)) <= x:
        e += 1
    if x < 1:
        e = -1
        while Fraction(1, 1 << -e) > x:
            e -= 1
    return e


class Num:
    """Immutable-by-convention numeric state: facts >= 0, known structured atoms, disequalities."""
    __slots__ = ('facts', 'known', 'diseq', 'sat', '_satfor', 'bot', '_par')

    def __init__(self):
        self.facts = ()
        self.known = {}
        self.diseq = ()
        self.sat = ()
        self._satfor = None
        self.bot = False
        self._par = None

    def copy(self):
        n = Num()
        n.facts, n.known, n.diseq, n.sat, n._satfor, n.bot = self.facts, self.known, self.diseq, self.sat, self._satfor, self.bot
        n._par = self._par
        return n

    # -- rewriting by known values
    def norm(self, l):
        if not self.known:
            return l
        for _ in range(6):
            hit = None
            for i in l.ids():
                if i in self.known:
                    hit = i
                    break
            if hit is None:
                return l
            l = subst_flat(l, hit, self.known[hit])
        return l

    # -- intrinsic facts of the atoms
    def intrinsic(self, ids, seen=None):
        out = []
        if seen is None:
            seen = set()
        todo = list(ids)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            a = Atom.byid[i]
            L = Lin.atom(a)
            new = []
            if a.kind == 'pow2':
                new = [L - 1]
                x = a.args[0].single()
                if x is not None and x.kind == 'sym' and x.args:
                    if x.args[0] is not None and 0 <= x.args[0] < 4096:
                        new.append(L - (1 << x.args[0]))
                    if x.args[1] is not None and 0 <= x.args[1] < 4096:
                        new.append((1 << x.args[1]) - L)
            elif a.kind == 'low':
                x, b = a.args
                new = [L, pow2(b) - 1 - L]
                if not any(Atom.byid[j].kind == 'addr' for j in x.ids()):
                    new.append(x - L)
            elif a.kind == 'bit':
                new = [L, 1 - L]
            elif a.kind == 'div':
                x, d = a.args
                dq = d * L
                new = [x - dq, d - 1 - (x - dq), L]
            elif a.kind == 'ilog':
                new = [L]
            elif a.kind == 'addr':
                new = [L - 1]
            elif a.kind == 'sym' and a.args:
                lo, hi = a.args
                if lo is not None:
                    new.append(L - lo)
                if hi is not None:
                    new.append(hi - L)
            for f in new:
                f = self.norm(f)
                out.append(f)
                todo += [j for j in f.ids() if j not in seen]
        return out

    def constraints(self, extra=()):
        """Facts, lemmas and intrinsic facts relevant to `extra`."""
        cons = list(self.facts) + [f for f in self.sat] + list(extra)
        ids = set()
        for l in cons:
            ids |= l.ids()
        return cons + self.intrinsic(ids)

    @staticmethod
    def cone(cons, goal):
        """Constraints connected with the monomials of goal."""
        vs = {m for m, _ in goal.t if m != ()}
        rest = list(cons)
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for l in rest:
                ms = [m for m, _ in l.t if m != ()]
                if any(m in vs for m in ms):
                    out.append(l)
                    vs.update(ms)
                    ch = True
                elif ms or l.c0 < 0:
                    nr.append(l)
            rest = nr
        return out + [l for l in rest if not [1 for m, _ in l.t if m != ()]]

    def kk(self):
        return tuple(sorted(self.known.items(), key=lambda t: t[0])) if self.known else ()

    def tab(self, ids=()):
        """The tableau of the facts and lemmas, with the intrinsic facts of the atoms ids too."""
        key = (self.facts, self.sat, self.kk())
        lp = _tabs.get(key)
        if lp is None:
            par = _tabs.get(self._par) if self._par is not None else None
            if par is not None and par.ok and key[2] == self._par[2] and self.facts[:len(self._par[0])] == self._par[0]:
                lp = par.copy()
            else:
                lp = LP()
            if len(_tabs) > 3000:
                for k in list(_tabs)[:1500]:
                    del _tabs[k]
            _tabs[key] = lp
            cons = [f for f in self.facts + self.sat if f not in lp.has]
            self.feed(lp, cons, ids)
        elif ids and not all(i in lp.seen for i in ids):
            self.feed(lp, (), ids)
        self._par = key
        return lp

    def feed(self, lp, cons, ids):
        STATS['lp'] += 1
        need = set(ids)
        for l in cons:
            need |= l.ids()
        need -= lp.seen
        new = list(cons)
        if need:
            new += self.intrinsic(need, lp.seen)
        lp.extend(new)

    def minof(self, l):
        """Infimum of l under everything known; None if unbounded."""
        lp = self.tab(l.ids())
        if not lp.ok:
            self.bot = True
            return None
        return lp.minimize(l)

    def saturate(self):
        """Lemmas on powers of two, to a small fixpoint."""
        if self._satfor is self.facts:
            return
        ids = set()
        for l in self.facts:
            ids |= l.ids()
        for v in self.known.values():
            ids |= v.ids()
        # inner atoms too
        deep = set()
        for i in ids:
            deep |= deep_frozen(i)
        # Pow2 atoms whose exponent is (partly) constrained, incl. those inside low(.,b)
        ps = []
        for i in sorted(deep):
            a = Atom.byid[i]
            if a.kind == 'pow2':
                if a not in ps:
                    ps.append(a)
            elif a.kind == 'low':
                p = pow2(a.args[1])
                for q in p.atoms():
                    if q.kind == 'pow2' and q not in ps:
                        ps.append(q)
        self.sat = ()
        self._satfor = self.facts
        if not ps:
            return
        skey = (self.facts, self.kk(), tuple(p.id for p in ps))
        hit = _satcache.get(skey)
        if hit is not None:
            self.sat, bot = hit
            self.bot = self.bot or bot
            return
        derived = []
        pids = set()
        for p in ps:
            pids |= self.norm(Lin.atom(p)).ids() | self.norm(p.args[0]).ids()
        for rnd in range(3):
            self.sat = tuple(derived)
            if not self.tab(pids).ok:
                self.bot = True
                break
            new = []
            minof = self.minof
            for p in ps:
                e = self.norm(p.args[0])
                L = self.norm(Lin.atom(p))
                lo = minof(e)
                if lo is not None:
                    lo = -(-lo // 1)
                    if lo > -1:
                        new.append(L - (1 << min(int(lo), 300)))
                hi = minof(-e)
                if hi is not None:
                    hi = (-hi) // 1
                    if 0 <= hi < 300:
                        new.append((1 << int(hi)) - L)
                plo = minof(L)
                if plo is not None and plo > 1:
                    new.append(e - clog2(plo))
                phi = minof(-L)
                if phi is not None and -phi >= 1:
                    new.append(flog2(-phi) - e)
            for p, q in itertools.permutations(ps, 2):
                e1, e2 = self.norm(p.args[0]), self.norm(q.args[0])
                L1, L2 = self.norm(Lin.atom(p)), self.norm(Lin.atom(q))
                d = minof(e1 - e2)
                if d is not None:
                    d = int(-(-d // 1))
                    if abs(d) < 70:
                        new.append(L1 - L2 * (Fraction(2) ** d))
                for d in (0, 1, -1):
                    # 2^d * 2^e1 > 2^e2  =>  e1 >= e2 - d + 1
                    m = minof(L1 * (Fraction(2) ** d) - L2)
                    if m is not None and m > 0:
                        new.append(e1 - e2 + d - 1)
                        break
            fresh = [f for f in dict.fromkeys(new) if f not in derived and f.const() is None]
            if any(f.const() is not None and f.const() < 0 for f in new):
                self.bot = True
                break
            # only what is news to the linear facts
            fresh = [f for f in fresh if not (lambda v: v is not None and v >= 0)(minof(f))]
            if not fresh:
                break
            derived += fresh
        self.sat = tuple(derived)
        if len(_satcache) > 20000:
            _satcache.clear()
        _satcache[skey] = (self.sat, self.bot)

    # -- assumption
    def add(self, l):
        """Assume l >= 0; returns False when that is known to be contradictory."""
        l = self.norm(l)
        c = l.const()
        if c is not None:
            if c < 0:
                self.bot = True
            return not self.bot
        l = tighten(l)
        if l in self.facts:
            return not self.bot
        self.facts = self.facts + (l,)
        return True

    def add_ne(self, l):
        l = self.norm(l)
        c = l.const()
        if c is not None:
            if c == 0:
                self.bot = True
            return not self.bot
        if l not in self.diseq and -l not in self.diseq:
            self.diseq = self.diseq + (l,)
        # strengthen when one side is already known
        if self.ge(l):
            self.add(l - 1)
        elif self.ge(-l):
            self.add(-l - 1)
        return not self.bot

    def feasible(self):
        if self.bot:
            return False
        self.saturate()
        if self.bot:
            return False
        key = (self.facts, self.sat, None)
        r = _entcache.get(key)
        if r is None:
            r = self.tab().ok
            _entcache[key] = r
        if not r:
            self.bot = True
            return False
        for d in self.diseq:
            if self.eq0(d):
                self.bot = True
                return False
        return True

    def ge(self, l):
        """Is l >= 0 entailed?"""
        if self.known:
            l = self.norm(l)
        c = l.const()
        if c is not None:
            return c >= 0
        if self.bot:
            return True
        if l in self.facts or l in self.sat:
            return True
        self.saturate()
        if self.bot:
            return True
        key = (self.facts, self.sat, l)
        r = _entcache.get(key)
        if r is not None:
            STATS['lpcache'] += 1
            return r
        r = self._ge(l)
        if not r:
            # a common nonnegative factor: x*Q >= 0 when x >= 0 and Q >= 0
            common = None
            for m, _ in l.t:
                s = set(m)
                common = s if common is None else common & s
            for i in common or ():
                a = Lin.atom(Atom.byid[i])
                q = Lin.of({tuple(_rm(m, i)): k for m, k in l.t})
                if a != l and self.ge(a) and self.ge(q):
                    r = True
                    break
        _entcache[key] = r
        return r

    def _ge(self, l):
        l = tighten(l)
        v = self.minof(l)
        return self.bot or (v is not None and v > -1)

    def gt(self, l):
        return self.ge(l - 1)

    def eq0(self, l):
        l = self.norm(l)
        c = l.const()
        if c is not None:
            return c == 0
        if any(Atom.byid[i].kind == 'addr' for i in l.ids()):
            return False if len([1 for i in l.ids() if Atom.byid[i].kind == 'addr']) == 1 and not self.bot else self.ge(l) and self.ge(-l)
        return self.ge(l) and self.ge(-l)

    def ne0(self, l):
        l = self.norm(l)
        c = l.const()
        if c is not None:
            return c != 0
        if l in self.diseq or -l in self.diseq:
            return True
        if self.ge(l - 1) or self.ge(-l - 1):
            return True
        for d in self.diseq:
            # l is a nonzero multiple, or equal modulo the facts
            if len(d.t) == len(l.t) and (self.eq0(d - l) or self.eq0(d + l)):
                return True
        return False

    def minimum(self, l):
        self.saturate()
        if self.bot:
            return None
        l = self.norm(l)
        v = self.minof(l)
        return None if v is None else -(-v // 1)

    def __repr__(self):
        return ' & '.join('%r>=0' % f for f in self.facts) + (' | known %r' % {Atom.byid[k]: v for k, v in self.known.items()} if self.known else '') + (' | ne %r' % (self.diseq,) if self.diseq else '')


def _rm(m, i):
    m = list(m)
    m.remove(i)
    return m


def tighten(l):
    """Divide by the gcd of the coefficients (integer tightening of the constant)."""
    from math import gcd
    g = 0
    for m, c in l.t:
        if m == ():
            continue
        if not isinstance(c, int):
            return l
        # a monomial that stands for an integer
        g = gcd(g, abs(c))
    if g > 1:
        c = l.c0
        if not isinstance(c, int):
            c = Fraction(c)
        return Lin.of({m: (k // g if m != () else 0) for m, k in l.t if m != ()}) + int(c // g)
    if not isinstance(l.c0, int) and g == 1:
        return l - l.c0 + int(l.c0 // 1)
    return l


def subst_flat(l, i, val):
    """Replace atom id i at the top level of l by val."""
    d = ZERO
    for m, c in l.t:
        if i in m:
            k = m.count(i)
            rest = tuple(x for x in m if x != i)
            t = Lin(((rest, c),))
            for _ in range(k):
                t = t * val
            d = d + t
        else:
            d = d + Lin(((m, c),))
    return d


def subst_deep(l, mapping, rebuild, memo=None):
    """Replace sym/addr atoms (by id) everywhere, also inside structured atoms.
    rebuild(kind, args, align) -> Lin reconstructs a structured atom."""
    keys = mapping.keys()
    if not any(not deep_frozen(i).isdisjoint(keys) for i in l.ids()):
        return l
    out = ZERO
    for m, c in l.t:
        t = K(c)
        for i in m:
            if i in mapping:
                t = t * mapping[i]
            elif not deep_frozen(i).isdisjoint(keys):
                a = Atom.byid[i]
                args = tuple(subst_deep(x, mapping, rebuild) if isinstance(x, Lin) else x for x in a.args)
                t = t * rebuild(a.kind, args)
            else:
                t = t * Lin.atom(Atom.byid[i])
        out = out + t
    return out


def rebuild_plain(kind, args):
    if kind == 'pow2':
        return pow2(args[0])
    if kind == 'div':
        x, d = args
        c, k = x.const(), d.const()
        if c is not None and k:
            return K(c // k)
    if kind == 'low':
        c, k = args[0].const(), args[1].const()
        if c is not None and k is not None:
            return K(c % (1 << k))
        if c == 0:
            return ZERO
    if kind == 'bit':
        c, k = args[0].const(), args[1].const()
        if c is not None and k is not None:
            return K((c >> k) & 1)
        if c == 0:
            return ZERO
    if kind == 'ilog':
        c = args[0].const()
        if c is not None and c > 0:
            return K(int(c).bit_length() - 1)
    return Lin.atom(atom(kind, args=args))
