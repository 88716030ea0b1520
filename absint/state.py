"""Abstract states: numeric domain + symbolic heap (regions, array segmentations, list segments)."""
from fractions import Fraction
from num import (Num, Lin, Atom, atom, K, ZERO, ONE, sym, pow2, subst_deep, rebuild_plain, deep_frozen,
                 NeedSplit, Undecided, LOSSY, lossy)


class Fault(Exception):
    """A definite or possible violation of a memory-safety obligation: ends the path."""

    def __init__(self, kind, msg, prop='C18', sure=True):
        self.kind, self.msg, self.prop, self.sure = kind, msg, prop, sure


class Infeasible(Exception):
    pass


def rsym(name, lo=0, hi=None, bits=None, align=1):
    """A symbol with an intrinsic range."""
    if bits is not None:
        hi = (1 << bits) - 1
    a = Atom()
    a.id = next(Atom.count)
    a.kind, a.args, a.align, a.name = 'sym', (lo, hi), align, '%s#%d' % (name, a.id)
    if name in ('j', 'any', 'raw', 'mod', 'and', 'or', 'xor', 'undef'):
        LOSSY.add(a.id)
    Atom.byid[a.id] = a
    return Lin.atom(a)


class Region:
    __slots__ = ('id', 'name', 'kind', 'size', 'alive', 'fields', 'arrs', 'info', 'owner')

    def __init__(self, id, name, kind, size, fields=None, arrs=(), info=None):
        self.id, self.name, self.kind, self.size = id, name, kind, size
        self.alive = True
        self.fields = fields if fields is not None else {}
        self.arrs = arrs
        self.info = info if info is not None else {}

    def copy(self):
        r = Region(self.id, self.name, self.kind, self.size, dict(self.fields), self.arrs, self.info)
        r.alive = self.alive
        return r

    @property
    def addr(self):
        return Lin.atom(Atom.byid[self.id])

    def map(self, fn):
        r = Region(self.id, self.name, self.kind, fn(self.size), {o: (s, fn(v)) for o, (s, v) in self.fields.items()},
                   tuple(a.map(fn) for a in self.arrs), {k: map_val(v, fn) for k, v in self.info.items()})
        r.alive = self.alive
        return r


class Arr:
    """Array part of a region: elements of `es` bytes from offset `base`, segmented by symbolic bounds.
    segs: tuple of (lo, hi, tmpl); contiguous. Templates:
      ('uninit',) ('zero',) ('any',) ('junk',) ('val', lin, stamp) ('list', b) and container specific ones."""
    __slots__ = ('base', 'es', 'segs')

    def __init__(self, base, es, segs):
        self.base, self.es, self.segs = base, es, tuple(segs)

    def map(self, fn):
        return Arr(self.base, fn(self.es), tuple((fn(lo), fn(hi), map_val(t, fn)) for lo, hi, t in self.segs))


class Seg:
    """Nonempty doubly linked segment first..last; first.prev = P, last.next = N, n nodes.
    first and last are atom ids (equal only when n = 1). tags: frozenset of facts true of every node."""
    __slots__ = ('id', 'lay', 'first', 'last', 'P', 'N', 'n', 'tags')

    def __init__(self, id, lay, first, last, P, N, n, tags):
        self.id, self.lay, self.first, self.last, self.P, self.N, self.n, self.tags = id, lay, first, last, P, N, n, tags

    def map(self, fn, ren):
        return Seg(self.id, self.lay, ren(self.first), ren(self.last), fn(self.P), fn(self.N), fn(self.n), map_val(self.tags, fn))

    def __repr__(self):
        return 'Seg[%r..%r P=%r N=%r n=%r %s]' % (Atom.byid[self.first], Atom.byid[self.last], self.P, self.N, self.n, self.tags or '')


def map_val(v, fn):
    if isinstance(v, Lin):
        return fn(v)
    if isinstance(v, tuple):
        return tuple(map_val(x, fn) for x in v)
    if isinstance(v, frozenset):
        return frozenset(map_val(x, fn) for x in v)
    if isinstance(v, dict):
        return {k: map_val(x, fn) for k, x in v.items()}
    return v


class Layout:
    """Offsets of a node type."""

    def __init__(self, name, fields, keyfield, ptr):
        self.name = name
        self.next = fields['next'][0]
        self.prev = fields['prev'][0]
        self.data = fields['data'][0]
        self.key = fields[keyfield][0]
        self.size = fields['__size__'][0]
        self.ptr = ptr
        self.map = fields['map'] if 'map' in fields else None


class Frame:
    __slots__ = ('fn', 'regs', 'live', 'allocas')

    def __init__(self, fn, regs, allocas=()):
        self.fn, self.regs, self.live, self.allocas = fn, regs, None, allocas

    def copy(self):
        f = Frame(self.fn, dict(self.regs), self.allocas)
        f.live = self.live
        return f


class State:
    stamp = 0

    def __init__(self, ctx):
        self.ctx = ctx              # analysis-wide constants: word size, layouts, hooks
        self.num = Num()
        self.heap = {}
        self.segs = {}
        self.preds = {}             # container specific predicates: address atom id -> object with unfold(state)
        self.frames = []
        self.gh = {}
        self.lossy = False          # a join happened since the start
        self.probe = False          # an exact state next to a join: only definite violations count
        self.joins = 0              # number of joins behind this state (loop heads)
        self.elim = {}              # eliminated symbols -> their value (kept for the comparison of states)

    def copy(self):
        s = State.__new__(State)
        s.ctx = self.ctx
        s.num = self.num.copy()
        s.heap = dict(self.heap)
        s.segs = dict(self.segs)
        s.preds = dict(self.preds)
        s.frames = [f.copy() for f in self.frames]
        s.gh = dict(self.gh)
        s.elim = dict(self.elim)
        s.joins = self.joins
        s.lossy = self.lossy
        s.probe = self.probe
        return s

    def resolve(self, l):
        return subst_deep(l, self.elim, self.rebuild) if self.elim else l

    # ------------------------------------------------------------ numbers
    def assume_ge(self, l):
        return self.num.add(l) and not self.num.bot

    def assume_eq(self, d):
        """Assume d == 0, by substitution when possible."""
        d = self.num.norm(d)
        c = d.const()
        if c is not None:
            if c != 0:
                self.num.bot = True
            return c == 0
        best = None
        for m, k in d.t:
            if len(m) != 1:
                continue
            a = Atom.byid[m[0]]
            if a.kind == 'addr':
                continue
            if k not in (1, -1):
                if a.kind == 'sym' or not all((x / k).denominator == 1 if isinstance(x / k, Fraction) else True for x in [Fraction(y) for _, y in d.t]):
                    continue
            rest = d - Lin(((m, k),))
            if any(a.id in deep_frozen(i) for i in rest.ids()):
                continue
            if isinstance(k, int) and abs(k) != 1:
                if any((Fraction(y) / k).denominator != 1 for _, y in rest.t):
                    continue
            rank = (a.kind == 'sym', a.id) if a.kind in ('sym', 'low', 'bit', 'div', 'ilog') else None
            if rank is not None and (best is None or rank > best[0]):
                best = (rank, a, rest * (Fraction(-1) / k))
        if best is not None:
            _, a, v = best
            v = Lin.of(dict(v.t))
            # range of the eliminated atom must be kept
            intr = self.num.intrinsic([a.id])
            if a.kind == 'sym':
                self.subst({a.id: v})
                for f in intr:
                    f2 = subst_deep(f, {a.id: v}, self.rebuild)
                    self.num.add(f2)
            else:
                self.num.known = dict(self.num.known)
                self.num.known[a.id] = v
                self.renorm()
                for f in intr:
                    self.num.add(f)
                self.num.add(Lin.atom(a) - v)
            return not self.num.bot
        self.num.add(d)
        self.num.add(-d)
        return not self.num.bot

    def renorm(self):
        """Apply the known values of structured atoms everywhere."""
        nm = self.num.norm
        n = self.num
        facts = []
        for f in n.facts:
            g = nm(f)
            c = g.const()
            if c is not None:
                if c < 0:
                    n.bot = True
                continue
            facts.append(g)
        n.facts = tuple(dict.fromkeys(facts))
        dq = []
        for d in n.diseq:
            g = nm(d)
            c = g.const()
            if c is not None:
                if c == 0:
                    n.bot = True
                continue
            dq.append(g)
        n.diseq = tuple(dict.fromkeys(dq))
        n.known = {k: (nm2(n, k, v)) for k, v in n.known.items()}
        self.map_lins(nm)

    def rebuild(self, kind, args):
        return rebuild_plain(kind, args)

    def map_lins(self, fn, ren=lambda i: i):
        memo = {}

        def f(l):
            r = memo.get(l)
            if r is None:
                r = fn(l)
                memo[l] = r
            return r
        self.heap = {ren(k): v.map(f) for k, v in self.heap.items()}
        self.segs = {k: v.map(f, ren) for k, v in self.segs.items()}
        self.preds = {ren(k): v.map(f, ren) for k, v in self.preds.items()}
        for fr in self.frames:
            fr.regs = {k: (f(v) if isinstance(v, Lin) else v) for k, v in fr.regs.items()}
        self.gh = {k: map_val(v, f) for k, v in self.gh.items()}
        self.elim = {k: f(v) for k, v in self.elim.items()}

    def subst(self, mapping):
        """Replace atoms (ids -> Lin) in the whole state."""
        n = self.num
        rb = self.rebuild

        def fn(l):
            return subst_deep(l, mapping, rb)

        def ren(i):
            if i in mapping:
                a = mapping[i].single()
                return a.id
            return i
        facts = []
        for f in n.facts:
            g = fn(f)
            c = g.const()
            if c is not None:
                if c < 0:
                    n.bot = True
                continue
            facts.append(g)
        n.facts = tuple(dict.fromkeys(facts))
        n.diseq = tuple(fn(d) for d in n.diseq)
        if any(d.const() == 0 for d in n.diseq):
            n.bot = True
        n.diseq = tuple(dict.fromkeys(d for d in n.diseq if d.const() is None))
        known = {}
        extra = []
        for k, v in n.known.items():
            nv = fn(v)
            nk = fn(Lin.atom(Atom.byid[k]))
            a = nk.single()
            if a is not None and a.kind not in ('sym', 'addr'):
                if a.id in known:
                    extra.append(nv - known[a.id])
                else:
                    known[a.id] = nv
            else:
                extra.append(nk - nv)
        n.known = known
        self.map_lins(fn, ren)
        for i, v in mapping.items():
            self.elim[i] = v
        if known:
            self.renorm()
        for e in extra:
            self.assume_eq(e)
        return not n.bot

    def fork(self, *alts):
        raise NeedSplit(list(alts))

    # ------------------------------------------------------------ machine integers
    def norm_u(self, v, w, again=False):
        n = self.num
        v = n.norm(v)
        M = 1 << w
        c = v.const()
        if c is not None:
            return K(c % M)
        if any(Atom.byid[i].kind == 'addr' and k == 1 and len(m) == 1 for m, k in v.t for i in m):
            return v
        if n.ge(v) and n.ge(M - 1 - v):
            return v
        for k in (1, -1):
            u = v + k * M
            if n.ge(u) and n.ge(M - 1 - u):
                return u
        lo = n.minimum(v)
        hi = n.minimum(-v)
        if n.bot:
            raise Infeasible()
        if (lo is None or hi is None) and not again and self.bound_pow2(v):
            return self.norm_u(v, w, True)
        if lo is None or hi is None:
            return self.fresh_mod(v, w)
        hi = -hi
        k0, k1 = int(lo // M), int(hi // M)
        if k1 - k0 > 3:
            return self.fresh_mod(v, w)
        alts = []
        for k in range(k0, k1 + 1):
            alts.append(lambda s, k=k: s.assume_ge(v - k * M) and s.assume_ge((k + 1) * M - 1 - v))
        raise NeedSplit(alts, 'wrap')

    def bound_pow2(self, v):
        """Constant bounds of the powers of two in v that occur in no fact yet."""
        n = self.num
        done = False
        for a in v.atoms():
            if a.kind != 'pow2':
                continue
            hi = n.minimum(-a.args[0])
            if hi is not None and (-hi) // 1 < 300:
                f = (1 << max(0, int((-hi) // 1))) - Lin.atom(a)
                if not n.ge(f):
                    self.assume_ge(f)
                    done = True
        return done

    def fresh_mod(self, v, w):
        # the same value of v has the same remainder: the instruction may be executed again after a split
        memo = self.ctx.mods
        r = memo.get((v, w))
        if r is None:
            r = memo[v, w] = rsym('mod', 0, (1 << w) - 1)
        return r

    def norm_s(self, v, w):
        H = 1 << (w - 1)
        n = self.num
        v = n.norm(v)
        a = v.single()
        if a is not None and a.kind == 'sym' and n.ge(v + H) and n.ge(H - 1 - v):
            return v
        u = self.norm_u(v, w)
        c = u.const()
        if c is not None:
            return K(c - (1 << w) if c >= H else c)
        if any(Atom.byid[i].kind == 'addr' for m, k in u.t for i in m):
            return u
        if n.ge(H - 1 - u):
            return u
        if n.ge(u - H):
            return u - (1 << w)
        raise NeedSplit([lambda s: s.assume_ge(H - 1 - u), lambda s: s.assume_ge(u - H)], 'sign')

    def decide(self, l, why=''):
        """Is l >= 0? Splits when unknown."""
        n = self.num
        if n.ge(l):
            return True
        if n.ge(-l - 1):
            return False
        raise NeedSplit([lambda s: s.assume_ge(l), lambda s: s.assume_ge(-l - 1)], why or 'ge')

    def decide_eq(self, d, why=''):
        n = self.num
        d = n.norm(d)
        c = d.const()
        if c is not None:
            return c == 0
        if n.eq0(d):
            return True
        if n.ne0(d):
            return False
        raise NeedSplit([lambda s: s.assume_eq(d), lambda s: s.num.add_ne(d)], why or 'eq')

    def divisible(self, l, c):
        """Is the term l/c integer valued for sure?"""
        for m, k in l.t:
            if not self.mono_div(m, k, c):
                return False
        return True

    def mono_div(self, m, k, c):
        q = Fraction(k) / c
        if q.denominator == 1:
            return True
        d = q.denominator
        if d & (d - 1):
            return False
        need = d.bit_length() - 1
        for i in m:
            a = Atom.byid[i]
            if a.kind == 'addr' or (a.kind == 'sym' and a.align > 1):
                al = a.align
                if al & (al - 1) == 0:
                    need -= al.bit_length() - 1
            elif a.kind == 'pow2':
                e = a.args[0]
                lo = self.num.minimum(e)
                if lo is not None and lo > 0:
                    need -= int(lo)
        return need <= 0

    def udiv(self, x, d, w):
        x = self.norm_u(x, w)
        d = self.norm_u(d, w)
        n = self.num
        dc = d.const()
        if dc == 0:
            raise Fault('div', 'division by zero')
        if x.const() is not None and dc is not None:
            return K(x.const() // dc)
        if dc == 1:
            return x
        if n.ge(d - 1 - x) and n.ge(x):
            return ZERO
        if dc is not None:
            ex, rest = ZERO, ZERO
            for m, k in x.t:
                if m == ():
                    q = int(k // dc) if isinstance(k, int) else int(Fraction(k) / dc // 1)
                    ex = ex + q
                    rest = rest + (k - q * dc)
                elif self.mono_div(m, k, dc):
                    ex = ex + Lin(((m, Fraction(k) / dc),))
                else:
                    kk = k
                    q = int(Fraction(k) / dc // 1)
                    if q != 0 and isinstance(k, int):
                        ex = ex + Lin(((m, q),))
                        kk = k - q * dc
                    rest = rest + Lin(((m, kk),))
            ex = Lin.of(dict(ex.t))
            rc = rest.const()
            if rc is not None:
                return ex + int(Fraction(rc) / dc // 1)
            if n.ge(rest) and n.ge(dc - 1 - rest):
                return ex
            a = rest.single()
            if a is not None and a.kind == 'div' and a.args[1].const() is not None:
                return ex + self.mkdiv(a.args[0], a.args[1] * dc)
            return ex + self.mkdiv(rest, K(dc))
        # divisor 2^e
        a = self.pow2_exp(d)
        if a is not None:
            ex, rest = ZERO, ZERO
            for m, k in x.t:
                q = self.div_pow2_mono(m, k, a)
                if q is not None:
                    ex = ex + q
                else:
                    rest = rest + Lin(((m, k),))
            rc = rest
            if rc.const() == 0:
                return ex
            if n.ge(rest) and n.ge(d - 1 - rest):
                return ex
            if n.ge(-rest - 1) and n.ge(rest + d):
                return ex - 1
            return ex + self.mkdiv(rest, d)
        return self.mkdiv(x, d)

    def div_pow2_mono(self, m, k, e):
        """k*m / 2^e as a term when that is an integer for sure, else None."""
        for i in m:
            a = Atom.byid[i]
            if a.kind == 'pow2':
                de = a.args[0] - e
                c = de.const()
                if c is not None:
                    f = Fraction(2) ** int(c) * k
                    if f.denominator == 1:
                        rest = list(m)
                        rest.remove(i)
                        return Lin.of({tuple(rest): f})
        return None

    def pow2_exp(self, l):
        """The exponent e when l is 2^e."""
        c = l.const()
        if c is not None:
            if isinstance(c, int) and c > 0 and c & (c - 1) == 0:
                return K(c.bit_length() - 1)
            return None
        if len(l.t) == 1 and len(l.t[0][0]) == 1:
            a = Atom.byid[l.t[0][0][0]]
            k = l.t[0][1]
            if a.kind == 'pow2':
                f = Fraction(k)
                for v in (f.numerator, f.denominator):
                    if v <= 0 or v & (v - 1):
                        return None
                return a.args[0] + (f.numerator.bit_length() - f.denominator.bit_length())
        return None

    def mkdiv(self, x, d):
        if self.ctx.addr_residue:
            r = self.ctx.addr_div(self, x, d)
            if r is not None:
                return r
        return self.num.norm(Lin.atom(atom('div', args=(x, d))))

    def urem(self, x, d, w):
        x = self.norm_u(x, w)
        d = self.norm_u(d, w)
        e = self.pow2_exp(d)
        if e is not None and (e.const() is None or self.gh.get('lows')):
            return self.low(x, e)
        return x - d * self.udiv(x, d, w)

    def low(self, x, b):
        """x mod 2^b for a nonnegative x."""
        n = self.num
        c = b.const()
        if c is not None and not (self.gh.get('lows') and x.const() is None):
            return x - (1 << int(c)) * self.udiv(x, K(1 << int(c)), 128)
        p = pow2(b)     # also an exponent that has become known, when there are facts about low bits with it as a symbol
        if n.ge(x) and n.ge(p - 1 - x):
            return x
        # drop exact multiples of 2^b
        rest = ZERO
        dropped = False
        for m, k in x.t:
            if m != () and self.div_pow2_mono(m, k, b) is not None:
                dropped = True
                continue
            rest = rest + Lin(((m, k),))
        if dropped and n.ge(rest):
            return self.low(rest, b)
        if dropped and n.ge(-1 - rest) and n.ge(rest + p):
            return rest + p
        # nested: low(low(y,b1),b) = low(y,b) when b <= b1
        a = x.single()
        if a is not None and a.kind == 'low':
            y, b1 = a.args
            if n.ge(b1 - b):
                return self.low(y, b)
        # relation with an existing low(x, b0), b = b0 + c
        base = b - b.c0
        for i, v in list(n.known.items()) + [(i, None) for i in self.live_low()]:
            at = Atom.byid[i]
            if at.kind == 'low' and at.args[0] == x:
                b0 = at.args[1]
                dd = (b - b0).const()
                if dd is None or dd == 0 or abs(dd) > 2:
                    continue
                r = n.norm(Lin.atom(at))
                if dd > 0:
                    for j in range(int(dd)):
                        r = r + pow2(b0 + j) * self.bit(x, b0 + j)
                    return n.norm(r)
                # going down: low(x,b0) = low(x,b) + 2^b * bit(x,b) [+ ...]
                L = Lin.atom(atom('low', args=(x, b)))
                if L.single().id in n.known:
                    return n.known[L.single().id]
                for j in range(int(-dd)):
                    self.bit(x, b + j)      # forces a split until the bits are known
                t = r
                for j in range(int(-dd)):
                    t = t - pow2(b + j) * self.bit(x, b + j)
                n.known = dict(n.known)
                n.known[L.single().id] = t
                for f in (t, pow2(b) - 1 - t):
                    n.add(f)
                if not n.feasible():
                    raise Infeasible()
                return t
        L = Lin.atom(atom('low', args=(x, b)))
        lows = self.gh.get('lows', frozenset())
        if L.single().id not in lows:
            self.gh['lows'] = lows | {L.single().id}
        return n.norm(L)

    def live_low(self):
        """low atoms that have been created on this path (bases for the relation between levels)."""
        out = []
        for i in self.gh.get('lows', ()):
            out.append(i)
        return sorted(out)

    def bit(self, x, b):
        """Bit b of x; splits until known."""
        c, k = x.const(), b.const()
        if c is not None and k is not None:
            return K((int(c) >> int(k)) & 1)
        L = Lin.atom(atom('bit', args=(x, b)))
        v = self.num.norm(L)
        if v.const() is not None:
            return v
        raise NeedSplit([lambda s: s.assume_eq(L), lambda s: s.assume_eq(L - 1)], 'bit')

    def ilog(self, x):
        """floor(log2 x), x >= 1"""
        n = self.num
        c = x.const()
        if c is not None:
            return K(int(c).bit_length() - 1)
        e = self.pow2_exp(x)
        if e is not None:
            return e
        # x = 1 + 2*div(y,2): y|1
        y = None
        r = x - 1
        dv = [a for a in (Atom.byid[m[0]] for m, k in r.t if len(m) == 1 and k == 2) if a.kind == 'div' and a.args[1].const() == 2]
        if len(dv) == 1 and self.divisible(r - 2 * Lin.atom(dv[0]), 2):
            y = r - 2 * Lin.atom(dv[0]) + dv[0].args[0]
        elif not dv and self.divisible(r, 2) and n.ge(r):
            y = r
        yy = y if y is not None else x
        exps = [e for e in self.gh.get('exps', ()) if isinstance(e, Lin)]
        for e in exps:
            if n.ge(yy - pow2(e)) and n.ge(2 * pow2(e) - 1 - yy):
                return e
        L = Lin.atom(atom('ilog', args=(y if y is not None else x,)))
        v = n.norm(L)
        if v != L:
            return v
        p = pow2(L)
        if y is None or n.ge(y - 2):
            for e in exps:
                if n.ge(pow2(e) - 1 - yy):
                    n.add(e - 1 - L)
                elif n.ge(yy - pow2(e)):
                    n.add(L - e)
        if y is not None:
            if n.ge(y - 2):
                for f in (L - 1, y - p, 2 * p - 1 - y):
                    n.add(f)
                return L
            if n.ge(1 - y):
                return ZERO
            raise NeedSplit([lambda s: s.assume_ge(1 - y), lambda s: s.assume_ge(y - 2)], 'ilog')
        for f in (L, x - p, 2 * p - 1 - x):
            n.add(f)
        return L

    def band(self, x, y, w):
        x, y = self.norm_u(x, w), self.norm_u(y, w)
        if x.const() is not None:
            x, y = y, x
        c = y.const()
        n = self.num
        if x.const() is not None and c is not None:
            return K(int(x.const()) & int(c))
        if c is not None:
            c = int(c)
            if c == 0:
                return ZERO
            if c & (c + 1) == 0:
                k = c.bit_length()
                return x - (1 << k) * self.udiv(x, K(1 << k), w)
            if c & (c - 1) == 0:
                k = c.bit_length() - 1
                q = self.udiv(x, K(1 << k), w)
                return (1 << k) * (q - 2 * self.udiv(q, K(2), w))
            lowz = (c & -c).bit_length() - 1
            cc = c >> lowz
            if cc & (cc + 1) == 0:
                k = cc.bit_length()
                q = self.udiv(x, K(1 << lowz), w)
                return (1 << lowz) * (q - (1 << k) * self.udiv(q, K(1 << k), w))
            inv = ((1 << w) - 1) ^ c
            if inv & (inv + 1) == 0:
                return (inv + 1) * self.udiv(x, K(inv + 1), w)
            # sum of the bit fields
            r = ZERO
            i = 0
            cnt = 0
            while i < w:
                if (c >> i) & 1:
                    j = i
                    while (c >> j) & 1:
                        j += 1
                    q = self.udiv(x, K(1 << i), w)
                    r = r + (1 << i) * (q - (1 << (j - i)) * self.udiv(q, K(1 << (j - i)), w))
                    i = j
                    cnt += 1
                    if cnt > 8:
                        return rsym('and', 0, c)
                else:
                    i += 1
            return r
        for a, b in ((x, y), (y, x)):
            e = self.pow2_exp(b + 1)
            if e is not None:
                return self.low(a, e)
        for a, b in ((x, y), (y, x)):
            e = self.pow2_exp(b)
            if e is not None:
                return b * self.bit(a, e)
        if x == y:
            return x
        # x & -x : lowest set bit; not represented
        r = rsym('and', 0, (1 << w) - 1)
        n.add(x - r)
        n.add(y - r)
        return r

    def bor(self, x, y, w):
        x, y = self.norm_u(x, w), self.norm_u(y, w)
        if x.const() is not None:
            x, y = y, x
        c = y.const()
        if x.const() is not None and c is not None:
            return K(int(x.const()) | int(c))
        if c is not None:
            c = int(c)
            if c == 0:
                return x
            if c & (c - 1) == 0:
                return x + c - self.band(x, y, w)
        n = self.num
        for a, b in ((x, y), (y, x)):
            # disjoint: a multiple of 2^k, b < 2^k
            hi = n.minimum(-b)
            if hi is not None and n.ge(b):
                k = max(0, int(-hi)).bit_length()
                if self.divisible(a, 1 << k):
                    return a + b
        r = rsym('or', 0, (1 << w) - 1)
        n.add(r - x)
        n.add(r - y)
        n.add(x + y - r)
        return r

    def bxor(self, x, y, w):
        x, y = self.norm_u(x, w), self.norm_u(y, w)
        if x.const() is not None:
            x, y = y, x
        c = y.const()
        if x.const() is not None and c is not None:
            return K(int(x.const()) ^ int(c))
        if c is not None:
            c = int(c)
            if c == 0:
                return x
            if c & (c + 1) == 0 and self.num.ge(c - x):
                return c - x
        if x == y:
            return ZERO
        return rsym('xor', 0, (1 << w) - 1)

    # ------------------------------------------------------------ heap basics
    def new_addr(self, name, align):
        return atom('addr', name, align=align)

    def new_region(self, name, kind, size, align=16, **kw):
        a = self.new_addr(name, align)
        r = Region(a.id, name, kind, size if isinstance(size, Lin) else K(size), **kw)
        self.heap[a.id] = r
        return r

    def base_of(self, p):
        """(address atom id, offset) of a pointer value, or (None, p)."""
        p = self.num.norm(p)
        b = None
        for m, k in p.t:
            if len(m) == 1 and k == 1 and Atom.byid[m[0]].kind == 'addr':
                if b is not None:
                    raise Undecided('pointer with two bases')
                b = m[0]
        if b is None:
            return None, p
        return b, p - Lin.atom(Atom.byid[b])

    def seg_at(self, aid):
        for s in self.segs.values():
            if s.first == aid or s.last == aid:
                return s
        return None

    def locate(self, p, what):
        """The region that p points into, unfolding predicates; raises Fault/NeedSplit."""
        b, off = self.base_of(p)
        if b is None:
            c = off.const()
            if c is not None and c < 4096:
                raise Fault('null', 'null pointer dereference (%s)' % what)
            raise Fault('wild', '%s through an unknown pointer %r' % (what, p), sure=not lossy(off))
        r = self.heap.get(b)
        if r is not None:
            if not r.alive:
                raise Fault('uaf', '%s of freed memory (%s)' % (what, r.name))
            if r.kind == 'view':
                return segvec.locate(self, r, off, what)
            return r, off
        s = self.seg_at(b)
        if s is not None:
            self.unfold_seg(s, b)
        pr = self.preds.get(b)
        if pr is not None:
            pr.unfold(self, b)
        raise Fault('uaf', '%s through a dangling pointer %r' % (what, Atom.byid[b]))

    # ------------------------------------------------------------ list segments
    def node_from_tags(self, lay, aid, P, N, tags):
        """An explicit node region for a node of a segment."""
        d = rsym('data', bits=self.ctx.W)
        k = rsym('key', bits=self.ctx.W)
        ks = ZERO + k
        for t in sorted(tags, key=repr):
            if t[0] == 'key':
                ks = t[1]
        f = {lay.next: (lay.ptr, N), lay.prev: (lay.ptr, P), lay.data: (lay.ptr, d), lay.key: (lay.ptr, ks)}
        r = Region(aid, 'node', 'node', K(lay.size), f, info={'lay': lay.name, 'data': d, 'key': ks, 'tags': tags})
        self.heap[aid] = r
        if lay.map is not None:
            self.ctx.init_map(self, r, lay)
        for t in sorted(tags, key=repr):
            if t[0] == 'low':
                L = Lin.atom(atom('low', args=(ks, t[1])))
                if ks.single() is not None:
                    n = self.num
                    n.known = dict(n.known)
                    n.known[L.single().id] = t[2]
        return r

    def unfold_seg(self, s, aid):
        """Split the state so that node aid (first or last of s) becomes an explicit region."""
        lay = self.ctx.layouts[s.lay]

        def one(st):
            sg = st.segs.get(s.id)
            if sg is None:
                return False
            if not st.assume_eq(sg.n - 1):
                return False
            sg = st.segs[s.id]
            if sg.first != sg.last:
                keep, drop = sg.first, sg.last
                st.subst({drop: Lin.atom(Atom.byid[keep])})
                sg = st.segs[s.id]
            del st.segs[s.id]
            st.node_from_tags(lay, sg.first, sg.P, sg.N, sg.tags)
            return not st.num.bot

        def more(st):
            sg = st.segs.get(s.id)
            if sg is None or sg.first == sg.last or not st.assume_ge(sg.n - 2):
                return False
            sg = st.segs[s.id]
            del st.segs[s.id]
            if aid == sg.first:
                # fresh first of the rest; the rest may be a single node, whose address is then sg.last
                f2 = st.new_addr('n', 8)
                nid = st.ctx.newid()
                A = Lin.atom(Atom.byid[sg.first])
                st.segs[nid] = Seg(nid, sg.lay, f2.id, sg.last, A, sg.N, sg.n - 1, sg.tags)
                st.node_from_tags(lay, sg.first, sg.P, Lin.atom(f2), sg.tags)
            else:
                l2 = st.new_addr('n', 8)
                nid = st.ctx.newid()
                A = Lin.atom(Atom.byid[sg.last])
                st.segs[nid] = Seg(nid, sg.lay, sg.first, l2.id, sg.P, A, sg.n - 1, sg.tags)
                st.node_from_tags(lay, sg.last, Lin.atom(l2), sg.N, sg.tags)
            return not st.num.bot
        raise NeedSplit([one, more], 'unfold')

    # ------------------------------------------------------------ array segmentations
    def arr_find(self, r, off, size):
        """(arr index, element index) of an access at byte offset off, or None when off is not in an array part."""
        for i, a in enumerate(r.arrs):
            o = off - a.base
            es = a.es.const()
            hi = a.segs[-1][1]
            lo = a.segs[0][0]
            c = o.const()
            if es is None:
                raise Undecided('symbolic element size access')
            if c is not None:
                hc = hi.const()
                if c % es == 0 and size == es and c >= 0 and (hc is None or c // es < hc):
                    return i, K(int(c // es))
                continue
            if not self.divisible(o, es):
                raise Undecided('array offset %r not a multiple of %d' % (o, es))
            idx = Lin.of({m: Fraction(k) / es for m, k in o.t})
            if size != es:
                raise Undecided('array access of size %d' % size)
            if self.num.ge(idx) and (len(r.arrs) == 1 or self.num.ge(hi - 1 - idx)):
                return i, idx
            if len(r.arrs) == 1 and len(r.fields) == 0:
                return i, idx
        return None

    def arr_split(self, r, ai, idx, what):
        """Isolate the element idx of array ai of region r as [idx, idx+1); returns its position in segs."""
        a = r.arrs[ai]
        n = self.num
        lo0, hi0 = a.segs[0][0], a.segs[-1][1]
        if not (n.ge(idx - lo0) and n.ge(hi0 - 1 - idx)):
            raise Fault('oob', '%s out of bounds: index %r of %s, bounds [%r,%r)' % (what, idx, r.name, lo0, hi0), sure=self.sure_outside(idx, lo0, hi0 - 1))
        for p, (lo, hi, t) in enumerate(a.segs):
            c = self.decide(hi - 1 - idx, 'array position')
            if not c:
                continue
            # idx is in segment p (idx >= lo follows from the previous decisions)
            if n.eq0(lo - idx) and n.eq0(hi - idx - 1):
                return p
            left = not n.eq0(lo - idx)
            right = not n.eq0(hi - idx - 1)
            new = list(a.segs[:p])
            if left:
                new.append((lo, idx, t))
            pos = len(new)
            new.append((idx, idx + 1, t))
            if right:
                new.append((idx + 1, hi, t))
            new += a.segs[p + 1:]
            r2 = r.copy()
            r2.arrs = r.arrs[:ai] + (Arr(a.base, a.es, new),) + r.arrs[ai + 1:]
            self.heap[r.id] = r2
            return pos
        raise Fault('oob', '%s out of bounds: index %r of %s' % (what, idx, r.name))

    def arr_set(self, rid, ai, pos, tmpl):
        r = self.heap[rid].copy()
        a = r.arrs[ai]
        lo, hi, _ = a.segs[pos]
        segs = a.segs[:pos] + ((lo, hi, tmpl),) + a.segs[pos + 1:]
        r.arrs = r.arrs[:ai] + (Arr(a.base, a.es, segs),) + r.arrs[ai + 1:]
        self.heap[rid] = r

    def arr_load(self, r, ai, idx):
        pos = self.arr_split(r, ai, idx, 'read')
        r = self.heap[r.id]
        lo, hi, t = r.arrs[ai].segs[pos]
        k = t[0]
        if k == 'val':
            return t[1]
        if k == 'zero':
            return ZERO
        if k == 'uninit':
            raise Fault('uninit', 'read of uninitialised array element %r of %s' % (idx, r.name))
        if k == 'any':
            v = rsym('any', bits=self.ctx.W)
            self.arr_set(r.id, ai, pos, ('val', v, 0))
            return v
        return self.ctx.tmpl_load(self, r, ai, pos, idx, t)

    def arr_store(self, r, ai, idx, v):
        pos = self.arr_split(r, ai, idx, 'write')
        r = self.heap[r.id]
        lo, hi, t = r.arrs[ai].segs[pos]
        if t[0] not in ('val', 'uninit', 'zero', 'any'):
            # overwriting a summarised element: materialise first so that nothing is dropped silently
            self.ctx.tmpl_load(self, r, ai, pos, idx, t)
        State.stamp += 1
        self.arr_set(r.id, ai, pos, ('val', v, State.stamp))
        if 'vbits' in r.info or 'etable' in r.info:
            segvec.attach(self, r.id, ai, pos, idx, v)

    def product(self, a, b):
        """Range of x*E for the symbolic element size E, from the known range of cap*E."""
        E = self.gh.get('esize')
        if E is None:
            return
        n = self.num
        E = n.norm(E)
        for x, y in ((a, b), (b, a)):
            if y == E and n.ge(x):
                for c in self.gh.get('caps', ()):
                    c = n.norm(c)
                    if n.ge(c - x):
                        n.add(n.norm(c * E - x * E))
                        n.add(n.norm(x * E))
                        return

    def over_esize(self, x):
        """x / element size, when x is a multiple of the symbolic element size."""
        E = self.gh.get('esize')
        a = self.num.norm(E).single() if E is not None else None
        if a is None:
            return None
        out = {}
        for m, k in self.num.norm(x).t:
            if m.count(a.id) != 1:
                return None
            l = list(m)
            l.remove(a.id)
            out[tuple(l)] = k
        return Lin.of(out)

    # ------------------------------------------------------------ loads and stores
    def check_bounds(self, r, off, size, what):
        n = self.num
        if not (n.ge(off) and n.ge(r.size - off - size)):
            raise Fault('oob', '%s out of bounds: offset %r size %d of %s (size %r)' % (what, off, size, r.name, r.size), sure=self.sure_outside(off, ZERO, r.size - size))

    def sure_outside(self, x, lo, hi):
        """x is not shown to be in [lo,hi]: is that because it can leave it, and not because nothing is known of it?
        A value that depends on a generalised symbol counts only when the analysis has a finite bound for it beyond the range."""
        n = self.num
        if not (lossy(x) or lossy(lo) or lossy(hi)):
            return True
        if n.ge(x - hi - 1) or n.ge(lo - 1 - x):
            return True
        for d in (x - hi, lo - x):
            if n.ge(-d):
                continue
            m = n.minimum(-d)
            if m is None:
                return False
        return True

    def load(self, p, size):
        if self.preds:
            b, off = self.base_of(p)
            pr = self.preds.get(b)
            if pr is not None and hasattr(pr, 'peek'):
                v = pr.peek(self, b, off, size)
                if v is not None:
                    return v
        r, off = self.locate(p, 'read')
        self.check_bounds(r, off, size, 'read')
        if 'ro' in r.info and r.kind == 'opaque':
            raise Fault('opaque', 'read of user data')
        if 'on_load' in r.info:
            return self.ctx.special_load(self, r, off, size)
        c = off.const()
        if c is not None:
            c = int(c)
            f = r.fields.get(c)
            if f is not None:
                if f[0] == size:
                    return f[1]
                raise Undecided('partial read')
        h = self.arr_find(r, off, size)
        if h is not None:
            return self.arr_load(r, h[0], h[1])
        if c is None:
            raise Undecided('symbolic offset read %r of %s' % (off, r.name))
        for o, (s, v) in r.fields.items():
            if o < c + size and c < o + s:
                raise Undecided('overlapping read')
        if r.info.get('rawany'):
            v = rsym('raw', 0, (1 << (8 * size)) - 1)
            r2 = r.copy()
            r2.fields[c] = (size, v)
            self.heap[r.id] = r2
            return v
        raise Fault('uninit', 'read of uninitialised memory: offset %r of %s' % (off, r.name))

    def store(self, p, v, size):
        r, off = self.locate(p, 'write')
        self.check_bounds(r, off, size, 'write')
        if r.kind in ('const', 'opaque', 'fn'):
            raise Fault('opaque', 'write to %s' % r.name)
        if 'on_store' in r.info:
            return self.ctx.special_store(self, r, off, v, size)
        c = off.const()
        if c is not None and int(c) in r.fields:
            c = int(c)
            if r.fields[c][0] != size:
                raise Undecided('partial write')
            r2 = r.copy()
            r2.fields[c] = (size, v)
            self.heap[r.id] = r2
            self.log_write(r2, c)
            return
        h = self.arr_find(r, off, size)
        if h is not None:
            self.log_write(r, off)
            return self.arr_store(r, h[0], h[1], v)
        if c is None:
            raise Undecided('symbolic offset write %r of %s' % (off, r.name))
        c = int(c)
        r2 = r.copy()
        for o, (s, _) in list(r.fields.items()):
            if o < c + size and c < o + s:
                if o >= c and o + s <= c + size:
                    del r2.fields[o]
                else:
                    raise Undecided('overlapping write')
        r2.fields[c] = (size, v)
        self.heap[r.id] = r2
        self.log_write(r2, c)

    def log_write(self, r, off):
        pass

    def describe(self):
        out = []
        for r in self.heap.values():
            out.append('%s %s size=%r %s %s' % (Atom.byid[r.id], r.kind, r.size, '' if r.alive else 'FREED', {k: v[1] for k, v in r.fields.items()}))
            for a in r.arrs:
                out.append('    ' + ' '.join('[%r,%r):%s' % (lo, hi, t) for lo, hi, t in a.segs))
        for s in self.segs.values():
            out.append(repr(s))
        for k, p in self.preds.items():
            out.append('%s: %r' % (Atom.byid[k], p))
        out.append('facts: %r' % self.num)
        return '\n'.join(out)


def nm2(n, k, v):
    """Normalise a known value without looping on itself."""
    for i in v.ids():
        if i in n.known and i != k:
            return n.norm(v)
    return v


import segvec
