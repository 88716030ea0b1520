"""Dependence domain for the values computed from a byte buffer.

A data value is an interned atom that stands for "some value of w bits, each of which can only depend on these sources"; where its bytes
are still recognisable it also says which bytes they are. Two occurrences of the atom need not be equal, so every operation on such atoms
goes through this module."""
from num import Lin, Atom, atom, K, ZERO, NeedSplit, Undecided
from state import rsym

WIT = 0            # bits 0..7: the witness byte
INIT = 8           # bits 8..71: the initial value
LEN = 1 << 72
OTHER = 1 << 73    # the other bytes of the key
ADDR = 1 << 74
FOREIGN = 1 << 75

TAB = {}
INFO = {}


class Info:
    __slots__ = ('w', 'dep', 'by')

    def __init__(self, w, dep, by=None):
        self.w, self.dep = w, tuple(dep)
        self.by = tuple(by) if by is not None and w % 8 == 0 and any(b != '?' for b in by) else None

    def key(self):
        return self.w, self.dep, self.by

    def bytes(self):
        return self.by or ('?',) * (self.w // 8)

    def all(self):
        m = 0
        for d in self.dep:
            m |= d
        return m


def intern(i):
    a = TAB.get(i.key())
    if a is None:
        a = ZERO + rsym('data', 0, (1 << i.w) - 1)
        TAB[i.key()] = a
        INFO[a.single().id] = i
    return a


def of(l):
    """The info of a data value, or None."""
    if not isinstance(l, Lin) or len(l.t) != 1:
        return None
    m, k = l.t[0]
    return INFO.get(m[0]) if k == 1 and len(m) == 1 else None


def has(l):
    return isinstance(l, Lin) and any(i in INFO for i in l.ids())


def const(c, w):
    c %= 1 << w
    by = None
    if w % 8 == 0:
        by = [('c', c >> 8 * k & 255) if c >> 8 * k & 255 else 'z' for k in range(w // 8)]
    return Info(w, [0] * w, by)


def info(st, l, w):
    i = of(l)
    if i is not None:
        return i if i.w == w else zext(i, w) if i.w < w else trunc(i, w)
    l = st.num.norm(l) if st is not None else l
    c = l.const()
    if c is not None:
        return const(int(c), w)
    if has(l):
        raise Undecided('mixed data value')
    d = ADDR if any(Atom.byid[j].kind == 'addr' for j in l.ids()) else LEN
    return Info(w, [d] * w)


def nonzero(b):
    return b == 'n' or isinstance(b, tuple) and (b[0] == 'c' or b[2])


def zext(i, w):
    return Info(w, i.dep + (0,) * (w - i.w), list(i.bytes()) + ['z'] * ((w - i.w) // 8) if i.w % 8 == 0 and w % 8 == 0 else None)


def trunc(i, w):
    return Info(w, i.dep[:w], i.bytes()[:w // 8] if w % 8 == 0 else None)


def sext(i, w):
    return Info(w, i.dep + (i.dep[-1],) * (w - i.w))


def sticky(a, b):
    out, m = [], 0
    for x, y in zip(a.dep, b.dep):
        m |= x | y
        out.append(m)
    return out


def value(i):
    """The value an info stands for: a constant when nothing else is possible."""
    if i.by is not None and all(b == 'z' or isinstance(b, tuple) and b[0] == 'c' for b in i.by):
        return K(sum((0 if b == 'z' else b[1]) << 8 * k for k, b in enumerate(i.by)))
    return intern(i)


def arith(st, o, la, lb, w):
    a, b = info(st, la, w), info(st, lb, w)
    if o in ('and', 'or', 'xor'):
        dep, by = [], []
        ca, cb = la.const(), lb.const()
        for k in range(w):
            d = a.dep[k] | b.dep[k]
            for c in (ca, cb):
                if c is not None and (o == 'and' and not int(c) >> k & 1 or o == 'or' and int(c) >> k & 1):
                    d = 0
            dep.append(d)
        for x, y in zip(a.bytes(), b.bytes()) if w % 8 == 0 else ():
            if o == 'and':
                r = 'z' if 'z' in (x, y) else x if y == ('c', 255) else y if x == ('c', 255) else x if x == y else '?'
            else:
                r = y if x == 'z' else x if y == 'z' else 'n' if o == 'or' and (nonzero(x) or nonzero(y)) else '?'
            by.append(r)
        return value(Info(w, dep, by if w % 8 == 0 else None))
    if o == 'add':
        if w % 8 == 0 and all('z' in (x, y) for x, y in zip(a.bytes(), b.bytes())):
            return arith(st, 'or', la, lb, w)
        return value(Info(w, sticky(a, b)))
    if o in ('sub', 'mul'):
        if o == 'sub' and lb.const() == 0:
            return la
        if o == 'mul':
            for x, c in ((a, lb.const()), (b, la.const())):
                if c is not None and int(c) > 0 and int(c) & (int(c) - 1) == 0:
                    return value(shl(x, int(c).bit_length() - 1))
        return value(Info(w, sticky(a, b)))
    if o in ('shl', 'lshr', 'ashr'):
        c = lb.const()
        if c is None:
            return value(Info(w, [a.all() | b.all()] * w))
        c = int(c)
        if c >= w:
            from state import Fault
            raise Fault('shift', 'shift by %d of a %d bit value' % (c, w))
        if o == 'shl':
            return value(shl(a, c))
        if o == 'lshr':
            by = list(a.bytes()[c // 8:]) + ['z'] * (c // 8) if c % 8 == 0 and w % 8 == 0 else None
            return value(Info(w, a.dep[c:] + (0,) * c, by))
        return value(Info(w, a.dep[c:] + (a.dep[-1],) * c))
    m = a.all() | b.all()
    return value(Info(w, [m] * w))


def shl(a, c):
    w = a.w
    by = None
    if c % 8 == 0 and w % 8 == 0:
        by = (['z'] * (c // 8) + list(a.bytes()))[:w // 8]
    return Info(w, ((0,) * c + a.dep)[:w], by)


def cast(st, o, l, w0, w1):
    i = info(st, l, w0)
    return value({'zext': zext, 'sext': sext, 'trunc': trunc}[o](i, w1))


def icmp(st, p, la, lb, w):
    """True/False when decided, a data value of one bit otherwise."""
    a, b = info(st, la, w), info(st, lb, w)
    if p in ('eq', 'ne') and w % 8 == 0:
        diff = any(x == 'z' and nonzero(y) or y == 'z' and nonzero(x) or x != y and isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'c'
                   for x, y in zip(a.bytes(), b.bytes()))
        if diff:
            return K(int(p == 'ne'))
        if all(x == y and x not in ('?', 'n') for x, y in zip(a.bytes(), b.bytes())):
            return K(int(p == 'eq'))
    elif p in ('ugt', 'ult', 'uge', 'ule') and w % 8 == 0:
        # against zero (or one)
        for x, l, q in ((a, lb, p), (b, la, {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}[p])):
            c = l.const()
            if c is not None and (q in ('ugt', 'ule') and c == 0 or q in ('uge', 'ult') and c == 1):
                if any(nonzero(y) for y in x.bytes()):
                    return K(int(q in ('ugt', 'uge')))
    return intern(Info(1, [a.all() | b.all()]))


def branch(st, l):
    """A branch on a data value: both ways are explored, and what follows is only a possibility."""
    c = st.gh.get('#choice')
    if c is not None:
        st.gh['#choice'] = None
        return c
    dep = of(l).all()
    alts = []
    for v in (True, False):
        def alt(s, v=v):
            s.gh['#choice'] = v
            s.gh['#spec'] = 1
            s.gh['#ctl'] = s.gh.get('#ctl', 0) | dep
            return True
        alts.append(alt)
    raise NeedSplit(alts, 'data')


def join(g, s):
    """Join of two values of which one at least is a data value; None when that is not possible."""
    a, b = of(g), of(s)
    w = (a or b).w
    try:
        a, b = a or info(None, g, w), b or info(None, s, w)
    except Undecided:
        return None
    if a.w != b.w:
        return None
    by = [x if x == y else 'n' if nonzero(x) and nonzero(y) else '?' for x, y in zip(a.bytes(), b.bytes())] if w % 8 == 0 else None
    return intern(Info(w, [x | y for x, y in zip(a.dep, b.dep)], by))


def le(s, g):
    if s == g:
        return True
    j = join(g, s)
    return j is not None and j == g
