"""C28: the buffer hashes compute the published lookup3 values, decided by value numbering.

The IR of a hash function is cut at its loop header. Every loop-free piece (entry to header, header to header, header to
return) is value-numbered into a canonical form - a word is a linear form modulo 2^w over canonical bits - and compared
with the value number of the corresponding piece of the published algorithm, for arbitrary key bytes, arbitrary initial
value and arbitrary a, b, c at the header. The only thing partitioned is the number of bytes left, by the comparisons in
the code. Equal value numbers for all pieces are an inductive proof for keys of every length.
"""
import itertools, random
import ir
from bits import Unknown

M64 = (1 << 63) - 1


class Num:
    """Hash-consed canonical bits and linear forms."""

    def __init__(self):
        self.defs = {}      # key -> id
        self.by = [None, None]
        self.ops = {}

    def bit(self, key):
        i = self.defs.get(key)
        if i is None:
            i = self.defs[key] = len(self.by)
            self.by.append(key)
        return i

    def inw(self, name, w):
        return self.of_word(tuple(self.bit(('in', name, i)) for i in range(w)))

    # bits: 0, 1, +id, -id
    def bxor(self, x, y):
        n = 0
        s = set()
        for b in (x, y):
            if b == 1:
                n ^= 1
                continue
            if b == 0:
                continue
            if b < 0:
                n ^= 1
                b = -b
            k = self.by[b]
            s ^= set(k[1]) if k[0] == 'xor' else {b}
        if not s:
            return n
        r = next(iter(s)) if len(s) == 1 else self.bit(('xor', frozenset(s)))
        return -r if n else r

    def band(self, x, y):
        if x == 0 or y == 0 or x == -y:
            return 0
        if x == 1 or x == y:
            return y
        if y == 1:
            return x
        s = set()
        for b in (x, y):
            k = self.by[b] if b > 0 else ('', )
            s |= set(k[1]) if k[0] == 'and' else {b}
        if any(-b in s for b in s):
            return 0
        return self.bit(('and', frozenset(s)))

    def bnot(self, x):
        return 1 - x if x in (0, 1) else -x

    def bor(self, x, y):
        return self.bnot(self.band(self.bnot(x), self.bnot(y)))

    # linear forms: (w, const, frozenset of (bit, coefficient))
    def mk(self, w, c, d):
        m = (1 << w) - 1
        d = {b: k & m for b, k in d.items() if k & m}
        for b in list(d):
            k = self.by[b]
            if b in d and k[0] == 'op' and k[2] == w - 1:
                L = k[1]
                ids = self.opbits(L)
                q = d.get(ids[0], 0)
                if all(d.get(i, 0) == (q << n) & m and d.get(i, 0) for n, i in enumerate(ids)):
                    for i in ids:
                        del d[i]
                    c += q * L[1]
                    for x, y in L[2]:
                        d[x] = (d.get(x, 0) + q * y) & m
        return (w, c & m, frozenset((b, k) for b, k in d.items() if k))

    def const(self, v, w):
        return (w, v & ((1 << w) - 1), frozenset())

    def comb(self, w, *ts):
        c, d = 0, {}
        for q, t in ts:
            c += q * t[1]
            for b, k in t[2]:
                d[b] = d.get(b, 0) + q * k
        return self.mk(w, c, d)

    def add(self, a, b):
        return self.comb(a[0], (1, a), (1, b))

    def sub(self, a, b):
        return self.comb(a[0], (1, a), (-1, b))

    def word(self, t):
        w, c, items = t
        pos = {}
        ok = True
        for b, k in items:
            if k & (k - 1) == 0:
                p, s = k.bit_length() - 1, 1
            else:
                n = (1 << w) - k
                if n & (n - 1):
                    ok = False
                    break
                p, s = n.bit_length() - 1, -1
                c -= n
            if p in pos:
                ok = False
                break
            pos[p] = s * b
        if ok:
            c &= (1 << w) - 1
            if not any((c >> p) & 1 for p in pos):
                return tuple(pos.get(i, (c >> i) & 1) for i in range(w))
        tz = 0
        while tz < w - 1 and not (t[1] >> tz) & 1 and not any((k >> tz) & 1 for _, k in items):
            tz += 1
        if tz:
            return (0,) * tz + self.word(self.mk(w - tz, t[1] >> tz, {b: k >> tz for b, k in items}))
        return self.opbits(t)

    def opbits(self, t):
        """Bit i of a sum is named after the sum modulo 2^(i+1), the only part it depends on."""
        r = self.ops.get(t)
        if r is None:
            r = self.ops[t] = tuple(self.bit(('op', (i + 1, t[1] & ((2 << i) - 1), frozenset((b, k & ((2 << i) - 1)) for b, k in t[2] if k & ((2 << i) - 1))), i))
                                    for i in range(t[0]))
        return r

    def of_word(self, bs):
        w = len(bs)
        c, d = 0, {}
        for i, b in enumerate(bs):
            if b == 0:
                continue
            if b == 1:
                c += 1 << i
            elif b > 0:
                d[b] = d.get(b, 0) + (1 << i)
            else:
                c += 1 << i
                d[-b] = d.get(-b, 0) - (1 << i)
        return self.mk(w, c, d)

    def zext(self, t, w):
        return self.of_word(self.word(t) + (0,) * (w - t[0]))

    def trunc(self, t, w):
        return self.mk(w, t[1], dict(t[2]))

    def rot(self, t, k):
        b = self.word(t)
        k %= len(b)
        return self.of_word(b[-k:] + b[:-k])

    def map2(self, f, a, b):
        return self.of_word(tuple(f(x, y) for x, y in zip(self.word(a), self.word(b))))

    def xor(self, a, b):
        return self.map2(self.bxor, a, b)

    # evaluation at a point, for witnesses only
    def at(self, t, env, memo):
        k = ('t', t)
        if k not in memo:
            memo[k] = None
            v = t[1]
            for b, q in t[2]:
                v += q * self.bit_at(b, env, memo)
            memo[k] = v & ((1 << t[0]) - 1)
        return memo[k]

    def bit_at(self, b, env, memo):
        if b in (0, 1):
            return b
        if b < 0:
            return 1 - self.bit_at(-b, env, memo)
        if b in memo:
            return memo[b]
        k = self.by[b]
        if k[0] == 'in':
            v = env(k)
        elif k[0] == 'op':
            v = (self.at(k[1], env, memo) >> k[2]) & 1
        elif k[0] == 'xor':
            v = 0
            for x in k[1]:
                v ^= self.bit_at(x, env, memo)
        else:
            v = int(all(self.bit_at(x, env, memo) for x in k[1]))
        memo[b] = v
        return v


class Aff:
    """A 64 bit quantity c + r*R + j*J: R bytes of the key are left, J blocks were consumed."""

    def __init__(self, c, r=0, j=0, base=None):
        self.c, self.r, self.j, self.base = c, r, j, base

    def key(self):
        return (self.c, self.r, self.j, self.base)

    def __add__(self, o):
        if self.base is not None and o.base is not None:
            raise Unknown('sum of addresses')
        return Aff(self.c + o.c, self.r + o.r, self.j + o.j, self.base if o.base is None else o.base)

    def __sub__(self, o):
        if o.base is not None and o.base != self.base:
            raise Unknown('difference of addresses')
        return Aff(self.c - o.c, self.r - o.r, self.j - o.j, None if o.base is not None else self.base)

    def scale(self, k):
        if self.base is not None and k != 1:
            raise Unknown('multiple of an address')
        return Aff(self.c * k, self.r * k, self.j * k, self.base)

    def subst(self, r, j):
        """R and J replaced by Aff values."""
        x = Aff(self.c, 0, 0, self.base)
        return x + r.scale(self.r) + j.scale(self.j)

    def __repr__(self):
        return '%s%d%+dR%+dJ' % ('' if self.base is None else '%s+' % (self.base,), self.c, self.r, self.j)


class Split(Exception):
    """The interval of R has to be cut: values below `at` and from `at` on behave differently."""

    def __init__(self, at):
        self.at = at


class Piece:
    """Value-numbers the code from a block on, up to the header or the return. R is in [lo, hi]."""

    def __init__(self, mod, num, lo, hi, header=None, limit=60000):
        self.m, self.n, self.lo, self.hi, self.header, self.limit = mod, num, lo, hi, header, limit
        self.steps = 0
        self.mem = {}
        self.nloc = 0
        self.cover = set()

    def fresh_r(self):
        return Aff(self.lo) if self.lo == self.hi else Aff(0, 1)

    # intervals
    def rng(self, a):
        lo = a.c + min(a.r * self.lo, a.r * self.hi)
        hi = a.c + max(a.r * self.lo, a.r * self.hi)
        return lo, hi

    def sign(self, a, strict):
        """Truth of a > 0 (strict) or a >= 0 for an Aff without J and base; splits R when it is not constant."""
        if a.j or a.base is not None:
            raise Unknown('comparison depends on the position %r' % a)
        t = a.c - (1 if strict else 0)
        lo, hi = t + min(a.r * self.lo, a.r * self.hi), t + max(a.r * self.lo, a.r * self.hi)
        if lo >= 0:
            return 1
        if hi < 0:
            return 0
        # smallest R at which the truth differs from that at self.lo
        if a.r > 0:
            raise Split(-(t // a.r))        # first R with t + r*R >= 0
        raise Split(t // -a.r + 1)          # first R with t + r*R < 0

    def nowrap(self, a):
        if a.j < 0:
            raise Unknown('comparison of %r' % a)
        if a.c >= 0 and a.r >= 0:
            return a
        if a.base is None and a.j == 0:
            if not self.sign(Aff(a.c, a.r), False):     # negative: wraps to a huge value
                return a + Aff(1 << 64)
            return a
        if self.sign(Aff(a.c, a.r), False):
            return a
        raise Unknown('comparison of %r' % a)

    def compare(self, pred, a, b):
        if a.base != b.base:
            raise Unknown('comparison of different objects')
        d = b - a
        if pred in ('eq', 'ne'):
            if d.j:
                raise Unknown('comparison depends on the position')
            e = 0
            if self.sign(d, False) and self.sign(Aff(-d.c, -d.r), False):
                e = 1
            return e if pred == 'eq' else 1 - e
        if a.base is None and pred[0] == 'u':
            a, b = self.nowrap(a), self.nowrap(b)
        d = b - a
        op = pred[1:]
        if op in ('gt', 'ge'):
            d = a - b
            op = {'gt': 'lt', 'ge': 'le'}[op]
        return self.sign(Aff(d.c, d.r, d.j), op == 'lt')

    # values
    def to_aff(self, v):
        if isinstance(v, Aff):
            return v
        if v[2]:
            return None
        return Aff(v[1] if v[1] <= M64 else v[1] - (1 << 64))

    def to_lin(self, v, w=64):
        if not isinstance(v, Aff):
            return v
        if v.base is not None:
            raise Unknown('value of an address')
        t = self.n.const(v.c, w)
        for k, nm in ((v.r, 'R'), (v.j, 'J')):
            if k:
                t = self.n.comb(w, (1, t), (k, self.n.inw(nm, 64)))
        return t

    def val(self, v, ty, regs):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k in ('int', 'zero'):
            c = v[1] if k == 'int' else 0
            if ty.k == 'ptr':
                return Aff(c, base='null')
            return self.n.const(c, ty.n)
        if k == 'glob':
            return Aff(0, base=('glob', v[1]))
        if k == 'cexpr' and v[1] == 'getelementptr':
            return self.gep(v[2], v[3], regs)
        if k in ('undef', 'poison'):
            return self.n.inw('undef', ty.n) if ty.k == 'int' else Aff(0, base='undef')
        raise Unknown('operand %r' % (v,))

    def gep(self, st, args, regs):
        p = self.val(args[0][1], args[0][0], regs)
        t = st
        for n, (ty, v) in enumerate(args[1:]):
            i = self.val(v, ty, regs)
            if not isinstance(i, Aff):
                if i[2]:
                    raise Unknown('index')
                c = i[1] if i[1] < 1 << (i[0] - 1) else i[1] - (1 << i[0])
                i = Aff(c)
            if n == 0:
                sz = self.m.sizeof(t)
            elif t.k == 'arr':
                t = t.e
                sz = self.m.sizeof(t)
            else:
                p = p + Aff(self.m.offset(t, i.c)[0])
                t = self.m.fields(t)[i.c]
                continue
            p = p + i.scale(sz)
        return p

    def load(self, p, ty, ins):
        n = self.m.sizeof(ty)
        if p.base == 'key':
            if p.r or p.j not in (0, self.jstep):
                raise Unknown('load at %r' % p, ins)
            if ty.k != 'int':
                raise Unknown('load of a pointer from the key', ins)
            if self.given is not None:
                return self.n.const(sum(self.given(p.c + i) << 8 * i for i in range(n)), 8 * n)
            bs = ()
            for i in range(n):
                bs += tuple(self.n.bit(('in', 'k%d' % (p.c + i), b)) for b in range(8))
            return self.n.of_word(bs)
        if isinstance(p.base, tuple) and p.base[0] == 'loc':
            if p.r or p.j:
                raise Unknown('local index', ins)
            cell = self.mem.get((p.base, p.c))
            if cell is not None and cell[0] == n:
                return cell[1]
            bs = ()
            for i in range(n):
                bs += self.byte(p.base, p.c + i, ins)
            return self.n.of_word(bs)
        if isinstance(p.base, tuple) and p.base[0] == 'glob' and not p.r and not p.j:
            g = self.m.globals.get(p.base[1])
            bs = self.m.global_bytes(p.base[1]) if g is not None and g[0] == 'constant' else None
            if bs is not None and 0 <= p.c and p.c + n <= len(bs):
                return self.n.const(int.from_bytes(bs[p.c:p.c + n], 'little'), 8 * n)
        raise Unknown('load at %r' % p, ins)

    def byte(self, base, off, ins):
        for (b, o), (n, v) in self.mem.items():
            if b == base and o <= off < o + n and not isinstance(v, Aff):
                return self.n.word(v)[8 * (off - o):8 * (off - o) + 8]
        raise Unknown('local memory', ins)

    def store(self, p, v, n, ins):
        if not (isinstance(p.base, tuple) and p.base[0] == 'loc') or p.r or p.j:
            raise Unknown('store at %r' % p, ins)
        for (b, o), (k, old) in list(self.mem.items()):
            if b == p.base and o < p.c + n and p.c < o + k:
                del self.mem[(b, o)]
                if o < p.c or o + k > p.c + n:
                    if isinstance(old, Aff):
                        raise Unknown('partial store', ins)
                    w = self.n.word(old)
                    for i in range(k):
                        if not p.c <= o + i < p.c + n:
                            self.mem[(b, o + i)] = (1, self.n.of_word(w[8 * i:8 * i + 8]))
        self.mem[(p.base, p.c)] = (n, v)

    jstep = 12
    given = None        # constant key bytes, to confirm a difference already found

    def run(self, f, args, depth=0, start=None, regs=None):
        """Returns ('ret', value) or ('header', {phi: value})."""
        if depth > 20:
            raise Unknown('recursion')
        if start is None:
            regs = {n: v for (t, n), v in zip(f.params, args)}
            prev, cur = None, f.order[0]
        else:
            regs = dict(regs)
            prev, cur = None, start
        first = start is not None
        while True:
            blk = f.blocks[cur]
            if not first:
                ph = {}
                for ins in blk.ins:
                    if ins.op != 'phi':
                        break
                    for v, b in ins.a:
                        if b == prev:
                            ph[ins.res] = self.val(v, ins.ty, regs)
                if depth == 0 and cur == self.header:
                    return 'header', ph, regs
                regs.update(ph)
            first = False
            nxt = None
            for ins in blk.ins:
                if ins.op == 'phi':
                    continue
                self.steps += 1
                if self.steps > self.limit:
                    raise Unknown('loop not cut', ins)
                self.cover.add(id(ins))
                o = ins.op
                if o == 'ret':
                    return 'ret', (self.val(ins.a[0], ins.ty, regs) if ins.a else None), regs
                if o == 'br':
                    if ins.a:
                        c = self.val(ins.a[0], ir.Ty('int', 1), regs)
                        if c[2]:
                            raise Unknown('branch condition', ins)
                        nxt = ins.x[0] if c[1] else ins.x[1]
                    else:
                        nxt = ins.x[0]
                    break
                if o == 'switch':
                    v = self.val(ins.a[0], ins.ty, regs)
                    a = self.to_aff(v)
                    if a is None:
                        raise Unknown('switch value', ins)
                    nxt = ins.x[0]
                    for k, l in ins.x[1]:
                        if self.compare('eq', a, Aff(k)):
                            nxt = l
                    break
                if o == 'unreachable':
                    raise Unknown('unreachable', ins)
                try:
                    r = self.step(ins, regs, depth)
                except Unknown as e:
                    if e.ins is None:
                        e.ins = ins
                    raise
                if ins.res:
                    regs[ins.res] = r
            prev, cur = cur, nxt

    def step(self, ins, regs, depth):
        o, m, N = ins.op, self.m, self.n
        V = lambda i, ty=None: self.val(ins.a[i], ty or ins.ty, regs)
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem'):
            a, b = V(0), V(1)
            w = ins.ty.n
            if isinstance(a, Aff) or isinstance(b, Aff):
                x, y = self.to_aff(a), self.to_aff(b)
                if x is not None and y is not None:
                    if o == 'add':
                        return self.norm(x + y)
                    if o == 'sub':
                        return self.norm(x - y)
                    if o == 'mul' and not (y.r or y.j or y.base):
                        return self.norm(x.scale(y.c))
                    if o == 'shl' and not (y.r or y.j or y.base):
                        return self.norm(x.scale(1 << y.c))
                    if o == 'and' and y.c == 0xffffffff and not (y.r or y.j):
                        return N.zext(self.to_lin(x, 32), 64)
                a, b = self.to_lin(a), self.to_lin(b)
            if o == 'add':
                return N.add(a, b)
            if o == 'sub':
                return N.sub(a, b)
            if o == 'mul':
                if b[2]:
                    a, b = b, a
                if b[2]:
                    raise Unknown('product', ins)
                if b[1] and b[1] & (b[1] - 1) == 0:
                    c = b[1].bit_length() - 1
                    return N.of_word((0,) * c + N.word(a)[:w - c])
                return N.comb(w, (b[1], a))
            if o == 'and':
                return N.map2(N.band, a, b)
            if o == 'or':
                return N.map2(N.bor, a, b)
            if o == 'xor':
                return N.map2(N.bxor, a, b)
            if b[2]:
                raise Unknown('variable shift', ins)
            c = b[1]
            if o in ('shl', 'lshr', 'ashr') and c >= w:
                raise Unknown('shift by %d of %d bits' % (c, w), ins)
            if o == 'shl':
                return N.of_word((0,) * c + N.word(a)[:w - c])
            if o in ('lshr', 'ashr'):
                x = N.word(a)
                return N.of_word(x[c:] + ((0,) if o == 'lshr' else (x[-1],)) * c)
            if not a[2] and c:
                return N.const(a[1] // c if o == 'udiv' else a[1] % c, w)
            if c and c & (c - 1) == 0:
                k = c.bit_length() - 1
                x = N.word(a)
                return N.of_word(x[k:] + (0,) * k if o == 'udiv' else x[:k] + (0,) * (w - k))
            raise Unknown('division', ins)
        if o == 'icmp':
            a, b = V(0), V(1)
            x, y = self.to_aff(a), self.to_aff(b)
            if isinstance(a, Aff) or isinstance(b, Aff):
                if x is None or y is None:
                    raise Unknown('comparison', ins)
                return N.const(self.compare(ins.x, x, y), 1)
            if a[2] or b[2]:
                if a == b:
                    return N.const(ins.x in ('eq', 'ule', 'uge', 'sle', 'sge'), 1)
                if ins.x in ('eq', 'ne') and N.sub(a, b)[2] == frozenset():
                    return N.const(ins.x == 'ne', 1)
                raise Unknown('comparison of values', ins)
            w = a[0]
            s = lambda v: v - (1 << w) if v >> (w - 1) else v
            p, q = (s(a[1]), s(b[1])) if ins.x[0] == 's' else (a[1], b[1])
            op = ins.x if ins.x in ('eq', 'ne') else ins.x[1:]
            return N.const({'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[op], 1)
        if o in ('zext', 'sext', 'trunc'):
            a = self.val(ins.a[0], ins.x, regs)
            w = ins.ty.n
            if o == 'trunc':
                return self.to_lin(a, w) if isinstance(a, Aff) else N.trunc(a, w)
            if isinstance(a, Aff):
                raise Unknown('extension', ins)
            if o == 'zext':
                return N.zext(a, w)
            x = N.word(a)
            return N.of_word(x + (x[-1],) * (w - len(x)))
        if o == 'ptrtoint':
            return self.val(ins.a[0], ir.PTR, regs)
        if o == 'inttoptr':
            a = self.val(ins.a[0], ins.x, regs)
            if not isinstance(a, Aff):
                raise Unknown('address', ins)
            return a
        if o in ('freeze', 'bitcast'):
            return self.val(ins.a[0], ins.x or ins.ty, regs)
        if o == 'select':
            c = self.val(ins.a[0], ir.Ty('int', 1), regs)
            if c[2]:
                raise Unknown('select', ins)
            return V(1) if c[1] else V(2)
        if o == 'getelementptr':
            return self.gep(ins.x, ins.a, regs)
        if o == 'alloca':
            self.nloc += 1
            return Aff(0, base=('loc', self.nloc))
        if o == 'load':
            return self.load(V(0, ir.PTR), ins.ty, ins)
        if o == 'store':
            v = self.val(ins.a[0], ins.ty, regs)
            self.store(self.val(ins.a[1], ir.PTR, regs), v, m.sizeof(ins.ty), ins)
            return None
        if o == 'call':
            nm = ins.x[1] if ins.x[0] == 'glob' else None
            if (nm or '').startswith('llvm.dbg') or (nm or '').startswith('llvm.lifetime') or (nm or '').startswith('llvm.assume'):
                return None
            args = [self.val(v, t, regs) for t, v in ins.a if t.k != 'metadata']
            if nm in m.funcs:
                return self.run(m.funcs[nm], args, depth + 1)[1]
            if nm and nm.startswith('llvm.expect'):
                return args[0]
            if nm and nm.startswith('llvm.fsh') and not args[2][2]:
                w = args[0][0]
                c = args[2][1] % w
                both = N.word(args[1]) + N.word(args[0])
                return N.of_word(both[w - c:2 * w - c] if 'fshl' in nm else both[c:c + w])
            if nm and nm.startswith('llvm.bswap'):
                a = N.word(args[0])
                return N.of_word(sum((a[i:i + 8] for i in range(len(a) - 8, -1, -8)), ()))
            if nm and (nm.startswith('llvm.memcpy') or nm in ('memcpy', 'memmove') or nm.startswith('llvm.memmove')):
                k = self.to_aff(args[2])
                if k is None or k.r or k.j or not 0 <= k.c <= 256:
                    raise Unknown('copy of a variable size', ins)
                vs = [self.load(args[1] + Aff(i), ir.Ty('int', 8), ins) for i in range(k.c)]
                for i, v in enumerate(vs):
                    self.store(args[0] + Aff(i), v, 1, ins)
                return args[0]
            if nm and nm.startswith('llvm.memset') or nm == 'memset':
                k = self.to_aff(args[2])
                if k is None or k.r or k.j or not 0 <= k.c <= 256:
                    raise Unknown('fill of a variable size', ins)
                for i in range(k.c):
                    self.store(args[0] + Aff(i), N.trunc(args[1], 8), 1, ins)
                return args[0]
            raise Unknown('call of %s' % nm, ins)
        raise Unknown('instruction %s' % o, ins)

    def norm(self, a):
        if a.base is None and not a.r and not a.j:
            return self.n.const(a.c, 64)
        return a


# the published algorithm (Bob Jenkins, lookup3.c, May 2006: hashlittle and hashlittle2)
MIX = (('a', 'c', 4, 'b'), ('b', 'a', 6, 'c'), ('c', 'b', 8, 'a'), ('a', 'c', 16, 'b'), ('b', 'a', 19, 'c'), ('c', 'b', 4, 'a'))
FINAL = (('c', 'b', 14), ('a', 'c', 11), ('b', 'a', 25), ('c', 'b', 16), ('a', 'c', 4), ('b', 'a', 14), ('c', 'b', 24))


class Ref:
    def __init__(self, num, wide):
        self.n, self.wide = num, wide

    def init(self, length, init):
        """length: 32 bit word of the key length; init: the initial value (32 bits, or 64 with the second seed on top)."""
        N = self.n
        x = N.add(N.add(N.const(0xdeadbeef, 32), length), N.trunc(init, 32))
        c = x
        if self.wide:
            hi = N.of_word(N.word(init)[32:])
            c = N.add(x, hi)
        return {'a': x, 'b': x, 'c': c}

    def read(self, s, off, n):
        """Adds n <= 12 key bytes at off to a, b and c."""
        N = self.n
        s = dict(s)
        for i in range(n):
            x = 'abc'[i // 4]
            b = tuple(N.bit(('in', 'k%d' % (off + i), t)) for t in range(8))
            k = 8 * (i % 4)
            s[x] = N.add(s[x], N.of_word((0,) * k + b + (0,) * (24 - k)))
        return s

    def block(self, s, off):
        N = self.n
        s = self.read(s, off, 12)
        for x, y, k, z in MIX:
            s[x] = N.sub(s[x], s[y])
            s[x] = N.xor(s[x], N.rot(s[y], k))
            s[y] = N.add(s[y], s[z])
        return s

    def tail(self, s, off, n):
        N = self.n
        if n:
            s = self.read(s, off, n)
            for x, y, k in FINAL:
                s[x] = N.xor(s[x], s[y])
                s[x] = N.sub(s[x], N.rot(s[y], k))
        if not self.wide:
            return s['c']
        return N.add(N.zext(s['c'], 64), N.of_word((0,) * 32 + N.word(s['b'])))

    def rest(self, s, n, off=0):
        while n > 12:
            s = self.block(s, off)
            off += 12
            n -= 12
        return self.tail(s, off, n)


def explore(make, lo, hi, small=40):
    """Runs make(lo, hi) over the interval, cutting it where the code does; below `small` values one by one.
    Yields (lo, hi, piece, outcome)."""
    todo = [(lo, hi)]
    n = 0
    while todo:
        lo, hi = todo.pop()
        n += 1
        if n > 4000:
            raise Unknown('too many cases of the length')
        if lo < hi and hi - lo < small:
            todo += [(v, v) for v in range(lo, hi + 1)]
            continue
        try:
            p, out = make(lo, hi)
        except Split as e:
            if not lo < e.at <= hi:
                raise Unknown('cut of the length at %d outside %d..%d' % (e.at, lo, hi))
            todo += [(lo, e.at - 1), (e.at, hi)]
            continue
        yield lo, hi, p, out


def loop_headers(f):
    """Targets of back edges in a depth first walk."""
    succ = {}
    for lb in f.order:
        t = f.blocks[lb].ins[-1]
        succ[lb] = list(t.x) if t.op == 'br' and t.a else [t.x[0]] if t.op == 'br' else [t.x[0]] + [l for _, l in t.x[1]] if t.op == 'switch' else []
    heads, state = [], {}

    def dfs(b):
        state[b] = 1
        for s in succ[b]:
            if state.get(s) == 1:
                if s not in heads:
                    heads.append(s)
            elif s not in state:
                dfs(s)
        state[b] = 2
    dfs(f.order[0])
    return heads


class Mismatch(Exception):
    def __init__(self, lo, hi, what, start=None):
        Exception.__init__(self, what)
        self.lo, self.hi, self.start = lo, hi, start


def args_of(p, f, num, wide):
    w = f.params[0][0].n
    return [num.inw('init', w), Aff(0, base='key'), p.norm(p.fresh_r())]


def unrolled(mod, f, num, ref, n, wide):
    """Value numbers of code and reference for keys of exactly n bytes; None when equal, else a witness or False."""
    p = Piece(mod, num, n, n)
    out = p.run(f, args_of(p, f, num, wide))
    got = out[1]
    init = num.inw('init', f.params[0][0].n)
    exp = ref.rest(ref.init(num.const(n, 32), init), n)
    if got == exp:
        return None
    rnd = random.Random(1)
    for t in range(12):
        seed = {}

        def env(k):
            if k[1] == 'undef':
                return 0
            return seed.setdefault(k, 0 if t == 0 else 1 if t == 1 else rnd.getrandbits(1))
        x, y = num.at(got, env, {}), num.at(exp, env, {})
        if x != y:
            byte = lambda i: sum(env(('in', 'k%d' % i, b)) << b for b in range(8))
            iv = sum(env(('in', 'init', b)) << b for b in range(f.params[0][0].n))
            ks = ''.join('%02x' % byte(i) for i in range(min(n, 48)))
            if any(k[1].startswith('k') and not 0 <= int(k[1][1:]) < n for k in seed if k[0] == 'in' and k[1][:1] == 'k'):
                return 'the value for %d bytes depends on bytes outside the key' % n
            return 'for a key of %d bytes (%s%s, initial value 0x%x) the value is 0x%x, lookup3 gives 0x%x' % (n, ks, '...' if n > 48 else '', iv, x, y)
    return False


def induct(mod, f, num, ref, wide, R, key):
    """The inductive argument. Raises Mismatch or Unknown; returns what was compared."""
    heads = loop_headers(f)
    if len(heads) > 1:
        raise Unknown('%d loops' % len(heads))
    head = heads[0] if heads else None
    init = num.inw('init', f.params[0][0].n)
    done = 0

    def from_entry(lo, hi):
        p = Piece(mod, num, lo, hi, head)
        return p, p.run(f, args_of(p, f, num, wide))
    entries = []
    for lo, hi, p, out in explore(from_entry, 0, M64):
        if out[0] == 'ret':
            if lo != hi:
                raise Mismatch(lo, hi, 'a return that does not depend on the length')
            if out[1] != ref.rest(ref.init(num.const(lo, 32), init), lo):
                raise Mismatch(lo, hi, 'the value for %d bytes' % lo)
            done += 1
            R.count('pieces')
        else:
            if p.mem:
                raise Unknown('local memory at the loop')
            entries.append((lo, hi, p, out[1], out[2]))
    if not entries:
        return done
    phis = [i for i in f.blocks[head].ins if i.op == 'phi']
    ents = [e for e in entries if e[0] != e[1]] or entries
    e0 = ents[0]
    words = [i.res for i in phis if i.ty.k == 'int' and i.ty.n == 32]
    others = [i.res for i in phis if i.res not in words]
    # registers from before the loop that the loop may use
    outer = e0[4]
    fresh = {x: num.inw('phi.' + x, 32) for x in words}

    def affs(ph, p):
        return {x: p.to_aff(ph[x]) if ph[x] is not None else None for x in others}
    a0 = affs(e0[3], e0[2])
    if any(v is None for v in a0.values()):
        raise Unknown('a loop variable that is not affine')

    def go(vals):
        def make(lo, hi):
            p = Piece(mod, num, lo, hi, head)
            r = p.fresh_r()
            regs = {}
            for k, v in outer.items():
                if isinstance(v, Aff):
                    # values from before the loop: R was the whole length
                    v = p.norm(v.subst(r + Aff(0, 0, 12), Aff(0)))
                elif any(num.by[b][:2] == ('in', 'R') for b, _ in v[2]):
                    v = num.inw('old.' + k, v[0])
                regs[k] = v
            regs.update(fresh)
            for x in others:
                regs[x] = p.norm(vals[x].subst(r, Aff(0, 0, 1)))
            return p, p.run(f, None, start=head, regs=regs)
        return make
    # the step of the affine variables, from one pass
    step = None
    guess = {x: (a0[x].subst(Aff(0, 1, 12), Aff(0)) if a0[x].r else a0[x]) for x in others}
    for k in (1, 2, 3, 4):
        vals = {}
        for x in others:
            c, r, j, base = guess[x].key()
            vals[x] = (c, r, j, base)
        cand = {}
        # candidates: remaining length (R), consumed bytes (12 J), constants
        for x in others:
            c, r, j, base = vals[x]
            if a0[x].r == 1:
                cand[x] = [Aff(c, 1, 0, base), Aff(c, 1, 12, base)]
            elif a0[x].r == -1:
                cand[x] = [Aff(c, -1, 0, base), Aff(c, -1, -12, base)]
            else:
                cand[x] = [Aff(c, 0, 12, base), Aff(c, 0, 0, base), Aff(c, 0, 1, base), Aff(c, 0, 3, base)]
        sols = []
        for combo in itertools.product(*[cand[x] for x in others]):
            vals = dict(zip(others, combo))
            try:
                backs = []
                good = True
                lo0, hi0 = min(e[0] for e in entries), max(e[1] for e in entries)
                for _ in range(6):
                    backs = []
                    rets = []
                    for lo, hi, p, out in explore(go(vals), lo0, hi0):
                        if out[0] == 'header':
                            backs.append((lo, hi, p, out[1]))
                        else:
                            rets.append((lo, hi, p, out[1]))
                    nlo = min([lo0] + [b[0] - 12 * k for b in backs])
                    if nlo < 0:
                        good = False
                        break
                    if nlo == lo0:
                        break
                    lo0 = nlo
                if not good:
                    continue
                for lo, hi, p, ph in backs:
                    if lo - 12 * (k - 1) <= 12:
                        good = False
                        break
                    nr = p.fresh_r() - Aff(12 * k)
                    for x in others:
                        want = vals[x].subst(nr, Aff(k, 0, 1))
                        got = p.to_aff(ph[x])
                        if got is None or got.key() != want.key():
                            good = False
                            break
                    if not good:
                        break
                if good:
                    sols.append((vals, backs, rets))
                    break
            except Unknown as e:
                last = e
                continue
        if sols:
            step = k
            break
    if step is None:
        raise Unknown('the loop variables do not follow the blocks of 12 bytes')
    vals, backs, rets = sols[0]
    # entry values of the affine variables
    for lo, hi, p, ph, rg in entries:
        for x in others:
            g = p.to_aff(ph[x])
            if g is None or g.key() != vals[x].subst(p.fresh_r(), Aff(0)).key():
                raise Unknown('different entries of the loop')
    if len(words) < 3:
        raise Unknown('fewer than three 32 bit loop variables')
    best = None
    for sig in itertools.permutations(words, 3):
        names = dict(zip('abc', sig))
        s = {x: fresh[names[x]] for x in 'abc'}
        good, wrong = 0, []
        for lo, hi, p, ph in backs:
            t = s
            for i in range(step):
                t = ref.block(t, 12 * i)
            for x in 'abc':
                if ph[names[x]] == t[x]:
                    good += 1
                else:
                    wrong.append(Mismatch(lo, hi, 'the new value of %s after a block of 12 bytes' % x))
        for lo, hi, p, v in rets:
            if lo != hi:
                wrong.append(Mismatch(lo, hi, 'a return that does not depend on the length'))
            elif v != ref.rest(s, lo):
                wrong.append(Mismatch(lo, hi, 'the value when %d bytes are left' % lo))
            else:
                good += 1
        for lo, hi, p, ph, rg in entries:
            want = ref.init(p.to_lin(p.fresh_r(), 32), init)
            for x in 'abc':
                if ph[names[x]] == want[x]:
                    good += 1
                else:
                    wrong.append(Mismatch(lo, hi, 'the initial value of %s' % x, None if wrong else ({y: ph[names[y]] for y in 'abc'}, want)))
        if best is None or good > best[0]:
            best = good, wrong
        if not wrong:
            R.count('pieces', len(entries) + len(backs) + len(rets))
            return done + len(entries) + len(backs) + len(rets)
    raise best[1][0]


def plain(s, n, wide, key=lambda i: 0):
    """The reference on a constant key of n bytes, from the state s."""
    m = 0xffffffff
    s = dict(s)
    rot = lambda x, k: (x << k | x >> (32 - k)) & m
    off = 0

    def take(k):
        for i in range(k):
            v = 'abc'[i // 4]
            s[v] = s[v] + (key(off + i) << 8 * (i % 4)) & m
    for _ in range((n - 1) // 12 if n else 0):
        take(12)
        off += 12
        for x, y, k, z in MIX:
            s[x] = (s[x] - s[y] & m) ^ rot(s[y], k)
            s[y] = s[y] + s[z] & m
    if n:
        take(n - off)
        for x, y, k in FINAL:
            s[x] = (s[x] ^ s[y]) - rot(s[y], k) & m
    return s['c'] + (s['b'] << 32 if wide else 0)


def confirm(mod, f, num, ref, n, wide):
    """Constant propagation for a constant key of n bytes: a witness when the values differ."""
    w = f.params[0][0].n
    for q in range(3):
        key = (lambda i: 0, lambda i: 255, lambda i: (i * 37 + 11) & 255)[q]
        iv = (0, 0x0123456789abcdef & ((1 << w) - 1), (1 << w) - 1)[q]
        p = Piece(mod, num, n, n, limit=400000)
        p.given = lambda i: key(i) if 0 <= i < n else 0
        out = p.run(f, [num.const(iv, w), Aff(0, base='key'), num.const(n, 64)])
        st = {v: t[1] for v, t in ref.init(num.const(n, 32), num.const(iv, w)).items()}
        exp = plain(st, n, wide, key)
        if out[1][2]:
            return None
        if out[1][1] != exp:
            return 'for a key of %d bytes (%s...) and initial value 0x%x the value is 0x%x, lookup3 gives 0x%x' % (
                n, ' '.join('%02x' % key(i) for i in range(3)), iv, out[1][1], exp)
    return None


def wrong_start(num, e, wide, w):
    """All the pieces agree but the state before the first block: a length and an initial value that show it."""
    got, want = e.start
    for k in range(0, 21):
        for n in ((1 << k) - 1, 1 << k, (1 << k) + 5):
            if not e.lo <= n <= e.hi:
                continue
            for iv in (0, (1 << w) - 1, 1 << (w - 1), 0x0123456789abcdef & ((1 << w) - 1)):
                env = lambda key: (n >> key[2]) & 1 if key[1] == 'R' else (iv >> key[2]) & 1 if key[1] == 'init' else 0
                memo = {}
                x = {v: num.at(got[v], env, memo) for v in 'abc'}
                y = {v: num.at(want[v], env, memo) for v in 'abc'}
                if x != y and plain(x, n, wide) != plain(y, n, wide):
                    return 'for a key of %d zero bytes and initial value 0x%x the value is 0x%x, lookup3 gives 0x%x' % (
                        n, iv, plain(x, n, wide), plain(y, n, wide))
    return None


def check(tier):
    from report import Report
    R = Report('C28', tier)
    R.rule = ('the value numbers of the pieces entry-header, header-header and header-return of tommy_hash_u32 and tommy_hash_u64 equal those '
              'of the published lookup3 hashlittle and hashlittle2, for arbitrary bytes, initial value and loop state, per case of the bytes left')
    R.trusted = ['clang-18 front end and opt sroa (source to IR)', 'the value numbering and the transcription of lookup3 in /verif/absint/hashref.py']
    R.assumptions = ['a key is at most 2^63-1 bytes long', 'little-endian byte order of multi-byte loads (x86)']
    kw = dict(opt_passes='function(sroa),cgscc(inline),function(sroa)', opt_flags=('-inline-threshold=100000',), main='tommyhash.c')
    todo = [('native', ir.load(**kw)), ('portable', ir.load(pre='portable', **kw))]
    if tier == 'thorough':
        todo += [('plain', ir.load()), ('c++', ir.load(lang='c++', **kw))]
    lengths = list(range(0, 50)) + ([] if tier == 'quick' else list(range(50, 110)))
    for vn, mod in todo:
        for fn, wide in (('tommy_hash_u32', False), ('tommy_hash_u64', True)):
            f = mod.funcs.get(fn)
            if f is None:
                raise ir.AnalysisBroken('%s is missing' % fn)
            num = Num()
            ref = Ref(num, wide)
            R.count('functions')
            where = '%s:%s' % (f.file, f.line)
            key = '%s/%s' % (vn, fn)
            try:
                k = induct(mod, f, num, ref, wide, R, key)
                R.ok(key + '/every length, by induction over blocks')
                for i in range(k):
                    R.ok('%s/piece %d' % (key, i))
            except Mismatch as e:
                w = wrong_start(num, e, wide, f.params[0][0].n) if e.start else None
                if w:
                    R.bad(key + '/every length, by induction over blocks', where, '%s: %s' % (fn, w))
                    continue
                for n in (e.lo, e.hi, e.lo + 12, e.lo + 24):
                    try:
                        w = confirm(mod, f, num, ref, n, wide) if 40 < n < 20000 else None
                    except (Unknown, Split):
                        w = None
                    if w:
                        break
                if w:
                    R.bad(key + '/every length, by induction over blocks', where, '%s: %s' % (fn, w))
                    continue
                R.undecided(key + '/every length, by induction over blocks', where, '%s differs (lengths %d..%d)' % (e, e.lo, e.hi))
            except Unknown as e:
                R.undecided(key + '/every length, by induction over blocks', mod.loc(e.ins) if getattr(e, 'ins', None) is not None else where, str(e))
            try:
                for n in lengths:
                    w = unrolled(mod, f, num, ref, n, wide)
                    R.count('lengths')
                    if w is None:
                        R.ok('%s/length %d' % (key, n))
                    elif w:
                        R.bad('%s/length %d' % (key, n), where, '%s: %s' % (fn, w))
                        break
                    else:
                        R.undecided('%s/length %d' % (key, n), where, 'the value numbers differ, no differing input was found')
            except Unknown as e:
                R.undecided('%s/lengths' % key, mod.loc(e.ins) if e.ins is not None else where, str(e))
            except Split as e:
                R.undecided('%s/lengths' % key, where, 'length not fixed')
    return R.finish(floor=10)
