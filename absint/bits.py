"""Bit-level abstract domain and a trace-partitioned abstract interpreter for straight integer code.

A bit is 0, 1, a literal of an unknown input bit (+k / -k with k >= 2; -k is its complement), or None (unknown).
A word is a tuple of bits, least significant first. Conditions must be decided by the domain; otherwise Unknown is
raised and the caller has to partition the input further or to give up.
"""
import ir


class Unknown(Exception):
    def __init__(self, msg, ins=None):
        Exception.__init__(self, msg)
        self.ins = ins


def const(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def value(b):
    """The concrete value of a fully known word, else None."""
    r = 0
    for i, x in enumerate(b):
        if x is None or x not in (0, 1):
            return None
        r |= x << i
    return r


def bnot(x):
    if x is None:
        return None
    if x in (0, 1):
        return 1 - x
    return -x


def band(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    if x is None or y is None:
        return None
    if x == y:
        return x
    if x == -y:
        return 0
    return None


def bor(x, y):
    return bnot(band(bnot(x), bnot(y)))


def bxor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == 1:
        return bnot(y)
    if y == 1:
        return bnot(x)
    if x is None or y is None:
        return None
    if x == y:
        return 0
    if x == -y:
        return 1
    return None


def maj(x, y, z):
    for a, b, c in ((x, y, z), (x, z, y), (y, z, x)):
        if a is not None and a == b:
            return a
        if a is not None and b is not None and (a == -b and a not in (0, 1) or {a, b} == {0, 1}):
            return c
    if 0 in (x, y, z):
        r = [q for q in (x, y, z)]
        r.remove(0)
        return band(*r)
    if 1 in (x, y, z):
        r = [q for q in (x, y, z)]
        r.remove(1)
        return bor(*r)
    return None


def add(a, b, c=0):
    out = []
    for x, y in zip(a, b):
        out.append(bxor(bxor(x, y), c))
        c = maj(x, y, c)
    return tuple(out)


def neg(a):
    return add(tuple(bnot(x) for x in a), const(0, len(a)), 1)


def sub(a, b):
    return add(a, tuple(bnot(x) for x in b), 1)


def mul(a, b):
    w = len(a)
    for u, v in ((a, b), (b, a)):
        c = value(v)
        if c is not None:
            # sum of shifted copies; a word with a single nonconstant/nonzero bit stays exact
            r = const(0, w)
            for i in range(w):
                if (c >> i) & 1:
                    r = add(r, (0,) * i + u[:w - i])
            return r
    return (None,) * w


def umin(a):
    return sum(1 << i for i, x in enumerate(a) if x == 1)


def umax(a):
    return sum(1 << i for i, x in enumerate(a) if x != 0)


def smin(a):
    w = len(a)
    v = umin(a[:-1])
    return v - (1 << (w - 1)) if a[-1] != 0 else v


def smax(a):
    w = len(a)
    v = umax(a[:-1])
    return v - (1 << (w - 1)) if a[-1] == 1 else v


def icmp(pred, a, b):
    if pred in ('eq', 'ne'):
        r = None
        if a == b and None not in a:
            r = True
        else:
            for x, y in zip(a, b):
                if x is None or y is None:
                    continue
                if {x, y} == {0, 1} or (x == -y and x not in (0, 1)):
                    r = False
                    break
        if r is None:
            return None
        return int(r if pred == 'eq' else not r)
    lo, hi = (smin, smax) if pred[0] == 's' else (umin, umax)
    al, ah, bl, bh = lo(a), hi(a), lo(b), hi(b)
    op = pred[1:]
    if op in ('gt', 'ge'):
        al, ah, bl, bh = bl, bh, al, ah
        op = 'lt' if op == 'gt' else 'le'
    if op == 'lt':
        if ah < bl:
            return 1
        if al >= bh:
            return 0
    else:
        if ah <= bl:
            return 1
        if al > bh:
            return 0
    return None


class Ptr:
    def __init__(self, base, off):
        self.base, self.off = base, off


class Eval:
    """Abstract evaluation of one function on abstract words. `mem(base, off, size)` supplies abstract loads."""

    def __init__(self, mod, mem=None, limit=20000):
        self.m, self.mem, self.limit, self.steps = mod, mem, limit, 0
        self.visited = set()

    def run(self, f, args, depth=0):
        if depth > 20:
            raise Unknown('recursion')
        regs = {n: v for (t, n), v in zip(f.params, args)}
        prev, cur = None, f.order[0]
        allocs = {}
        while True:
            blk = f.blocks[cur]
            ph = {}
            for ins in blk.ins:
                if ins.op != 'phi':
                    break
                for v, b in ins.a:
                    if b == prev:
                        ph[ins.res] = self.val(v, ins.ty, regs)
            regs.update(ph)
            nxt = None
            for ins in blk.ins:
                if ins.op == 'phi':
                    continue
                self.steps += 1
                if self.steps > self.limit:
                    raise Unknown('loop not bounded by the partition', ins)
                self.visited.add(id(ins))
                o = ins.op
                if o == 'ret':
                    return self.val(ins.a[0], ins.ty, regs) if ins.a else None
                if o == 'br':
                    if ins.a:
                        c = self.val(ins.a[0], ir.Ty('int', 1), regs)[0]
                        if c not in (0, 1):
                            raise Unknown('branch condition', ins)
                        nxt = ins.x[0] if c else ins.x[1]
                    else:
                        nxt = ins.x[0]
                    break
                if o == 'switch':
                    c = value(self.val(ins.a[0], ins.ty, regs))
                    if c is None:
                        raise Unknown('switch value', ins)
                    nxt = ins.x[0]
                    for k, l in ins.x[1]:
                        if k % (1 << ins.ty.n) == c:
                            nxt = l
                    break
                if o == 'unreachable':
                    raise Unknown('unreachable', ins)
                r = self.step(ins, regs, depth, allocs)
                if ins.res:
                    regs[ins.res] = r
            prev, cur = cur, nxt

    def val(self, v, ty, regs):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k == 'int':
            if ty.k == 'ptr':
                return Ptr(None, const(v[1], 8 * self.m.ptr))
            return const(v[1], ty.n)
        if k == 'glob':
            return Ptr(v[1], const(0, 8 * self.m.ptr))
        if k == 'zero':
            return const(0, ty.n)
        if k == 'undef':
            return (None,) * ty.n
        if k == 'cexpr' and v[1] == 'getelementptr':
            return self.gep(v[2], v[3], regs)
        raise Unknown('operand %r' % (v,))

    def gep(self, st, args, regs):
        p = self.val(args[0][1], args[0][0], regs)
        W = 8 * self.m.ptr
        off = p.off
        t = st
        for n, (ty, v) in enumerate(args[1:]):
            i = self.val(v, ty, regs)
            i = i + (i[-1],) * (W - len(i)) if len(i) < W else i[:W]
            if n == 0:
                sz = self.m.sizeof(t)
            elif t.k == 'arr':
                t = t.e
                sz = self.m.sizeof(t)
            else:
                c = value(i)
                off = add(off, const(self.m.offset(t, c)[0], W))
                t = self.m.fields(t)[c]
                continue
            off = add(off, mul(i, const(sz, W)))
        return Ptr(p.base, off)

    def step(self, ins, regs, depth, allocs):
        o, m = ins.op, self.m
        V = lambda i, ty=None: self.val(ins.a[i], ty or ins.ty, regs)
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(0), V(1)
            w = len(a)
            if o == 'add':
                return add(a, b)
            if o == 'sub':
                return sub(a, b)
            if o == 'mul':
                return mul(a, b)
            if o == 'and':
                return tuple(map(band, a, b))
            if o == 'or':
                return tuple(map(bor, a, b))
            if o == 'xor':
                return tuple(map(bxor, a, b))
            c = value(b)
            if c is None:
                return (None,) * w
            if o == 'shl':
                if c >= w:
                    raise Unknown('shift by %d of %d bits' % (c, w), ins)
                return (0,) * c + a[:w - c]
            if o == 'lshr' or (o == 'ashr' and a[-1] == 0):
                if c >= w:
                    raise Unknown('shift by %d of %d bits' % (c, w), ins)
                return a[c:] + (0,) * c
            if o == 'ashr':
                return a[c:] + (a[-1],) * c
            if c and c & (c - 1) == 0 and o in ('udiv', 'urem'):
                k = c.bit_length() - 1
                return a[k:] + (0,) * k if o == 'udiv' else a[:k] + (0,) * (w - k)
            x = value(a)
            if x is not None and c and o in ('udiv', 'urem'):
                return const(x // c if o == 'udiv' else x % c, w)
            return (None,) * w
        if o == 'icmp':
            a, b = V(0), V(1)
            if isinstance(a, Ptr):
                return (None,)
            return (icmp(ins.x, a, b),)
        if o in ('zext', 'sext', 'trunc'):
            a = self.val(ins.a[0], ins.x, regs)
            w = ins.ty.n
            if o == 'trunc':
                return a[:w]
            return a + ((0,) if o == 'zext' else (a[-1],)) * (w - len(a))
        if o == 'freeze':
            return self.val(ins.a[0], ins.x, regs)
        if o == 'select':
            c = self.val(ins.a[0], ir.Ty('int', 1), regs)[0]
            if c not in (0, 1):
                a, b = V(1), V(2)
                if isinstance(a, Ptr):
                    raise Unknown('select', ins)
                return tuple(x if x == y else None for x, y in zip(a, b))
            return V(1) if c else V(2)
        if o == 'getelementptr':
            return self.gep(ins.x, ins.a, regs)
        if o == 'alloca':
            return Ptr(('local', ins.res), const(0, 8 * m.ptr))
        if o == 'load':
            p = V(0, ir.PTR)
            n = m.sizeof(ins.ty)
            if isinstance(p.base, tuple) and p.base[0] == 'local':
                raise Unknown('local memory', ins)
            if isinstance(p.base, str):
                c = value(p.off)
                if c is None:
                    raise Unknown('table index', ins)
                return const(self.table(p.base, c, n, ins), 8 * n)
            if self.mem:
                return self.mem(p, n)
            raise Unknown('load', ins)
        if o == 'call':
            nm = ins.x[1] if ins.x[0] == 'glob' else None
            args = [self.val(v, t, regs) for t, v in ins.a if t.k != 'metadata'] if not (nm or '').startswith('__assert') else []
            if nm in self.m.funcs:
                return self.run(self.m.funcs[nm], args, depth + 1)
            if nm and nm.startswith('llvm.expect'):
                return args[0]
            if nm and nm.startswith('llvm.ctlz'):
                a = args[0]
                n = 0
                for x in reversed(a):
                    if x == 1:
                        return const(n, len(a))
                    if x != 0:
                        return (None,) * len(a)
                    n += 1
                if value(args[1]):
                    raise Unknown('bit scan of zero', ins)
                return const(n, len(a))
            if nm and nm.startswith('llvm.cttz'):
                a = args[0]
                n = 0
                for x in a:
                    if x == 1:
                        return const(n, len(a))
                    if x != 0:
                        return (None,) * len(a)
                    n += 1
                if value(args[1]):
                    raise Unknown('bit scan of zero', ins)
                return const(n, len(a))
            if nm and nm.startswith('llvm.fsh'):
                c = value(args[2])
                if c is not None:
                    w = len(args[0])
                    c %= w
                    both = args[1] + args[0]
                    return both[w - c:2 * w - c] if 'fshl' in nm else both[c:c + w]
            if nm and nm.startswith('llvm.bswap'):
                a = args[0]
                return sum((a[i:i + 8] for i in range(len(a) - 8, -1, -8)), ())
            raise Unknown('call of %s' % nm, ins)
        raise Unknown('instruction %s' % o, ins)

    def table(self, g, off, n, ins):
        """Constant content of a global table that is never written."""
        d = self.m.globals.get(g)
        if d is None:
            raise Unknown('global %s' % g, ins)
        bs = self.m.global_bytes(g)
        if bs is None or off < 0 or off + n > len(bs):
            raise Unknown('table %s read out of bounds at offset %d' % (g, off), ins)
        return int.from_bytes(bs[off:off + n], 'little')
