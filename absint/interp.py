"""Path-sensitive abstract interpreter over LLVM IR: structured loop fixpoints, inlined calls, modelled C library."""
from fractions import Fraction
import re
import ir
from num import (Num, Lin, Atom, atom, K, ZERO, ONE, sym, pow2, subst_deep, deep_frozen, NeedSplit, Undecided, lossy)
from state import State, Region, Arr, Seg, Frame, Fault, Infeasible, rsym, map_val
import merge, data
import segvec


class Sink:
    """Obligations of one exploration."""

    def __init__(self):
        self.obl = {}       # key -> [status, where, msg, props]; status True / False / None

    def put(self, key, status, where='', msg='', props=()):
        o = self.obl.get(key)
        if o is None:
            self.obl[key] = [status, where, msg, frozenset(props)]
        else:
            o[3] = o[3] | frozenset(props)
            rank = {True: 0, None: 1, False: 2}
            if rank[status] > rank[o[0]]:
                o[0], o[1], o[2] = status, where, msg

    def merge(self, s):
        for k, (a, b, c, d) in s.obl.items():
            self.put(k, a, b, c, d)


class Interp:
    MAXSTEPS = 400000

    def __init__(self, mod, ctx, sink=None):
        self.m, self.ctx = mod, ctx
        self.sink = sink or Sink()
        self.W = 8 * mod.ptr
        self.builtins = dict(BUILTINS)
        self.stack = []
        self.steps = 0
        self.callbacks = {}         # address atom id -> handler(interp, state, args, ins) -> list of (state, ret)
        self.intercept = {}         # function name -> handler(interp, state, args, ins) -> list of (state, ret) or None
        self.fprops = frozenset()
        self.trace = False
        self.discrete_cache = {}
        self.visited = set()

    # ------------------------------------------------------------ values
    def val(self, st, v, ty):
        k = v[0]
        if k == 'reg':
            return st.frames[-1].regs[v[1]]
        if k == 'int':
            return K(v[1])
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'zero':
            return ZERO
        if k == 'undef':
            return rsym('undef', 0, (1 << (ty.n if ty.k == 'int' else self.W)) - 1)
        if k == 'cexpr':
            if v[1] == 'getelementptr':
                return self.gep(st, v[2], v[3])
            if v[1] in ('bitcast', 'inttoptr', 'ptrtoint'):
                return self.val(st, v[3][0][1], v[3][0][0])
        raise Undecided('operand %r' % (v,))

    def glob(self, st, name):
        a = self.ctx.globs.get(name)
        if a is None:
            a = atom('addr', '@' + name, align=16)
            self.ctx.globs[name] = a
        if a.id not in st.heap:
            if name in self.m.funcs or name in self.m.decls:
                r = Region(a.id, name, 'fn', K(0))
            else:
                kind, t, v, _ = self.m.globals[name]
                r = Region(a.id, name, 'const' if kind == 'constant' else 'glob', K(self.m.sizeof(t)), info={'glob': name})
                bs = self.m.global_bytes(name)
                if bs is not None:
                    r.info = {'glob': name, 'bytes': bs}
            st.heap[a.id] = r
        return Lin.atom(a)

    def gep(self, st, t, args):
        p = self.val(st, args[0][1], args[0][0])
        off = ZERO
        for n, (ty, v) in enumerate(args[1:]):
            i = self.val(st, v, ty)
            if ty.n < self.W:
                i = st.norm_s(i, ty.n)
            if n == 0:
                off = off + i * self.m.sizeof(t)
            elif t.k == 'arr':
                t = t.e
                off = off + i * self.m.sizeof(t)
            else:
                c = int(i.const())
                o, t = self.m.offset(t, c)
                off = off + o
        return segvec.fix(st, self.modw(p + off)) if self.ctx.views else self.modw(p + off)

    def modw(self, l):
        """Reduce a big constant part modulo 2^W."""
        c = l.c0
        M = 1 << self.W
        if isinstance(c, int) and (c >= M // 2 or c < -M // 2):
            d = (c + M // 2) % M - M // 2
            return l + (d - c)
        return l

    # ------------------------------------------------------------ functions
    def call(self, st, name, args):
        """Execute a defined function; returns [(state, ret)]."""
        f = self.m.funcs[name]
        if len([1 for fr in st.frames if fr.fn is f]) > self.ctx.maxdepth:
            raise Undecided('recursion of %s' % name)
        self.visited.add(name)
        fr = Frame(f, {n: v for (t, n), v in zip(f.params, args)})
        st.frames.append(fr)
        outs = self.region(st, f, f.order[0], None)
        res = []
        for o in outs:
            if o[0] != 'ret':
                raise Undecided('unstructured exit')
            s, v = o[1], o[2]
            fr = s.frames.pop()
            for a in fr.allocas:
                s.heap.pop(a, None)
            res.append((s, v))
        return res

    def enter(self, st, f, lb, pv):
        """Evaluate the phis of block lb when coming from pv and drop the dead registers."""
        fr = st.frames[-1]
        new = {}
        for ins in f.blocks[lb].ins:
            if ins.op != 'phi':
                break
            for v, b in ins.a:
                if b == pv:
                    new[ins.res] = self.val(st, v, ins.ty)
        live = f.live_in[lb]
        fr.regs = {k: v for k, v in fr.regs.items() if k in live}
        fr.regs.update({k: v for k, v in new.items() if k in live})

    def region(self, st, f, start, pv, header=None, body=None):
        """Explore from block `start`. Outcomes: ('ret', st, v), ('back', st, pred), ('exit', st, label, pred).
        With a header given, the phis of `start` (the header itself) are already evaluated."""
        outs = []
        work = [(st, start, pv, 0, header is not None)]
        while work:
            st, lb, pv, idx, entered = work.pop()
            if idx == 0 and not entered:
                if body is not None:
                    if lb == header:
                        outs.append(('back', st, pv))
                        continue
                    if lb not in body:
                        outs.append(('exit', st, lb, pv))
                        continue
                try:
                    self.enter(st, f, lb, pv)
                except (Undecided,) as e:
                    self.undecided(st, f.blocks[lb].ins[0], str(e))
                    continue
                if lb in f.loops:
                    for o in self.loop(st, f, lb):
                        if o[0] == 'ret':
                            outs.append(o)
                        else:
                            work.append((o[1], o[2], o[3], 0, False))
                    continue
            blk = f.blocks[lb].ins
            n = len(blk)
            alive = True
            while idx < n:
                ins = blk[idx]
                if ins.op == 'phi':
                    idx += 1
                    continue
                self.steps += 1
                if self.steps > (self.ctx.maxsteps or self.MAXSTEPS):
                    raise Undecided('step limit of the analysis')
                try:
                    o = ins.op
                    if o == 'br':
                        if ins.a:
                            c = self.cond(st, ins.a[0])
                            t = ins.x[0] if c else ins.x[1]
                        else:
                            t = ins.x[0]
                        work.append((st, t, lb, 0, False))
                        alive = False
                        break
                    if o == 'ret':
                        outs.append(('ret', st, self.val(st, ins.a[0], ins.ty) if ins.a else None))
                        alive = False
                        break
                    if o == 'switch':
                        v = st.norm_u(self.val(st, ins.a[0], ins.ty), ins.ty.n)
                        if data.has(v):
                            raise Undecided('switch on a data value')
                        t = None
                        for k, l in ins.x[1]:
                            if st.decide_eq(v - (k % (1 << ins.ty.n)), 'switch'):
                                t = l
                                break
                        work.append((st, t or ins.x[0], lb, 0, False))
                        alive = False
                        break
                    if o == 'unreachable':
                        alive = False
                        break
                    if o == 'call':
                        rs = self.do_call(st, ins)
                        if len(rs) == 1:
                            st, v = rs[0]
                            if ins.res:
                                st.frames[-1].regs[ins.res] = v
                            idx += 1
                            continue
                        for s2, v in rs:
                            if ins.res:
                                s2.frames[-1].regs[ins.res] = v
                            work.append((s2, lb, pv, idx + 1, True))
                        alive = False
                        break
                    r = self.step(st, ins)
                    if ins.res:
                        st.frames[-1].regs[ins.res] = r
                    idx += 1
                except NeedSplit as e:
                    alts = e.alts
                    for k, alt in enumerate(alts):
                        s2 = st.copy() if k < len(alts) - 1 else st
                        try:
                            if alt(s2) and s2.num.feasible():
                                work.append((s2, lb, pv, idx, True))
                        except Infeasible:
                            pass
                        except Fault as e2:
                            if s2.num.feasible():
                                self.fault(s2, ins, e2)
                    alive = False
                    break
                except Infeasible:
                    alive = False
                    break
                except Fault as e:
                    if st.num.feasible():
                        self.fault(st, ins, e)
                    alive = False
                    break
                except Undecided as e:
                    if st.num.feasible():
                        self.undecided(st, ins, str(e))
                    alive = False
                    break
        return outs

    # ------------------------------------------------------------ reporting
    def where(self, ins):
        return self.m.loc(ins)

    def fault(self, st, ins, e):
        f = st.frames[-1].fn.name if st.frames else '?'
        if st.probe and not e.sure:
            return
        key = ('mem', self.where(ins), f)
        if self.trace:
            print('FAULT', f, self.where(ins), e.kind, e.msg)
            print(st.describe())
        self.sink.put(key, False if e.sure else None, self.where(ins), '%s in %s (%s)' % (e.msg, f, self.path(st)), self.ctx.fault_props(e.kind))

    def path(self, st):
        return ' > '.join(fr.fn.name for fr in st.frames)

    def undecided(self, st, ins, msg):
        f = st.frames[-1].fn.name if st.frames else '?'
        if st.probe:
            return
        key = ('undecided', self.where(ins), f, msg.split('#')[0][:40])
        if self.trace:
            print('UNDECIDED', f, self.where(ins), msg)
            print(st.describe())
        self.sink.put(key, None, self.where(ins), '%s in %s (%s)' % (msg, f, self.path(st)), self.ctx.all_props)

    def okmem(self, st, ins):
        self.sink.put(('mem', self.where(ins), st.frames[-1].fn.name), True, props=self.ctx.mem_props)

    # ------------------------------------------------------------ instructions
    def cond(self, st, v):
        c = st.num.norm(self.val(st, v, ir.Ty('int', 1))).const()
        if c is None:
            l = self.val(st, v, ir.Ty('int', 1))
            if data.has(l):
                return data.branch(st, l)
            return not st.decide_eq(st.norm_u(l, 1), 'cond')
        return int(c) & 1

    def step(self, st, ins):
        o = ins.op
        V = lambda i, ty=None: self.val(st, ins.a[i], ty or ins.ty)
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(0), V(1)
            if data.INFO and (data.has(a) or data.has(b)):
                return data.arith(st, o, st.num.norm(a), st.num.norm(b), ins.ty.n)
            return self.arith(st, o, a, b, ins.ty.n, ins)
        if o == 'icmp':
            return self.icmp(st, ins)
        if o == 'load':
            p = V(0, ir.PTR)
            r = self.load(st, p, self.m.sizeof(ins.ty))
            self.okmem(st, ins)
            return r
        if o == 'store':
            v, p = V(0), V(1, ir.PTR)
            n = self.m.sizeof(ins.ty)
            if ins.ty.k == 'int':
                v = st.norm_u(v, ins.ty.n)
            st.store(p, v, n)
            self.okmem(st, ins)
            return None
        if o == 'getelementptr':
            return self.gep(st, ins.x, ins.a)
        if o == 'select':
            c = self.cond(st, ins.a[0])
            return V(1) if c else V(2)
        if o in ('zext', 'sext', 'trunc') and data.has(V(0, ins.x)):
            return data.cast(st, o, V(0, ins.x), ins.x.n, ins.ty.n)
        if o == 'zext':
            a = V(0, ins.x)
            return st.norm_u(a, ins.x.n)
        if o == 'sext':
            return st.norm_s(V(0, ins.x), ins.x.n)
        if o == 'trunc':
            a = V(0, ins.x)
            if a.const() is not None:
                return K(a.const() % (1 << ins.ty.n))
            if ins.ty.n < ins.x.n:
                a = st.norm_u(a, ins.x.n)
                if not (st.num.ge(a) and st.num.ge((1 << ins.ty.n) - 1 - a)) and ins.ty.n < 32:
                    return a - (1 << ins.ty.n) * st.udiv(a, K(1 << ins.ty.n), ins.x.n)
            return a
        if o in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return V(0, ins.x)
        if o == 'alloca':
            return self.alloca(st, ins)
        raise Undecided('instruction %s' % o)

    def load(self, st, p, n):
        b, off = st.base_of(p)
        if b is not None:
            r = st.heap.get(b)
            if r is not None and 'buf' in r.info:
                return self.ctx.buf_load(self, st, r, off, n)
            if r is not None and 'bytes' in r.info:
                c = off.const()
                bs = r.info['bytes']
                if c is None:
                    raise Undecided('symbolic index of constant table')
                if c < 0 or c + n > len(bs):
                    raise Fault('oob', 'read out of bounds of %s' % r.name)
                if r.kind == 'const' or True:
                    return K(int.from_bytes(bs[int(c):int(c) + n], 'little'))
        return st.load(p, n)

    def alloca(self, st, ins):
        t = ins.x
        cnt = 1
        if ins.a:
            c = self.val(st, ins.a[0], ir.Ty('int', 32)).const()
            if c is None:
                raise Undecided('variable length array')
            cnt = int(c)
        size = self.m.sizeof(t) * cnt
        r = st.new_region(ins.res + '@' + st.frames[-1].fn.name, 'local', K(size))
        st.frames[-1].allocas = st.frames[-1].allocas + (r.id,)
        self.ctx.init_local(st, r, t, st.frames[-1].fn.name)
        return r.addr

    def arith(self, st, o, a, b, w, ins):
        if o == 'add':
            return self.modw(a + b)
        if o == 'sub':
            return self.modw(a - b)
        if o == 'mul':
            if a.const() is None and b.const() is None:
                a, b = st.norm_u(a, w), st.norm_u(b, w)
                st.product(a, b)
            return a * b
        if o == 'shl':
            k = st.norm_u(b, w)
            c = k.const()
            if c is not None:
                if c >= w:
                    raise Fault('shift', 'shift by %d of a %d bit value' % (c, w))
                return a * (1 << int(c))
            if not st.num.ge(w - 1 - k):
                if st.num.ge(k - w):
                    raise Fault('shift', 'shift by at least the width')
                raise Fault('shift', 'shift amount %r not below %d' % (k, w), sure=st.sure_outside(k, ZERO, K(w - 1)))
            self.sink.put(('shift', self.where(ins)), True, props=self.ctx.mem_props)
            return a * pow2(k)
        if o == 'lshr':
            k = st.norm_u(b, w)
            c = k.const()
            if c is not None:
                if c >= w:
                    raise Fault('shift', 'shift by %d of a %d bit value' % (c, w))
                return st.udiv(a, K(1 << int(c)), w)
            if not st.num.ge(w - 1 - k):
                raise Fault('shift', 'shift amount %r not below %d' % (k, w), sure=st.sure_outside(k, ZERO, K(w - 1)))
            return st.udiv(a, pow2(k), w)
        if o == 'udiv':
            if not st.num.ge(st.norm_u(b, w) - 1):
                raise Fault('div', 'division by zero', sure=not lossy(b))
            return st.udiv(a, b, w)
        if o == 'urem':
            if not st.num.ge(st.norm_u(b, w) - 1):
                raise Fault('div', 'division by zero', sure=not lossy(b))
            return st.urem(a, b, w)
        if o == 'and':
            return self.low_bits_and(st, a, b, w)
        if o == 'or':
            return st.bor(a, b, w)
        if o == 'xor':
            return self.bxor(st, a, b, w)
        if o in ('sdiv', 'srem', 'ashr'):
            x = st.norm_s(a, w)
            if st.num.ge(x):
                y = st.norm_s(b, w)
                if not st.num.ge(y):
                    raise Undecided('signed %s' % o)
                return st.udiv(x, y, w) if o == 'sdiv' else st.urem(x, y, w) if o == 'srem' else st.udiv(x, pow2(y), w)
            raise Undecided('signed %s' % o)
        raise Undecided(o)

    def low_bits_and(self, st, a, b, w):
        for p, q in ((a, b), (b, a)):
            c = q.const()
            if c is not None:
                base, off = st.base_of(p)
                if base is not None:
                    pr = st.preds.get(base)
                    if pr is not None and hasattr(pr, 'null_split'):
                        pr.null_split(st, base)
                    # pointer tagging: low bits of an aligned address
                    al = Atom.byid[base].align
                    c = int(c) % (1 << w)
                    oc = off.const()
                    if oc is not None:
                        if c < al:
                            return K(int(oc) % al & c)
                        inv = ((1 << w) - 1) ^ c
                        if inv < al and inv & (inv + 1) == 0:
                            return p - (int(oc) % (inv + 1))
                    else:
                        if c < al and c & (c + 1) == 0 and st.divisible(off, c + 1):
                            return ZERO
                        if c < al and c & (c + 1) == 0:
                            d = off - off.c0
                            if st.divisible(d, c + 1):
                                return K(int(off.c0) % (c + 1))
                            return off - (c + 1) * st.udiv(off, K(c + 1), w)
                    if getattr(self.ctx, 'buf_load', None):
                        return data.intern(data.Info(w, [data.ADDR if c >> k & 1 else 0 for k in range(w)]))
                    raise Undecided('mask of a pointer')
        return st.band(a, b, w)

    def bxor(self, st, a, b, w):
        for p, q in ((a, b), (b, a)):
            c = q.const()
            if c is not None and 0 < c:
                base, off = st.base_of(p)
                if base is not None:
                    t = self.low_bits_and(st, p, K(int(c)), w)
                    if t.const() is not None:
                        t = int(t.const())
                        return p + ((t ^ int(c)) - t)
                    raise Undecided('xor of a pointer')
        return st.bxor(a, b, w)

    def icmp(self, st, ins):
        a = self.val(st, ins.a[0], ins.ty)
        b = self.val(st, ins.a[1], ins.ty)
        w = ins.ty.n if ins.ty.k == 'int' else self.W
        p = ins.x
        if data.has(a) or data.has(b):
            return data.icmp(st, p, st.num.norm(a), st.num.norm(b), w)
        ba, oa = st.base_of(a)
        bb, ob = st.base_of(b)
        if ba is not None or bb is not None:
            for i in (ba, bb):
                pr = st.preds.get(i)
                if pr is not None and hasattr(pr, 'null_split'):
                    pr.null_split(st, i)
            return K(int(self.ptr_cmp(st, p, a, b, ba, oa, bb, ob)))
        if p in ('eq', 'ne'):
            d = st.num.norm(a - b)
            c = d.const()
            if c is not None:
                r = c % (1 << w) == 0
            else:
                x, y = st.norm_u(a, w), st.norm_u(b, w)
                r = self.ctx.decide_eq(st, x, y)
            return K(int(r if p == 'eq' else not r))
        nf = st.norm_s if p[0] == 's' else st.norm_u
        x, y = nf(a, w), nf(b, w)
        op = p[1:]
        if op == 'lt':
            r = st.decide(y - x - 1, p)
        elif op == 'le':
            r = st.decide(y - x, p)
        elif op == 'gt':
            r = st.decide(x - y - 1, p)
        else:
            r = st.decide(x - y, p)
        return K(int(r))

    def ptr_cmp(self, st, p, a, b, ba, oa, bb, ob):
        if ba is not None and bb is not None:
            if ba == bb:
                d = oa - ob
                if p in ('eq', 'ne'):
                    r = st.decide_eq(d, 'pointer')
                    return r if p == 'eq' else not r
                op = p[1:]
                if op == 'lt':
                    return st.decide(-d - 1, p)
                if op == 'le':
                    return st.decide(-d, p)
                if op == 'gt':
                    return st.decide(d - 1, p)
                return st.decide(d, p)
            if p not in ('eq', 'ne'):
                raise Undecided('order of unrelated pointers')
            if oa.const() == 0 and ob.const() == 0:
                for s in st.segs.values():
                    if s.first != s.last and {s.first, s.last} == {ba, bb}:
                        st.unfold_seg(s, s.first)
                eq = self.ctx.maybe_alias(st, ba, bb)
                if eq is not None:
                    raise NeedSplit(eq, 'alias')
            else:
                # two different live objects: one-past-the-end may coincide, inside not
                for x, o in ((ba, oa), (bb, ob)):
                    r = st.heap.get(x)
                    if r is None or not (st.num.ge(o) and st.num.ge(r.size - 1 - o)):
                        raise Undecided('comparison of unrelated pointers')
            return p == 'ne'
        if p in ('eq', 'ne'):
            o = ob if ba is not None else oa
            c = o.const()
            if c == 0:
                return p == 'ne'
            if c is not None and c < 4096:
                return p == 'ne'
            raise Undecided('pointer compared with a value')
        # null against pointer
        o = ob if ba is not None else oa
        if o.const() == 0:
            op = p[1:]
            return (op in ('gt', 'ge')) if ba is not None else (op in ('lt', 'le'))
        raise Undecided('pointer order')

    # ------------------------------------------------------------ calls
    def do_call(self, st, ins):
        name = ins.x[1] if ins.x[0] == 'glob' else None
        if name is None:
            fp = self.val(st, ins.x, ir.PTR)
            b, off = st.base_of(fp)
            if b is None or off.const() != 0:
                raise Fault('wild', 'call through a bad function pointer')
            r = st.heap.get(b)
            if r is not None and r.kind == 'fn' and r.name in self.m.funcs:
                name = r.name
            else:
                h = self.callbacks.get(b)
                if h is None:
                    raise Fault('wild', 'call through a pointer that is not a function')
                args = [self.val(st, v, t) for t, v in ins.a]
                self.sink.put(('callback', self.where(ins)), True, props=self.ctx.cb_props)
                return h(self, st, args, ins)
        if name in self.m.funcs:
            args = [self.val(st, v, t) for t, v in ins.a]
            h = self.intercept.get(name)
            if h is not None:
                r = h(self, st, args, ins)
                if r is not None:
                    return r
            # only the registers live after the call stay roots
            fr = st.frames[-1]
            f = fr.fn
            keep = self.live_after(f, ins)
            saved = fr.regs
            fr.regs = {k: v for k, v in saved.items() if k in keep}
            return self.call(st, name, args)
        for k, h in self.builtins.items():
            if name == k or (k.endswith('*') and name.startswith(k[:-1])):
                if name.startswith('llvm.') or name in NOARGS:
                    return h(self, st, ins, name)
                return h(self, st, ins, name)
        raise Undecided('call of %s' % name)

    def live_after(self, f, ins):
        key = (f.name, id(ins))
        c = self.ctx.live_cache.get(key)
        if c is None:
            blk = f.blocks[ins.blk]
            live = set()
            for s in blk.succ:
                phis = {i.res for i in f.blocks[s].ins if i.op == 'phi'}
                live |= f.live_in[s] - phis
                for i in f.blocks[s].ins:
                    if i.op == 'phi':
                        for v, b in i.a:
                            if b == ins.blk and v[0] == 'reg':
                                live.add(v[1])
            for i in reversed(blk.ins[ins.idx + 1:]):
                if i.res:
                    live.discard(i.res)
                live |= set(ir.Module.uses(i))
            if ins.res:
                live.discard(ins.res)
            c = live
            self.ctx.live_cache[key] = c
        return c

    # ------------------------------------------------------------ loops
    def discrete(self, f, h):
        """Phis of loop h stepped by constants whose value selects structure (shift amounts, constant bounds)."""
        k = (f.name, h)
        if k in self.discrete_cache:
            return self.discrete_cache[k]
        body = f.loops[h]
        defs = {i.res: i for b in f.rpo for i in f.blocks[b].ins if i.res}
        out = []
        for phi in f.blocks[h].ins:
            if phi.op != 'phi' or phi.ty.k != 'int':
                continue
            # recurrence: each incoming value from inside is phi (op const)* or a phi of such
            fam = {phi.res}
            ok = True
            seen = set()

            def rec(v):
                if v[0] == 'int':
                    return True
                if v[0] != 'reg':
                    return False
                r = v[1]
                if r in fam:
                    return True
                if r in seen:
                    return True
                seen.add(r)
                i = defs.get(r)
                if i is None or i.blk not in body:
                    return False
                if i.op in ('add', 'sub', 'shl', 'lshr', 'mul', 'udiv'):
                    cs = [a for a in i.a if a[0] == 'int']
                    if len(cs) != 1:
                        return False
                    fam.add(r)
                    return rec(i.a[0] if i.a[0][0] != 'int' else i.a[1])
                if i.op in ('zext', 'trunc', 'sext'):
                    fam.add(r)
                    return rec(i.a[0])
                if i.op == 'phi':
                    fam.add(r)
                    return all(rec(x) for x, _ in i.a)
                return False
            for v, b in phi.a:
                if b in body and not rec(v):
                    ok = False
            if not ok:
                continue
            # derived values
            der = set(fam)
            ch = True
            while ch:
                ch = False
                for b in f.rpo:
                    for i in f.blocks[b].ins:
                        if i.res and i.res not in der and i.op in ('add', 'sub', 'shl', 'lshr', 'mul', 'zext', 'sext', 'trunc', 'phi', 'udiv', 'and'):
                            us = [a[1] for a in i.a if isinstance(a, tuple) and a[0] == 'reg'] if i.op != 'phi' else [a[1] for a, _ in i.a if a[0] == 'reg']
                            if any(u in der for u in us):
                                der.add(i.res)
                                ch = True
            use = False
            for b in f.rpo:
                for i in f.blocks[b].ins:
                    if i.op in ('shl', 'lshr', 'ashr') and i.a[1][0] == 'reg' and i.a[1][1] in der:
                        use = True
                    if i.op == 'icmp' and b in body:
                        for x, y in ((0, 1), (1, 0)):
                            if i.a[x][0] == 'reg' and i.a[x][1] in fam and i.a[y][0] == 'int':
                                use = True
            if use:
                out.append(phi.res)
        self.discrete_cache[k] = out
        return out

    def loop(self, st, f, h):
        """Fixpoint of the natural loop with header h, entered in state st (phis evaluated)."""
        body = f.loops[h]
        if self.ctx.cut == f.name and not any(h in b for x, b in f.loops.items() if x != h):
            return self.cut_loop(st, f, h, body)
        if self.ctx.unroll:
            return self.unroll_loop(st, f, h, body)
        disc = self.discrete(f, h)
        ctx = self.ctx
        gs = []         # [state, key, outs, sink]
        probes = []
        nprobe = 0
        rigid = merge.atoms_of(st)
        st.elim = {}
        st.joins = 0
        pend = [(st, None)]
        rounds = 0
        outer = self.sink
        saved_elim = None
        try:
            while pend:
                s, _ = pend.pop(0)
                rounds += 1
                if rounds > ctx.maxrounds + 10 * len(gs):
                    for g in gs:
                        for k, (a, b, c, d) in g[3].obl.items():
                            if a is False:
                                outer.put(k, a, b, c, d)
                    self.sink = outer
                    self.undecided(s, f.blocks[h].ins[0], 'loop at %s does not converge' % self.where(f.blocks[h].ins[0]))
                    return [o for p in probes for o in p]
                if not s.num.feasible():
                    continue
                key = []
                for r in disc:
                    c = s.frames[-1].regs.get(r)
                    c = c.const() if c is not None else None
                    key.append(c)
                key = tuple(key)
                self.sink = Sink()
                try:
                    cs = ctx.canon(s, rigid)
                except Fault as e:
                    self.sink = outer
                    self.fault(s, f.blocks[h].ins[0], e)
                    continue
                finally:
                    pass
                s = cs
                csink = self.sink
                self.sink = outer
                cov = False
                for g in gs:
                    if g[1] == key and g[0].probe == s.probe and merge.covers(g[0], s, rigid):
                        cov = True
                        break
                if cov:
                    outer.merge(csink)
                    continue
                target = s
                repl = None
                for gi, g in enumerate(gs):
                    if g[1] != key or g[0].probe != s.probe:
                        continue
                    j = merge.join(g[0], s, rigid, ctx, len(gs) >= ctx.maxstates)
                    if j is not None:
                        repl, target = gi, j
                        break
                if repl is not None and ctx.probe:
                    # states reached as they are: their exits are kept next to those of the join
                    for y in [s] + [p[0] for p in pend if p[1] is gs[repl]]:
                        if nprobe >= ctx.probe or y.lossy:
                            continue
                        nprobe += 1
                        x = y.copy()
                        x.probe = True
                        self.sink = Sink()
                        try:
                            pr = self.region(x, f, h, None, header=h, body=body)
                        except Undecided:
                            pr = []
                        probes.append([o for o in pr if o[0] != 'back'])
                        for k, (a, b, c, d) in self.sink.obl.items():
                            if a is False:
                                outer.put(k, a, b, c, d)
                        self.sink = outer
                    if not gs[repl][0].lossy:
                        for o in gs[repl][2]:
                            o[1].probe = True
                        probes.append(gs[repl][2])
                if self.trace:
                    print('LOOP', f.name, h, 'round', rounds, 'join' if repl is not None else 'new', 'gs', len(gs))
                    print(target.describe())
                    print({k: v for k, v in target.frames[-1].regs.items()})
                self.sink = Sink()
                self.sink.merge(csink)
                outs = self.region(target.copy(), f, h, None, header=h, body=body)
                backs = [o for o in outs if o[0] == 'back']
                ex = [o for o in outs if o[0] != 'back']
                ent = [target, key, ex, self.sink]
                self.sink = outer
                if not target.lossy:        # reached as it is: what is wrong here is wrong whatever later joins say
                    for k, (a, b, c, d) in ent[3].obl.items():
                        if a is False:
                            outer.put(k, a, b, c, d)
                if repl is not None:
                    # what came from the replaced state is subsumed by what comes from the new one
                    pend = [p for p in pend if p[1] is not gs[repl]]
                    gs[repl] = ent
                else:
                    gs.append(ent)
                for o in backs:
                    try:
                        self.enter(o[1], f, h, o[2])
                    except Undecided as e:
                        self.undecided(o[1], f.blocks[h].ins[0], str(e))
                        continue
                    pend.append((o[1], ent))
        finally:
            self.sink = outer
        res = []
        for g in gs:
            outer.merge(g[3])
            res += g[2]
        for p in probes:
            res += p
        return res


    def unroll_loop(self, st, f, h, body):
        """The first passes of a loop as they are, without a join: only what is wrong in them counts."""
        pend = [(st, 0)]
        outs = []
        while pend:
            s, k = pend.pop()
            if not s.num.feasible():
                continue
            for o in self.region(s, f, h, None, header=h, body=body):
                if o[0] != 'back':
                    outs.append(o)
                elif k < self.ctx.unroll:
                    self.enter(o[1], f, h, o[2])
                    pend.append((o[1], k + 1))
                elif self.ctx.unroll_strict:
                    self.undecided(o[1], f.blocks[h].ins[0], 'a loop with more than %d passes' % k)
        return outs

    def cut_loop(self, st, f, h, body):
        """Loop whose invariant is the post condition of its function: a state coming back to the header is handed to the
        post condition, and the later passes start from the members of the family of initial states."""
        regs = {k: st.num.norm(v) if isinstance(v, Lin) else v for k, v in st.frames[-1].regs.items()}
        outs = []
        for o in self.region(st, f, h, None, header=h, body=body):
            if o[0] != 'back':
                outs.append(o)
                continue
            s = o[1]
            try:
                self.enter(s, f, h, o[2])
            except Undecided as e:
                self.undecided(s, f.blocks[h].ins[0], str(e))
                continue
            n = s.num
            for k, v in s.frames[-1].regs.items():
                w = regs.get(k)
                if v is w or (isinstance(v, Lin) and isinstance(w, Lin) and n.eq0(n.norm(v) - n.norm(w))):
                    continue
                self.undecided(s, f.blocks[h].ins[0], 'a value is carried from one pass of the loop to the next')
                break
            else:
                outs.append(('ret', s, None))
        return outs


NOARGS = ('__assert_fail',)


# ---------------------------------------------------------------- C library model
def args_of(I, st, ins):
    return [I.val(st, v, t) for t, v in ins.a if t.k != 'metadata']


def b_malloc(I, st, ins, name):
    a = args_of(I, st, ins)
    I.ctx.fits(st, a[0])
    size = st.norm_u(a[0], I.W)
    return [(st, I.ctx.malloc(I, st, size, None, I.where(ins)))]


def b_calloc(I, st, ins, name):
    a = args_of(I, st, ins)
    n, es = st.norm_u(a[0], I.W), st.norm_u(a[1], I.W)
    return [(st, I.ctx.malloc(I, st, n * es, es, I.where(ins), zero=True, cnt=n))]


def b_free(I, st, ins, name):
    p = args_of(I, st, ins)[0]
    I.ctx.free(I, st, p, ins)
    I.okmem(st, ins)
    return [(st, None)]


def b_memset(I, st, ins, name):
    a = args_of(I, st, ins)
    I.ctx.memset(I, st, a[0], st.norm_u(a[1], 8), st.norm_u(a[2], I.W))
    I.okmem(st, ins)
    return [(st, a[0])]


def b_memcpy(I, st, ins, name):
    a = args_of(I, st, ins)
    I.ctx.memcpy(I, st, a[0], a[1], st.norm_u(a[2], I.W), 'move' in name)
    I.okmem(st, ins)
    return [(st, a[0])]


def b_assert(I, st, ins, name):
    if st.num.feasible():
        I.sink.put(('assert', I.where(ins)), None if st.lossy else False, I.where(ins), 'an assertion of the library can fail in %s (%s)' % (st.frames[-1].fn.name, I.path(st)), I.ctx.fault_props('assert'))
    raise Infeasible()


def b_expect(I, st, ins, name):
    return [(st, args_of(I, st, ins)[0])]


def b_nop(I, st, ins, name):
    return [(st, None)]


def b_dead(I, st, ins, name):
    """The scope of a local variable starts or ends: its content is indeterminate."""
    b, off = st.base_of(args_of(I, st, ins)[-1])
    r = st.heap.get(b) if b is not None else None
    if r is not None and r.alive and off.const() == 0 and (r.fields or r.arrs):
        r2 = r.copy()
        r2.fields = {}
        r2.arrs = tuple(Arr(a.base, a.es, [(a.segs[0][0], a.segs[-1][1], ('uninit',))]) for a in r.arrs)
        st.heap[b] = r2
    return [(st, None)]


def b_ctlz(I, st, ins, name):
    w = ins.ty.n
    x = st.norm_u(args_of(I, st, ins)[0], w)
    if not st.decide(x - 1, 'ctlz'):
        if I.val(st, ins.a[1][1], ins.a[1][0]).const():
            raise Fault('bitscan', 'bit scan of zero')
        return [(st, K(w))]
    return [(st, K(w - 1) - st.ilog(x))]


def b_cttz(I, st, ins, name):
    w = ins.ty.n
    x = st.norm_u(args_of(I, st, ins)[0], w)
    c = x.const()
    if c is not None:
        if c == 0:
            raise Fault('bitscan', 'bit scan of zero')
        return [(st, K((int(c) & -int(c)).bit_length() - 1))]
    return [(st, I.ctx.ctz(st, x, w))]


BUILTINS = {
    'malloc': b_malloc, 'calloc': b_calloc, 'free': b_free, 'memset': b_memset, 'llvm.memset*': b_memset,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'llvm.memcpy*': b_memcpy, 'llvm.memmove*': b_memcpy,
    '__assert_fail': b_assert, 'abort': b_assert, 'llvm.expect*': b_expect, 'llvm.ctlz*': b_ctlz, 'llvm.cttz*': b_cttz,
    'llvm.lifetime*': b_dead, 'llvm.assume*': b_nop, 'llvm.dbg*': b_nop,
}
