"""The four growing arrays: segmented (array, arrayof) and made of equal blocks (arrayblk, arrayblkof)."""
import os, re
from harness import *
from state import *
import ir, segvec
from ops_hash import total_heap

PROPS = {'C05', 'C14', 'C15', 'C17', 'C18', 'C24'}
KINDS = ('array', 'arrayof', 'arrayblk', 'arrayblkof')


def macro(name, default):
    for f in sorted(os.listdir(os.path.join(ir.REPO, 'tommyds'))):
        if f.endswith('.h'):
            x = re.search(r'#\s*define\s+%s\s+([^/\n]+)' % name, open(os.path.join(ir.REPO, 'tommyds', f), errors='replace').read())
            if x:
                try:
                    return int(eval(x.group(1), {'__builtins__': {}}, {}))
                except Exception:
                    return default
    return default


class Array:
    """An array of `count` elements; element w (a witness) holds the value x, the others below count anything, the rest zero."""

    def __init__(self, R, kind):
        self.R, self.kind = R, kind
        self.P = R.ctx.P
        R.ctx.views = True
        R.ctx.probe = 3
        R.ctx.maxrounds = 60
        m = R.m
        self.F = m.struct_fields('tommy_%s_struct' % kind)
        self.size = self.F['__size__'][0]
        self.blk = None
        self.of = kind.endswith('of')
        if 'blk' in kind:
            self.blk = macro('TOMMY_%s_SIZE' % kind.upper(), 4096)
            inner = m.struct_fields('tommy_array_struct')
            base = self.F['block'][0]
            self.A = {k: (o + base, s) for k, (o, s) in inner.items()}
            self.bit0 = macro('TOMMY_ARRAY_BIT', 6)
        else:
            self.A = self.F
            self.bit0 = macro('TOMMY_%s_BIT' % kind.upper(), 6)

    def esize(self, st):
        return st.num.norm(st.gh['esize']) if self.of else K(self.P)

    def blank(self, st):
        o = var_region(st, self.kind, {}, self.size)
        ob, osz = self.A['bucket']
        o.arrs = (Arr(ob, K(self.P), [(ZERO, K(osz // self.P), ('uninit',))]),)
        o.info = dict(o.info)
        o.info['vbits'] = K(self.bit0)
        self.obj = o.id
        if self.of:
            E = rsym('esize', 1, 1 << (self.R.ctx.W - 16))
            st.gh['esize'] = E
            st.gh['caps'] = ()
        st.gh['exps'] = ()
        st.gh['array'] = o.addr
        return o

    def build(self, st, empty=False, witness=True):
        W, P = self.R.ctx.W, self.P
        o = self.blank(st)
        E = self.esize(st)
        n = st.num
        bit = rsym('b', self.bit0, W - 8)
        st.gh['exps'] = (bit,)
        cnt = ZERO if empty else rsym('count', 1, 1 << (W - 8))
        st.gh['count'] = cnt
        fields = {}

        def put(F, name, v):
            off, s = F[name]
            fields[off] = (s, v)
        if self.blk:
            m = ZERO
            if not empty:
                m = rsym('blocks', 1, 1 << (W - 8))
                n.add(m * self.blk - cnt)
                n.add(cnt - 1 - (m - 1) * self.blk)
            n.add(pow2(bit) - m)
            st.gh['blocks'] = m
            put(self.A, 'count', m)
            top = m * self.blk
        else:
            top = pow2(bit)
            n.add(top - cnt)
        put(self.F, 'count', cnt)
        put(self.A, 'bucket_max', pow2(bit))
        put(self.A, 'bucket_bit', bit)
        if self.of:
            put(self.F, 'element_size', E)
            st.gh['caps'] = (top,)
            n.add(K(1 << (W - 2)) - top * E)
            n.add(top * E)
        V = st.new_region('elements', 'virt', E * top)
        segs = []
        if not empty:
            if witness and not self.of:
                w, x = rsym('w', 0, None), rsym('x', bits=W)
                n.add(cnt - 1 - w)
                st.gh['w'], st.gh['x'] = w, x
                State.stamp += 1
                segs += [(ZERO, w, ('any',)), (w, w + 1, ('val', ZERO + x, State.stamp)), (w + 1, cnt, ('any',))]
            else:
                segs.append((ZERO, cnt, ('any',)))
        segs.append((cnt, top, ('zero',)))
        V.arrs = (Arr(0, E, segs),)
        o.info = dict(o.info)
        if self.blk:
            V.info = {'blk': K(self.blk), 'cells': 'keep'}
            B = st.new_region('blocks', 'virt', P * pow2(bit))
            B.arrs = (Arr(0, K(P), [(ZERO, m, ('vblk',)), (m, pow2(bit), ('zero',))]),)
            B.info = {'bit0': K(self.bit0), 'etable': V.addr, 'eblk': K(self.blk)}
            o.info['vtable'] = B.addr
        else:
            V.info = {'bit0': K(self.bit0), 'cells': 'keep'}
            o.info['vtable'] = V.addr
        ob, osz = self.A['bucket']
        o.arrs = (Arr(ob, K(P), [(ZERO, bit, ('vseg',)), (bit, K(osz // P), ('uninit',))]),)
        o.fields = fields
        st.gh['vec'] = V.addr
        return o

    def get(self, s, name, F=None):
        f = (F or self.F).get(name)
        v = s.heap[self.obj].fields.get(f[0])
        if v is None:
            raise Post('the field %s is not set' % name)
        return s.num.norm(v[1])

    def wrong(self, s, idx, t):
        """Is the content t of position idx of the segment table wrong for sure?"""
        n = s.num
        if t[0] in ('zero', 'uninit'):
            return True
        if t[0] != 'val':
            return False
        b, off = s.base_of(t[1])
        r = s.heap.get(b) if b is not None else None
        if r is None or r.kind != 'heap' or s.lossy and not s.probe:
            return False
        e = K(self.P) if self.blk else self.esize(s)
        if n.ge(idx - self.bit0):
            p = pow2(idx)
            return n.ne0(off + e * p) or n.ge(e * p - r.size - 1)
        return idx.const() == 0 and (n.ne0(off) or n.ge(e * (1 << self.bit0) - r.size - 1))

    def table(self, s):
        """The vector of the segment table (elements, or blocks)."""
        i = s.heap[self.obj].info
        if 'vtable' not in i:
            raise Post('no first segment')
        b, _ = s.base_of(i['vtable'])
        return s.heap[b]

    def elements(self, s):
        t = self.table(s)
        if not self.blk:
            return t
        if 'etable' not in t.info:
            return None
        b, _ = s.base_of(t.info['etable'])
        return s.heap[b]

    def check(self, C, s):
        n = s.num
        cnt = self.get(s, 'count')
        bit = self.get(s, 'bucket_bit', self.A)
        mx = self.get(s, 'bucket_max', self.A)
        P1 = {'C14', 'C15', 'C18'}
        C.require('invariant range', n.ge(bit - self.bit0), 'fewer bits than at the start: %r' % bit, P1, s.sure_outside(bit, K(self.bit0), K(64)))
        C.eq(s, 'invariant size', mx, pow2(bit), 'positions of the segments', P1)
        o = s.heap[self.obj]
        for lo, hi, t in o.arrs[0].segs:
            if n.eq0(hi - lo) or not s.decide(bit - 1 - lo, 'segment table'):
                continue
            wrong = self.wrong(s, lo, t)
            C.require('invariant segments', t[0] == 'vseg', 'the segment table [%r,%r) holds %s' % (lo, hi, t), P1 | {'C17'}, wrong)
            if t[0] != 'vseg':
                raise Post('a pointer of the segment table is wrong', wrong)
        T = self.table(s)
        C.eq(s, 'invariant memory', segvec.top(s, T), pow2(bit), 'positions with memory', P1 | {'C17'})
        E = self.elements(s)
        top = segvec.top(s, E) if E is not None else ZERO
        if self.blk:
            m = self.get(s, 'count', self.A)
            C.require('invariant blocks', n.ge(m * self.blk - cnt), '%r blocks do not hold %r elements' % (m, cnt), P1, s.sure_outside(m * self.blk - cnt, ZERO, K(1 << 62)))
            C.eq(s, 'invariant block memory', top, m * self.blk, 'elements with memory', P1 | {'C17'})
            C.require('invariant table', n.ge(pow2(bit) - m), 'the table of %r positions has %r blocks' % (pow2(bit), m), P1, s.sure_outside(m, ZERO, pow2(bit)))
            for lo, hi, t in T.arrs[0].segs:
                if n.eq0(hi - lo) or not s.decide(m - 1 - lo, 'block table'):
                    continue
                C.require('block pointer', t[0] == 'vblk', 'the block table [%r,%r) holds %s' % (lo, hi, t), P1 | {'C17'}, t[0] in ('zero', 'uninit'))
        else:
            C.require('invariant count', n.ge(top - cnt), '%r elements in %r positions' % (cnt, top), P1, s.sure_outside(cnt, ZERO, top))
        if E is None:
            return
        for lo, hi, t in E.arrs[0].segs:
            if n.eq0(hi - lo):
                continue
            if t[0] == 'zero' or t[0] == 'val' and t[1].const() == 0:
                continue
            if t[0] == 'gone':
                C.require('released', n.ge(lo - top), 'a block was released', {'C14', 'C17', 'C18'}, not s.lossy)
                continue
            if t[0] in ('any', 'val'):
                C.require('new elements are zero', n.ge(cnt - hi), 'positions [%r,%r) behind the last element %r are not zero' % (lo, hi, cnt), {'C14'}, s.sure_outside(hi, ZERO, cnt))
                continue
            C.require('elements', False, 'positions [%r,%r) hold %s' % (lo, hi, t), {'C14', 'C18'}, not s.lossy or t[0] == 'uninit' and s.num.ge(hi - lo - 1))

    def kept(self, C, s, skip=None):
        """The witness holds its value and the elements are where they were; none of the old ones was made zero."""
        n = s.num
        E = self.elements(s)
        C.eq(s, 'address', E.addr, s.gh['vec'], 'address of the elements', {'C14', 'C15'})
        if self.of:
            return
        if 'w' in s.gh:
            v = s.arr_load(E, 0, s.resolve(s.gh['w']))
            C.eq(s, 'kept', s.num.norm(v), s.gh['x'], 'value of an element', {'C14', 'C15'})


def setup(m, kind, fn):
    R = Run(m, 'tommy_%s_%s' % (kind, fn), set(PROPS))
    return R, Array(R, kind), 'tommy_%s_%s' % (kind, fn)


def states(R, kind, witness=True):
    for empty in (True, False):
        st = R.new_state()
        A = Array(R, kind)
        A.build(st, empty, witness)
        yield ('empty' if empty else 'used'), st, A


def run_grow(m, kind):
    R, A, fn = setup(m, kind, 'grow')
    for lab, st, A in states(R, kind):
        N = rsym('N', 0, 1 << (R.ctx.W - 9))
        st.gh['N'] = N

        def post(C, s, ret, A=A):
            n = s.num
            c, N = n.norm(s.gh['count']), n.norm(s.gh['N'])
            C.eq(s, 'size', A.get(s, 'count'), c if s.decide(c - N, 'grow') else N, 'size after growing', {'C05', 'C14'})
            A.check(C, s)
            A.kept(C, s)
        R.exec(st, fn, [st.gh['array'], N], post, '%s %s' % (fn, lab), canon=False)
    return R


def run_access(m, kind):
    """ref, get, set of a position below the size."""
    R = Run(m, 'tommy_%s access' % kind, set(PROPS))
    for fn in ('ref', 'get', 'set', 'insert', 'size', 'memory_usage'):
        f = 'tommy_%s_%s' % (kind, fn)
        if f not in m.funcs:
            continue
        for empty in (True, False):
            A = Array(R, kind)
            st = R.new_state()
            A.build(st, empty)
            if empty and fn in ('ref', 'get', 'set'):
                continue
            args = [st.gh['array']]
            pos = None
            if fn in ('ref', 'get', 'set'):
                pos = rsym('pos', 0, None)
                st.num.add(st.gh['count'] - 1 - pos)
                st.gh['pos'] = pos
                args.append(pos)
                if fn == 'get' and 'w' in st.gh:
                    args[-1] = st.gh['w']
            if fn in ('set', 'insert'):
                y = rsym('y', bits=R.ctx.W)
                st.gh['y'] = y
                args.append(y)

            def post(C, s, ret, A=A, fn=fn, empty=empty):
                n = s.num
                if fn == 'ref':
                    C.eq(s, 'address', ret, A.elements(s).addr + n.norm(s.gh['pos'] * A.esize(s)), 'address of an element', {'C15', 'C14', 'C18'})
                elif fn == 'get':
                    C.eq(s, 'value', ret, s.gh['x'], 'value of an element', {'C15'})
                elif fn == 'set':
                    if s.decide_eq(n.norm(s.gh['pos'] - s.gh['w']), 'same'):
                        v = s.arr_load(A.elements(s), 0, s.resolve(s.gh['w']))
                        C.eq(s, 'stored', n.norm(v), s.gh['y'], 'value just stored', {'C15'})
                    else:
                        A.kept(C, s)
                    A.check(C, s)
                elif fn == 'insert':
                    C.eq(s, 'size', A.get(s, 'count'), s.gh['count'] + 1, 'size after an insert', {'C05', 'C14'})
                    A.check(C, s)
                    A.kept(C, s)
                    v = s.arr_load(A.elements(s), 0, s.resolve(s.gh['count']))
                    C.eq(s, 'stored', s.num.norm(v), s.gh['y'], 'value just inserted', {'C14', 'C15'})
                elif fn == 'size':
                    C.eq(s, 'size', ret, s.gh['count'], 'reported size', {'C05'})
                elif fn == 'memory_usage':
                    C.eq(s, 'memory', ret, n.norm(total_heap(s)), 'reported memory', {'C24'})
            R.exec(st, f, args, post, '%s %s' % (f, 'empty' if empty else 'used'), canon=False)
    return R


def run_life(m, kind):
    R = Run(m, 'tommy_%s_init' % kind, set(PROPS))
    A = Array(R, kind)
    st = R.new_state()
    A.blank(st)
    args = [st.gh['array']]
    if A.of:
        args.append(st.gh['esize'])

    def post(C, s, ret, A=A):
        C.eq(s, 'size', A.get(s, 'count'), ZERO, 'size after init', {'C05', 'C14'})
        A.check(C, s)
        if A.of:
            C.eq(s, 'element size', A.get(s, 'element_size'), s.gh['esize'], 'size of an element', {'C15'})
    R.exec(st, 'tommy_%s_init' % kind, args, post)
    for empty in (True, False):
        A = Array(R, kind)
        st = R.new_state()
        A.build(st, empty, False)
        V = A.elements(st).copy()       # what the elements hold does not matter for a release
        V.arrs = (Arr(0, V.arrs[0].es, [(ZERO, V.arrs[0].segs[-1][1], ('any',))]),)
        st.heap[V.id] = V
        ids = [A.table(st).id, A.elements(st).id]

        def post(C, s, ret, ids=ids):
            for i in ids:
                for lo, hi, t in s.heap[i].arrs[0].segs:
                    C.require('released', t[0] == 'gone' or s.num.eq0(hi - lo), 'a block is not released', {'C17'}, not s.lossy or s.num.ge(hi - lo - 1))
            for r in s.heap.values():
                C.require('leak', not (r.alive and r.kind == 'heap'), 'a block is not released', {'C17'})
        R.exec(st, 'tommy_%s_done' % kind, [st.gh['array']], post, 'tommy_%s_done %s' % (kind, 'empty' if empty else 'used'), canon=False)
    return R
