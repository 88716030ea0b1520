"""The linear hash table: a vector made of segments, part of it already split by the hash bit above."""
import os, re
from ops_hash import *
import ir, segvec

KIND = 'hashlin'
VARS = ('keep', 'low', 'high')      # bucket not yet split; lower half of a split bucket; upper half


def consts(m):
    """State codes and number of bits of the first segment (from the header of the tree under analysis)."""
    if not hasattr(m, 'lin_consts'):
        c = {'STABLE': 0, 'GROW': 1, 'SHRINK': 2}
        bit = None
        t = ''.join(open(os.path.join(ir.REPO, 'tommyds', f)).read() for f in ('tommyhashlin.h', 'tommyhashlin.c'))
        for n in c:
            x = re.search(r'#\s*define\s+TOMMY_HASHLIN_STATE_%s\s+(\d+)' % n, t)
            if x:
                c[n] = int(x.group(1))
        x = re.search(r'#\s*define\s+TOMMY_HASHLIN_BIT\s+(\d+)', t)
        m.lin_consts = (c, int(x.group(1)) if x else 6)
    return m.lin_consts


def tables(R):
    mode = getattr(R, 'mode', None)
    out = [(LinTable(R, 'stable'), 'keep')]
    if 'shrink' in R.name:
        # the first pass joins the two halves of the table
        out = []
        for v in VARS[1:]:
            T = LinTable(R, 'stable')
            T.half = True
            out.append((T, v))
    for ph in (('grow', 'shrink') if mode == 'resize' else ('moving',)):
        for v in VARS:
            out.append((LinTable(R, ph), v))
    return out


class LinTable(Table):
    keyvars = VARS

    half = False

    def __init__(self, R, phase):
        Table.__init__(self, R, KIND)
        self.phase = phase
        R.ctx.views = True
        self.codes, self.bit0 = consts(R.m)
        if R.name != 'tommy_hashlin_pos':
            R.I.intercept['tommy_hashlin_pos'] = pos_contract

    def label(self, *v):
        return ' %s %s' % (self.phase, ' '.join(str(x) for x in v))

    def skip(self, rel, var, var2):
        if self.phase == 'stable':
            return var2 != 'keep' and rel != 'same'
        if rel == 'same':
            return False
        o = {'low': 0, 'keep': 1, 'high': 2}
        a, b = o[var], o[var2]
        return b < a if rel == 'before' else b > a

    def build(self, st, buckets, bmin=4):
        W = self.R.ctx.W
        lb = rsym('b', self.bit0, W - 7)
        self.lb = lb
        st.gh['exps'] = (lb, lb + 1, lb - 1)
        st.gh['b'] = lb
        if self.phase != 'stable':
            sp = rsym('split', 1, None)
            st.num.add(pow2(lb) - 1 - sp)
            st.gh['split'] = sp
        return lb

    def key(self, st, lb, name, var=0):
        k, q = mk_key(st, lb, name)
        if self.phase == 'stable':
            if self.half:
                st.assume_eq(Lin.atom(atom('bit', args=(ZERO + k, lb - 1))) - (1 if var == 'high' else 0))
                return k, lb, st.low(ZERO + k, lb)
            return k, lb, q
        sp = st.gh['split']
        if var == 'keep':
            st.num.add(q - sp)
            return k, lb, q
        st.num.add(sp - 1 - q)
        v = 1 if var == 'high' else 0
        st.assume_eq(Lin.atom(atom('bit', args=(ZERO + k, lb))) - v)
        p = st.low(ZERO + k, lb + 1)
        return k, lb + 1, p

    def sections(self, lb, sp):
        if sp is None:
            return [(ZERO, pow2(lb), lb)]
        low = pow2(lb)
        return [(ZERO, sp, lb + 1), (sp, low, lb), (low, low + sp, lb + 1)]

    def finish(self, st, b, cells, count_min):
        W, P, lb = self.R.ctx.W, self.P, self.lb
        sp = st.gh.get('split') if self.phase != 'stable' else None
        bb = lb if sp is None else lb + 1
        V = st.new_region('segments', 'virt', P * pow2(bb))
        V.info = {'bit0': K(self.bit0)}
        segs = []
        cells = list(cells)
        for lo, hi, e in self.sections(lb, sp):
            pos = lo
            while cells and st.num.ge(hi - 1 - cells[0][0]):
                p, head = cells.pop(0)
                segs.append((pos, p, ('list', e)))
                State.stamp += 1
                segs.append((p, p + 1, ('val', head, State.stamp)))
                pos = p + 1
            segs.append((pos, hi, ('list', e)))
        if cells:
            raise ir.AnalysisBroken('initial bucket outside of the sections')
        if sp is not None:
            segs.append((pow2(lb) + sp, pow2(bb), ('uninit',)))
        V.arrs = (Arr(0, K(P), segs),)
        cnt = rsym('count', 0, 1 << (W - 8))
        st.num.add(cnt - count_min)
        F = self.F
        fields = {}

        def put(n, v):
            o, s = F[n]
            fields[o] = (s, v)
        put('bucket_max', pow2(bb))
        put('bucket_mask', pow2(bb) - 1)
        put('low_max', pow2(lb))
        put('low_mask', pow2(lb) - 1)
        put('split', sp if sp is not None else ZERO)
        put('count', cnt)
        put('bucket_bit', bb)
        c = self.codes
        if self.phase == 'moving':
            x = rsym('state', 0, 255)
            vals = sorted((c['GROW'], c['SHRINK']))
            st.num.add(x - vals[0])
            st.num.add(vals[1] - x)
            put('state', x)
        else:
            put('state', K(c[self.phase.upper()]))
        o = var_region(st, KIND, fields, self.size)
        ob, osz = F['bucket']
        o.arrs = (Arr(ob, K(P), [(ZERO, bb, ('vseg',)), (bb, K(osz // P), ('uninit',))]),)
        o.info = dict(o.info)
        o.info.update({'vtable': V.addr, 'vbits': K(self.bit0)})
        st.gh['table'] = o.addr
        st.gh['count'] = cnt
        self.obj = o.id
        return o

    def vec(self, s):
        b, _ = s.base_of(s.heap[self.obj].info['vtable'])
        return s.heap[b]

    def place(self, s):
        n = s.num
        lb = s.pow2_exp(n.norm(self.get(s, 'low_max')))
        if lb is None:
            raise Post('low_max is not a power of two', False)
        sp = n.norm(self.get(s, 'split'))
        if s.decide(-sp, 'split is zero'):
            return Place(self.vec(s), [(ZERO, pow2(lb), lb)])
        return Place(self.vec(s), self.sections(lb, sp), sp)

    def check(self, C, s, props, bmin):
        n = s.num
        for f in ('bucket_max', 'bucket_mask', 'low_max', 'low_mask', 'split', 'bucket_bit', 'state'):
            if self.get(s, f) is None:
                C.fail('invariant', 'the field %s is not set' % f, props)
                raise Post('missing field')
        bb = n.norm(self.get(s, 'bucket_bit'))
        lowm = n.norm(self.get(s, 'low_max'))
        sp = n.norm(self.get(s, 'split'))
        C.require('invariant range', n.ge(bb - self.bit0), 'the number of bucket bits %r may become less than %d' % (bb, self.bit0), props, s.sure_outside(bb, K(self.bit0), K(64)))
        C.eq(s, 'invariant buckets', self.get(s, 'bucket_max'), pow2(bb), 'the number of buckets', props)
        C.eq(s, 'invariant mask', self.get(s, 'bucket_mask'), pow2(bb) - 1, 'the bucket mask', props)
        C.eq(s, 'invariant low mask', self.get(s, 'low_mask'), lowm - 1, 'the low mask', props)
        stable = s.decide_eq(n.norm(self.get(s, 'state')) - self.codes['STABLE'], 'state')
        if stable:
            C.eq(s, 'invariant low', lowm, pow2(bb), 'the low size of a stable table', props)
            C.eq(s, 'invariant split', sp, ZERO, 'the split position of a stable table', props)
            secs, sp = self.sections(bb, None), None
        else:
            C.eq(s, 'invariant low', lowm, pow2(bb - 1), 'the low size of a table being resized', props)
            C.require('invariant low range', n.ge(bb - 1 - self.bit0), 'the first segment is being split', props, s.sure_outside(bb, K(self.bit0 + 1), K(64)))
            C.require('invariant split', n.ge(sp - 1) and n.ge(pow2(bb - 1) - 1 - sp), 'the split position %r of a table being resized is not in [1,%r)' % (sp, pow2(bb - 1)), props, s.sure_outside(sp, K(1), pow2(bb - 1) - 1))
            secs = self.sections(bb - 1, sp)
        o = s.heap[self.obj]
        if 'vtable' not in o.info:
            C.fail('invariant segments', 'no first segment', props)
            raise Post('no segments')
        for lo, hi, t in o.arrs[0].segs:
            if n.eq0(hi - lo) or not s.decide(bb - 1 - lo, 'segment table'):
                continue
            C.require('invariant segments', t[0] == 'vseg', 'the segment table [%r,%r) holds %s' % (lo, hi, t), props | {'C18', 'C17'}, not s.lossy or t[0] == 'uninit')
            if t[0] != 'vseg':
                raise Post('a pointer of the segment table is wrong', not s.lossy)
        V = self.vec(s)
        C.eq(s, 'invariant size', segvec.top(s, V), pow2(bb), 'allocated positions', props | {'C17', 'C18'})
        pl = Place(V, secs, sp)
        check_cells(self, C, s, V, pl, props)
        return pl

    def blank(self, st):
        o = var_region(st, KIND, {}, self.size)
        ob, osz = self.F['bucket']
        o.arrs = (Arr(ob, K(self.P), [(ZERO, K(osz // self.P), ('uninit',))]),)
        o.info = dict(o.info)
        o.info['vbits'] = K(self.bit0)
        self.obj = o.id
        return o

    def coarse(self, st):
        """Forget what the buckets hold (the order of blocks and split position does not matter for a release)."""
        V = self.vec(st).copy()
        V.arrs = (Arr(0, K(self.P), [(ZERO, V.arrs[0].segs[-1][1], ('any',))]),)
        st.heap[V.id] = V

    def weaken(self, st):
        """Forget which hashes lead to a bucket (an iteration does not depend on it)."""
        V = self.vec(st).copy()
        segs = []
        for lo, hi, t in V.arrs[0].segs:
            t = ('list?',) if t[0] == 'list' else t
            if segs and segs[-1][2] == t and t[0] != 'val':
                segs[-1] = (segs[-1][0], hi, t)
            elif not st.num.eq0(hi - lo):
                segs.append((lo, hi, t))
        V.arrs = (Arr(0, K(self.P), segs),)
        st.heap[V.id] = V

    def released(self, s, i):
        return all(t[0] == 'gone' or s.num.eq0(hi - lo) for lo, hi, t in s.heap[i].arrs[0].segs)



def pos_contract(I, st, args, ins):
    """tommy_hashlin_pos, as decided by run_pos: the address of a position of the segmented vector."""
    b, off = st.base_of(args[0])
    o = st.heap.get(b) if b is not None else None
    if o is None or 'vtable' not in o.info or off.const() != 0:
        return None
    n = st.num
    end = ZERO
    for lo, hi, t in o.arrs[0].segs:
        if n.eq0(hi - lo):
            continue
        if t[0] != 'vseg':
            break
        end = hi
    pos = st.norm_u(args[1], st.ctx.W)
    if not n.ge(pos) or not n.ge(pow2(end) - 1 - pos):
        return None
    return [(st, n.norm(o.info['vtable'] + pos * st.ctx.P))]


def run_pos(m):
    fn = 'tommy_hashlin_pos'
    props = {'C01', 'C02', 'C03', 'C04', 'C18'}
    R = Run(m, fn, props)
    if fn not in m.funcs:
        R.sink.put(('run', fn), True, props=props)      # folded into its callers, which are then analysed without the contract
        return R
    for T, var in tables(R):
        if var != 'keep':
            continue
        st = R.new_state()
        b = T.build(st, None)
        T.finish(st, b, [], ZERO)
        pos = rsym('pos', 0, None)
        bb = T.get(st, 'bucket_bit')
        st.num.add(pow2(bb) - 1 - pos)
        st.gh['pos'] = pos
        st.gh['exps'] = (bb,)

        def post(C, s, ret, T=T):
            C.eq(s, 'address', ret, T.vec(s).addr + s.gh['pos'] * T.P, 'address of a bucket', props)
        R.exec(st, fn, [st.gh['table'], pos], post, '%s %s' % (fn, T.phase), canon=False)
    return R


def run_step(m, which):
    """One call of the incremental reorganisation, from every state of the invariant."""
    fn = 'hashlin_%s_step' % which
    props = {'C01', 'C02', 'C03', 'C05', 'C17', 'C18', 'C26'}
    R = Run(m, fn, props)
    R.mode = 'resize'
    if fn not in m.funcs:
        R.sink.put(('run', fn), None, msg='%s does not exist: the reorganisation is not analysed' % fn, props=props)
        return R
    for fixed in (['e', 'f'],):
        for sh, st, T, b, k, p, N in cases_one(R, KIND, fixed):
            if which == 'grow' and str(sh).endswith('keep') and list(sh).count('S') > 1:
                continue        # the others are before, between or behind the witnesses, one at a time
            def post(C, s, ret, N=N, T=T, fixed=fixed):
                C.eq(s, 'count', T.get(s, 'count'), s.gh['count'], 'number of elements after a reorganisation', {'C05', 'C03'})
                e = check_table(T, C, s, {'C03', 'C01', 'C02'}, T.bit0)
                check_kept(T, C, s, e, N, fixed, s.gh['k'], {'C03', 'C01'})
            R.ctx.cut = fn
            R.exec(st, fn, [st.gh['table']], post, '%s %s' % (fn, sh))
    return R
