"""The block allocator. The alignment is a constant (every power of two up to ALIGN_MAX), the block size is either a symbol, so large that only
a few blocks fit in a segment, or each of the smaller sizes; the address of a new segment is a symbol (aligned as a pointer).
Cells written inside a segment are kept as a list of (offset, size, value) with symbolic offsets."""
from harness import *
from fractions import Fraction

BIG = 640                   # from this size on the block size is a symbol
ALIGN_MAX = 1 << 16
SEGMENTS = 4                # segments held by an allocator that is released


class ACtx(Ctx):
    addr_residue = True

    def addr_div(self, st, x, d):
        """x / d for x = address + rest: the address is d * integer + rho, with rho a symbol of its own."""
        dc = d.const()
        m = [(m, k) for m, k in x.t if len(m) == 1 and Atom.byid[m[0]].kind == 'addr']
        if dc is None or len(m) != 1 or m[0][1] != 1:
            return None
        a = Lin.atom(Atom.byid[m[0][0][0]])
        c0, rho = residue(st, a, int(dc), (x - a).const())
        y = st.udiv(x - a - c0 + rho, d, 128)
        return y + Lin.of({q: Fraction(k) / int(dc) for q, k in (a + c0 - rho).t})

    def cells(self, st, r, off, size, exact):
        """(cells that do not touch [off,off+size), the equal cell); a partly overlapped cell is dropped when `exact` is None."""
        rest, hit = [], None
        for c in r.info['ent']:
            o, s, v = c
            d = st.num.norm(off - o)
            k = d.const()
            if k is not None:
                k = int(k)
                if k == 0 and s == size:
                    hit = c
                elif k >= s or k + size <= 0:
                    rest.append(c)
                else:
                    rest.append((o, s, None)) if exact else None
                continue
            if st.decide(d - s, 'cell') or st.decide(-d - size, 'cell'):
                rest.append(c)
            elif s == size and st.decide_eq(d, 'cell'):
                hit = c
            elif exact:
                rest.append((o, s, None))
        return rest, hit

    def special_load(self, st, r, off, size):
        _, hit = self.cells(st, r, off, size, False)
        if hit is None:
            raise Fault('uninit', 'read of memory of %s that holds nothing at offset %r' % (r.name, off))
        if hit[2] is None:
            raise Fault('uninit', 'read of a link of %s that has been overwritten' % r.name)
        return hit[2]

    def special_store(self, st, r, off, v, size):
        rest, hit = self.cells(st, r, off, size, True)
        q = r.copy()
        q.info = dict(r.info)
        q.info['ent'] = tuple(rest) + ((off, size, v),)
        st.heap[r.id] = q

    def malloc(self, I, st, size, es, where, zero=False, cnt=None):
        n = st.num
        if not n.ge(K((1 << (self.W - 1)) - 1) - size):
            raise Fault('alloc', 'allocation size may overflow: %r' % size)
        return cellmem(st, 'segment', size).addr


def residue(st, a, d, c0=None):
    """(c0, rho): a + c0 is rho modulo d."""
    for b, e, c, rho in st.gh.get('rho', ()):
        if b == a and e == d:
            return c, rho
    c0 = int(c0 or 0)
    if d % 8 == 0:
        rho = (rsym('rho', 0, d // 8 - 1) * 8 if d > 8 else ZERO) + c0 % 8
    else:
        rho = rsym('rho', 0, d - 1)
    st.gh['rho'] = st.gh.get('rho', ()) + ((a, d, c0, rho),)
    return c0, rho


def cellmem(st, name, size, kind='heap', ent=()):
    r = st.new_region(name, kind, size, align=8)
    r.info = {'ent': tuple(ent), 'on_load': True, 'on_store': True}
    return r


def new_run(m, name, props):
    R = Run(m, name, props, ctxcls=ACtx)
    c = R.ctx
    c.fault_props = lambda kind: {'C17', 'C16'} & set(props) if kind in ('free',) else {'C18', 'C16'}
    c.mem_props = {'C18', 'C16'}
    c.unroll = 520
    c.unroll_strict = True
    c.maxsteps = 5000000
    return R


def struct(m):
    return m.struct_fields('tommy_allocator_struct')


def alloc_state(R, F, B, A, free, used, cnt):
    st = R.new_state()
    st.gh = {'B': B, 'A': A, 'cnt': cnt, 'used': used}
    a = var_region(st, 'alloc', {F['block_size'][0]: (8, B), F['align_size'][0]: (8, A), F['free_block'][0]: (8, free),
                                 F['used_segment'][0]: (8, used), F['count'][0]: (8, cnt)}, F['__size__'][0])
    st.gh['alloc'] = a.addr
    return st, a


def field(s, F, name):
    b, _ = s.base_of(s.resolve(s.gh['alloc']))
    f = s.heap[b].fields
    if F[name][0] not in f:
        raise Post('field %s is not set' % name)
    return s.num.norm(f[F[name][0]][1])


def sizes():
    out = []
    a = 8
    while a <= ALIGN_MAX:
        b = a
        while b < BIG:
            out.append((a, b))
            b += a
        out.append((a, None))
        a *= 2
    return out


def run_alloc(m):
    R = new_run(m, 'tommy_allocator_alloc', {'C05', 'C16', 'C17', 'C18'})
    F = struct(m)
    main = {'C16'}
    for a, b in sizes():
        for old in (0, 1):
            if old and b is not None and b % (8 * a):
                continue
            st = R.new_state()
            R.cases -= 1
            if b is None:
                c = rsym('blocks', max(1, -(-BIG // a)), 1 << 24)
                B = c * a
            else:
                B = K(b)
            cnt = rsym('count', 0, 1 << 40)
            st, al = alloc_state(R, F, B, K(a), ZERO, ZERO, cnt)
            if old:
                o = cellmem(st, 'old segment', B, ent=((ZERO, 8, ZERO),))
                al.fields[F['used_segment'][0]] = (8, o.addr)
                st.gh['used'] = o.addr

            def post(C, s, ret, a=a):
                refill(C, s, F, ret, a, main)
            R.exec(st, 'tommy_allocator_alloc', [al.addr], post, 'alloc %d/%s %d' % (a, b, old), canon=False)
    # blocks are available
    for tail in (0, 1):
        st = R.new_state()
        R.cases -= 1
        B, cnt = rsym('B', 8, 1 << 40), rsym('count', 0, 1 << 40)
        st, al = alloc_state(R, F, B, K(8), ZERO, ZERO, cnt)
        o = cellmem(st, 'segment', B + 8, ent=((ZERO, 8, ZERO),))
        y = cellmem(st, 'free block', B, 'blk', ((ZERO, 8, ZERO),)) if tail else None
        x = cellmem(st, 'free block', B, 'blk', ((ZERO, 8, y.addr if tail else ZERO),))
        al.fields[F['free_block'][0]] = (8, x.addr)
        al.fields[F['used_segment'][0]] = (8, o.addr)
        st.gh.update(used=o.addr, x=x.addr, y=y.addr if tail else ZERO)

        def post2(C, s, ret):
            C.eq(s, 'result', ret, s.resolve(s.gh['x']), 'what is handed out is not the free block', main)
            C.eq(s, 'free', field(s, F, 'free_block'), s.resolve(s.gh['y']), 'the remaining free blocks', main)
            same(C, s, F, 1, main)
            C.eq(s, 'segments', field(s, F, 'used_segment'), s.resolve(s.gh['used']), 'the list of segments', main | {'C17'})
        R.exec(st, 'tommy_allocator_alloc', [al.addr], post2, 'alloc free %d' % tail, canon=False)
    return [R]


def same(C, s, F, d, main):
    C.eq(s, 'count', field(s, F, 'count'), s.gh['cnt'] + d, 'number of blocks', {'C05'})
    C.eq(s, 'block size', field(s, F, 'block_size'), s.gh['B'], 'the block size', main)
    C.eq(s, 'align size', field(s, F, 'align_size'), s.gh['A'], 'the alignment', main)


def refill(C, s, F, ret, a, main):
    n = s.num
    B = n.norm(s.gh['B'])
    same(C, s, F, 1, main)
    used = field(s, F, 'used_segment')
    chain, p = [], used
    while p.const() != 0:
        i, off = s.base_of(p)
        r = s.heap.get(i)
        if r is None or r.kind != 'heap' or not r.alive or off.const() != 0 or r in chain or len(chain) > 4:
            raise Post('the list of segments does not lead to memory of the heap')
        chain.append(r)
        p = n.norm(s.load(p, 8))
    want = [r for r in s.heap.values() if r.kind == 'heap' and r.alive]
    C.require('segments', set(r.id for r in chain) == set(r.id for r in want), 'a segment is not in the list of segments', main | {'C17'})
    old = s.resolve(s.gh['used'])
    offs, p = [], n.norm(ret)
    free = field(s, F, 'free_block')
    seen = 0
    while True:
        if p.const() == 0:
            if not offs:
                raise Post('no block is handed out')
            break
        i, off = s.base_of(p)
        r = s.heap.get(i)
        if r is None or r not in chain or (old.const() is None and i == s.base_of(old)[0]):
            raise Post('a block is not inside the new segment')
        offs.append((r, off, p))
        if len(offs) > 2000:
            raise Post('the free list does not end')
        p = free if len(offs) == 1 else n.norm(s.load(p, 8))
    for r, off, p in offs:
        C.require('inside', n.ge(off - 8) and n.ge(r.size - off - B), 'a block at offset %r of a segment of %r bytes reaches outside of it or over its link' % (off, r.size), main,
                  s.sure_outside(off, K(8), r.size - B))
        C.require('aligned', s.divisible(p, a) or aligned(s, p, a), 'a block at %r is not aligned to %d' % (p, a), main)
    if B.const() is not None and all((o - offs[0][1]).const() is not None for _, o, _ in offs):
        ks = sorted((o - offs[0][1]).const() for _, o, _ in offs)
        ok = all(y - x >= B.const() for x, y in zip(ks, ks[1:]))
    else:
        ok = all(n.ge(x[1] - y[1] - B) or n.ge(y[1] - x[1] - B) for i, x in enumerate(offs) for y in offs[:i])
    C.require('disjoint', ok, 'blocks overlap', main)


def aligned(s, p, a):
    """Is p, an address with its offset, a multiple of a?"""
    p = s.num.norm(p)
    m = [m for m, k in p.t if len(m) == 1 and Atom.byid[m[0]].kind == 'addr']
    if len(m) == 1:
        b = Lin.atom(Atom.byid[m[0][0]])
        c0, rho = residue(s, b, a)
        p = s.num.norm(p - b - c0 + rho)
    rest = Lin.of({m: k for m, k in p.t if Fraction(k).denominator != 1 or k % a})
    return s.num.eq0(s.num.norm(rest - s.mkdiv(rest, K(a)) * a)) if rest.const() is None else rest.const() % a == 0


def run_free(m):
    R = new_run(m, 'tommy_allocator_free', {'C05', 'C16', 'C17', 'C18'})
    F = struct(m)
    for tail in (0, 1):
        B, cnt = rsym('B', 8, 1 << 40), rsym('count', 1, 1 << 40)
        st, al = alloc_state(R, F, B, K(8), ZERO, ZERO, cnt)
        o = cellmem(st, 'segment', B + 8, ent=((ZERO, 8, ZERO),))
        y = cellmem(st, 'free block', B, 'blk', ((ZERO, 8, ZERO),)) if tail else None
        x = cellmem(st, 'block', B, 'blk', ())
        al.fields[F['free_block'][0]] = (8, y.addr if tail else ZERO)
        al.fields[F['used_segment'][0]] = (8, o.addr)
        st.gh.update(used=o.addr, x=x.addr, y=y.addr if tail else ZERO)

        def post(C, s, ret):
            main = {'C16'}
            got, p = [], field(s, F, 'free_block')
            while p.const() != 0 and len(got) < 4:
                got.append(p)
                p = s.num.norm(s.load(p, 8))
            want = [x for x in (s.resolve(s.gh['x']), s.resolve(s.gh['y'])) if x.const() != 0]
            C.require('free', len(got) == len(want) and all(x in got for x in want), 'the free blocks are %r instead of %r' % (got, want), main)
            same(C, s, F, -1, main)
            C.eq(s, 'segments', field(s, F, 'used_segment'), s.resolve(s.gh['used']), 'the list of segments', main | {'C17'})
        R.exec(st, 'tommy_allocator_free', [al.addr, x.addr], post, 'free %d' % tail, canon=False)
    return [R]


def run_life(m):
    F = struct(m)
    R = new_run(m, 'allocator life', {'C05', 'C16', 'C17', 'C18', 'C24'})
    # init: any block size, all alignments
    a = 1
    al = [0]
    while a <= ALIGN_MAX:
        al.append(a)
        a *= 2
    for a in al:
        st = R.new_state()
        b = rsym('size', 1, 1 << 40)
        st.gh = {'b': b}
        r = var_region(st, 'alloc', {}, F['__size__'][0])
        st.gh['alloc'] = r.addr

        def post(C, s, ret, a=a):
            A, B = field(s, F, 'align_size'), field(s, F, 'block_size')
            b, n = s.gh['b'], s.num
            c = A.const()
            if c is None:
                raise Post('the alignment is not a constant', sure=False)
            C.require('align', c >= max(a, 8) and c & (c - 1) == 0 and c % max(a, 1) == 0, 'alignment %d is used when %d is asked for' % (c, a), {'C16'})
            C.require('size', n.ge(B - b), 'the block size may be less than asked for', {'C16'}, s.sure_outside(B, b, B))
            C.require('multiple', s.divisible(B, int(c)) or aligned(s, B, int(c)), 'the block size %r is not a multiple of the alignment %d' % (B, c), {'C16'})
            for x, p in (('free_block', {'C16'}), ('used_segment', {'C16', 'C17'}), ('count', {'C05'})):
                C.eq(s, x, field(s, F, x), ZERO, '%s after init' % x, p)
        R.exec(st, 'tommy_allocator_init', [r.addr, b, K(a)], post, 'init %d' % a, canon=False)
    for k in range(SEGMENTS + 1):
        for free in (0, 1):
            if free and not k:
                continue
            B, cnt = rsym('B', 8, 1 << 40), rsym('count', 0, 1 << 40)
            st, al = alloc_state(R, F, B, K(8), ZERO, ZERO, cnt)
            p, ids = ZERO, []
            for i in range(k):
                o = cellmem(st, 'segment', B + 16, ent=((ZERO, 8, p),) + (((K(8), 8, ZERO),) if free and i == 0 else ()))
                ids.append(o.id)
                if free and i == 0:
                    al.fields[F['free_block'][0]] = (8, o.addr + 8)
                p = o.addr
            al.fields[F['used_segment'][0]] = (8, p)

            def post2(C, s, ret, ids=ids):
                left = [i for i in ids if i in s.heap and s.heap[i].alive]
                C.require('released', not left, '%d of %d segments are not released' % (len(left), len(ids)), {'C17'})
            R.exec(st, 'tommy_allocator_done', [al.addr], post2, 'done %d %d' % (k, free), canon=False)
    if 'tommy_allocator_memory_usage' in m.funcs:
        B, cnt = rsym('B', 8, 1 << 30), rsym('count', 0, 1 << 30)
        st, al = alloc_state(R, F, B, K(8), ZERO, ZERO, cnt)

        def post3(C, s, ret):
            C.eq(s, 'usage', ret, s.gh['cnt'] * s.gh['B'], 'memory usage', {'C24'})
        R.exec(st, 'tommy_allocator_memory_usage', [al.addr], post3, 'usage', canon=False)
    return [R]
