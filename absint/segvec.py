"""Segmented vectors: a table of pointers bucket[i] biased so that bucket[i] + position addresses the element directly.
The blocks are seen as one virtual vector over all positions (region kind 'virt'); reading bucket[i] gives a 'view' that is good
for the positions of block i only."""
from state import *
from num import *


def table(r):
    return r.info.get('vbits') is not None or 'vtable' in r.info


def view(st, r, idx):
    """The value of bucket[idx]."""
    va, bit0 = r.info['vtable'], r.info['vbits']
    idx = st.num.norm(idx)
    for q in st.heap.values():
        if q.kind == 'view' and q.info['of'] == va and st.num.norm(q.info['idx']) == idx:
            return q.addr
    q = st.new_region('view', 'view', K(1 << (st.ctx.W - 2)))
    q.info = {'of': va, 'idx': idx, 'bit0': bit0}
    return q.addr


def bview(st, r, idx):
    """The value of cell idx of a table of equal blocks: a pointer good for that block only."""
    va = r.info['etable']
    idx = st.num.norm(idx)
    for q in st.heap.values():
        if q.kind == 'view' and q.info['of'] == va and st.num.norm(q.info['idx']) == idx:
            return q.addr
    q = st.new_region('view', 'view', K(1 << (st.ctx.W - 2)))
    q.info = {'of': va, 'idx': idx, 'blk': r.info['eblk']}
    return q.addr


def window(st, q):
    """[lo,hi) of the positions a view is good for (relative to its own address)."""
    idx = st.resolve(q.info['idx'])
    if 'blk' in q.info:
        return ZERO, q.info['blk']
    bit0 = q.info['bit0']
    if st.decide(idx - bit0, 'block'):
        return pow2(idx), pow2(idx + 1)
    return ZERO, pow2(bit0)


def shift(st, q):
    """Position of the vector that the address of a view stands for."""
    return st.resolve(q.info['idx']) * q.info['blk'] if 'blk' in q.info else ZERO


def elem_size(st, q):
    b, _ = st.base_of(q.info['of'])
    return st.resolve(st.heap[b].arrs[0].es)


def elems(l, es):
    """l / es, or None."""
    c = es.const()
    if c is not None:
        return Lin.of({m: Fraction(k) / int(c) for m, k in l.t})
    if l.const() == 0:
        return ZERO
    # es is a single symbol: take one factor out of every monomial
    e = es.single()
    if e is None:
        return None
    out = {}
    for m, k in l.t:
        m2 = list(m)
        for i, f in enumerate(m2):
            if f == e.id:
                del m2[i]
                break
            if isinstance(f, tuple) and f[0] == e.id and f[1] == 1:
                del m2[i]
                break
        else:
            return None
        out[tuple(m2)] = out.get(tuple(m2), 0) + k
    return Lin.of(out)


def inside(st, off, lo, hi, es):
    """The element that byte offset off is in, when that is one of [lo,hi); else None."""
    n = st.num
    c = es.const()
    if c is not None:
        return n.ge(off - lo * int(c)) and n.ge(hi * int(c) - 1 - off)
    x = elems(off, es)
    return x is not None and n.ge(x - lo) and n.ge(hi - 1 - x)


def fix(st, p):
    """Rewrite a pointer computed from a view when it is inside the block of the view."""
    b, off = st.base_of(p)
    q = st.heap.get(b) if b is not None else None
    if q is None or q.kind != 'view':
        return p
    lo, hi = window(st, q)
    es = elem_size(st, q)
    if inside(st, off, lo, hi, es):
        return st.num.norm(st.resolve(q.info['of']) + off + shift(st, q) * es)
    return p


def locate(st, q, off, what):
    p = fix(st, q.addr + off)
    b, o = st.base_of(p)
    if b != q.id:
        return st.locate(p, what)
    lo, hi = window(st, q)
    es = elem_size(st, q)
    raise Fault('oob', '%s outside of a block: offset %r with the pointer of block %r' % (what, off, q.info['idx']), sure=es.const() is not None and st.sure_outside(off, lo * es, hi * es - 1))


def release(st, p):
    """free() of a block of a segmented vector; true when p is one."""
    p = fix(st, p)
    b, off = st.base_of(p)
    if b is None:
        return False
    r = st.heap.get(b)
    if r is None or r.kind not in ('virt', 'view'):
        return False
    if r.kind == 'view':
        raise Fault('free', 'release of a pointer that is not a block (of the view of block %r, offset %r)' % (r.info['idx'], off), sure=not lossy(off) and not lossy(r.info['idx']))
    es = st.resolve(r.arrs[0].es)
    pos = elems(off, es)
    if pos is None or not (es.const() is None or st.divisible(off, int(es.const()))):
        raise Fault('free', 'release of a pointer inside a block', sure=not lossy(off) and es.const() is not None)
    if 'blk' in r.info:
        w = r.info['blk']
        if not st.divisible(pos, int(w.const())):
            raise Fault('free', 'release of a pointer inside a block', sure=not lossy(off))
        lo, hi = pos, pos + w
    else:
        bit0 = r.info['bit0']
        if st.num.eq0(pos):
            lo, hi = ZERO, pow2(bit0)
        else:
            e = st.pow2_exp(pos)
            if e is None or not st.num.ge(e - bit0):
                raise Fault('free', 'release of a pointer inside a block: element %r' % pos, sure=not lossy(pos))
            lo, hi = pow2(e), pow2(e + 1)
    n = st.num
    if not n.ge(r.arrs[0].segs[-1][1] - hi):
        raise Fault('free', 'release of a block that does not exist', sure=st.sure_outside(hi, ZERO, r.arrs[0].segs[-1][1]))
    for l, h, t in r.arrs[0].segs:
        if t[0] == 'gone' and not (n.ge(l - hi) or n.ge(lo - h) or n.eq0(h - l)):
            if st.decide(l - hi, 'free') or st.decide(lo - h, 'free'):
                continue
            raise Fault('free', 'double free of a block')
    st.ctx.arr_fill(st, st.heap[r.id], 0, lo, hi, ('gone',))
    return True


def top(st, r):
    """The number of positions with memory."""
    segs = [x for x in r.arrs[0].segs if not st.num.eq0(x[1] - x[0])]
    while len(segs) > 1 and segs[-1][2][0] == 'gone':
        segs.pop()
    return segs[-1][1] if segs and segs[-1][2][0] != 'gone' else ZERO


def same_es(st, a, b):
    return st.num.eq0(a - b)


def attach(st, rid, ai, pos, idx, v):
    """bucket[idx] = v: a new block becomes part of the vector."""
    r = st.heap[rid]
    n = st.num
    b, off = st.base_of(v)
    s = st.heap.get(b) if b is not None else None
    if s is None or not s.alive:
        return
    if s.kind == 'view' and s.info['of'] == r.info.get('vtable') and off.const() == 0:
        i, j = s.info['idx'], idx
        bit0 = r.info['vbits']
        if n.eq0(i - j) or n.ge(bit0 - 1 - i) and n.ge(bit0 - 1 - j):
            st.arr_set(rid, ai, pos, ('vseg',))
        return
    if s.kind != 'heap' or len(s.arrs) != 1 or s.fields:
        return
    es = s.arrs[0].es
    if 'etable' in r.info:
        vb, _ = st.base_of(r.info['etable'])
        V, w = st.heap.get(vb), r.info['eblk']
        if V is not None and off.const() == 0 and not n.eq0(s.size - V.arrs[0].es * w) and st.decide(V.arrs[0].es * w - s.size - 1, 'block size'):
            raise Fault('oob', 'a block of %r bytes is smaller than its %r elements of %r bytes' % (s.size, w, V.arrs[0].es))
        if V is None or not same_es(st, V.arrs[0].es, es) or off.const() != 0 or not n.eq0(s.size - es * w):
            return
        p = idx * w
        if not n.eq0(V.arrs[0].segs[-1][1] - p):
            return
        q = V.copy()
        q.arrs = (Arr(V.arrs[0].base, V.arrs[0].es, list(V.arrs[0].segs) + [(lo + p, hi + p, t) for lo, hi, t in s.arrs[0].segs]),)
        q.size = V.arrs[0].es * (p + w)
        st.heap[vb] = q
        del st.heap[b]
        st.arr_set(rid, ai, pos, ('vblk',))
        st.subst({b: st.num.norm(V.addr + es * p)})
        return
    if 'vbits' not in r.info:
        return
    if 'vtable' not in r.info:
        if n.eq0(off) and n.eq0(s.size - es * pow2(r.info['vbits'])) and idx.const() == 0:
            q = s.copy()
            q.kind = 'virt'
            q.info = dict(q.info)
            q.info['bit0'] = r.info['vbits']
            st.heap[b] = q
            r = r.copy()
            r.info = dict(r.info)
            r.info['vtable'] = s.addr
            st.heap[rid] = r
            st.arr_set(rid, ai, pos, ('vseg',))
        return
    vb, _ = st.base_of(r.info['vtable'])
    V = st.heap.get(vb)
    if V is None or not n.ge(idx - r.info['vbits']) or not same_es(st, V.arrs[0].es, es):
        return
    p = pow2(idx)
    if not n.eq0(off + es * p) or not n.eq0(s.size - es * p):
        return
    segs = [x for x in V.arrs[0].segs]
    while len(segs) > 1 and segs[-1][2][0] == 'gone' and n.ge(segs[-1][0] - p):
        segs.pop()
    if not n.eq0(segs[-1][1] - p):
        return
    new = [(lo + p, hi + p, t) for lo, hi, t in s.arrs[0].segs]
    q = V.copy()
    q.arrs = (Arr(V.arrs[0].base, es, segs + new),)
    q.size = es * pow2(idx + 1)
    st.heap[vb] = q
    del st.heap[b]
    st.arr_set(rid, ai, pos, ('vseg',))
    st.subst({b: st.num.norm(V.addr + es * p)})
