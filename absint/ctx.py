"""Analysis context: heap model of the C library, folding of states, templates of bucket cells."""
import itertools
from fractions import Fraction
from num import (Num, Lin, Atom, atom, K, ZERO, ONE, sym, pow2, subst_deep, deep_frozen, NeedSplit, Undecided, lossy)
from state import State, Region, Arr, Seg, Frame, Layout, Fault, Infeasible, rsym, map_val
import merge
import segvec


class Ctx:
    addr_residue = False        # divisions of addresses keep the address (see ops_alloc)

    def __init__(self, mod, props=(), debug=False):
        self.m = mod
        self.W = 8 * mod.ptr
        self.P = mod.ptr
        self.layouts = {}
        self.globs = {}
        self.mods = {}
        self.unroll = 0
        self.maxdepth = 0
        self.unroll_strict = False
        self.maxsteps = 0             # 0: the default of the interpreter
        self.live_cache = {}
        self.ids = itertools.count(1)
        self.debug = debug
        self.maxrounds = 400
        self.maxstates = 24
        self.cut = None
        self.probe = 0
        self.views = False              # set when the objects have segmented vectors
        self.all_props = frozenset(props)
        self.mem_props = frozenset(props)
        self.cb_props = frozenset(props)
        for name, key in (('tommy_node_struct', 'index'),):
            self.layouts['node'] = Layout('node', mod.struct_fields(name), key, self.P)

    def newid(self):
        return next(self.ids)

    # ------------------------------------------------------------ properties hit by a fault
    def fault_props(self, kind):
        return self.all_props

    # ------------------------------------------------------------ hooks
    def init_map(self, st, r, lay):
        pass

    def maybe_alias(self, st, a, b):
        return None

    def decide_eq(self, st, x, y):
        return st.decide_eq(x - y, 'eq')

    def ctz(self, st, x, w):
        raise Undecided('bit scan of a symbolic value')

    def init_local(self, st, r, t, fn):
        if t.k == 'arr':
            es = self.m.sizeof(t.e)
            if t.e.k in ('int', 'ptr') and self.m.sizeof(t) > 0:
                r.arrs = (Arr(0, K(es), [(ZERO, K(t.n), ('uninit',))]),)

    # ------------------------------------------------------------ C library
    def fits(self, st, size):
        """The elements of a container are assumed to fit in the address space, as calloc() would check."""
        if st.over_esize(size) is not None:
            n = st.num
            n.add(K((1 << (self.W - 1)) - 1) - size)
            n.add(size)
            if not n.feasible():
                raise Infeasible()

    def malloc(self, I, st, size, es, where, zero=False, cnt=None):
        n = st.num
        c = size.const()
        if cnt is not None and es.const() is None and not ('esize' in st.gh and n.eq0(es - st.gh['esize'])):
            n.add(K((1 << (self.W - 1)) - 1) - size)
            n.add(size)
            if not n.feasible():
                raise Infeasible()
            es = cnt = None
        if cnt is not None and es.const() is None:
            # calloc() checks the product itself: success means that it does not overflow
            n.add(K((1 << (self.W - 1)) - 1) - size)
            n.add(size)
            if not n.feasible():
                raise Infeasible()
            r = st.new_region('block', 'heap', size)
            r.info = {}
            r.arrs = (Arr(0, es, [(ZERO, cnt, ('zero',))]),)
            return r.addr
        if not n.ge(K((1 << (self.W - 1)) - 1) - size):
            raise Fault('alloc', 'allocation size may overflow: %r' % size, sure=st.sure_outside(size, ZERO, K((1 << (self.W - 1)) - 1)))
        r = st.new_region('block', 'heap', size)
        r.info = {}
        q = st.over_esize(size)
        if q is not None:
            r.arrs = (Arr(0, st.num.norm(st.gh['esize']), [(ZERO, q, ('zero',) if zero else ('uninit',))]),)
            return r.addr
        e = es.const() if es is not None else None
        t = ('zero',) if zero else ('uninit',)
        if es is None or (e is not None):
            if e is None or e < self.P:
                e = self.P if st.divisible(size, self.P) else 1
            if c is None or c > 8 * self.P or (es is not None and c > e):
                if st.divisible(size, int(e)):
                    cnt = Lin.of({m: Fraction(k) / int(e) for m, k in size.t})
                    r.arrs = (Arr(0, K(int(e)), [(ZERO, cnt, t)]),)
            elif zero and c is not None:
                r.fields = {o: (self.P, ZERO) for o in range(0, int(c), self.P)}
        else:
            cnt = Lin.of({m: k for m, k in size.t})
            r.info = {'zero': zero}
        return r.addr

    def free(self, I, st, p, ins):
        if segvec.release(st, p):
            return
        b, off = st.base_of(p)
        if b is None:
            if off.const() == 0:
                return
            raise Fault('free', 'release of a wild pointer', sure=not lossy(off))
        r = st.heap.get(b)
        if r is None or r.kind != 'heap':
            raise Fault('free', 'release of memory that was not allocated (%s)' % Atom.byid[b].name)
        if not r.alive:
            raise Fault('free', 'double free of %s' % r.name)
        if not st.num.eq0(off):
            raise Fault('free', 'release of a pointer inside a block', sure=not lossy(off))
        r2 = r.copy()
        r2.alive = False
        st.heap[b] = r2

    def memset(self, I, st, p, v, size):
        r, off = st.locate(p, 'memset')
        st.check_bounds(r, off, size, 'memset')
        if size.const() == 0:
            return
        if v.const() != 0:
            raise Undecided('memset with a nonzero value')
        if r.arrs:
            a = r.arrs[0]
            es = a.es.const()
            if len(r.arrs) == 1 and off.const() == a.base and es and st.num.eq0(size - (a.segs[-1][1] - a.segs[0][0]) * int(es)):
                r2 = r.copy()
                r2.arrs = (Arr(a.base, a.es, [(a.segs[0][0], a.segs[-1][1], ('zero',))]),)
                st.heap[r.id] = r2
                return
            if es and st.divisible(off - a.base, int(es)) and st.divisible(size, int(es)):
                lo = Lin.of({m: Fraction(k) / int(es) for m, k in (off - a.base).t})
                hi = lo + Lin.of({m: Fraction(k) / int(es) for m, k in size.t})
                self.arr_fill(st, r, 0, lo, hi, ('zero',))
                return
            if es is None and a.base == 0:
                lo, hi = st.over_esize(off), st.over_esize(off + size)
                if lo is not None and hi is not None:
                    self.arr_fill(st, r, 0, lo, hi, ('zero',))
                    return
            raise Undecided('memset of a part')
        c, o = size.const(), off.const()
        if c is None or o is None:
            if not r.fields and o == 0 and st.num.eq0(size - r.size) and st.divisible(size, self.P):
                cnt = Lin.of({m: Fraction(k) / self.P for m, k in size.t})
                r2 = r.copy()
                r2.arrs = (Arr(0, K(self.P), [(ZERO, cnt, ('zero',))]),)
                st.heap[r.id] = r2
                return
            raise Undecided('memset of symbolic size')
        r2 = r.copy()
        for f, (s, _) in list(r2.fields.items()):
            if o <= f and f + s <= o + c:
                r2.fields[f] = (s, ZERO)
            elif f < o + c and o < f + s:
                raise Undecided('memset of a part of a field')
        x = int(o)
        while x < o + c:
            if x in r2.fields:
                x += r2.fields[x][0]
            else:
                s = self.P if x % self.P == 0 and x + self.P <= o + c else 1
                r2.fields[x] = (s, ZERO)
                x += s
        st.heap[r.id] = r2

    def arr_fill(self, st, r, ai, lo, hi, tmpl):
        """Overwrite the elements [lo, hi) by a template; boundaries are decided by splitting."""
        a = r.arrs[ai]
        out = []
        for l, h, t in a.segs:
            # part before lo
            if st.decide(lo - h, 'fill') or st.decide(l - hi, 'fill'):
                out.append((l, h, t))
                continue
            if not st.decide(l - lo, 'fill'):
                out.append((l, lo, t))
            out.append((None, None, None))
            if not st.decide(hi - h, 'fill'):
                out.append((hi, h, t))
        res, done = [], False
        for l, h, t in out:
            if l is None:
                if not done:
                    res.append((lo, hi, tmpl))
                    done = True
            else:
                res.append((l, h, t))
        r2 = r.copy()
        r2.arrs = r.arrs[:ai] + (Arr(a.base, a.es, res),) + r.arrs[ai + 1:]
        st.heap[r.id] = r2

    def memcpy(self, I, st, dst, src, size, move):
        c = size.const()
        if c is None:
            raise Undecided('memcpy of symbolic size')
        c = int(c)
        rs, os_ = st.locate(src, 'read')
        st.check_bounds(rs, os_, size, 'read')
        rd, od = st.locate(dst, 'write')
        st.check_bounds(rd, od, size, 'write')
        if rs.id == rd.id and st.num.eq0(os_ - od):
            return
        # word by word, following the fields of the source
        vals = []
        x = 0
        while x < c:
            s = self.P
            oc = os_.const()
            if oc is not None and not rs.arrs and int(oc) + x in rs.fields:
                s = rs.fields[int(oc) + x][0]
            if 'bytes' in rs.info and rd.arrs and rd.arrs[0].es.const() is not None:
                s = int(rd.arrs[0].es.const())
            if x + s > c:
                s = 1
            try:
                v = I.load(st, src + x, s)
                vals.append((x, s, v))
            except Fault as e:
                if e.kind != 'uninit':
                    raise
            x += s
        for x, s, v in vals:
            st.store(dst + x, v, s)

    # ------------------------------------------------------------ bucket cells
    def tmpl_load(self, st, r, ai, pos, idx, t):
        if t[0] in ('list', 'list?'):
            lo, hi, _ = r.arrs[ai].segs[pos]
            rid = r.id

            def find(s):
                for p, (l, h, tt) in enumerate(s.heap[rid].arrs[ai].segs):
                    if l == lo and h == hi and tt == t:
                        return p
                # bounds may have been rewritten
                for p, (l, h, tt) in enumerate(s.heap[rid].arrs[ai].segs):
                    if tt[0] == t[0] and s.num.eq0(l - idx_of(s)) and s.num.eq0(h - l - 1):
                        return p
                return pos

            def idx_of(s):
                return s.resolve(idx)

            def empty(s):
                s.arr_set(rid, ai, find(s), ('val', ZERO, 0))
                return True

            def full(s):
                tags = frozenset()
                if t[0] == 'list':
                    tags = frozenset([('low', s.resolve(t[1]), s.resolve(idx))])
                f, l = s.new_addr('n', 8), s.new_addr('n', 8)
                nid = self.newid()
                nn = rsym('n', 1, None)
                s.segs[nid] = Seg(nid, 'node', f.id, l.id, Lin.atom(l), ZERO, nn, tags)
                State.stamp += 1
                s.arr_set(rid, ai, find(s), ('val', Lin.atom(f), State.stamp))
                return self.list_found(s, nid)
            raise NeedSplit([empty, full], 'cell')
        if t[0] == 'vseg':
            return segvec.view(st, r, idx)
        if t[0] == 'vblk':
            return segvec.bview(st, r, idx)
        if t[0] == 'gone':
            raise Fault('uaf', 'access to a released block of %s' % r.name)
        if t[0] in ('junk',):
            raise Fault('uninit', 'read of a possibly uninitialised element of %s' % r.name, sure=False)
        raise Undecided('template %r' % (t,))

    def list_found(self, st, sid):
        """Called when a list of at least sid.n elements has been materialised."""
        return True

    def tmpl_le(self, st, a, b, lo, hi):
        """Is every content described by a (on [lo,hi)) described by b?"""
        if st.num.eq0(hi - lo):
            return True
        if a[0] == b[0] and len(a) == len(b) and a[0] != 'val':
            if all((st.num.eq0(p - q) if isinstance(p, Lin) and isinstance(q, Lin) else p == q) for p, q in zip(a[1:], b[1:])):
                return True
        if a[0] == 'val' and b[0] == 'val':
            return st.num.eq0(a[1] - b[1]) if a[1] != b[1] else True
        if a[0] == 'zero' and b[0] in ('list', 'list?', 'any', 'junk'):
            return True
        if a[0] == 'val' and a[1].const() == 0 and b[0] in ('list', 'list?', 'zero'):
            return True
        if a[0] == 'list' and b[0] == 'list?':
            return True
        if a[0] == 'list' and b[0] == 'list':
            if st.num.ge(a[1] - b[1]) and st.num.ge(pow2(b[1]) - hi):
                return True
        if b[0] == 'junk':
            return True
        if b[0] == 'any' and a[0] in ('zero', 'val'):
            return a[0] == 'zero' or st.base_of(a[1])[0] is None
        return False

    def tmpl_join2(self, Jn, g, s):
        for a, b, fromG in ((g, s, True), (s, g, False)):
            if a[0] == 'zero' and b[0] in ('list', 'list?'):
                t = merge.tmpl_conv(Jn, b, not fromG)
                return (t, 1) if t is not None else (None, 0)
            if a[0] == 'list?' and b[0] == 'list':
                return a, 1
            if {a[0], b[0]} <= {'zero', 'any'}:
                return ('any',), 4
            if a[0] in ('uninit', 'junk') and b[0] in ('uninit', 'junk', 'zero', 'any'):
                return ('junk',), 8
        return None, 0

    def derive_tag(self, st, tags, t):
        if t[0] == 'low':
            for u in tags:
                if u[0] == 'low' and st.num.ge(u[1] - t[1]):
                    # low(low(k,u1),t1)
                    try:
                        v = st.low(u[2], t[1])
                    except (NeedSplit, Infeasible):
                        continue
                    if st.num.eq0(v - t[2]):
                        return True
            for u in tags:
                if u[0] == 'key':
                    if st.num.eq0(st.num.norm(Lin.atom(atom('low', args=(u[1], t[1])))) - t[2]):
                        return True
        return False

    # ------------------------------------------------------------ folding
    def roots(self, st):
        for fr in st.frames:
            for v in fr.regs.values():
                if isinstance(v, Lin):
                    yield v
            for a in fr.allocas:
                yield Lin.atom(Atom.byid[a])
        for v in st.gh.values():
            yield from merge.lins_of_val(v)

    def reachable(self, st):
        seen = set()
        todo = []

        def add(l):
            for i in l.ids():
                a = Atom.byid[i]
                if a.kind == 'addr' and i not in seen:
                    seen.add(i)
                    todo.append(i)
        for l in self.roots(st):
            add(l)
        ends = {}
        for s in st.segs.values():
            ends[s.first] = s
            ends[s.last] = s
        while todo:
            i = todo.pop()
            r = st.heap.get(i)
            if r is not None:
                if r.alive or True:
                    for s, v in r.fields.values():
                        add(v)
                    for a in r.arrs:
                        for lo, hi, t in a.segs:
                            for v in merge.lins_of_val(t[1:]):
                                add(v)
                    for v in merge.lins_of_val(r.info):
                        add(v)
            s = ends.get(i)
            if s is not None:
                for x in (s.first, s.last):
                    add(Lin.atom(Atom.byid[x]))
                add(s.P)
                add(s.N)
            p = st.preds.get(i)
            if p is not None:
                for v in p.lins():
                    add(v)
        return seen

    def collect(self, st):
        """Drop what is unreachable; unreachable live heap blocks are leaks."""
        seen = self.reachable(st)
        for i in list(st.heap):
            r = st.heap[i]
            if i not in seen and r.kind not in ('fn', 'const', 'glob'):
                if r.kind == 'heap' and r.alive or r.kind == 'virt' and any(t[0] != 'gone' and not st.num.eq0(h - l) for l, h, t in r.arrs[0].segs):
                    raise Fault('leak', 'block %s is no longer referenced and not freed' % r.name, sure=not (st.lossy and any(t[0] in ('any', 'junk') for k, q in st.heap.items() if k in seen for a in q.arrs for _, _, t in a.segs)))
                del st.heap[i]
        for k in list(st.segs):
            if st.segs[k].first not in seen:
                del st.segs[k]
        for k in list(st.preds):
            if k not in seen:
                del st.preds[k]

    def refs(self, st):
        """address id -> list of sources."""
        out = {}

        def add(l, src):
            for i in l.ids():
                if Atom.byid[i].kind == 'addr':
                    out.setdefault(i, []).append(src)
        for n, fr in enumerate(st.frames):
            for k, v in fr.regs.items():
                if isinstance(v, Lin):
                    add(v, ('root', n, k))
        for k, v in st.gh.items():
            for l in merge.lins_of_val(v):
                add(l, ('root', 'gh', k))
        for r in st.heap.values():
            for o, (s, v) in r.fields.items():
                add(v, ('field', r.id, o))
            for ai, a in enumerate(r.arrs):
                for lo, hi, t in a.segs:
                    for v in merge.lins_of_val(t[1:]):
                        add(v, ('cell', r.id, ai, lo, t))
            for k, v in r.info.items():
                for l in merge.lins_of_val(v):
                    add(l, ('info', r.id, k))
        for s in st.segs.values():
            add(s.P, ('P', s.id))
            add(s.N, ('N', s.id))
        for k, p in st.preds.items():
            for v in p.lins():
                add(v, ('pred', k))
        return out

    def node_tags(self, st, r):
        """What is known of an explicit node, as tags; None when it must stay explicit."""
        if 'rank' in r.info:
            return None             # a node of a tree
        lay = self.layouts[r.info['lay']]
        need = {lay.next, lay.prev, lay.data, lay.key}
        if not need <= set(r.fields):
            return None
        n = st.num
        if r.fields[lay.data][1] != r.info['data'] or not (r.fields[lay.key][1] == r.info['key'] or n.eq0(r.fields[lay.key][1] - r.info['key'])):
            raise Fault('altered', 'the data or the key of an element was changed')
        key = r.info['key']
        tags = set()
        for e in st.gh.get('exps', ()):
            L = Lin.atom(atom('low', args=(key, e)))
            v = n.norm(L)
            if v == L:
                try:
                    v = n.norm(st.low(n.norm(key), e))
                except (NeedSplit, Infeasible):
                    continue
            if v != L:
                tags.add(('low', e, v))
        for t in r.info.get('tags', ()):
            if t[0] in ('key', 'low') or len(t) == 1:
                tags.add(t)
        for m in r.info.get('marks', ()):
            tags.add((m,))
        return frozenset(tags)

    def extra_ok(self, st, r, lay):
        """Further fields of a node that allow it to be folded."""
        return True

    def fold_nodes(self, st):
        for i in list(st.heap):
            r = st.heap[i]
            if r.kind != 'node' or not r.alive or r.info.get('pin'):
                continue
            lay = self.layouts[r.info['lay']]
            if not self.extra_ok(st, r, lay):
                continue
            tags = self.node_tags(st, r)
            if tags is None:
                continue
            sid = self.newid()
            st.segs[sid] = Seg(sid, r.info['lay'], i, i, r.fields[lay.prev][1], r.fields[lay.next][1], ONE, tags)
            del st.heap[i]
        ch = True
        while ch:
            ch = False
            rf = self.refs(st)
            first = {s.first: s for s in st.segs.values()}
            for x in list(st.segs.values()):
                b, o = st.base_of(x.N)
                if b is None or o.const() != 0 or b == x.first:
                    continue
                y = first.get(b)
                if y is None or y is x or y.lay != x.lay:
                    continue
                if y.P != Lin.atom(Atom.byid[x.last]):
                    continue
                if {t for t in x.tags if len(t) == 1} != {t for t in y.tags if len(t) == 1}:
                    continue        # differently marked nodes stay apart
                # addresses that become interior or change role
                ok = True
                for src in rf.get(y.first, ()):
                    if src == ('N', x.id):
                        continue
                    if y.first == y.last and (src[0] in ('P', 'field') or src[:2] == ('root', 'gh')) and src != ('P', y.id):
                        continue        # stays visible as the last node
                    if y.first == y.last and src == ('P', x.id):
                        continue
                    ok = False
                for src in rf.get(x.last, ()):
                    if src == ('P', y.id):
                        continue
                    if x.first == x.last:
                        continue        # stays visible as the first node
                    ok = False
                if not ok:
                    continue
                if x.first == x.last:
                    # a reference to the tail of a single node must not exist next to it
                    pass
                tags = self.common_tags(st, x.tags, y.tags)
                del st.segs[x.id]
                del st.segs[y.id]
                sid = self.newid()
                st.segs[sid] = Seg(sid, x.lay, x.first, y.last, x.P, y.N, x.n + y.n, tags)
                ch = True
                break

    def common_tags(self, st, a, b):
        out = set()
        for t in a:
            if t in b or merge.has_tag(st, b, t):
                out.add(t)
        for t in b:
            if t not in out and merge.has_tag(st, a, t):
                out.add(t)
        if not any(t[0] == 'low' for t in out):
            # residues for fewer bits may still agree
            for t in list(a):
                if t[0] != 'low':
                    continue
                for e in st.gh.get('exps', ()):
                    if st.num.ge(t[1] - e - 1):
                        try:
                            v = st.num.norm(st.low(t[2], e))
                        except (NeedSplit, Infeasible):
                            continue
                        u = ('low', e, v)
                        if merge.has_tag(st, b, u):
                            out.add(u)
        return frozenset(out)

    def fold_cells(self, st):
        rf = self.refs(st)
        owner = {}
        for i, srcs in rf.items():
            cells = [s for s in srcs if s[0] == 'cell' and s[4][0] == 'val']
            if len(cells) > 1 and (i not in st.heap or st.heap[i].kind == 'node'):
                owner[i] = max(cells, key=lambda s: s[4][2])
        for rid in list(st.heap):
            r = st.heap[rid]
            if not r.arrs or not r.alive or r.info.get('keepcells'):
                continue
            arrs = []
            for ai, a in enumerate(r.arrs):
                segs = []
                for lo, hi, t in a.segs:
                    if st.num.eq0(hi - lo):
                        continue
                    if t[0] == 'val' and not r.info.get('keep'):
                        t = self.fold_cell(st, rf, owner, r, ai, lo, t)
                    segs.append((lo, hi, t))
                if not segs:
                    segs = [a.segs[0]]
                arrs.append(Arr(a.base, a.es, self.merge_cells(st, segs, r.info.get('cells') == 'keep')))
            r2 = r.copy()
            r2.arrs = tuple(arrs)
            st.heap[rid] = r2

    def fold_cell(self, st, rf, owner, r, ai, lo, t):
        v = t[1]
        if v.const() == 0:
            return ('zero',)
        b, o = st.base_of(v)
        if b is None:
            if r.kind == 'local' and v.const() is not None and len(r.arrs[ai].segs) <= 16:
                return t
            return t if r.info.get('cells') == 'keep' else self.fold_plain(st, r, lo, t)
        if b in owner and not (owner[b][1] == r.id and owner[b][2] == ai and owner[b][3] == lo):
            return ('any',)
        s = st.seg_at(b)
        if s is None:
            if b in st.heap and st.heap[b].alive or b in st.preds:
                return t
            return ('any',)
        if s.first != b or o.const() != 0:
            return t
        if s.N.const() != 0 or s.P != Lin.atom(Atom.byid[s.last]):
            return t
        for src in rf.get(s.first, ()):
            if src[0] == 'cell' or (s.first == s.last and src == ('P', s.id)):
                continue
            return t
        for src in rf.get(s.last, ()):
            if src == ('P', s.id) or (s.first == s.last and src[0] == 'cell'):
                continue
            return t
        best = None
        for u in s.tags:
            if u[0] == 'low' and st.num.eq0(u[2] - lo):
                if best is None or st.num.ge(u[1] - best):
                    best = u[1]
        del st.segs[s.id]
        if best is None:
            # a smaller exponent may be derivable
            for e in st.gh.get('exps', ()):
                if self.derive_tag(st, s.tags, ('low', e, lo)) and (best is None or st.num.ge(e - best)):
                    best = e
        return ('list', best) if best is not None else ('list?',)

    def fold_plain(self, st, r, lo, t):
        return ('any',)

    def merge_cells(self, st, segs, keep=False):
        out = []
        regs = {v for fr in st.frames for v in fr.regs.values() if isinstance(v, Lin) and st.base_of(v)[0] is None}
        regs |= {v for r in st.heap.values() if r.kind == 'obj' for o, (sz, v) in r.fields.items() if st.base_of(v)[0] is None}
        base = list(regs)
        if len(regs) <= 16:
            regs |= {v + w for v in regs for w in regs}
        regs |= {v + 1 for v in regs} | {v - 1 for v in regs}
        for lo, hi, t in segs:
            if out and t[0] != 'val' and out[-1][2][0] != 'val':
                p = out[-1][2]
                if p == t:
                    out[-1] = (out[-1][0], hi, t)
                    continue
                one = {p[0], t[0]} == {'zero', 'any'} and ((hi - lo) if t[0] == 'zero' else (out[-1][1] - out[-1][0])).const() == 1
                if not keep and (lo not in regs or one) and self.mergeable(st, p, t):
                    if not one and len(base) <= 16 and any(st.num.eq0(lo - v - k) for v in base for k in (1, 0)):
                        out.append((lo, hi, t))
                        continue
                    if self.tmpl_le(st, p, t, out[-1][0], out[-1][1]):
                        out[-1] = (out[-1][0], hi, t)
                        continue
                    if self.tmpl_le(st, t, p, lo, hi):
                        out[-1] = (out[-1][0], hi, p)
                        continue
            out.append((lo, hi, t))
        if keep and len(out) > 9:
            q = []
            for lo, hi, t in out:
                if q and t[0] in ('zero', 'uninit', 'any') and q[-1][2][0] in ('zero', 'uninit', 'any'):
                    q[-1] = (q[-1][0], hi, ('any',))
                else:
                    q.append((lo, hi, t))
            return q
        return out

    def mergeable(self, st, a, b):
        ks = {a[0], b[0]}
        return ks == {'zero', 'list'} or ks == {'zero', 'list?'} or ks == {'zero', 'any'}

    def item_links(self, st, b):
        """(last id, P, N) of the list item that starts at address b."""
        r = st.heap.get(b)
        if r is not None:
            if r.kind != 'node' or not r.alive:
                return None
            lay = self.layouts[r.info['lay']]
            if lay.next not in r.fields or lay.prev not in r.fields:
                return None
            return b, r.fields[lay.prev][1], r.fields[lay.next][1]
        s = st.seg_at(b)
        if s is None or s.first != b and s.last != b:
            return None
        return s.last, s.P if s.first == b else None, s.N

    def drop_stale(self, st):
        """Cells of replaced vectors that still point into the middle of a list are forgotten."""
        for rid in list(st.heap):
            r = st.heap[rid]
            if not r.arrs or not r.alive or r.kind not in ('heap', 'virt'):
                continue
            arrs, ch = [], False
            for a in r.arrs:
                segs = []
                for lo, hi, t in a.segs:
                    if t[0] == 'val':
                        b, o = st.base_of(t[1])
                        x = self.item_links(st, b) if b is not None and o.const() == 0 else None
                        if x is not None and x[1] is not None:
                            pb, po = st.base_of(x[1])
                            y = self.item_links(st, pb) if pb is not None and po.const() == 0 else None
                            if y is not None and y[0] == pb and st.base_of(y[2])[0] == b and b != pb:
                                t = ('any',)
                                ch = True
                    segs.append((lo, hi, t))
                arrs.append(Arr(a.base, a.es, segs))
            if ch:
                r2 = r.copy()
                r2.arrs = tuple(arrs)
                st.heap[rid] = r2

    def canon(self, st, rigid=frozenset()):
        self.drop_stale(st)
        self.collect(st)
        self.fold_nodes(st)
        self.fold_cells(st)
        self.collect(st)
        merge.gc_facts(st, rigid)
        return st
