"""The hash functions: which bytes they read (C19) and what the result depends on (C20)."""
import ir, data
from num import ZERO, K, Lin, NeedSplit, Undecided
from state import State, Region, Fault, rsym
from harness import Run, Post
from data import Info, intern, INIT, LEN, OTHER, ADDR, FOREIGN

PROPS = {'C19', 'C20'}
BUF = (('tommy_hash_u32', 32), ('tommy_hash_u64', 64))
STR = (('tommy_strhash_u32', 64),)


def new_run(m, name):
    R = Run(m, name, set(PROPS))
    c = R.ctx
    c.probe = 3
    c.maxrounds = 60
    c.all_props = set(PROPS)
    c.fault_props = lambda kind: {'C20'} if kind == 'order' else {'C19'}
    c.mem_props = {'C19'}
    c.buf_load = buf_load
    c.portable = name.endswith('portable')
    R.I.intercept['tommy_haszero_u32'] = haszero
    return R


def haszero(I, st, args, ins):
    i = data.of(args[0])
    if i is None or i.w != 32:
        return None
    b = i.bytes()
    if 'z' in b:
        return [(st, data.intern(Info(32, [i.all()] * 32, ['n', '?', '?', '?'])))]
    if all(data.nonzero(x) for x in b):
        return [(st, ZERO)]
    return None


def buf_load(I, st, r, off, n):
    size = r.size
    nm = st.num
    if not (nm.ge(off) and nm.ge(size - off - n)):
        # decide on a path where it is certain
        bad = st.decide(off + n - size - 1, 'end of the key')
        if not bad and not nm.ge(off):
            bad = st.decide(-off - 1, 'start of the key')
        if bad:
            raise Fault('oob', 'read of %d bytes at offset %r of a key of %r bytes' % (n, off, size), sure=not st.gh['#spec'] and not st.lossy)
    if n > 1 and I.ctx.portable:
        raise Fault('order', 'a word of %d bytes is read from the key in the portable sources: its value depends on the byte order of the machine' % n, sure=True)
    dep, by = [], []
    w = st.gh.get('w')
    T = st.gh.get('term')
    inside = None
    if w is not None and st.gh['#read']:
        # the witness was read already: this may be a second read of it
        inside = 255 if not (nm.ge(off - w - 1) or nm.ge(w - off - n)) else 0
    elif w is not None:
        if st.decide(w - off, 'witness') and st.decide(off + n - 1 - w, 'witness'):
            if n > 1 and st.lossy:
                st.gh['#read'] = 1
                inside = 255
        else:
            inside = 0
    for k in range(n):
        o = nm.norm(off + k)
        if T is not None and not st.decide(T - o - 1, 'terminator'):
            dep += [0] * 8
            by.append('z')
            continue
        if inside is not None:
            dep += [OTHER | inside] * 8
        elif w is not None and (n == 1 or st.decide_eq(o - w, 'witness')):
            st.gh['#read'] = 1
            dep += [1 << j for j in range(8)]
        else:
            dep += [OTHER] * 8
        by.append(('b', nm.norm(o), T is not None))
    return data.value(Info(8 * n, dep, by))


LENGTHS = (5, 12, 13, 14, 17, 20, 24, 25, 29)


def run_fn(m, name, wi, string, tag='', lengths=(None,)):
    R = new_run(m, name + tag)
    if lengths[0] is not None:
        R.ctx.unroll = 8
    f = m.funcs[name]
    where = '%s:%s' % (f.file, f.line)
    n = 0
    for empty, length in [(False, l) for l in lengths] + [(True, None)][:lengths[0] is None]:
        st = R.new_state()
        st.gh.update({'#spec': 0, '#choice': None, '#ctl': 0, '#read': 0})
        L = ZERO if empty else K(length) if length else rsym('L', 1, 1 << 62)
        if not empty:
            p = rsym('p', 0, 1 << 62)
            st.gh['w'] = p
            st.num.add(L - 1 - p)
        st.gh['L'] = L
        key = st.new_region('key', 'const', L + 1 if string else L, align=1)
        key.info = {'buf': 1}
        if string:
            st.gh['term'] = L
        st.gh['key'] = key.addr
        iw = f.params[0][1].n if hasattr(f.params[0][1], 'n') else wi
        init = intern(Info(wi, [1 << (INIT + k) for k in range(wi)]))
        args = [init, key.addr] + ([] if string else [L])
        rw = f.ret.n
        need = ((1 << min(wi, rw)) - 1) << INIT

        def post(C, s, ret, empty=empty, rw=rw, need=need):
            sure = not s.gh['#spec'] and (not s.lossy or s.probe)
            i = data.info(s, ret, rw)
            d = i.all()
            C.require('reads', empty or s.gh['#read'], 'the byte at %r of %r bytes is not read' % (s.gh.get('w'), s.gh['L']), {'C19', 'C20'}, sure)
            if not empty:
                C.require('depends on the key', not s.gh['#read'] or d & 255 == 255, 'the result does not depend on bits %s of the byte at %r of %r bytes' % (bits(~d & 255), s.gh['w'], s.gh['L']), {'C20'}, not s.gh['#spec'])
            C.require('depends on the initial value', d & need == need, 'the result does not depend on bits %s of the initial value' % bits((need & ~d) >> INIT), {'C20'}, not s.gh['#spec'])
            C.require('only on the key', not d & (ADDR | FOREIGN), 'the result depends on the address of the key or on foreign memory', {'C20'}, not s.gh['#spec'])
        R.exec(st, name, args, post, '%s %s' % (name, 'empty' if empty else 'used' if length is None else '%d bytes' % length), canon=False)
    if lengths[0] is not None:
        # loops are cut after some passes: only what is wrong counts
        R.sink.obl = {k: v for k, v in R.sink.obl.items() if v[0] is False}
    return R


def bits(m):
    return [k for k in range(m.bit_length()) if m >> k & 1]


def run_buf(m):
    return [run_fn(m, n, w, False) for n, w in BUF] + [run_fn(m, n, w, False, ' short', LENGTHS) for n, w in BUF]


def run_str(m):
    return [run_fn(m, n, w, True) for n, w in STR] + [run_fn(m, n, w, True, ' short', LENGTHS) for n, w in STR]


def portable():
    import simple
    return simple.portable_module()


def run_read(m):
    """The value read by the word reader is the same bytes in the same order in the native and in the portable sources."""
    R = new_run(m, 'byte order')
    out = [R]
    for tag, mod in (('native', m), ('portable', portable())):
        name = 'tommy_le_uint32_read'
        Q = new_run(mod, 'byte order ' + tag)
        out.append(Q)
        f = mod.funcs.get(name)
        if f is None or len(f.params) != 1 or not hasattr(f.ret, 'n'):
            Q.sink.put(('word reader', tag), None, 'tommyds/tommyhash.c', 'the word reader %s was not found' % name, {'C20'})
            continue
        st = Q.new_state()
        st.gh.update({'#spec': 0, '#choice': None, '#ctl': 0, '#read': 0})
        key = st.new_region('key', 'const', K(4), align=1)
        key.info = {'buf': 1}

        def post(C, s, ret, rw=f.ret.n):
            i = data.info(s, ret, rw)
            want = [('b', K(k), False) for k in range(4)]
            got = list(i.bytes())
            wrong = any(a != b and (isinstance(a, tuple) or a == 'z') for a, b in zip(got, want))
            C.require('byte order', got == want, 'the word read has the bytes %s, expected those at 0, 1, 2, 3 from the lowest' % [b[1] if isinstance(b, tuple) else b for b in got],
                      {'C20'}, wrong and not s.gh['#spec'])
        Q.exec(st, name, [key.addr], post, name + ' ' + tag, canon=False)
    return out


def run_portable(m):
    mod = portable()
    out = []
    for n, w in BUF:
        out.append((n, run_fn(mod, n, w, False, ' portable')))
    for n, w in STR:
        out.append((n, run_fn(mod, n, w, True, ' portable')))
    return [r for _, r in out]
