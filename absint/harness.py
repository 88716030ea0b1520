"""Runs of the abstract interpreter from a specified family of initial states, with post conditions."""
import itertools, os, pickle, signal, sys, tempfile, time, traceback
import ir
from num import (Num, Lin, Atom, atom, K, ZERO, ONE, sym, pow2, subst_deep, NeedSplit, Undecided, lossy)
from state import State, Region, Arr, Seg, Frame, Layout, Fault, Infeasible, rsym, map_val
from interp import Interp, Sink
from ctx import Ctx
import merge

BAD, OPEN = 'bad', 'open'


class Post(Exception):
    """A post condition that does not hold (sure), or that the abstraction is too coarse for."""

    def __init__(self, msg, sure=True):
        Exception.__init__(self, msg)
        self.sure = sure


def split_run(st, f, limit=3000):
    """Run f on copies of st, following NeedSplit; yields what f returns for each case."""
    work = [st]
    n = 0
    out = []
    while work:
        s0 = work.pop()
        n += 1
        if n > limit:
            raise Undecided('too many cases')
        s = s0.copy()
        try:
            out.append(f(s))
        except NeedSplit as e:
            for alt in e.alts:
                s2 = s.copy()
                try:
                    if alt(s2) and s2.num.feasible():
                        work.append(s2)
                except Infeasible:
                    pass
        except Infeasible:
            pass
    return out


class Pool:
    """Runs cases in forked children; every child starts from the parent's state, so results do not depend on scheduling."""

    def __init__(self, n, deadline):
        self.n, self.deadline = n, deadline
        self.kids = {}          # pid -> (run, path, label, start)
        self.dir = tempfile.mkdtemp(prefix='absint.')
        self.k = 0
        self.slow = []

    def submit(self, run, label, fn):
        while len(self.kids) >= self.n:
            self.reap()
        self.k += 1
        path = os.path.join(self.dir, '%d' % self.k)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            signal.alarm(CASE_LIMIT)       # the default action ends the child; the parent then counts the case as undecided
            try:
                run.sink = Sink()
                run.I.sink = run.sink
                run.I.visited = set()
                p0 = run.paths
                try:
                    fn()
                except ir.AnalysisBroken as e:
                    res = ('broken', str(e))
                else:
                    res = ('ok', [(k, v) for k, v in run.sink.obl.items()], run.I.visited, run.paths - p0)
                try:
                    data = pickle.dumps(res)
                except Exception:
                    res = ('ok', [(repr(k), v) for k, v in run.sink.obl.items()], run.I.visited, run.paths - p0)
                    data = pickle.dumps(res)
                with open(path, 'wb') as f:
                    f.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        self.kids[pid] = (run, path, label, time.time())

    def reap(self):
        while True:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid:
                break
            if time.time() > self.deadline:
                for p, (run, path, label, t) in list(self.kids.items()):
                    os.kill(p, 9)
                    os.waitpid(p, 0)
                    run.sink.put(('run', run.name, label), None, '', 'no result within the time limit', run.props)
                self.kids = {}
                return
            time.sleep(0.01)
        run, path, label, t = self.kids.pop(pid)
        if time.time() - t > 5:
            self.slow.append(('%s' % label, round(time.time() - t, 1)))
        if status != 0 or not os.path.exists(path):
            if run.only_bad:
                return
            run.sink.put(('run', run.name, label), None, '', 'the analysis of this case failed', run.props)
            return
        res = pickle.load(open(path, 'rb'))
        os.unlink(path)
        if res[0] == 'broken':
            raise ir.AnalysisBroken(res[1])
        for k, (a, b, c, d) in res[1]:
            if run.soft and a is False:
                a = None
            if run.only_bad and a is not False:
                continue
            run.sink.put(k, a, b, c, d)
        run.I.visited |= res[2]
        run.paths += res[3]

    def wait(self):
        while self.kids:
            self.reap()
        try:
            os.rmdir(self.dir)
        except OSError:
            pass


POOL = None
CASE_LIMIT = 120
THOROUGH = False


class Run:
    def __init__(self, mod, name, props, ctx=None, ctxcls=Ctx, debug=False):
        self.m = mod
        self.name = name
        self.props = frozenset(props)
        self.ctx = ctx or ctxcls(mod, self.props | {'C18'}, debug=debug)
        self.ctx.mem_props = frozenset(['C18'])
        self.sink = Sink()
        self.I = Interp(mod, self.ctx, self.sink)
        self.cases = 0
        self.paths = 0
        self.floor_paths = 1
        self.soft = False           # about an inner function: what fails in it is not the property itself, and only left undecided
        self.only_bad = False       # a bounded run: only what is wrong in it counts

    def new_state(self):
        self.cases += 1
        self.I.steps = 0
        return State(self.ctx)

    def exec(self, st, fn, args, post, label='', canon=True, prep=None):
        if POOL is None or os.environ.get('ABSINT_SEQ'):
            return self.exec_now(st, fn, args, post, label, canon, prep)
        POOL.submit(self, label or fn, lambda: self.exec_now(st, fn, args, post, label, canon, prep))

    def exec_now(self, st, fn, args, post, label='', canon=True, prep=None):
        """Call fn on every case of st; post(check, state, ret) raises Post / uses check.require."""
        if fn not in self.m.funcs:
            raise ir.AnalysisBroken('function %s not found' % fn)
        f = self.m.funcs[fn]
        where = '%s:%s' % (f.file, f.line)
        if len(f.params) != len(args):
            raise ir.AnalysisBroken('%s has an unexpected number of parameters' % fn)
        label = label or fn
        n = 0
        try:
            outs = self.I.call(st, fn, args)
        except (Undecided, NeedSplit) as e:
            self.sink.put(('run', self.name, label), None, where, 'analysis of %s: %s' % (fn, e), self.props)
            return
        except Fault as e:
            self.sink.put(('run', self.name, label), False if e.sure else None, where, '%s in %s' % (e.msg, fn), self.props)
            return
        C = Check(self, label, where)
        for s, r in outs:
            self.paths += 1
            n += 1

            def one(x):
                C.cur = x
                try:
                    post(C, x, x.gh['ret'])
                except Post as e:
                    if x.num.feasible():
                        C.fail('post', str(e), sure=e.sure)
                except Fault as e:
                    if x.num.feasible():
                        C.fail('post', e.msg, sure=e.sure)
                except KeyError as e:
                    raise
            def pre(x):
                try:
                    x.gh['ret'] = x.resolve(r) if isinstance(r, Lin) else None
                    if prep is not None:
                        prep(x, x.gh['ret'])
                    if canon:
                        self.ctx.canon(x)
                    return x
                except Fault as e:
                    if x.num.feasible():
                        C.fail('post', e.msg, sure=e.sure)
            try:
                for x in split_run(s, pre):
                    if x is not None:
                        split_run(x, one)
            except Undecided as e:
                if not s.probe:
                    C.put('post', None, 'post condition: %s' % e)
        if n == 0 and not any(v[0] is not True for v in self.sink.obl.values()):
            self.sink.put(('noexit', self.name, label), None, where, '%s never returns in case %s' % (fn, label), self.props)


class Check:
    def __init__(self, run, label, where):
        self.run, self.label, self.where = run, label, where
        self.cur = None

    def put(self, what, status, msg='', props=None):
        self.run.sink.put((self.run.name, self.label, what), status, self.where, '%s: %s' % (self.label, msg) if msg else '', props or self.run.props)

    def ok(self, what, props=None):
        self.put(what, True, props=props)

    def fail(self, what, msg, props=None, sure=True):
        if self.cur is not None and (self.cur.probe and not sure or not self.cur.num.feasible()):
            return
        self.put(what, False if sure else None, '%s: %s' % (what, msg), props)

    def require(self, what, cond, msg='', props=None, sure=True):
        if cond:
            self.ok(what, props)
        else:
            self.fail(what, msg, props, sure)
        return bool(cond)

    def eq(self, st, what, a, b, msg='', props=None):
        if isinstance(a, int):
            a = K(a)
        if a is None or b is None:
            return self.require(what, False, msg, props)
        d = st.num.norm(a - b)
        if st.num.eq0(d):
            self.ok(what, props)
            return True
        if st.num.feasible():
            self.fail(what, '%s (is %r, expected %r)' % (msg, st.num.norm(a), st.num.norm(b)), props, differ(st, d))
            return False
        return True


def differ(st, d):
    """Is d, which is not shown to be zero, a real difference? With generalised symbols it must be shown to be nonzero."""
    return not lossy(d) or st.num.ne0(d) or st.num.ge(d - 1) or st.num.ge(-d - 1)


# ---------------------------------------------------------------- building blocks
def new_node(st, name, lay='node', init=True, key=None, pin=True, tags=frozenset(), low=()):
    """An explicit node. With init=False its memory is uninitialised (a node given by the caller)."""
    L = st.ctx.layouts[lay]
    a = st.new_addr(name, 16 if not init else 8)
    d = rsym('data_' + name, bits=st.ctx.W)
    k = key if key is not None else rsym('key_' + name, bits=st.ctx.W)
    info = {'lay': lay, 'data': d, 'key': k, 'tags': tags}
    if pin:
        info['pin'] = name
    r = Region(a.id, name, 'node', K(L.size), {}, info=info)
    if init:
        r.fields = {L.data: (L.ptr, d), L.key: (L.ptr, k)}
    st.heap[a.id] = r
    for e, v in low:
        set_low(st, k, e, v)
    return r


def set_low(st, k, e, v):
    n = st.num
    L = Lin.atom(atom('low', args=(k, e)))
    n.known = dict(n.known)
    n.known[L.single().id] = v


def link(st, items, tags=frozenset(), lay='node', head_prev_tail=True):
    """Link items (node regions or ('seg', tags)) as a list; returns (head, tail, total)."""
    L = st.ctx.layouts[lay]
    if not items:
        return ZERO, ZERO, ZERO
    ends = []
    for it in items:
        if isinstance(it, Region):
            ends.append((it.id, it.id, it, ONE))
        else:
            f, l = st.new_addr('n', 8), st.new_addr('n', 8)
            cnt = rsym('n', 1, None)
            ends.append((f.id, l.id, it[1] if isinstance(it, tuple) else tags, cnt))
    A = lambda i: Lin.atom(Atom.byid[i])
    total = ZERO
    for k, (f, l, what, cnt) in enumerate(ends):
        P = A(ends[k - 1][1]) if k else A(ends[-1][1])
        N = A(ends[k + 1][0]) if k + 1 < len(ends) else ZERO
        total = total + cnt
        if isinstance(what, Region):
            r = st.heap[what.id].copy()
            r.fields[L.next] = (L.ptr, N)
            r.fields[L.prev] = (L.ptr, P)
            st.heap[what.id] = r
        else:
            sid = st.ctx.newid()
            st.segs[sid] = Seg(sid, lay, f, l, P, N, cnt, what)
    return A(ends[0][0]), A(ends[-1][1]), total


def shapes(fixed):
    """All interleavings of the explicit nodes with optional segments."""
    n = len(fixed)
    for opt in itertools.product((0, 1), repeat=n + 1):
        out = []
        for k in range(n + 1):
            if opt[k]:
                out.append('S')
            if k < n:
                out.append(fixed[k])
        yield out


def walk(st, head, lay='node'):
    """Items of the list from head; raises Post when it is not well linked."""
    L = st.ctx.layouts[lay]
    head = st.num.norm(head)
    if head.const() == 0:
        return []
    items, seen = [], set()
    cur, prev, firstP = head, None, None
    while True:
        b, off = st.base_of(cur)
        if b is None or off.const() != 0:
            raise Post('a link of the list holds %r' % cur, not lossy(off))
        if b in seen:
            raise Post('the list is cyclic')
        seen.add(b)
        r = st.heap.get(b)
        if r is not None:
            if not r.alive:
                raise Post('the list contains a released node')
            if r.kind != 'node':
                raise Post('the list contains %s' % r.name)
            for o, nm in ((L.next, 'next'), (L.prev, 'prev'), (L.data, 'data')):
                if o not in r.fields:
                    raise Post('%s of node %s is not set' % (nm, r.name))
            P, N, last = r.fields[L.prev][1], r.fields[L.next][1], b
            items.append(r)
        else:
            s = st.seg_at(b)
            if s is None:
                raise Post('the list contains a dangling pointer')
            if s.first != b:
                if s.n.const() == 1:
                    pass
                raise Post('a link skips part of the list')
            P, N, last = s.P, s.N, s.last
            seen.add(last)
            items.append(s)
        if prev is not None and not same(st, P, prev):
            raise Post('a prev link does not point to the previous node', differ(st, st.num.norm(P - prev)))
        if firstP is None:
            firstP = P
        prev = Lin.atom(Atom.byid[last])
        if st.num.norm(N).const() == 0:
            break
        cur = st.num.norm(N)
    if not same(st, firstP, prev):
        raise Post("the head's prev is not the tail", differ(st, st.num.norm(firstP - prev)))
    return items


def same(st, a, b):
    d = st.num.norm(a - b)
    return d.const() == 0 or (d.const() is None and st.num.eq0(d))


def count_of(items):
    t = ZERO
    for i in items:
        t = t + (i.n if isinstance(i, Seg) else ONE)
    return t


def position(items, rid):
    for k, i in enumerate(items):
        if isinstance(i, Region) and i.id == rid:
            return k
    return None


def intact(C, st, r0, what, lay='node', props=None):
    """The data and key of an explicit node are those it had."""
    L = st.ctx.layouts[lay]
    r = st.heap.get(r0.id)
    if r is None or not r.alive:
        C.fail(what, 'the node is gone', props)
        return
    C.require(what + ' data', L.data in r.fields and same(st, r.fields[L.data][1], st.resolve(r0.info['data'])), 'the data pointer of an element was changed', props)
    C.require(what + ' key', L.key in r.fields and same(st, r.fields[L.key][1], st.resolve(r0.info['key'])), 'the key of an element was changed', props)


def var_region(st, name, fields, size, kind='obj'):
    r = st.new_region(name, kind, size)
    r.fields = fields
    return r
