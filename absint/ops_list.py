"""List operations."""
from harness import *
import ops_hash

LP = {'C06', 'C26'}


def run_insert(m, fn, at_head):
    R = Run(m, fn, {'C05', 'C06', 'C17', 'C18', 'C26'})
    for sh in list(shapes(['e'])) + [[], ['S']]:
        st = R.new_state()
        e = new_node(st, 'e') if 'e' in sh else None
        n = new_node(st, 'n', init=False)
        head, tail, tot = link(st, [e if x == 'e' else ('seg', frozenset()) for x in sh])
        lst = var_region(st, 'list', {0: (R.ctx.P, head)}, R.ctx.P)
        data = n.info['data']
        st.gh = {'list': lst.addr, 'n': n.addr, 'tot': tot, 'data': data}
        if e is not None:
            st.gh['e'] = e.addr

        def post(C, s, ret):
            items = walk(s, s.heap[lst.id].fields[0][1])
            C.eq(s, 'count', count_of(items), s.gh['tot'] + 1, 'number of nodes in the list', {'C05', 'C06'})
            k = position(items, n.id)
            if C.require('inserted', k is not None, 'the new node is not in the list', {'C06'}):
                C.require('position', k == (0 if at_head else len(items) - 1), 'the new node is not at its end of the list', {'C06'})
            L = R.ctx.layouts['node']
            C.require('data', same(s, s.heap[n.id].fields[L.data][1], s.gh['data']), 'the data of the new node is not the argument', {'C06', 'C26'})
            if e is not None:
                C.require('kept', position(items, e.id) is not None, 'a stored node is lost', {'C06'})
                intact(C, s, e, 'element', props={'C06', 'C26'})
        R.exec(st, fn, [lst.addr, n.addr, data], post, '%s %s' % (fn, sh))
    return R


def run_remove(m):
    fn = 'tommy_list_remove_existing'
    R = Run(m, fn, {'C05', 'C06', 'C17', 'C18', 'C26'})
    for fixed in (['r'], ['e', 'r'], ['r', 'e'], ['e', 'f', 'r'], ['e', 'r', 'f'], ['r', 'e', 'f']):
        for sh in shapes(fixed):
            st = R.new_state()
            N = {x: new_node(st, x) for x in fixed}
            head, tail, tot = link(st, [N.get(x, ('seg', frozenset())) for x in sh])
            lst = var_region(st, 'list', {0: (R.ctx.P, head)}, R.ctx.P)
            st.gh = {'list': lst.addr, 'tot': tot, 'nodes': tuple(N[x].addr for x in fixed)}

            def post(C, s, ret):
                items = walk(s, s.heap[lst.id].fields[0][1])
                C.eq(s, 'count', count_of(items), s.gh['tot'] - 1, 'number of nodes in the list', {'C05', 'C06'})
                C.require('removed', position(items, N['r'].id) is None, 'the node is still in the list', {'C06'})
                C.eq(s, 'returned data', ret, N['r'].info['data'], 'returned data', {'C06'})
                ks = [position(items, N[x].id) for x in fixed if x != 'r']
                C.require('kept', None not in ks, 'another node is lost', {'C06'})
                if None not in ks:
                    C.require('order', ks == sorted(ks), 'the order of the other nodes changes', {'C06'})
                for x in fixed:
                    if x != 'r':
                        intact(C, s, N[x], 'element', props={'C06', 'C26'})
            R.exec(st, fn, [lst.addr, N['r'].addr], post, '%s %s' % (fn, sh))
    return R


def run_concat(m):
    fn = 'tommy_list_concat'
    R = Run(m, fn, {'C05', 'C06', 'C17', 'C18', 'C26'})
    for s1 in [[], ['S']] + list(shapes(['a'])):
        for s2 in [[], ['S']] + list(shapes(['b'])):
            st = R.new_state()
            N = {x: new_node(st, x) for x in s1 + s2 if x != 'S'}
            h1, t1, n1 = link(st, [N.get(x, ('seg', frozenset([('first',)]))) for x in s1])
            h2, t2, n2 = link(st, [N.get(x, ('seg', frozenset([('second',)]))) for x in s2])
            l1 = var_region(st, 'first', {0: (R.ctx.P, h1)}, R.ctx.P)
            l2 = var_region(st, 'second', {0: (R.ctx.P, h2)}, R.ctx.P)
            st.gh = {'l1': l1.addr, 'l2': l2.addr, 'tot': n1 + n2, 'nodes': tuple(N[x].addr for x in sorted(N)), 'h1': h1, 't1': t1, 'h2': h2, 't2': t2}

            def post(C, s, ret):
                items = walk(s, s.heap[l1.id].fields[0][1])
                C.eq(s, 'count', count_of(items), s.gh['tot'], 'number of nodes in the list', {'C05', 'C06'})
                for x in N:
                    C.require('kept', position(items, N[x].id) is not None, 'a node is lost', {'C06'})
                    intact(C, s, N[x], 'element', props={'C06', 'C26'})
                # order: everything of the first list before everything of the second
                src = []
                for it in items:
                    if isinstance(it, Region):
                        src.append(1 if it.name == 'a' else 2)
                    else:
                        src.append(1 if ('first',) in it.tags else 2 if ('second',) in it.tags else 0)
                C.require('order', src == sorted(src) and 0 not in src, 'the lists are not one after the other', {'C06'})
            R.exec(st, fn, [l1.addr, l2.addr], post, '%s %s %s' % (fn, s1, s2))
    return R


def run_simple(m):
    """init, head, tail, empty, count."""
    R = Run(m, 'list queries', {'C05', 'C06', 'C18'})
    for sh in [[], ['S']] + list(shapes(['e'])):
        for fn in ('tommy_list_head', 'tommy_list_tail', 'tommy_list_empty', 'tommy_list_count'):
            if fn == 'tommy_list_count' and 'e' in sh:
                continue
            st = R.new_state()
            N = {x: new_node(st, x) for x in sh if x != 'S'}
            head, tail, tot = link(st, [N.get(x, ('seg', frozenset())) for x in sh])
            lst = var_region(st, 'list', {0: (R.ctx.P, head)}, R.ctx.P)
            st.gh = {'list': lst.addr, 'tot': tot, 'nodes': tuple(N[x].addr for x in sorted(N)), 'head': head, 'tail': tail}

            def post(C, s, ret):
                exp = {'tommy_list_head': s.gh['head'], 'tommy_list_tail': s.gh['tail'], 'tommy_list_count': s.gh['tot'],
                       'tommy_list_empty': ONE if not sh else ZERO}[fn]
                C.eq(s, 'result', ret, exp, 'result of %s' % fn, {'C05'} if 'count' in fn or 'empty' in fn else {'C06'})
            R.exec(st, fn, [lst.addr], post, '%s %s' % (fn, sh))
    st = R.new_state()
    lst = var_region(st, 'list', {}, R.ctx.P)
    st.gh['list'] = lst.addr

    def post(C, s, ret):
        C.require('empty', s.heap[lst.id].fields.get(0, (0, ONE))[1].const() == 0, 'the list is not empty after init', {'C05', 'C06'})
    R.exec(st, 'tommy_list_init', [lst.addr], post)
    return R


def run_foreach(m):
    """Every node once, in list order; the callback may release the node it is given."""
    R = Run(m, 'tommy_list_foreach', {'C04', 'C06', 'C17', 'C18', 'C26'})
    for fn, two in (('tommy_list_foreach', False), ('tommy_list_foreach_arg', True)):
        for sh in [[], ['S']] + list(shapes(['e', 'f'])):
            st = R.new_state()
            N = {x: new_node(st, x) for x in sh if x != 'S'}
            head, tail, tot = link(st, [N.get(x, ('seg', frozenset())) for x in sh])
            lst = var_region(st, 'list', {0: (R.ctx.P, head)}, R.ctx.P)
            arg = rsym('arg', bits=R.ctx.W) if two else None
            st.gh = {'list': lst.addr, 'nodes': tuple(N[x].addr for x in sorted(N))}
            if two:
                st.gh['arg'] = arg
            v = ops_hash.visitor(R, arg)

            def h(I, s, args, ins, v=v, N=N):
                d = s.num.norm(args[-1])
                if N and s.heap[N['e'].id].alive and ops_hash.find_data(s, d) is not None and ops_hash.find_data(s, d).id == N['f'].id:
                    raise Fault('callback', 'the second of two elements is visited first')
                return v(I, s, args, ins)
            f = ops_hash.fnptr(R, st, 'func', h)
            st.gh['func'] = f

            def post(C, s, ret, N=N):
                for x in N:
                    C.require('visited', not s.heap[N[x].id].alive, 'an element is not visited', {'C04', 'C06'})
                if not N:
                    C.ok('visited', {'C04', 'C06'})
            R.exec(st, fn, [lst.addr, f] + ([arg] if two else []), post, '%s %s' % (fn, sh))
    return R
