#!/usr/bin/env python3
"""Locking of the paged stack."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from stk import *

OPS = ('push1', 'push3', 'emplace', 'pop0', 'pop1', 'pop3', 'peek1', 'peek3', 'peek_reverse3', 'pop_reverse3', 'top', 'settop', 'size', 'empty', 'clear', 'shrink', 'stats')
NEED = {'pop0': 1, 'pop1': 1, 'pop3': 3, 'peek1': 1, 'peek3': 3, 'peek_reverse3': 3, 'pop_reverse3': 3, 'top': 1, 'settop': 1}

def body(c):
    m = Model(c)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    mutexes = set()

    def of_stack(r):
        """name of the stack whose state this object is part of"""
        if r[0] == 'P' and r[1] in ('s', 't'):
            return r[1]
        while isinstance(r, tuple) and r[0] == 'el' and isinstance(r[1], tuple):
            n = r[1][0]
            if n[0] == 'ML':
                return n[1][1] if n[1][0] == 'ml' else None
            r = n
        if isinstance(r, tuple) and r[0] == 'ML':
            return r[1][1] if r[1][0] == 'ml' else None
        return None

    def elem_hook(I, S, ins, cn, name, args):
        if cn in ('wit::Elem::operator=',):
            I.emit(S, 'ext', cn, args, None, {'m': name}, ins)
            s2 = S.fork()
            return [Outcome(S, args[0]), models.stdthrow(I, s2, ins, None)]
        return None

    def judge(what, p, own=('s', 't'), under_construction=()):
        e0 = p.events[-1] if p.events else None
        c.ob(not p.st.locks or p.status in ('terminate', 'assert'), 'kept', '%s leaves the stack locked (%s)' % (what, {'ret': 'on return'}.get(p.status, p.status)), e0)
        for e in p.events:
            held = {l[0] for l in e.locks}
            mine = {l[0][1] for l in held if l[0][0] == 'P'}
            if e.kind == 'lock':
                loc = e.x['loc']
                if loc[0][0] == 'P' and loc[0][1] in own:
                    mutexes.add(loc[1])
                    c.ob(loc not in held, 'self', '%s takes the lock of a stack it has already locked' % what, e)
                    c.ob(not (mine - {loc[0][1]}) or any('scoped_lock' in f or f.endswith('std::lock') for f in e.stack), 'two', '%s takes the locks of two stacks one after the other' % what, e)
                continue
            touched = []
            if e.kind in ('rd', 'wr') and addr(e.args[0])[0][0] == 'P':
                touched.append(addr(e.args[0])[0])
            elif e.kind == 'op' and e.args:
                touched += [addr(a)[0] for a in e.args[:1] if isinstance(a, tuple)]
            elif e.kind == 'itmove':
                touched.append(addr(e.args[0])[0])
            elif e.kind == 'ext' and e.name.startswith('wit::Elem::'):
                touched += [addr(a)[0] for a in e.args if isinstance(a, tuple) and a[0] == '&' and a[1][0] == 'el']
            for r in touched:
                s = of_stack(r)
                if s is None or s not in own or s in under_construction:
                    continue
                c.ob(s in mine, 'unlocked', '%s %s the stack without holding its lock' % (what, 'changes' if e.kind == 'wr' or (e.x or {}).get('rw') == 'w' or e.kind == 'itmove' else 'reads'), e)

    f0 = interp.Facts()
    for sh in shapes(deep):
        for op in OPS:
            n = NEED.get(op, 0)
            if truth(f0, lt(sh.total, n)) is True:
                continue
            ps, I = m.run('w_' + op, sh, None, [(lt(sh.total, n), False)] if n else (), None, elem_throw=lambda I, S, this, kind, meth, info: True, hook=elem_hook)
            for p in ps:
                judge('%s on %s' % (op, sh.name), p)
            c.sample('%s on %s: %d paths' % (op, sh.name, len(ps)))
        ps, I = m.run('w_copy', Shape('', sh.K, sh.M, 1 if sh.s != 0 else 0, 1), None, (), None, elem_throw=lambda I, S, this, kind, meth, info: True)
        for p in ps:
            judge('copying', p, ('s',))
        ps, I = m.run('w_assign', Shape('', sh.K, sh.M, 1 if sh.s != 0 else 0, 1), None, (), lambda I, S, fr: m.put(S, Shape('', 0, 1, 0, 1), ('P', 't')), elem_throw=lambda I, S, this, kind, meth, info: True)
        for p in ps:
            judge('assignment', p)
        ps, I = m.run('w_assign', sh, [('&', ('P', 's'), 0), None])
        for p in ps:
            judge('assignment to itself', p)
    # removals and reads at every depth
    for K in range(0, 4 if deep else 3):
        for j in range(K + 1):
            for nm, x, s, ps_ in between(K, j):
                sh = Shape('a stack of %d page%s' % (K + 1, 's' if K else ''), K, K + 1, s, ps_)
                depth = sub(sh.total, add(interp.scale(ps_, j), x))
                for w in ('w_from_top', 'w_cfrom_top', 'w_discard_n'):
                    ps, I = m.run(w, sh, [None, depth])
                    for p in ps:
                        judge(w[2:], p)
                if truth(f0, lt(depth, 2)) is not True:
                    ps, I = m.run('w_peek_depth2', sh, [None, depth, None, None], [(lt(depth, 2), False)], None, hook=elem_hook)
                    for p in ps:
                        judge('peek_depth', p)
                for kind, w in (('it', 'w_discard_it'), ('rit', 'w_discard_rit')):
                    it = iters(m, kind)
                    cells = it.at(sh, j, x)
                    ps, I = m.run(w, sh, None, (), lambda I, S, fr: place(S, ('P', 'it'), cells))
                    for p in ps:
                        judge('discard at an iterator', p)
    # synchronised iterators
    for kind in ('sit', 'csit', 'ccsit'):
        it = iters(m, kind)
        for K, j in ((0, 0), (1, 0), (1, 1), (1, 2)):
            a, d, x = nn('a'), nn('d'), nn('x')
            for s, xx, ps_ in ((add(add(x, 1), a), x, add(add(add(x, 1), a), d)), (add(1, a), add(add(1, a), x), add(add(add(add(1, a), x), 1), d))):
                sh = Shape('', K, max(K, j) + 2, s, ps_)
                big = Shape('', max(K, j), max(K, j) + 2, s, ps_)
                first = it.state(big)
                judge('creating a synchronised iterator', first)
                cells = it.at(big, j, xx)
                for w in ('get', 'next', 'prev', 'copy', 'assign', 'drop'):
                    def init(I, S, fr):
                        m.put(S, sh, keep=first.st)
                        place(S, ('P', 'i'), cells)
                        place(S, ('P', 'a'), cells)
                    ps, I = c.run(c.fn1('wit::w_%s_%s' % (kind, w)), None, init, hook=elem_hook, **OPTS)
                    for p in ps:
                        judge('%s of a synchronised iterator' % w, p)
    if len(mutexes) != 1:
        c.ob(False, 'one', 'the operations use %d different locks' % len(mutexes))

IT = {}
def iters(m, kind):
    if kind not in IT:
        IT[kind] = Iters(m, kind, kind != 'rit')
    return IT[kind]

main(Check('C14', 'lockset analysis of every abstract path (including the ones on which an allocation or an element operation fails) of the operations of PagedStack and of its synchronised iterators: every access to the '
           'state or the elements happens with the lock of that stack held, it is never taken twice, never together with the lock of another stack, and is free at the end', ['w_stack.cpp'], 1000), body)
