#!/usr/bin/env python3
"""Which element goes to which argument of the multi-value operations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from stk import *

ASG = 'wit::Elem::operator='

def body(c):
    m = Model(c)
    deep = os.environ.get('VERIF_TIER') == 'thorough'

    def got(p, sh):
        """argument -> index of the element it ends up with"""
        out = {}
        for e in p.events:
            if e.kind == 'ext' and e.name == ASG:
                d = addr(e.args[0])
                x = index(e.args[1], sh.ps, 0)
                if d[0][0] == 'P' and d[1] == 0:
                    out[d[0][1]] = (x, e)
                elif d[0][0] == 'el':
                    c.ob(False, 'overwrite', 'an element of the stack is overwritten', e)
            elif e.kind == 'ext' and e.name == 'wit::Elem::Elem' and len(e.args) == 2 and e.args[0] and addr(e.args[0])[0][0] == 'A':
                # a temporary copy of an element
                out[addr(e.args[0])] = (index(e.args[1], sh.ps, 0), e)
        return out

    def check(w, what, sh, expect, args=None, facts=(), removed=0):
        ps, I = m.run(w, sh, args, facts)
        c.ob(any(p.status == 'ret' for p in ps), w[2:] + '-never', what + ' never succeeds')
        for p in ps:
            e0 = p.events[-1] if p.events else None
            if not c.ob(p.status == 'ret', w[2:] + '-exit', '%s ends in %s' % (what, p.status), e0):
                continue
            g = got(p, sh)
            for a, want in expect.items():
                x = g.get(a)
                if not c.ob(x is not None, w[2:] + '-unset', '%s leaves argument %s unset' % (what, a), e0):
                    continue
                if x[0] is None and addr(x[1].args[1]) in g:
                    x = (g[addr(x[1].args[1])][0], x[1])
                c.ob(x[0] is not None and x[0][0] == 's' and truth(p.facts, eq(x[0][1], want)) is True, w[2:] + '-order', '%s: argument %s does not receive the element it stands for' % (what, a), x[1])
            # the pops remove what they deliver, the reads nothing
            v = View(p)
            for x in v.problems(sh.ps):
                c.ob(False, w[2:] + '-shape', '%s: %s' % (what, x), e0)
            fl = v.flat()
            if fl is None:
                raise Broken('%s: content of a page' % what)
            c.ob(same_seq(p.facts, fl, ('P', 's'), sh.ps, sub(sh.total, removed), []), w[2:] + '-removed', '%s does not leave the elements it should' % what, e0)
            # reads only of elements that exist
            for e, x in wild(p, sh):
                c.ob(False, w[2:] + '-wild', '%s: %s' % (what, x), e)
            for e in p.events:
                if e.kind == 'need' and e.name in ('vector.back', 'vector.pop_back'):
                    c.ob(truth(p.facts, eq(e.args[1], 0)) is False, w[2:] + '-empty', '%s takes an element from an empty page' % what, e)
        c.sample('%s on %s: %d paths' % (what, sh.name, len(ps)))

    for sh in shapes(deep):
        T = sub(sh.total, 1)
        n = sh.total
        f0 = interp.Facts()
        for w, what, k, fwd in (('w_pop1', 'pop(a)', 1, False), ('w_pop2', 'pop(a, b)', 2, False), ('w_pop3', 'pop(a, b, c)', 3, False), ('w_peek1', 'peek(a)', 1, False),
                                ('w_peek2', 'peek(a, b)', 2, False), ('w_peek3', 'peek(a, b, c)', 3, False), ('w_peek_reverse1', 'peek_reverse(a)', 1, True), ('w_peek_reverse3', 'peek_reverse(a, b, c)', 3, True),
                                ('w_pop_reverse1', 'pop_reverse(a)', 1, True), ('w_pop_reverse2', 'pop_reverse(a, b)', 2, True), ('w_pop_reverse3', 'pop_reverse(a, b, c)', 3, True)):
            if truth(f0, lt(n, k)) is True:
                continue
            idx = [sub(T, i) for i in range(k)]
            if fwd:
                idx.reverse()
            check(w, what, sh, dict(zip('abc', idx)), None, [(lt(n, k), False)], k if 'pop' in w else 0)
    # from a depth: the element x of page j
    for K in range(0, 4 if deep else 3):
        for j in range(K + 1):
            for name, x, s, ps_ in between(K, j):
                sh = Shape('a stack of %d page%s' % (K + 1, 's' if K else ''), K, K + 1, s, ps_)
                g = add(interp.scale(ps_, j), x)
                depth = sub(sh.total, g)
                for w, k in (('w_peek_depth1', 1), ('w_peek_depth2', 2), ('w_peek_depth3', 3)):
                    if truth(interp.Facts(), lt(depth, k)) is True:
                        continue
                    check(w, 'peek_depth(depth, %s), element %s' % (', '.join('abc'[:k]), name), sh, {a: add(g, i) for i, a in enumerate('abc'[:k])}, [None, depth] + [None] * k, [(lt(depth, k), False)])
                for w in ('w_from_top', 'w_cfrom_top'):
                    ps, I = m.run(w, sh, [None, depth])
                    for p in ps:
                        if not c.ob(p.status == 'ret', 'from_top-exit', 'from_top() ends in %s' % p.status, p.events[-1] if p.events else None):
                            continue
                        for e, x_ in wild(p, sh):
                            c.ob(False, 'from_top-wild', 'from_top(depth), %s: %s' % (name, x_), e)
                        y = index(p.ret, ps_, 0)
                        c.ob(y is not None and y[0] == 's' and truth(p.facts, eq(y[1], g)) is True, 'from_top', 'from_top(depth) does not lead to the element depth places from the top, %s' % name, p.events[-1])
    # the order of values that are pushed together is covered by the content property; distribute over any iterator:
    for w, names in (('w_distribute1', 'a'), ('w_distribute3', 'abc'), ('w_distribute3r', 'abc')):
        ps, I = c.run(c.fn1('wit::' + w))
        for p in ps:
            e0 = p.events[-1] if p.events else None
            c.ob(p.status == 'ret', 'distribute-exit', 'distribute() ends in %s' % p.status, e0)
            steps = 0
            seen = {}
            held = {}
            for e in p.events:
                if e.kind != 'ext':
                    continue
                if e.name == 'wit::Iter::operator++':
                    steps += 1
                    c.ob(addr(e.args[0]) == (('P', 'i'), 0), 'distribute-iterator', 'distribute() moves another iterator', e)
                elif e.name == 'wit::Iter::operator*':
                    held[e.ret] = steps
                elif e.name == ASG:
                    d = addr(e.args[0])
                    c.ob(d[0][0] == 'P' and d[0][1] in names and d[0][1] not in seen, 'distribute-target', 'distribute() assigns to something else than its arguments, once each', e)
                    seen[d[0][1]] = held.get(e.args[1])
            c.ob(seen == {a: i for i, a in enumerate(names)}, 'distribute-order', 'distribute() does not give the n-th value of the sequence to the n-th argument: %r' % (seen,), e0)
            c.ob(steps == len(names) - 1, 'distribute-steps', 'distribute() leaves the iterator %d steps further for %d arguments' % (steps, len(names)), e0)

main(Check('C18', 'abstract interpretation of pop, peek, peek_depth, peek_reverse, pop_reverse, from_top and distribute from every shape of stack (up to 3 pages, symbolic fill, positions on every page '
           'and across page ends): each argument receives the element of the prescribed index', ['w_stack.cpp'], 300), body)
