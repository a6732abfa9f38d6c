#!/usr/bin/env python3
"""Plain iterators of the paged stack."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from stk import *

KINDS = (('it', True, 'iterator'), ('cit', True, 'const_iterator'), ('ccit', True, 'cbegin() iterator'), ('rit', False, 'reverse_iterator'), ('crit', False, 'const_reverse_iterator'), ('ccrit', False, 'crbegin() iterator'))

def body(c):
    m = Model(c)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    f0 = interp.Facts()
    for kind, fwd, name in KINDS:
        it = Iters(m, kind, fwd)

        def run(w, sh, cells, args=None, facts=()):
            ps, I = m.run('w_%s_%s' % (kind, w), sh, args, facts, (lambda I, S, fr: place(S, ('P', 'i'), cells)) if cells is not None else None)
            good = []
            for p in ps:
                if c.ob(p.status == 'ret', 'exit', '%s: %s ends in %s' % (name, w, p.status), p.events[-1] if p.events else None):
                    good.append(p)
                    for e, x in wild(p, sh):
                        c.ob(False, 'wild', '%s: %s: %s' % (name, w, x), e)
                    v = View(p)
                    if v.problems(sh.ps) or not same_seq(p.facts, v.flat() or [], ('P', 's'), sh.ps, sh.total, []):
                        c.ob(False, 'modifies', '%s: %s changes the stack' % (name, w), p.events[-1])
            return good

        def where(p, sh):
            """position of the iterator 'i' after the path"""
            return {o: v for o, v in p.st.mem.get(('P', 'i'), {}).items()}

        def idx(sh, v):
            x = index(v, sh.ps, 0)
            return None if x is None or x[0] != 's' else x[1]

        def is_at(p, sh, v, g):
            x = idx(sh, v)
            return x is not None and truth(p.facts, eq(x, g)) is True

        def follow(p, sh, w, args=None):
            """continue with another function on the iterator this path left"""
            def more(I, S, fr):
                S.mem[('P', 'i')] = dict(p.st.mem.get(('P', 'i'), {}))
                S.facts = p.facts
            ps, I = m.run('w_%s_%s' % (kind, w), sh, args, (), more)
            return ps

        def lands(p, sh, g, what):
            """after the path the iterator designates element g, or lies behind the last one of its direction (g = 'end')"""
            e0 = p.events[-1] if p.events else None
            for q in follow(p, sh, 'atend'):
                t = truth(q.facts, tobool(q.ret)) if q.status == 'ret' else None
                c.ob(t is (g == 'end'), 'end', '%s: %s %s' % (name, what, 'does not arrive at the end' if g == 'end' else 'is taken for the end'), e0)
            if g == 'end':
                return
            for q in follow(p, sh, 'star'):
                for e, x in wild(q, sh):
                    c.ob(False, 'move', '%s: %s leaves the elements of its page' % (name, what), e0)
                c.ob(q.status == 'ret' and is_at(q, sh, q.ret, g), 'move', '%s: %s does not lead to the right element' % (name, what), e0)

        for sh in shapes(deep):
            empty = truth(f0, eq(sh.total, 0)) is True
            T = sub(sh.total, 1)
            for w in ('first', 'last'):
                for p in run(w, sh, None):
                    p.st.mem[('P', 'i')] = dict(p.st.mem.get(('P', 'out'), {}))
                    if w == 'last' or empty:
                        lands(p, sh, 'end', 'the %s position of %s' % (w, sh.name))
                        if w == 'last' and not empty:
                            for q in follow(p, sh, 'prev'):
                                if c.ob(q.status == 'ret', 'exit', '%s: -- from the end ends in %s' % (name, q.status)):
                                    lands(q, sh, 0 if fwd else T, '-- from the end of %s' % sh.name)
                    else:
                        lands(p, sh, T if fwd else 0, 'the first position of %s' % sh.name)
            c.sample('%s over %s' % (name, sh.name))
        for K in range(0, 4 if deep else 3):
            for j in range(K + 1):
                for nm, x, s, ps_ in between(K, j):
                    sh = Shape('a stack of %d page%s' % (K + 1, 's' if K else ''), K, K + 2, s, ps_)
                    cells = it.at(sh, j, x)
                    g = add(interp.scale(ps_, j), x)
                    T = sub(sh.total, 1)
                    pos = 'an element %s of %s' % (nm, sh.name)
                    for w in ('star', 'cstar', 'arrow'):
                        for p in run(w, sh, cells):
                            c.ob(is_at(p, sh, p.ret, g), 'deref', '%s: %s does not give the element it designates' % (name, w), p.events[-1])
                    for p in run('same', sh, cells):
                        c.ob(truth(p.facts, tobool(p.ret)) is True, 'copy', '%s: a copy is not equal to the original' % name, p.events[-1])
                    for p in run('notend', sh, cells):
                        c.ob(truth(p.facts, tobool(p.ret)) is True, 'compare', '%s: an element is taken for the end' % name, p.events[-1])
                    for p in run('atfirst', sh, cells):
                        c.ob(equiv(p.facts, p.ret, eq(g, T if fwd else 0)), 'compare', '%s: == is wrong for %s' % (name, pos), p.events[-1])
                    low, high = [(eq(g, 0), True)], [(eq(g, T), True)]
                    notlow, nothigh = [(eq(g, 0), False)], [(eq(g, T), False)]

                    def steps(w, d, facts, target, what, args=None, value=None):
                        if any(truth(f0, t) is (not v) for t, v in facts):
                            return
                        for p in run(w, sh, cells, args, facts):
                            if value is not None:
                                c.ob(is_at(p, sh, p.ret, value), 'post', '%s: the value of %s is not the old position' % (name, what), p.events[-1])
                            lands(p, sh, target, what + ' from ' + pos)
                    up, down = ('prev', 'next') if fwd else ('next', 'prev')
                    steps(down, -1, notlow, sub(g, 1), '++' if fwd else '--')
                    steps(up, 1, nothigh, add(g, 1), '--' if fwd else '++')
                    steps('next', 0, low if fwd else high, 'end', '++ over the last element')
                    steps('post' + down, -1, notlow, sub(g, 1), 'postfix ' + ('++' if fwd else '--'), None, g)
                    steps('post' + up, 1, nothigh, add(g, 1), 'postfix ' + ('--' if fwd else '++'), None, g)
                    for k in range(0, 3):
                        for w, sign in (('plus', -1 if fwd else 1), ('minus', 1 if fwd else -1)):
                            if sign < 0:
                                fa = [(lt(g, k), False)]
                            else:
                                fa = [(lt(sub(T, g), k), False)]
                            steps(w, 0, fa, add(g, sign * k), '%s %d' % ('+=' if w == 'plus' else '-=', k), [None, k])

main(Check('C17', 'abstract interpretation of every operation of the six kinds of plain iterators at every position (symbolic index, every page, both sides of page ends) of every shape of stack (up to 3 pages): '
           'moves change the index by one, end positions, comparisons and dereferencing agree with the index', ['w_stack.cpp'], 1000), body)
