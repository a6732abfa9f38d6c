#!/usr/bin/env python3
"""Synchronised iterators of the paged stack."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from stk import *

KINDS = (('sit', 'sync_iterator'), ('csit', 'const_sync_iterator'), ('ccsit', 'csync_begin() iterator'))
ASG = 'wit::Elem::operator='

def orders(K, j):
    """stack with its top on page K and s elements there; an iterator at index x of page j: (what, valid, x, s, ps)"""
    x, a, d = nn('x'), nn('a'), nn('d')
    ok = [('standing on an element', j <= K, x, add(add(x, 1), a), add(add(add(x, 1), a), d))]
    # x beyond the last element of the top page
    s = add(1, a)
    ok.append(('standing behind the elements of the top page' if j == K else 'standing on an element', j < K, add(s, x), s, add(add(add(s, x), 1), d)))
    return ok

def body(c):
    m = Model(c)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    f0 = interp.Facts()
    for kind, name in KINDS:
        it = Iters(m, kind, True)
        P0 = Shape('', 2, 3, add(1, nn('a')), add(add(1, nn('a')), nn('d')))
        st0 = it.state(P0)

        def run(w, sh, cells, keep, more=None, args=None, extra=None):
            def init(I, S, fr):
                m.put(S, sh, keep=keep)
                if cells is not None:
                    place(S, ('P', 'i'), cells)
                if extra:
                    extra(I, S, fr)
            ps = c.run(c.fn1('wit::w_%s_%s' % (kind, w)), args, init, **OPTS)[0]
            for p in ps:
                for e, x in wild(p, sh):
                    c.ob(False, 'wild', '%s: %s: %s' % (name, w, x), e)
            return ps

        for K in range(0, 4 if deep else 3):
            for j in range(0, K + 2):
                for nm, valid, x, s, ps_ in orders(K, j):
                    sh = Shape('a stack of %d page%s' % (K + 1, 's' if K else ''), K, max(K, j) + 1, s, ps_)
                    first = it.state(Shape('', max(K, j), max(K, j) + 1, s, ps_))
                    cells = dict(it.at(Shape('', max(K, j), max(K, j) + 1, s, ps_), j, x))
                    T = sub(sh.total, 1)
                    g = add(interp.scale(ps_, j), x)
                    what = '%s %s, page %d of %s' % (name, nm, j, sh.name)
                    if not valid and j > K:
                        what = '%s on a page that was emptied, %s' % (name, sh.name)

                    def element(ps, key, say, want):
                        c.ob(bool(ps), key, '%s: %s never succeeds' % (what, say))
                        for p in ps:
                            e0 = p.events[-1] if p.events else None
                            if not c.ob(p.status == 'ret', key, '%s: %s ends in %s' % (what, say, p.status), e0):
                                continue
                            e = [e for e in p.events if e.kind == 'ext' and e.name == ASG and addr(e.args[0])[0] == ('P', 'e')]
                            y = index(e[-1].args[1], ps_, 0) if len(e) == 1 else None
                            c.ob(y is not None and truth(p.facts, eq(y[1], want)) is True, key, '%s: %s gives the wrong element' % (what, say), e0)
                            v = View(p)
                            c.ob(not v.problems(ps_) and same_seq(p.facts, v.flat() or [], ('P', 's'), ps_, sh.total, []), 'modifies', '%s: %s changes the stack' % (what, say), e0)

                    def top(w):
                        for p in run(w, sh, cells, first.st):
                            if not c.ob(p.status == 'ret', 'resync', '%s: %s ends in %s' % (what, w, p.status), p.events[-1] if p.events else None):
                                continue
                            def two(I, S, fr):
                                place(S, ('P', 'a'), it.at(Shape('', K, sh.M, s, ps_), K, sub(s, 1)))
                                S.facts = p.facts
                            for q in run('eq', sh, p.st.mem[('P', 'i')], p.st, extra=two):
                                c.ob(q.status == 'ret' and truth(q.facts, tobool(q.ret)) is True, 'resync', '%s: the iterator does not stand on the top element after %s' % (what, w), p.events[-1])

                    def move_get(w, want, fa, say):
                        if any(truth(f0, t) is (not v) for t, v in fa):
                            return
                        def extra(I, S, fr):
                            for t, v in fa:
                                S.facts = assume(S.facts, tobool(t), v)[0]
                        ps = run(w, sh, cells, first.st, extra=extra)
                        out = []
                        for p in ps:
                            if p.status != 'ret':
                                out.append(p)
                                continue
                            def cont(I, S, fr):
                                S.facts = p.facts
                            out += run('get', sh, p.st.mem[('P', 'i')], p.st, extra=cont)
                        element(out, 'move', say, want)
                    element(run('get', sh, cells, first.st), 'get', 'get()', g if valid else T)
                    # get() re-anchors for good
                    move_get('get', g if valid else T, [], 'get() after get()')
                    if valid:
                        move_get('next', sub(g, 1), [(eq(g, 0), False)], 'get() after ++')
                        move_get('prev', add(g, 1), [(eq(g, T), False)], 'get() after --')
                    else:
                        move_get('next', T, [], 'get() after ++')
                        move_get('prev', T, [], 'get() after --')
                        for w in ('get', 'next', 'prev'):
                            top(w)
                    c.sample(what)
        # an emptied stack
        a, d, x = nn('a'), nn('d'), nn('x')
        for j in range(0, 3):
            sh = Shape('an emptied stack', 0, j + 2, 0, add(add(x, 1), d))
            big = Shape('', j, j + 2, add(x, 1), add(add(x, 1), d))
            cells = it.at(big, j, x)
            first = it.state(big)
            for w in ('get', 'next', 'prev'):
                ps = run(w, sh, cells, first.st)
                for p in ps:
                    c.ob(p.status == 'throw', 'empty', '%s: %s on an emptied stack does not throw' % (name, w), p.events[-1] if p.events else None)
                    c.ob(p.status != 'throw' or 'runtime_error' in str(p.st.exc) or 'runtime_error' in str(p.ret) or any(e.kind == 'throw' and 'runtime_error' in str((e.name, e.args)) for e in p.events), 'empty-type', '%s: %s on an emptied stack throws something else than std::runtime_error' % (name, w), p.events[-1] if p.events else None)
        # shrinking waits for the last iterator: any number of iterators
        spare = Shape('a stack of two pages and two spare ones', 1, 4, add(1, a), add(add(1, a), d))
        I0 = it.state(spare)
        base = dict(I0.st.mem.get(('P', 'out'), {}))

        def stack_run(w, keep, root_args=None, cells=None, cells2=None):
            def init(I, S, fr):
                m.put(S, spare, keep=keep)
                if cells is not None:
                    place(S, ('P', 'i'), cells)
                if cells2 is not None:
                    place(S, ('P', 'a'), cells2)
            ps, I = c.run(c.fn1('wit::' + w), root_args, init, **OPTS)
            return ps

        def pages(p):
            return View(p).M

        fresh_ = m.template(spare.M, spare.ps).st

        def explore(trace, keep, live, wanted):
            """live: iterators in existence; wanted: a shrink request is pending"""
            # shrink now
            say = ' after ' + ', '.join(trace) if trace else ''
            for p in stack_run('w_shrink', keep):
                e0 = p.events[-1] if p.events else None
                if not c.ob(p.status == 'ret', 'shrink', '%s: shrink_to_fit()%s ends in %s' % (name, say, p.status), e0):
                    continue
                if live:
                    c.ob(pages(p) == spare.M, 'shrink-early', '%s: shrink_to_fit() frees pages although %d synchronised iterator%s in use%s' % (name, live, ' is' if live == 1 else 's are', say), e0)
                else:
                    c.ob(pages(p) == 2, 'shrink-never', '%s: shrink_to_fit() does not free the unused pages although no synchronised iterator exists%s' % (name, say), e0)
            if len(trace) >= (6 if deep else 5):
                return
            if live < 2:
                ops = [('w_%s_first' % kind, 'creation', 1, None)] if live == 0 else [('w_%s_copy' % kind, 'copy', 1, base)]
                for w, say2, dl, cells in ops:
                    for p in stack_run(w, keep, None, cells):
                        if c.ob(p.status == 'ret', 'life', '%s: %s%s ends in %s' % (name, say2, say, p.status)):
                            c.ob(pages(p) == spare.M, 'shrink-early', '%s: %s frees pages%s' % (name, say2, say))
                            explore(trace + [say2], p.st, live + 1, wanted)
            if live == 2 and 'assignment' not in trace:
                for p in stack_run('w_%s_assign' % kind, keep, None, base, base):
                    if c.ob(p.status == 'ret', 'life', '%s: assignment%s ends in %s' % (name, say, p.status)):
                        c.ob(pages(p) == spare.M, 'shrink-early', '%s: an assignment frees pages%s' % (name, say))
                        explore(trace + ['assignment'], p.st, live, wanted)
            if live and not wanted:
                for p in stack_run('w_shrink', keep):
                    if p.status == 'ret':
                        explore(trace + ['shrink_to_fit'], p.st, live, True)
            if live:
                for p in stack_run('w_%s_drop' % kind, keep, None, base):
                    if not c.ob(p.status == 'ret', 'life', '%s: destruction%s ends in %s' % (name, say, p.status)):
                        continue
                    if live == 1 and wanted:
                        c.ob(pages(p) == 2, 'shrink-lost', '%s: the shrink_to_fit() that waited is not carried out when the last iterator goes away%s' % (name, say), p.events[-1])
                        c.ob(not View(p).problems(spare.ps), 'shrink-shape', '%s: the delayed shrink breaks the stack%s' % (name, say), p.events[-1])
                    else:
                        c.ob(pages(p) == spare.M, 'shrink-early', '%s: the destruction of an iterator frees pages%s' % (name, say), p.events[-1])
                    explore(trace + ['destruction'], p.st, live - 1, wanted and live > 1)
        explore([], fresh_, 0, False)
        # comparison
        for w, sense in (('eq', True), ('ne', False)):
            for j1, x1, j2, x2, same in ((1, 0, 1, 0, True), (1, 0, 0, 0, False), (1, 0, 1, add(1, x), False), (0, x, 0, x, True)):
                sh = Shape('', 1, 3, add(add(x, 2), a), add(add(add(x, 2), a), d))
                def two(I, S, fr):
                    place(S, ('P', 'a'), it.at(sh, j2, x2))
                for p in run(w, sh, it.at(sh, j1, x1), it.state(sh).st, extra=two):
                    c.ob(p.status == 'ret' and truth(p.facts, tobool(p.ret)) is (same == sense), 'compare', '%s: %s is wrong' % (name, '==' if sense else '!='), p.events[-1] if p.events else None)

main(Check('C15', 'abstract interpretation of the three kinds of synchronised iterators at every position relative to the current top (kept, discarded on the same page, on an emptied page, empty stack) and of every '
           'sequence of up to five creations, copies, assignments, destructions and shrink requests', ['w_stack.cpp'], 300), body)
