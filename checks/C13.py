#!/usr/bin/env python3
"""Content and structure of the paged stack."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from stk import *

V = lambda *n: [(('&', ('P', x), 0),) for x in n]

def body(c):
    m = Model(c)
    deep = os.environ.get('VERIF_TIER') == 'thorough'

    def last(p):
        return p.events[-1] if p.events else None

    def judge(key, what, p, sh, n, vals, root=('P', 's'), orig=None):
        """the stack at root holds the first n elements of the original, then vals"""
        if not c.ob(p.status == 'ret', key + '-exit', '%s ends in %s' % (what, p.status), last(p)):
            return None
        v = View(p, root)
        for x in v.problems(sh.ps):
            c.ob(False, key + '-shape', '%s: %s' % (what, x), last(p))
        c.ok(4)
        fl = v.flat()
        if fl is None:
            raise Broken('%s: content of a page' % what)
        if vals == 'one':
            ok = len(fl) >= 1 and fl[-1][0] == 'val' and same_seq(p.facts, fl[:-1], orig or ('P', 's'), sh.ps, n, [])
        else:
            ok = same_seq(p.facts, fl, orig or ('P', 's'), sh.ps, n, vals)
        c.ob(ok, key + '-content', '%s: the elements are not the expected ones' % what, last(p))
        return v

    def need(sh, p, n):
        """fewer than n elements: outside the contract"""
        return truth(p.facts, lt(sh.total, n)) is True

    ops = [('w_push1', 'push', 0, V('a')), ('w_push3', 'pushing three values', 0, V('a', 'b', 'c')), ('w_emplace', 'push_emplace', 0, 'one'), ('w_pop0', 'pop', 1, []),
           ('w_pop1', 'popping one value', 1, []), ('w_pop2', 'popping two values', 2, []), ('w_pop3', 'popping three values', 3, []), ('w_pop_reverse1', 'pop_reverse of one', 1, []),
           ('w_pop_reverse2', 'pop_reverse of two', 2, []), ('w_pop_reverse3', 'pop_reverse of three', 3, []), ('w_shrink', 'shrink_to_fit', 0, []),
           ('w_peek1', 'peek', 0, []), ('w_peek3', 'peek of three', 0, []), ('w_peek_reverse3', 'peek_reverse', 0, []), ('w_clear', 'clear', None, [])]
    need_n = {'w_peek1': 1, 'w_peek3': 3, 'w_peek_reverse3': 3}
    for sh in shapes(deep):
        for w, name, less, vals in ops:
            n = less if less else need_n.get(w, 0)
            facts = [(lt(sh.total, n), False)] if n else []
            if n and truth(interp.Facts(), lt(sh.total, n)) is True:
                continue
            ps, I = m.run(w, sh, None, facts)
            what = '%s on %s' % (name, sh.name)
            c.ob(any(p.status == 'ret' for p in ps), w + '-never', what + ' never succeeds')
            for p in ps:
                judge(w[2:], what, p, sh, sub(sh.total, less) if less is not None else 0, vals)
            if ps:
                c.sample('%s: %d paths' % (what, len(ps)))
        # queries
        for w, name in (('w_size', 'size()'), ('w_empty', 'empty()')):
            ps, I = m.run(w, sh)
            for p in ps:
                what = '%s of %s' % (name, sh.name)
                if judge(w[2:], what, p, sh, sh.total, []) is None:
                    continue
                good = truth(p.facts, eq(p.ret, sh.total)) if w == 'w_size' else equiv(p.facts, p.ret, eq(sh.total, 0))
                c.ob(good is True, w[2:], '%s is wrong' % what, last(p))
        if truth(interp.Facts(), eq(sh.total, 0)) is not True:
            for w in ('w_top', 'w_settop'):
                ps, I = m.run(w, sh)
                for p in ps:
                    what = 'top() of %s' % sh.name
                    if judge(w[2:], what, p, sh, sh.total, []) is None:
                        continue
                    T = sub(sh.total, 1)
                    if w == 'w_top':
                        x = index(p.ret, sh.ps, 0)
                        c.ob(x is not None and x[0] == 's' and truth(p.facts, eq(x[1], T)) is True, 'top', what + ' is not the last element', last(p))
                    else:
                        e = [e for e in p.events if e.kind == 'ext' and e.name == 'wit::Elem::operator=']
                        x = index(e[0].args[0], sh.ps, 0) if len(e) == 1 else None
                        c.ob(x is not None and truth(p.facts, eq(x[1], T)) is True and e[0].args[1] == ('&', ('P', 'a'), 0), 'settop', 'top(value) does not replace exactly the last element of %s' % sh.name, last(p))
    # discarding: the remaining elements end on page j with x elements
    for K in range(0, 4 if deep else 3):
        for j in range(K + 1):
            cases = between(K, j)
            for name, x, s, ps_ in cases:
                for rest in (x, add(x, 1)):
                    # so many elements remain on page j (x + 1 can be all of them)
                    sh = Shape('a stack of %d page%s' % (K + 1, 's' if K else ''), K, K + 1, s, ps_)
                    left = add(interp.scale(ps_, j), rest)
                    cnt = sub(sh.total, left)
                    ps, I = m.run('w_discard_n', sh, [None, cnt])
                    what = 'discard() of %s leaving elements %s' % (sh.name, name)
                    c.ob(any(p.status == 'ret' for p in ps), 'discard-never', what + ' never succeeds')
                    for p in ps:
                        judge('discard', what, p, sh, left, [])
                sh = Shape('a stack of %d page%s' % (K + 1, 's' if K else ''), K, K + 1, s, ps_)
                for kind, w in (('it', 'w_discard_it'), ('rit', 'w_discard_rit')):
                    it = iters(m, kind)
                    cells = it.at(sh, j, x)
                    ps, I = m.run(w, sh, None, (), lambda I, S, fr: place(S, ('P', 'it'), cells))
                    what = 'discarding from a%s iterator %s' % ('' if kind == 'it' else ' reverse', name)
                    for p in ps:
                        judge('discard-it', what, p, sh, add(interp.scale(ps_, j), x), [])
    # copies: small concrete stacks, every element in its place
    for PS in (1, 2, 3):
        for K in range(0, 3):
            for s in range(0 if K == 0 else 1, PS + 1):
                sh = Shape('a stack of %d elements on pages of %d' % (PS * K + s, PS), K, K + 2, s, PS)
                ps, I = m.run('w_copy', sh, None, (), None, unroll=60)
                for p in ps:
                    copied(c, m, p, sh, ('P', 't'), 'copying %s' % sh.name, last, judge)
                for old in (Shape('', 0, 1, 0, 2), Shape('', 1, 3, 1, 4)):
                    ps, I = m.run('w_assign', sh, None, (), lambda I, S, fr: m.put(S, old, ('P', 't')), unroll=60)
                    for p in ps:
                        if truth(p.facts, eq(('&', ('P', 't'), 0), ('&', ('P', 's'), 0))) is True:
                            continue
                        copied(c, m, p, sh, ('P', 't'), 'assigning %s' % sh.name, last, judge)
    for sh in shapes(deep):
        ps, I = m.run('w_assign', sh, [('&', ('P', 's'), 0), None])
        for p in ps:
            judge('self', 'assigning %s to itself' % sh.name, p, sh, sh.total, [])

IT = {}
def iters(m, kind):
    if kind not in IT:
        IT[kind] = Iters(m, kind, kind != 'rit')
    return IT[kind]

def copied(c, m, p, sh, root, what, last, judge):
    if not c.ob(p.status == 'ret', 'copy-exit', '%s ends in %s' % (what, p.status), last(p)):
        return
    judge('copy-source', what + ' (the source)', p, sh, sh.total, [])
    v = View(p, root)
    if any(p2[2] == ('?',) for p2 in v.pages):
        raise Broken(what + ': content of a page')
    for x in v.problems(sh.ps):
        c.ob(False, 'copy-shape', '%s: %s' % (what, x), last(p))
    fl = v.flat()
    ok = len(fl) == sh.total
    for i, x in enumerate(fl):
        if x[0] != 'val' or len(x[1]) != 1 or index(x[1][0], sh.ps, 0) != ('s', i):
            ok = False
    c.ob(ok, 'copy-content', '%s: the copy does not hold the same elements' % what, last(p))
    # the copy goes on as a stack of its own
    def go(I, S, fr):
        S.mem = {r: dict(d) for r, d in p.st.mem.items()}
        S.obj = dict(p.st.obj)
        S.facts = p.facts
    ps, I = c.run(c.fn1('wit::w_push3'), [('&', root, 0), None, None, None], go, **OPTS)
    for q in ps:
        if c.ob(q.status == 'ret', 'copy-push', '%s: a push on the copy ends in %s' % (what, q.status), last(q)):
            w = View(q, root)
            for x in w.problems(sh.ps):
                c.ob(False, 'copy-push', '%s: after pushes on the copy, %s' % (what, x), last(q))
            c.ob([x[1] for x in w.flat()[len(fl):]] == V('a', 'b', 'c') and w.flat()[:len(fl)] == fl, 'copy-push', '%s: pushes on the copy give the wrong elements' % what, last(q))
            c.ob(same_seq(q.facts, View(q).flat(), ('P', 's'), sh.ps, sh.total, []), 'copy-share', '%s: pushes on the copy change the original' % what, last(q))
    s = View(p)
    c.ob(s.vid != v.vid, 'copy-share', '%s: both stacks hold the same pages' % what, last(p))

if __name__ == '__main__':
    main(Check('C13', 'abstract interpretation of every mutator and query of PagedStack from every shape of stack (up to 3 pages, symbolic page size and fill): the sequence of elements afterwards is the '
               'prescribed one, pages below the top page are full, the ones above it are empty and the top page is not empty unless it is the first', ['w_stack.cpp'], 300), body)
