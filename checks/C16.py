#!/usr/bin/env python3
"""Pushing on a paged stack: stable element addresses, all or nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from stk import *

def pageaddr(v):
    r = addr(v)[0] if isinstance(v, tuple) and v[0] == '&' else ('?',)
    return r[0] == 'el' and isinstance(r[1], tuple) and r[1][0][0] == 'ML'

def body(c):
    m = Model(c)
    deep = os.environ.get('VERIF_TIER') == 'thorough'

    def room(p, cap, n):
        """the space reserved on a page holds n elements"""
        return cap is not None and truth(p.facts, lt(cap, n)) is False

    def reserved(p, sh, what, root=('P', 's')):
        v = View(p, root)
        for j, (n, cap, ct) in enumerate(v.pages):
            c.ob(room(p, cap, sh.ps), 'reserve', '%s: a page of the stack has no space reserved for a page of elements' % what, p.events[-1] if p.events else None)
        return v

    def stays(p, sh, what):
        """no page that holds elements is reallocated"""
        for e in p.events:
            if e.kind != 'op' or not e.name.startswith('vector.') or not e.args or not pageaddr(e.args[0]):
                continue
            meth = e.name[7:]
            if meth in ('push_back', 'emplace_back'):
                c.ob(room(p, e.x.get('cap'), add(e.x['size'], 1)), 'moves', '%s: the elements of a page are moved to make room' % what, e)
            elif meth in ('shrink_to_fit', 'swap', 'operator=', 'assign', 'insert', 'emplace', 'vector'):
                c.ob(False, 'moves', '%s: %s on a page can move its elements' % (what, meth), e)
            elif meth == 'reserve':
                n = e.x.get('size')
                c.ob(n is not None and truth(p.facts, eq(n, 0)) is True, 'moves', '%s: space is reserved on a page that can hold elements' % what, e)

    # construction
    for M in (1, 2, 3):
        for ps_ in (add(1, nn('d')), 1):
            p = m.template(M, ps_)
            v = reserved(p, Shape('', 0, M, 0, ps_), 'construction of a stack with %d pages' % M)
            c.ob(not v.problems(ps_) and v.M == M and v.flat() == [], 'ctor', 'a new stack is not empty')
    thrown = 0
    for sh in shapes(deep):
        for w, name, single in (('w_push1', 'push', True), ('w_emplace', 'push_emplace', True), ('w_push3', 'pushing three values', False)):
            ps, I = m.run(w, sh, None, (), None, elem_throw=lambda I, S, this, kind, meth, info: True)
            what = '%s on %s' % (name, sh.name)
            c.ob(any(p.status == 'ret' for p in ps), 'never', what + ' never succeeds')
            for p in ps:
                e0 = p.events[-1] if p.events else None
                stays(p, sh, what)
                if p.status == 'ret':
                    reserved(p, sh, what)
                    continue
                if not c.ob(p.status == 'throw', 'exit', '%s ends in %s' % (what, p.status), e0):
                    continue
                thrown += 1
                say = 'a failed ' + what
                v = reserved(p, sh, say)
                for x in v.problems(sh.ps):
                    c.ob(False, 'fail-shape', '%s: %s' % (say, x), e0)
                fl = v.flat()
                if fl is None:
                    raise Broken(say + ': content of a page')
                if single:
                    c.ob(same_seq(p.facts, fl, ('P', 's'), sh.ps, sh.total, []), 'fail-content', '%s does not leave the elements as they were' % say, e0)
                c.ob(not p.st.locks, 'fail-lock', '%s leaves the stack locked' % say, e0)
            c.sample('%s: %d ways to fail' % (what, sum(p.status == 'throw' for p in ps)))
        # operations that remove elements leave the others in place
        for w, n in (('w_pop0', 1), ('w_pop1', 1), ('w_shrink', 0), ('w_pop_reverse1', 1), ('w_clear', 0)):
            if truth(interp.Facts(), lt(sh.total, n)) is True:
                continue
            ps, I = m.run(w, sh)
            for p in ps:
                stays(p, sh, '%s on %s' % (w[2:], sh.name))
                if p.status == 'ret':
                    reserved(p, sh, '%s on %s' % (w[2:], sh.name))
    c.ob(thrown > 0, 'none', 'no push can fail')
    # copies reserve their pages, too
    for PS in (1, 2):
        for K in range(0, 2):
            sh = Shape('a stack of %d elements on pages of %d' % (PS * (K + 1), PS), K, K + 1, PS, PS)
            for w in ('w_copy', 'w_assign'):
                ps, I = m.run(w, sh, None, (), (lambda I, S, fr: m.put(S, Shape('', 0, 1, 0, 1), ('P', 't'))) if w == 'w_assign' else None, elem_throw=lambda I, S, this, kind, meth, info: True)
                for p in ps:
                    say = '%s %s' % ('copying' if w == 'w_copy' else 'assigning', sh.name)
                    if truth(p.facts, eq(('&', ('P', 't'), 0), ('&', ('P', 's'), 0))) is True:
                        continue
                    if p.status == 'ret':
                        stays(p, sh, say)
                        reserved(p, sh, say, ('P', 't'))
                    elif w == 'w_assign' and p.status == 'throw':
                        v = View(p, ('P', 't'))
                        c.ob(not v.problems(1) and v.flat() == [], 'fail-assign', 'a failed assignment of %s changes the target' % sh.name, p.events[-1])
                    v = View(p)
                    c.ob(same_seq(p.facts, v.flat() or [], ('P', 's'), sh.ps, sh.total, []), 'fail-source', '%s changes the source' % say, p.events[-1])

main(Check('C16', 'abstract interpretation of push, push_emplace, copies and removals from every shape of stack (up to 3 pages, symbolic fill) with a failure at every allocation and element construction: every insertion '
           'finds reserved space on its page, every page of the stack has a page of space reserved, failed single pushes leave the content as it was', ['w_stack.cpp'], 100), body)
