#!/usr/bin/env python3
"""Futex: mutual exclusion and publication."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *

def state(ev):
    return [a for a in accesses(ev) if a.root == ('P', 'this')]

def body(c):
    locks = c.fn('falcon::Futex::lock')
    if len(locks) < 3:
        raise Broken('instances of the futex')
    def inst(q):
        return {c.P.canon(n)[1][0] if c.P.canon(n)[1] else n: n for n in c.fn(q)}
    # the initial value of a futex is its free value
    free = None
    ctor = [n for n in c.fn('falcon::Futex::Futex') if 'C2E' in n] or c.fn('falcon::Futex::Futex')
    for n in ctor:
        ps, I = c.run(n, atomic_fresh=True)
        for p in ps:
            w = [a for a in state(p.events) if a.new is not None]
            if not c.ob(p.status == 'ret' and len(w) == 1, 'ctor', 'construction must set the ownership flag exactly once', p.events[0] if p.events else None):
                return
            v = w[0].new
            if not isinstance(v, int):
                raise Broken('initial value of the futex is not a constant')
            c.ob(free is None or free == v, 'ctor', 'instances start in different states', w[0].ev)
            free, off = v, w[0].off
    for n in locks:
        ps, I = c.run(n, atomic_fresh=True)
        for p in ps:
            acq = None
            for a in state(p.events):
                c.ob(a.atomic, 'lock-atomic', 'non-atomic access to the ownership flag while locking', a.ev)
                if a.new is None:
                    continue
                was = truth(p.facts, eq(a.old, free)) if a.old is not None else None
                c.ob(a.kind in ('cas', 'rmw'), 'lock-blind', 'the flag is overwritten without looking at its old value', a.ev)
                isfree = truth(p.facts, eq(a.new, free))
                if a.kind == 'rmw' and a.exp == 'or':
                    isfree = False
                if acq is not None:
                    c.ob(False, 'lock-twice', 'the flag is modified again after it was acquired', a.ev)
                elif was is True:
                    c.ob(isfree is False, 'lock-value', 'acquiring does not mark the futex as taken', a.ev)
                    acq = a
                elif was is False:
                    c.ob(isfree is False, 'lock-steal', 'a futex owned by another thread is released by lock()', a.ev)
                elif p.status == 'ret':
                    c.ob(isfree is False, 'lock-undecided', 'the flag is changed without a decision on its old value', a.ev)
            if p.status == 'ret':
                if c.ob(acq is not None, 'lock-return', 'lock() can return although no atomic step of this call found the futex free and took it',
                        p.events[-1] if p.events else None):
                    fence = any(e.kind == 'atomic' and e.name == 'fence' and e.x['ord'] in ACQ for e in p.events[acq.i + 1:])
                    c.ob(acq.ord in ACQ or fence, 'lock-order', 'the acquisition has no acquire ordering (%s)' % acq.ord, acq.ev)
                    c.sample('%s: returns after %s free->taken [%s] at %s' % (c.P.canon(n)[0], acq.kind, acq.ord, c.at(acq.ev)))
            elif p.status == 'cut':
                c.ob(acq is None, 'lock-lost', 'lock() keeps waiting after it took the futex', acq and acq.ev)
            else:
                c.ob(False, 'lock-exit', 'lock() can leave by %s' % p.status, p.events[-1] if p.events else None)
    for n in c.fn('falcon::Futex::unlock'):
        ps, I = c.run(n, atomic_fresh=True)
        for p in ps:
            freed = False
            held = True     # the caller owns it
            for a in state(p.events):
                c.ob(a.atomic, 'unlock-atomic', 'non-atomic access to the ownership flag while unlocking', a.ev)
                if a.new is None:
                    if a.kind == 'load' and truth(p.facts, eq(a.old, free)):
                        held = False
                    continue
                isfree = truth(p.facts, eq(a.new, free))
                c.ob(isfree is True, 'unlock-value', 'unlock() stores something else than the free state', a.ev)
                c.ob(not freed, 'unlock-twice', 'the flag is written again after the futex was released', a.ev)
                fence = any(e.kind == 'atomic' and e.name == 'fence' and e.x['ord'] in REL for e in p.events[:a.i])
                c.ob(a.ord in REL or fence, 'unlock-order', 'the release has no release ordering (%s)' % a.ord, a.ev)
                freed = True
            if held:
                c.ob(p.status == 'ret' and freed, 'unlock-missing', 'unlock() can return without releasing the futex', p.events[-1] if p.events else None)
    for n in c.fn('falcon::Futex::isLocked'):
        ps, I = c.run(n, atomic_fresh=True)
        for p in ps:
            st = state(p.events)
            c.ob(all(a.new is None and a.atomic for a in st), 'query', 'isLocked() modifies the futex', st[-1].ev if st else None)
            if not st:
                c.ob(False, 'query', 'isLocked() does not look at the futex')
                continue
            c.ob(p.status == 'ret' and any(equiv(p.facts, p.ret, neg(eq(a.old, free))) for a in st), 'query-value', 'isLocked() does not report whether the futex is taken', st[-1].ev)

main(Check('C20', 'every abstract path of Futex<N>::{ctor,lock,unlock,isLocked} (N=0,1,2,7): lock() returns only after one atomic step of that call moved the flag from free to '
           'taken with acquire order, unlock() moves it to free with release order, nothing else modifies it', ['w_locks.cpp'], 20), body)
