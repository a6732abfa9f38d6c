#!/usr/bin/env python3
"""Recursive futex."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *

def body(c):
    this = ('P', 'this')
    # the owner word is the atomic member, the count the plain one
    def member(ev):
        return [a for a in accesses(ev) if a.root == this]
    ctor = c.fn1('falcon::RFutex::RFutex')
    ps, I = c.run(ctor, atomic_fresh=True)
    init = {}
    for p in ps:
        for a in member(p.events):
            if a.new is not None:
                init[a.off] = a.new
    lock, unlock, isl, iso = (c.fn1('falcon::RFutex::' + x) for x in ('lock', 'unlock', 'isLocked', 'isOwner'))
    lps, I = c.run(lock, atomic_fresh=True)
    owner = {a.off for p in lps for a in member(p.events) if a.kind in ('cas', 'rmw')}
    if not owner:
        # nothing atomic at all takes the ownership
        c.ob(False, 'lock-atomic', 'lock() takes ownership without an atomic read-modify-write')
        return
    if len(owner) != 1:
        raise Broken('ownership word of the recursive futex')
    owner = owner.pop()
    count = {a.off for p in lps for a in member(p.events) if a.off != owner}
    if not count:
        c.ob(False, 'count-missing', 'lock() does not count the levels of ownership')
        return
    if len(count) != 1:
        raise Broken('recursion count of the recursive futex: %r' % (count,))
    count = count.pop()
    c.ob(init.get(owner) == 0, 'ctor', 'a new recursive futex must have no owner')
    c.ob(init.get(count) == 0, 'ctor', 'a new recursive futex must have a zero count')
    tids = set()
    for p in lps:
        ev = p.events
        acc = accesses(ev)
        # the identity of the calling thread: a thread-local word
        glob = [a for a in acc if a.root[0] == 'G']
        tl = [a for a in glob if thread_local(c.P, a.root[1])]
        if not tl:
            c.ob(False, 'identity', 'the identity of the calling thread is not thread-local', glob[0].ev if glob else None)
            continue
        tids |= {(a.root, a.off) for a in tl}
        tw = [a for a in tl if a.new is not None]
        if tw:
            # a new identity must come out of one atomic step on a shared counter
            v = tw[-1].new
            src = [a for a in glob if a.kind == 'rmw' and a.exp == 'add' and not thread_local(c.P, a.root[1])]
            c.ob(len(tw) == 1, 'identity-once', 'the identity is assigned more than once', tw[-1].ev)
            good = [a for a in src if isinstance(sub(v, a.old), int) and sub(v, a.old) >= 1 and a.ev.args[1] == 1 or
                    isinstance(sub(v, a.old), int) and a.ev.args[1] not in (0, 1) and sub(v, a.old) >= 1]
            c.ob(bool(good), 'identity-unique', 'a new thread identity is not the result of one atomic increment (it can be zero or shared by two threads)', tw[-1].ev)
            old = tl[0].old
            c.ob(old is not None and truth(p.facts, eq(old, 0)) is True, 'identity-stable', 'a thread that has an identity gets another one', tw[-1].ev)
            me = v
        else:
            me = tl[0].old
            c.ob(truth(p.facts, eq(me, 0)) is False, 'identity-none', 'lock() proceeds without an identity for the calling thread', tl[0].ev)
        have = None
        bumped = False
        for a in acc:
            if a.root != this:
                continue
            if a.off == owner:
                c.ob(a.atomic, 'lock-atomic', 'non-atomic access to the ownership word', a.ev)
                if a.new is None:
                    if a.old is not None and truth(p.facts, eq(a.old, me)) is True and have is None:
                        have = 'again'
                    continue
                was = truth(p.facts, eq(a.old, 0)) if a.old is not None else None
                if c.ob(a.kind in ('cas', 'rmw') and was is True and have is None and not bumped, 'lock-steal', 'the owner is changed although the futex was not found free by the same atomic step', a.ev):
                    c.ob(truth(p.facts, eq(a.new, me)) is True, 'lock-owner', 'the new owner is not the calling thread', a.ev)
                    c.ob(a.ord in ACQ, 'lock-order', 'the acquisition has no acquire ordering', a.ev)
                    have = 'first'
            else:
                c.ob(have is not None, 'count-unowned', 'the recursion count is accessed before the ownership is established', a.ev)
                if a.new is not None:
                    c.ob(not bumped, 'count-twice', 'the recursion count is changed twice', a.ev)
                    one = sub(a.new, ('ld', this, count, 0))
                    c.ob(one == 1 or (have == 'first' and a.new == 1), 'count-step', 'locking does not add exactly one level', a.ev)
                    bumped = True
        if p.status == 'ret':
            c.ob(have is not None, 'lock-return', 'lock() can return without ownership', ev[-1])
            c.ob(bumped, 'count-missing', 'lock() can return without counting the level', ev[-1])
            c.sample('lock(): %s at %s' % (have, c.at(ev[-1])))
        elif p.status == 'cut':
            c.ob(have is None and not bumped, 'lock-lost', 'lock() keeps waiting although the calling thread owns the futex', ev[-1])
        else:
            c.ob(False, 'lock-exit', 'lock() can leave by ' + p.status)
    # a re-entrant path must exist: ownership recognised from the identity
    c.ob(any(p.status == 'ret' and not any(a.root == this and a.off == owner and a.new is not None for a in accesses(p.events)) for p in lps), 'lock-again',
         'lock() has no path on which the owner re-enters')
    if len(tids) > 1:
        raise Broken('several thread-local identities')
    if not tids:
        return
    tid = tids.pop()
    ups, I = c.run(unlock, atomic_fresh=True)
    full = False
    for p in ups:
        ev = p.events
        acc = [a for a in accesses(ev) if a.root == this]
        other = [a for a in acc if a.off == owner and a.kind == 'load']
        cw = [a for a in acc if a.off == count and a.new is not None]
        ow = [a for a in acc if a.off == owner and a.new is not None]
        cnt0 = ('ld', this, count, 0)
        mine = [x for x in accesses(ev) if (x.root, x.off) == tid and x.old is not None]
        if other and mine and truth(p.facts, eq(other[0].old, mine[0].old)) is False:
            continue    # caller is not the owner: not covered
        if p.status != 'ret':
            c.ob(False, 'unlock-exit', 'unlock() can leave by ' + p.status, ev[-1] if ev else None)
            continue
        if truth(p.facts, eq(cnt0, 0)) is True or truth(p.facts, lt(cnt0, 1)) is True:
            c.ob(not ow or truth(p.facts, eq(ow[0].new, 0)) is True, 'unlock-free', 'unlocking a free futex takes it', ev[-1] if ev else None)
        free = [g for g, (z,) in cases(p.facts, eq(cnt0, 0)) if z]
        for g in free:
            # nothing was locked
            c.ob(all(truth(g, eq(a.new, 0)) is True for a in cw), 'unlock-free', 'unlocking a free futex changes the number of levels: it is never released again', cw[-1].ev if cw else None)
        if free and (truth(p.facts, eq(cnt0, 0)) is True or truth(p.facts, lt(cnt0, 1)) is True):
            continue
        c.ob(len(cw) == 1 and sub(cw[0].new, cnt0) == -1 or (len(cw) == 1 and truth(p.facts, eq(cw[0].new, sub(cnt0, 1))) is True), 'unlock-step', 'unlocking does not remove exactly one level', cw[-1].ev if cw else (ev[-1] if ev else None))
        last = truth(p.facts, eq(cnt0, 1))
        if last is True:
            full = True
            if c.ob(len(ow) == 1 and truth(p.facts, eq(ow[0].new, 0)) is True, 'unlock-release', 'the last unlock does not free the futex', ev[-1]):
                c.ob(ow[0].ord in REL, 'unlock-order', 'the release has no release ordering', ow[0].ev)
                c.ob(all(a.i < ow[0].i for a in acc if a.off == count), 'unlock-late', 'the count is accessed after the futex was released', ow[0].ev)
        elif last is False:
            c.ob(not ow, 'unlock-early', 'the futex is released although the owner still holds an outer level', ow[0].ev if ow else None)
        else:
            c.ob(False, 'unlock-undecided', 'unlock() does not look at the number of levels', ev[-1])
    c.ob(full, 'unlock-full', 'unlock() never frees the futex')
    for n, f in ((isl, 0), (iso, 1)):
        qps, I = c.run(n, atomic_fresh=True)
        for p in qps:
            ld = [a for a in accesses(p.events) if a.root == this and a.off == owner]
            t = [a for a in accesses(p.events) if (a.root, a.off) == tid]
            c.ob(p.status == 'ret' and all(a.new is None and a.atomic for a in ld) and all(a.new is None for a in t), 'query', 'a query modifies the futex', p.events[-1])
            if f == 0:
                c.ob(bool(ld) and equiv(p.facts, p.ret, neg(eq(ld[-1].old, 0))), 'isLocked', 'isLocked() does not report whether there is an owner', p.events[-1])
            elif not ld:
                c.ob(bool(t) and truth(p.facts, eq(t[0].old, 0)) is True and truth(p.facts, tobool(p.ret)) is False, 'isOwner', 'isOwner() answers without looking at the owner', p.events[-1])
            else:
                own = ld[-1].old
                if not t:
                    c.ob(truth(p.facts, eq(own, 0)) is True and truth(p.facts, tobool(p.ret)) is False, 'isOwner', 'isOwner() does not compare the owner with the calling thread', p.events[-1])
                    continue
                me = t[0].old
                for g, (r, same, none) in cases(p.facts, p.ret, eq(own, me), eq(me, 0)):
                    if none and same and truth(g, eq(own, 0)) is False:
                        continue
                    c.ob(r == (same and not none), 'isOwner', 'isOwner() is %s when the owner is%s the calling thread%s' % (r, '' if same else ' not', ' (which never locked anything)' if none else ''), p.events[-1])

main(Check('C21', 'every abstract path of RFutex::{ctor,lock,unlock,isLocked,isOwner}: ownership moves 0 -> own identity in one acquiring atomic step or is recognised, the level count '
           'moves by one only while owned, the last unlock releases, identities are thread-local and come from one atomic increment', ['w_locks.cpp', 'engine'], 40), body)
