#!/usr/bin/env python3
"""Atomic integer primitives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *

# name -> (new value, result)
V = lambda a: a[1]
OPS = {
    'w_inc': (lambda o, v: add(o, 1), 'new'),
    'w_dec': (lambda o, v: add(o, -1), 'new'),
    'w_add': (lambda o, v: add(o, v), 'new'),
    'w_set': (lambda o, v: v, None),
    'w_xchg': (lambda o, v: v, 'old'),
    'w_xor': ('xor', 'old'),
    'w_and': ('and', 'old'),
    'w_or': ('or', 'old'),
}

def body(c):
    for w, (f, res) in sorted(OPS.items()):
        n = c.fn1('wit::' + w)
        name = {'w_xchg': 'atomicExchange'}.get(w, 'atomic' + w[2:].capitalize())
        ps, I = c.run(n, atomic_fresh=True)
        v = ('arg', 'v')
        for p in ps:
            acc = [a for a in accesses(p.events) if a.root == ('P', 'a')]
            mod = [a for a in acc if a.new is not None]
            last = acc[-1].ev if acc else None
            for a in mod:
                c.ob(a.atomic, 'plain-write', '%s modifies the word with a plain store' % name, a.ev)
            if p.status == 'cut':
                c.ob(not mod, 'repeat', '%s can apply the operation more than once' % name, last)
                continue
            if p.status != 'ret':
                c.ob(False, 'exit', '%s can leave by %s' % (name, p.status), last)
                continue
            if not c.ob(len(mod) == 1, 'single', '%s must be exactly one atomic step, found %d' % (name, len(mod)), last):
                continue
            m = mod[0]
            if not c.ob(m.atomic and (m.kind in ('rmw', 'cas') or w == 'w_set'), 'indivisible', '%s is not an indivisible read-modify-write' % name, m.ev):
                continue
            c.ob(m.ord in ACQ + REL, 'order', '%s is a relaxed access: nothing orders it with the accesses around it' % name, m.ev)
            if callable(f):
                want = f(m.old, v)
                good = m.new == want or m.old is not None and truth(p.facts, eq(m.new, want)) is True
            else:
                good = m.new in (('op', f, m.old, v), ('op', f, v, m.old)) or f == 'xor' and m.new == ('op', 'xor', m.old, v)
            c.ob(good, 'value', '%s stores %s' % (name, I.describe(m.new)), m.ev)
            if res == 'new':
                c.ob(p.ret == m.new or truth(p.facts, eq(p.ret, m.new)) is True, 'result', '%s does not return the value it stored' % name, m.ev)
            elif res == 'old':
                c.ob(p.ret == m.old or truth(p.facts, eq(p.ret, m.old)) is True, 'result', '%s does not return the previous value' % name, m.ev)
            c.sample('%s: %s %s' % (name, m.kind, m.exp))
    # fetch
    n = c.fn1('wit::w_fetch')
    ps, I = c.run(n, atomic_fresh=True)
    for p in ps:
        acc = [a for a in accesses(p.events) if a.root == ('P', 'a')]
        writes = [a for a in acc if a.new is not None and not (a.kind == 'rmw' and truth(p.facts, eq(a.new, a.old)) is True) and not (a.kind == 'cas' and a.exp == a.new)]
        c.ob(p.status == 'ret' and not writes, 'fetch', 'atomicFetch modifies the word', acc[-1].ev if acc else None)
        fence = any(e.kind == 'atomic' and e.name == 'fence' and e.x['ord'] in ACQ + REL for e in p.events)
        c.ob(fence or any(a.old is not None and a.ord in ACQ + REL for a in acc), 'order', 'atomicFetch is a relaxed access: nothing orders it with the accesses around it', acc[-1].ev if acc else None)
        c.ob(any(a.old is not None and p.ret == a.old for a in acc), 'fetch', 'atomicFetch does not return the current value', acc[-1].ev if acc else None)
    # compare and swap
    n = c.fn1('wit::w_cas')
    ps, I = c.run(n, atomic_fresh=True)
    some = set()
    for p in ps:
        acc = [a for a in accesses(p.events) if a.root == ('P', 'a')]
        mod = [a for a in acc if a.new is not None]
        last = acc[-1].ev if acc else None
        for a in mod:
            c.ob(a.atomic, 'plain-write', 'atomicCAS modifies the word with a plain store', a.ev)
        if p.status == 'cut':
            c.ob(not mod, 'repeat', 'atomicCAS can store more than once', last)
            continue
        c.ob(p.status == 'ret' and len(mod) <= 1, 'cas', 'atomicCAS must store at most once', last)
        r = truth(p.facts, tobool(p.ret))
        if r is None:
            c.ob(False, 'cas-result', 'the result of atomicCAS does not depend on whether it stored', last)
            continue
        some.add(r)
        if mod:
            c.ob(r is True, 'cas-result', 'atomicCAS reports failure although it stored', mod[0].ev)
            c.ob(mod[0].kind == 'cas' and truth(p.facts, eq(mod[0].old, ('arg', 'c'))) is True, 'cas-compare', 'atomicCAS stores although the word does not match', mod[0].ev)
            c.ob(mod[0].ord in ACQ + REL, 'order', 'atomicCAS is a relaxed access: nothing orders it with the accesses around it', mod[0].ev)
            c.ob(mod[0].new == ('arg', 'n'), 'cas-value', 'atomicCAS stores something else than the new value', mod[0].ev)
        else:
            c.ob(r is False, 'cas-result', 'atomicCAS reports success although it did not store', last)
            c.ob(any(truth(p.facts, eq(a.old, ('arg', 'c'))) is False for a in acc), 'cas-spurious', 'atomicCAS gives up although the word may match', last)
    c.ob(some == {True, False}, 'cas-result', 'atomicCAS can only %s' % ('succeed' if True in some else 'fail'))

main(Check('C23', 'every abstract path of the ten atomic primitives (non-Windows header): exactly one atomic modification of the word, whose new value is the specified function of the old one, '
           'and the documented result', ['w_locks.cpp'], 30), body)
