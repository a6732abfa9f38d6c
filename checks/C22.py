#!/usr/bin/env python3
"""Futex: behaviour under contention."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *

def body(c):
    import re
    bounded = 0
    inst = 0
    for n in c.fn('falcon::Futex::lock'):
        m = re.search(r'FutexILj(\d+)E', n)
        if not m:
            continue
        N = int(m.group(1))
        inst += 1
        ps, I = c.run(n, atomic_fresh=True, finite=6 * N + 6)
        # the free value is what a successful attempt saw
        for p in ps:
            bounded += p.why == 'bound'
            fails = 0
            yields = 0
            last = None
            for e in p.events:
                if e.kind == 'atomic' and e.name == 'cas' and e.x['ok'] or e.kind == 'atomic' and e.name.startswith('rmw') and truth(p.facts, eq(e.ret, 0)) is True:
                    last = e
                    if e.kind == 'atomic' and e.name == 'cas' and truth(p.facts, eq(e.args[1], 0)) is not True:
                        fails += 1
                        last = None
                elif e.kind == 'atomic' and (e.name == 'cas' or e.name.startswith('rmw')):
                    if N:
                        c.ob(fails < N, 'late-yield', 'spin count %d: more than %d failed attempts in a row without yielding' % (N, N), e)
                    fails += 1
                elif e.kind == 'rd' and addr(e.args[0])[0] == ('P', 'this') and e.x['atomic'] and truth(p.facts, eq(e.args[1], 0)) is False:
                    # looking at the flag and finding it taken is an attempt as well
                    if N:
                        c.ob(fails < N, 'late-yield', 'spin count %d: more than %d failed attempts in a row without yielding' % (N, N), e)
                    fails += 1
                elif e.kind in ('yield', 'sleep'):
                    yields += 1
                    c.ob(N != 0, 'idle-yield', 'spin count 0: the lock must spin without yielding', e)
                    if N:
                        c.ob(fails == N, 'early-yield', 'spin count %d: the thread yields after %d failed attempts' % (N, fails), e)
                    fails = 0
            if p.status == 'cut' and N:
                c.ob(yields > 0 or fails < N, 'no-yield', 'spin count %d: the lock can wait forever without yielding' % N, p.events[-1])
            if p.status == 'cut':
                c.ob(any(e.kind == 'atomic' for e in p.events), 'stuck', 'the lock loops without trying to acquire', p.events[-1])
        c.sample('Futex<%d>::lock: %d paths' % (N, len(ps)))
    if inst < 4:
        raise Broken('futex instances')
    c.extra['paths_cut_by_bound'] = bounded

main(Check('C22', 'finite-state exploration of Futex<N>::lock (N=0,1,2,7; loop states repeat, so every number of attempts is covered): between two yields there are exactly N failed '
           'acquisition attempts, and none at all when N is 0', ['w_locks.cpp'], 20), body)
