#!/usr/bin/env python3
"""Freedom from data races in the logging system."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

UNSAFE = ('localtime', 'gmtime', 'ctime', 'asctime', 'strtok', 'strerror', 'setlocale', 'tmpnam', 'rand', 'srand')
PAIRS = {('A', 'A'), ('A', 'T'), ('T', 'A'), ('A', 'C'), ('C', 'A'), ('C', 'T'), ('T', 'C'), ('I', 'T'), ('T', 'I'), ('D', 'T'), ('T', 'D')}

def body(c):
    m = Log(c)
    acc = {}        # place -> set of (ctx, entry, rw, atomic, locks, size, where)
    n = 0
    for ctx, name, paths, pm in m.entries():
        for p in paths:
            pubs, pushed = m.published(p)
            started = ctx != 'I'
            joined = False
            # what the first user of the singleton does before it is constructed is covered by the constructor
            for i, e in enumerate(p.events):
                if e.kind == 'spawn':
                    started = True
                if ctx == 'D' and m.stopped(p, i):
                    joined = True
                if e.kind in ('libc', 'ext', 'call') and e.name in UNSAFE:
                    c.ob(False, 'libc', '%s uses %s(), whose result other threads overwrite' % (name, e.name), e)
                if not started or (ctx == 'D' and joined):
                    continue
                pub = pubs if pushed is not None and i > pushed else ()
                for pl, rw, at, size in m.places(e, pm, pub):
                    if pl[0] == 'Msg' or pl[0] == 'Own':
                        continue        # handed over exclusively (C04) / the thread object
                    if ctor(e) and e.args and isinstance(e.args[0], tuple) and addr(e.args[0]) and addr(e.args[0])[0] and addr(e.args[0])[0][0] == 'G':
                        continue
                    if pl[0].startswith('G:'):
                        g = pl[0][2:]
                        md = c.P.globmod(g)
                        if md is None or thread_local(c.P, g) or rw == 'r' and g.startswith(('_ZTV', '_ZTI', '.str', '_ZTS')):
                            continue
                    lk = frozenset(m.locks(e, pm, pub))
                    acc.setdefault(pl, {}).setdefault((ctx, rw, at, lk, size), (name, e))
                    n += 1
    keys = sorted(acc, key=str)
    c.extra['shared_locations'] = len(keys)
    c.extra['accesses'] = n
    by = {}
    for pl in keys:
        by.setdefault(pl[0], []).append(pl)
    checked = 0
    for cl, pls in by.items():
        for a in pls:
            for b in pls:
                if a > b if isinstance(a[1], int) and isinstance(b[1], int) else str(a) > str(b):
                    continue
                for (ca, ra, aa, la, sa), (na, ea) in acc[a].items():
                    for (cb, rb, ab, lb, sb), (nb, eb) in acc[b].items():
                        if a != b:
                            if not (isinstance(a[1], int) and isinstance(b[1], int)):
                                continue
                            if not (a[1] < b[1] < a[1] + sa):
                                continue
                        # several log systems can exist: their threads share the globals
                        if (ca, cb) not in PAIRS and not cl.startswith('G:'):
                            continue
                        if ra == 'r' and rb == 'r' or aa and ab:
                            continue
                        checked += 1
                        common = la & lb
                        if cl.startswith('G:'):
                            common = {l for l in common if l[0].startswith('G:')}
                        if not common:
                            w, o = (ea, eb) if ra == 'w' else (eb, ea)
                            c.fail('race-%s-%s' % a, '%s is %s here by %s (%s) and %s at %s by %s (%s) with no common lock' % (
                                what(cl, a[1]), 'written' if w is ea and ra == 'w' or w is eb and rb == 'w' else 'read', na if w is ea else nb, 'atomically' if (aa if w is ea else ab) else 'plainly',
                                'written' if (rb if w is ea else ra) == 'w' else 'read', c.at(o), nb if w is ea else na, 'atomically' if (ab if w is ea else aa) else 'plainly'), w)
    c.ok(checked)
    c.extra['conflicting_pairs'] = checked
    for pl in keys:
        if any(k[1] == 'w' and k[0] in 'AT' for k in acc[pl]):
            c.sample('%s: %s' % (what(*pl), sorted({(k[0], k[1], 'atomic' if k[2] else ','.join('lock@%s' % l[1] for l in k[3])) for k in acc[pl]})))
    if not any(k[0] == 'T' for pl in keys for k in acc[pl]):
        raise Broken('no shared access of the logging thread')

def ctor(e):
    """inside the construction of the singleton (nobody else has it yet, and construction is an entry of its own)"""
    return any(f.startswith(('_ZN6falcon6LoggerC', '_ZN6falcon9LogSystemC')) for f in e.stack)

def what(cl, off):
    return {'Sys': 'the member at offset %s of the log system', 'Lst': 'the member at offset %s of a listener'}.get(cl, '%s+%%s' % cl.replace('%', '')) % off

main(Check('C01', 'lockset over all abstract paths of the public operations of LogSystem, Listener, LogStreamListener, LogProxyListener and Logger (any thread), the logging thread, construction after the '
           'thread was started and destruction before it was joined: two accesses to one location by operations that can overlap, one of them a write, are both atomic or share a lock', UNITS, 60), body)
