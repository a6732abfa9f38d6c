#!/usr/bin/env python3
"""Ownership of log messages."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

THIS = ('P', 'this')
FIELDS = ('file', 'line', 'level', 'category', 'message')

def removed(e, loc, lastrd):
    """position of the element this operation removes: term or None when it removes none; '?' when it may remove any"""
    if e.kind != 'op' or e.x.get('rw') == 'r' or not e.args or addr(e.args[0]) != loc:
        return None
    m = e.name.split('.')[-1]
    if m == 'pop_front':
        return 0
    if m == 'pop_back':
        return sub(e.x['size'], 1)
    if m == 'erase' and e.x.get('it2') is None and isinstance(e.x.get('it'), tuple) and e.x['it'][0] == 'it':
        return e.x['it'][3]
    if m in ('clear', 'swap', 'resize', 'assign', 'operator=', 'erase', 'movefrom', 'splice'):
        return '?'
    return None

def root(t):
    a = addr(t) if isinstance(t, tuple) else None
    return a[0] if a else None

def body(c):
    m = Log(c)
    q = m.queue
    pool = {addr(e.args[0]) for p in m.runs(LS + 'LogSystem', 'C2') for e in p.events if e.kind == 'op' and '.push' in e.name and root(e.args[0]) == THIS}
    if len(pool) > 1:
        raise Broken('several message pools')
    pool = pool.pop() if pool else None
    offs = {f: m.offset('f_' + f) for f in FIELDS}
    MR = lambda t: addr(ptr(('S', t), 0))[0] if not (isinstance(t, tuple) and t[0] == '&') else t[1]

    def touches(e, v):
        r = v[1] if v[0] == '&' else ('S', v)
        if e.kind in ('rd', 'wr', 'op', 'atomic') and e.args and root(e.args[0]) == r:
            return True
        if e.kind in ('vcall', 'ext') and any(a == v or root(a) == r for a in e.args if isinstance(a, tuple) and a and a[0] in ('&', 'ld')):
            return True
        return e.kind == 'op' and e.x.get('rw') != 'r' and any(root(a) == r for a in e.args[1:] if isinstance(a, tuple) and a and a[0] == '&')

    # ------------------------------------------------------------ log(...)
    ps5 = [n for n in c.fn(LS + 'log') if 'Message' not in n][0]
    names = [x[2] for x in c.P.defs[ps5].params()]
    if len(names) != 6:
        raise Broken('parameters of log()')
    want = {'file': ('sval', ('P', names[1]), 0, (0, 0)), 'line': ('arg', names[2]), 'level': ('arg', names[3]), 'category': ('sval', ('P', names[4]), 0, (0, 0)), 'message': ('sval', ('P', names[5]), 0, (0, 0))}
    sent = 0
    for p in m.log5():
        ev = p.events
        got = {}
        rds = {}
        for i, e in enumerate(ev):
            if e.kind == 'new' and e.args and e.args[0] == m_size(m, ev):
                got[e.ret] = i
            if pool and e.kind == 'rd' and e.args[0][1][0] == 'el' and e.args[0][1][1] == pool:
                rds[e.args[1]] = (i, e.args[0][1][3])
            if e.kind == 'need':
                c.ob(truth(e.facts, lt(e.args[2], e.args[1])) is True, 'empty', 'log() takes a message from a container that can be empty', e)
            x = removed(e, pool, rds) if pool else None
            if x is not None:
                r = [v for v, (j, k) in rds.items() if k == x or x != '?' and truth(e.facts, eq(k, x)) is True]
                if c.ob(x != '?' and len(r) == 1, 'pool-take', 'log() removes a message from the pool that is not the one it uses', e):
                    c.ob(not [y for y in ev[rds[r[0]][0]:i] if y.kind == 'unlock'], 'pool-hold', 'the pool is unlocked between choosing a message and removing it: two threads can take the same one', e)
                    got[r[0]] = i
        push = [i for i, e in enumerate(ev) if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == q]
        if p.status != 'ret':
            c.ob(False, 'log-exit', 'log() ends by %s' % p.status, last(p))
            continue
        if not push:
            c.ob(not got, 'log-lost', 'log() takes a message and does not queue it', last(p))
            continue
        if not c.ob(len(push) == 1, 'log-twice', 'log() queues %d messages for one call' % len(push), ev[push[-1]]):
            continue
        sent += 1
        e = ev[push[0]]
        v = e.x['v']
        if not c.ob(v in got, 'log-owner', 'log() queues a message that it neither allocated nor removed from the pool', e):
            continue
        c.ob(len(got) == 1, 'log-one', 'log() takes %d messages for one call' % len(got), e)
        c.ob(got[v] < push[0], 'log-order', 'log() queues a message it does not own yet', e)
        r = v[1] if v[0] == '&' else ('S', v)
        for f in FIELDS:
            if f in ('line', 'level'):
                x = p.st.mem.get(r, {}).get(offs[f], (0, None))[1]
            else:
                x = models.sget(p.I, p.st, ptr(r, offs[f]) if v[0] == '&' or offs[f] else v)
            c.ob(x == want[f], 'field-' + f, 'the %s of a queued message is not the one given to log()' % f, e)
        for y in ev[push[0] + 1:]:
            if touches(y, v) or y.kind == 'delete' and y.args[0] == v or y.kind == 'op' and '.push' in y.name and y.x.get('v') == v:
                c.ob(False, 'log-after', 'log() still uses a message after it was queued', y)
                break
        bad = [y for y in ev[:push[0]] if y.kind == 'delete' and y.args[0] == v]
        c.ob(not bad, 'log-deleted', 'log() queues a deleted message', e)
    c.ob(sent > 0, 'log-sends', 'log() never queues a message')
    # ------------------------------------------------------------ log(Message*)
    mp = ptr(('P', m.param(LS + 'log', 1, 'Message')), 0)
    for p in m.logM():
        push = [e for e in p.events if e.kind == 'op' and '.push' in e.name and addr(e.args[0])[0] == THIS]
        c.ob(p.status == 'ret' and len(push) == 1 and addr(push[0].args[0]) == q and push[0].x['v'] == mp, 'send', 'log(Message*) does not queue its message exactly once', push[-1] if push else last(p))
        c.ob(not [e for e in p.events if e.kind in ('delete', 'new')], 'send-free', 'log(Message*) frees or allocates', last(p))
        if push:
            i = p.events.index(push[0])
            for y in p.events[i + 1:]:
                c.ob(not touches(y, mp), 'send-after', 'log(Message*) still uses the message after it was queued', y)
    # ------------------------------------------------------------ the logging thread
    #   (status, message, elements read from the queue)      status: none, held, done
    def step(st, e):
        s, v, rd = st
        if e.kind == 'rd' and e.args[0][1][0] == 'el' and e.args[0][1][1] == q:
            return (s, v, rd + ((e.args[1], e.args[0][1][3]),))
        x = removed(e, q, None)
        if x is not None:
            if x == '?':
                return ('?', None, ())
            r = [t for t, k in rd if k == x or truth(e.facts, eq(k, x)) is True]
            return ('held' if r else 'dropped', r[-1] if r else None, ())
        if v is not None:
            if s == 'held' and truth(e.facts, eq(v, 0)) is True:
                return ('done', v, rd)
            if e.kind == 'delete' and e.args[0] == v:
                return ('done' if s == 'held' else 'twice', v, rd)
            if e.kind == 'op' and '.push' in e.name and e.x.get('v') == v:
                return ('done' if s == 'held' else 'twice', v, rd)
        if e.kind == 'lock' and e.x['loc'] == qm:
            return (s, v, ())
        return (s, v, rd)
    qm = None
    for p in m.logM():
        for e in p.events:
            if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == q:
                h = held(e)
                qm = h[-1] if h else None
    F = Fold(('none', None, ()), step)
    keep = lambda I, S: m.keepsize(I, S, q, pool) + m.keepflags(I, S)
    shared = {q[1], pool and pool[1]} | set(m.flags())
    taken = back = freed = 0
    for p in m.thread(merge=lambda S: F.at(S)[0], mergekeep=keep, concurrent=True, stable=lambda r, o: r != THIS or o not in shared):
        for e, a, b in F.along(p):
            if b[0] == '?' and a[0] != '?':
                raise Broken('the logging thread empties the queue in a way this analysis does not follow (%s)' % c.at(e))
            if removed(e, q, None) is not None:
                taken += 1
                c.ob(b[0] == 'held', 'thread-dropped', 'the logging thread removes a message from the queue without using it', e)
                c.ob(a[0] in ('none', 'done'), 'thread-leak', 'the logging thread takes the next message although the former one was neither returned to the pool nor freed', e)
            if b[0] == 'twice' and a[0] != 'twice':
                c.ob(False, 'thread-twice', 'the logging thread gives back a message twice', e)
            if b[0] == 'done' and a[0] == 'held':
                c.ok()
                if e.kind == 'delete':
                    freed += 1
                elif e.kind == 'op' and e.x.get('v') == a[1]:
                    back += 1
                    c.ob(pool is not None and addr(e.args[0]) == pool, 'thread-back', 'the logging thread puts a handled message into another container than the pool', e)
            elif e.kind == 'delete' and b[1] is not None and e.args[0] != b[1] and e.args[0][0] == 'ld' and e.args[0][1][0] == 'el' and e.args[0][1][1] in (q, pool):
                c.ob(False, 'thread-foreign', 'the logging thread frees a message that is not its own', e)
            if e.kind == 'vcall' and e.name == m.onMessage:
                c.ob(a[0] == 'held' and any(x == a[1] for x in e.args[1:]), 'deliver', 'a listener is given a message that the logging thread does not own at that point', e)
            if a[0] in ('done', 'twice') and a[1] is not None and touches(e, a[1]):
                c.ob(False, 'thread-after', 'the logging thread uses a message after it gave it back', e)
            if a[0] == 'none' and e.kind == 'vcall' and e.name == m.onMessage:
                c.ob(False, 'deliver', 'a listener is called without a message', e)
            if e.kind == 'need' and addr(e.args[0]) == q:
                c.ob(truth(e.facts, lt(e.args[2], e.args[1])) is True, 'thread-empty', 'the logging thread can take a message from the empty queue', e)
            if e.kind in ('wait',) or e.kind == 'lock' and e.x['loc'] == qm:
                c.ob(b[0] != 'held', 'thread-leak', 'the logging thread goes on although its message was neither returned to the pool nor freed', e)
            if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == pool and e.x.get('v') != b[1]:
                c.ob(False, 'thread-back', 'the logging thread puts something else than its message into the pool', e)
        if p.status == 'ret':
            c.ob(F.along(p)[-1][2][0] != 'held', 'thread-leak', 'the logging thread ends with a message in its hands', last(p))
    c.ob(taken > 0 and back + freed > 0, 'thread-takes', 'the logging thread never takes or never gives back a message')
    c.extra['thread'] = {'taken': taken, 'returned': back, 'freed': freed}
    # ------------------------------------------------------------ the initial pool
    for p in m.runs(LS + 'LogSystem', 'C2'):
        vs = []
        for e in p.events:
            if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == pool:
                v = e.x['v']
                c.ob(v not in vs and any(x.kind == 'new' and x.ret == v for x in p.events), 'init', 'the pool is filled with the same message twice, or with one that was not allocated', e)
                vs.append(v)
    c.sample('queue at offset %s, pool at %s, message fields at %s' % (q[1], pool and pool[1], offs_s(offs)))

def offs_s(o):
    return ', '.join('%s %s' % kv for kv in o.items())

def m_size(m, ev):
    if not hasattr(m, '_ms'):
        n = [e.args[0] for p in m.runs(LS + 'LogSystem', 'C2') for e in p.events if e.kind == 'new' and any(x.kind == 'op' and '.push' in x.name and x.x.get('v') == e.ret for x in p.events)]
        m._ms = n[0] if n else None
    return m._ms if m._ms is not None else [e.args[0] for e in ev if e.kind == 'new'][0]

main(Check('C04', 'abstract paths of log(...), log(Message*), construction and the logging thread: every message follows free -> owned by the producer -> queued -> owned by the thread -> pool or freed, '
           'with no access outside ownership; the five fields at the time of queueing', UNITS, 100), body)
