#!/usr/bin/env python3
"""The message pool is bounded and the diagnostics of the log system tell the truth."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

THIS = ('P', 'this')
COUNT = {'poolSize': 'the size of the pool', 'maxMsgQueueSize': 'the highest size of the queue', 'msgReceived': 'the number of messages handled', 'msgsCreated': 'the number of messages allocated',
         'msgsDiscarded': 'the number of messages freed', 'pendingListeners': 'the number of listeners waiting to be adopted', 'activeListeners': 'the number of active listeners', 'enabledListeners': 'the number of active listeners that are enabled'}

def incs(e, cell):
    """what an event adds to a counter: 0, or a number; None when it is something else"""
    if e.kind == 'atomic' and e.name.startswith('rmw') and addr(e.args[0]) == cell:
        v = e.args[1]
        return v if e.name == 'rmw add' and isinstance(v, int) else -v if e.name == 'rmw sub' and isinstance(v, int) else None
    if e.kind == 'atomic' and e.name == 'cas' and addr(e.args[0]) == cell:
        d = sub(e.args[2], e.args[1])
        return (d if isinstance(d, int) else None) if e.x['ok'] else 0
    return 0

def body(c):
    m = Log(c)
    q = m.queue
    T = [p.ret for p in m.runs(W + 'k_threshold')]
    if len(T) != 1 or not isinstance(T[0], int):
        raise Broken('the size of the pool')
    T = T[0]
    init = m.runs1(m.fn(LS + 'LogSystem', 'C2'), unroll=4 * T + 40, maxsteps=2000000)
    pools = {addr(e.args[0]) for p in init for e in p.events if e.kind == 'op' and '.push' in e.name and addr(e.args[0])[0] == THIS}
    if len(pools) != 1:
        raise Broken('the message pool')
    pool = pools.pop()
    msize = {e.args[0] for p in init for e in p.events if e.kind == 'new' and any(x.kind == 'op' and '.push' in x.name and x.x.get('v') == e.ret for x in p.events)}
    if len(msize) != 1:
        raise Broken('the size of a message')
    msize = msize.pop()
    for p in init:
        n = sum(1 for e in p.events if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == pool)
        c.ob(p.status == 'ret' and n == T, 'init', 'the pool starts with %s messages instead of %s' % (n if p.status == 'ret' else '?', T), last(p))
    # ------------------------------------------------------------ what getDiags reports
    src = {}
    D = m.param(LS + 'getDiags', 1)
    offs = {f: m.offset('d_' + f) for f in COUNT}
    en = {addr(e.args[0])[1] for p in m.runs(W + 'w_isEnabled') for e in p.events if e.kind == 'rd' and addr(e.args[0])[0][0] == 'P'}
    if len(en) != 1:
        raise Broken('where a listener keeps whether it is enabled')
    en = en.pop()
    def known(n):
        return lambda I, S, l: ('cont', ('c0', l, 0), n, None) if l == m.active else None
    for n in (0, 1, 2, 3):
        for p in c.run(m.fn(LS + 'getDiags'), cont_default=known(n), unroll=20)[0]:
            if not c.ob(p.status == 'ret', 'diag-exit', 'getDiags() does not return', last(p)):
                continue
            # which elements are enabled on this path
            seen = {}
            for e in p.events:
                if e.kind == 'rd' and addr(e.args[0])[1] == en and addr(e.args[0])[0][0] == 'S' and addr(e.args[0])[0][1][0] == 'ld' and addr(e.args[0])[0][1][1][0] == 'el':
                    el = addr(e.args[0])[0][1][1]
                    if el[1] == m.active:
                        seen[el[3]] = truth(p.facts, eq(e.args[1], 0))
            for f, o in offs.items():
                v = p.st.mem.get(('P', D), {}).get(o, (0, None))[1]
                if f == 'enabledListeners':
                    no = {k for k in seen if seen[k] is False}
                    c.ob(v == len(no) and set(seen) == set(range(n)) and None not in seen.values(), 'diag-enabled', 'getDiags() does not report %s' % COUNT[f], last(p))
                elif f == 'activeListeners':
                    c.ob(v == n, 'diag-' + f, 'getDiags() does not report %s' % COUNT[f], last(p))
                else:
                    src.setdefault(f, set()).add(v)
    def want(f, v):
        c.ob(src[f] == {v}, 'diag-' + f, 'getDiags() does not report %s' % COUNT[f], ('src/engine/logsystem.cpp', 'LogSystem::getDiags'))
    want('poolSize', ('csz', pool, 0))
    want('pendingListeners', ('csz', m.pending, 0))
    cell = {}
    for f in ('msgsCreated', 'msgsDiscarded', 'msgReceived', 'maxMsgQueueSize'):
        v = src[f]
        v = next(iter(v)) if len(v) == 1 else None
        if c.ob(isinstance(v, tuple) and v[0] == 'ld' and v[1] == THIS, 'diag-' + f, 'getDiags() does not report %s' % COUNT[f], ('src/engine/logsystem.cpp', 'LogSystem::getDiags')):
            cell[f] = (THIS, v[2])
    if len(cell) < 4:
        return
    c.ob(len(set(cell.values())) == 4, 'diag-same', 'getDiags() reports one counter twice', ('src/engine/logsystem.cpp', 'LogSystem::getDiags'))
    for p in init:
        for f, l in cell.items():
            c.ob(p.st.mem.get(THIS, {}).get(l[1], (0, None))[1] == 0, 'start-' + f, '%s does not start from zero' % f, last(p))
    # ------------------------------------------------------------ counters of the producers
    def whole(ev, l, f, e, private=False):
        """every update is one indivisible step, or is made under one lock (or by the one thread that ever does it)"""
        for i, e in enumerate(ev):
            if e.kind == 'wr' and addr(e.args[0]) == l and not private:
                h = set(held(e))
                for j in range(i - 1, -1, -1):
                    y = ev[j]
                    if y.kind == 'unlock':
                        h.discard(y.x['loc'])
                    if y.kind == 'rd' and addr(y.args[0]) == l:
                        break
                c.ob(h & always[f], 'lost-' + f, 'the update of %s can be lost: another thread can change it between reading and writing' % f, e)
    contexts = {'log(...)': m.log5(), 'log(Message*)': m.logM()}
    always = {}
    for f, l in cell.items():
        s = None
        for ps in contexts.values():
            for p in ps:
                for e in p.events:
                    if e.kind == 'wr' and addr(e.args[0]) == l:
                        s = set(held(e)) if s is None else s & set(held(e))
        always[f] = s or set()
    def change(ev, l):
        """by how much a path changes a counter"""
        t, rd = 0, None
        for e in ev:
            k = incs(e, l)
            if e.kind == 'wr' and addr(e.args[0]) == l:
                k = sub(e.args[1], rd) if rd is not None else None
                rd = e.args[1]
            if e.kind == 'rd' and addr(e.args[0]) == l:
                rd = e.args[1]
            if not isinstance(k, int):
                return None
            t += k
        return t
    for name, ps in contexts.items():
        for p in ps:
            if p.status != 'ret':
                continue
            n = sum(1 for e in p.events if e.kind == 'new' and e.args[0] == msize)
            for f in ('msgsCreated', 'msgsDiscarded', 'msgReceived'):
                c.ob(change(p.events, cell[f]) == (n if f == 'msgsCreated' else 0), 'count-' + f, '%s: %s is not changed as its meaning says' % (name, f), last(p))
                whole(p.events, cell[f], f, None)
            # the highest size of the queue
            l = cell['maxMsgQueueSize']
            pi = [i for i, e in enumerate(p.events) if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == q]
            old, new = ('ld', THIS, l[1], 0), p.I.read(p.st, ptr(*l), 8)
            if not pi:
                c.ob(new == old, 'max', '%s changes the highest size of the queue without queueing' % name, last(p))
                continue
            e = p.events[pi[-1]]
            n1 = add(e.x['size'], 1)
            c.ob(new in (old, n1) and truth(p.facts, lt(new, n1)) is False and truth(p.facts, lt(new, old)) is False, 'max', '%s: the highest size of the queue is not brought up to date' % name, e)
            # in the same hold as the push
            h = set(held(e))
            for i, y in enumerate(p.events):
                if y.kind in ('rd', 'wr') and addr(y.args[0]) == l:
                    a, b = sorted((i, pi[-1]))
                    c.ob(h and h <= set(held(y)) and not any(z.kind == 'unlock' and z.x['loc'] in h for z in p.events[a:b]), 'max-hold', '%s: the highest size of the queue is compared outside the lock that protects the push' % name, y)
    # the other functions leave the counters alone
    for f in ('addListener', 'start', 'stop', 'getDiags'):
        for p in m.runs(LS + f):
            for e in p.events:
                if e.kind in ('wr', 'atomic') and e.args and addr(e.args[0]) in cell.values() and not (e.kind == 'atomic' and e.name == 'cas' and not e.x['ok']):
                    c.ob(False, 'foreign', '%s() changes a counter' % f, e)
            c.ok()
    # ------------------------------------------------------------ the logging thread
    #   (removed - received, freed - discarded)
    def step(st, e):
        a, b, last_rd = st
        if e.kind == 'rd' and e.args[0][1][0] == 'el' and e.args[0][1][1] == q:
            last_rd = (('msg', e.args[1]),) + tuple(t for t in last_rd if t[0] != 'msg')
        # a queued pointer is never null
        if last_rd and last_rd[0][0] == 'msg' and truth(e.facts, eq(last_rd[0][1], 0)) is True:
            return ('?null', '?', ())
        if e.kind == 'op' and addr(e.args[0]) == q and e.x.get('rw') != 'r':
            k = e.name.split('.')[-1]
            if k in ('pop_front', 'pop_back') or k == 'erase' and e.x.get('it2') is None:
                a += 1
            elif k not in ('begin', 'end', 'front', 'back'):
                raise Broken('the logging thread changes the queue in a way this analysis does not follow (%s)' % c.at(e))
        if e.kind == 'delete' and (e.x or {}).get('size', msize) == msize and ismsg(e.args[0]):
            b += 1
        for f, w in (('msgReceived', 0), ('msgsDiscarded', 1)):
            k = incs(e, cell[f])
            if e.kind == 'wr' and addr(e.args[0]) == cell[f]:
                d = None
                for t in last_rd:
                    if t[0] == f:
                        d = sub(e.args[1], t[1])
                k = d if isinstance(d, int) else None
            if k is None:
                return ('?', '?', ())
            if w == 0:
                a -= k
            else:
                b -= k
        if e.kind == 'rd':
            for f in ('msgReceived', 'msgsDiscarded'):
                if addr(e.args[0]) == cell[f]:
                    last_rd = tuple(t for t in last_rd if t[0] != f) + ((f, e.args[1]),)
        return (a, b, last_rd)
    def ismsg(v):
        return isinstance(v, tuple) and v[0] == 'ld' and v[1][0] == 'el' and v[1][1] in (q, pool)
    S0 = (0, 0, ())
    def guarded(st, e):
        return st if st[0] in ('?', '?null') else step(st, e)
    F = Fold(S0, guarded)
    keep = lambda I, S: m.keepsize(I, S, q, pool) + m.keepflags(I, S)
    shared = {q[1], pool[1]} | set(m.flags()) | {l[1] for l in cell.values()}
    pushes = 0
    for p in m.thread(merge=lambda S: F.at(S)[:2], mergekeep=keep, concurrent=True, stable=lambda r, o: r != THIS or o not in shared):
        for e, a, b in F.along(p):
            if b[0] == '?null' or a[0] == '?':
                break
            if b[0] == '?':
                c.ob(False, 'count-thread', 'the logging thread sets a counter to something that is not a count', e)
            elif e.kind in ('wait',) or e.kind == 'loop' and e.depth == 1:
                c.ob(b[0] == 0, 'count-msgReceived', 'the logging thread handles a message and does not count it exactly once', e)
                c.ob(b[1] == 0, 'count-msgsDiscarded', 'the logging thread frees a message and does not count it exactly once', e)
            if e.kind in ('wr', 'atomic') and addr(e.args[0]) in (cell['msgsCreated'], cell['maxMsgQueueSize']) and not (e.kind == 'atomic' and e.name == 'cas' and not e.x['ok']):
                c.ob(False, 'foreign', 'the logging thread changes a counter of the producers', e)
            if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == pool:
                pushes += 1
                c.ob(truth(e.facts, lt(e.x['size'], T)) is True, 'bound', 'the pool can grow beyond %d messages' % T, e)
        if p.status == 'ret':
            b = F.along(p)[-1][2]
            c.ob(b[0] in (0, '?', '?null') and b[1] in (0, '?'), 'count-msgReceived', 'the logging thread ends with a message handled but not counted', last(p))
    for name, ps in contexts.items():
        for p in ps:
            for e in p.events:
                if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == pool:
                    pushes += 1
                    c.ob(truth(e.facts, lt(e.x['size'], T)) is True, 'bound', 'the pool can grow beyond %d messages' % T, e)
    c.extra['pool'] = {'limit': T, 'pushes': pushes}
    c.sample('counters at ' + ', '.join('%s %s' % (f, l[1]) for f, l in cell.items()))

main(Check('C05', 'abstract paths of construction, log(...), log(Message*), getDiags (0 to 3 listeners) and the logging thread: pool size under its lock at each return of a message, '
           'balance of each counter against the events it counts, origin of every reported figure', UNITS, 80), body)
