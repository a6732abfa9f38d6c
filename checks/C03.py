#!/usr/bin/env python3
"""Starting, stopping and destroying the logging system."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

THIS = ('P', 'this')

def body(c):
    m = Log(c)
    tp = m.threadptr()
    tptr = (THIS, tp)
    # the flag: what stop() writes and the thread reads
    cut = m.thread()
    wr = {o: w for o, (n, w) in m.flags().items()}
    flags = list(wr)
    if not c.ob(len(flags) >= 1, 'request', 'stop() changes nothing that the logging thread looks at', [e for p in m.runs(LS + 'stop') for e in p.events][-1]):
        return
    if len(flags) != 1 or len(wr[flags[0]]) != 1 or not isinstance(list(wr[flags[0]])[0], int):
        raise Broken('the stop request')
    flag, stopv = flags[0], list(wr[flags[0]])[0]
    cv = {(e.x['loc'], e.x['mtx']) for p in cut for e in p.events if e.kind == 'wait'}
    if not c.ob(len(cv) >= 1, 'wait', 'the logging thread never waits'):
        return
    if len(cv) != 1:
        raise Broken('several condition variables')
    cvl, mtx = cv.pop()

    def stopset(F, v):
        return truth(F, neg(eq(v, 0)) if stopv else eq(v, 0))

    # ---------------------------------------------------------------- start
    for p in m.runs(LS + 'start') + m.runs(LS + 'start', new_throw=True):
        ev = p.events
        r = [i for i, e in enumerate(ev) if e.kind in ('rd', 'op') and e.args and addr(e.args[0]) == tptr and e.x.get('rw') in (None, 'r')]
        sp = [i for i, e in enumerate(ev) if e.kind == 'spawn']
        if not c.ob(bool(r), 'start-look', 'start() does not look whether the thread runs', last(p)):
            continue
        v = ev[r[0]].args[1] if ev[r[0]].kind == 'rd' else ev[r[0]].ret
        none = truth(p.facts, eq(v, 0))
        if p.status != 'ret':
            c.ob(not sp and none is True, 'start-fail', 'start() fails after it started the thread', last(p))
            continue
        if none is True:
            if not c.ob(len(sp) == 1, 'start-spawn', 'start() starts %d threads although none runs' % len(sp), last(p)):
                continue
            # the flag at that point
            fl = [e for e in ev[:sp[0]] if e.kind == 'wr' and addr(e.args[0]) == (THIS, flag)]
            c.ob(bool(fl) and stopset(p.facts, fl[-1].args[1]) is False, 'start-flag', 'the thread is started while a former stop request still stands: it would end at once', ev[sp[0]])
            st = [e for e in ev[sp[0]:] if e.kind in ('wr', 'op') and addr(e.args[0]) == tptr and (e.kind == 'wr' or e.x.get('rw') == 'w')] or ([ev[sp[0]]] if addr(ev[sp[0]].args[0]) == tptr else [])
            c.ob(len(st) >= 1, 'start-record', 'start() does not record the thread it started', ev[sp[0]])
            for s in st:
                c.ob(set(held(ev[r[0]])) & set(held(s)) & set(held(ev[sp[0]])) - {mtx} != set(), 'start-atomic', 'two simultaneous calls of start() can both start a thread: looking and starting are not one locked step', s)
            c.ob(not [e for e in ev[sp[0]:] if e.kind == 'tdetach'], 'start-detach', 'the thread is detached: stop() cannot wait for it', ev[sp[0]])
        elif none is False:
            c.ob(not sp, 'start-twice', 'start() starts a second thread while one runs', ev[sp[0]] if sp else None)
            fl = [e for e in ev if e.kind == 'wr' and addr(e.args[0])[0] == THIS]
            c.ob(not fl, 'start-running', 'start() changes the state of a running system', fl[0] if fl else None)
        else:
            c.ob(False, 'start-look', 'start() does not decide whether the thread runs', last(p))
    # ---------------------------------------------------------------- stop
    def stopping(p, key, what):
        ev = p.events
        r = [i for i, e in enumerate(ev) if e.kind in ('rd', 'op') and e.args and addr(e.args[0]) == tptr and e.x.get('rw') in (None, 'r')]
        j = [i for i, e in enumerate(ev) if e.kind == 'join']
        if not c.ob(bool(r), key + '-look', '%s does not look whether the thread runs' % what, last(p)):
            return
        v = ev[r[0]].args[1] if ev[r[0]].kind == 'rd' else ev[r[0]].ret
        none = truth(p.facts, eq(v, 0))
        if p.status == 'cut' and not j:
            return
        c.ob(p.status in ('ret', 'cut'), key + '-exit', '%s can end by %s' % (what, p.status), last(p))
        if none is True:
            c.ob(not j, key + '-none', '%s joins a thread that does not run' % what, ev[j[0]] if j else None)
            return
        if not c.ob(none is False and len(j) == 1, key + '-join', '%s can return while the logging thread runs' % what, last(p)):
            return
        j = j[0]
        fl = [i for i, e in enumerate(ev[:j]) if e.kind == 'wr' and addr(e.args[0]) == (THIS, flag)]
        if not c.ob(bool(fl) and all(stopset(p.facts, ev[i].args[1]) is True for i in fl), key + '-flag', '%s waits for a thread that was not asked to end' % what, ev[j]):
            return
        c.ob(mtx in held(ev[fl[0]]), key + '-flaglock', 'the stop request is made without the mutex of the waiting thread: it can fall between its test and its wait and get lost', ev[fl[0]])
        nt = [i for i, e in enumerate(ev[:j]) if e.kind == 'notify' and e.x['loc'] == cvl and i > fl[0]]
        c.ob(bool(nt), key + '-notify', 'the waiting thread is not woken up after the stop request', ev[fl[0]])
        c.ob(mtx not in held(ev[j]), key + '-joinlock', '%s joins while holding the mutex the thread needs' % what, ev[j])
        tv = ev[j].args[0]
        c.ob(tv == v or addr(tv) == tptr, key + '-which', 'another thread is joined', ev[j])
        bad = [e for e in ev[:j] if e.kind in ('thread.dtor', 'tdetach') and e.args[0] == tv]
        c.ob(not bad, key + '-early', 'the thread object is destroyed before the thread was joined', bad[0] if bad else None)
        z = [e for e in ev[r[0]:] if e.kind in ('wr', 'op') and addr(e.args[0]) == tptr and (e.kind == 'wr' and e.args[1] == 0 or e.kind == 'op' and e.x.get('rw') == 'w')]
        c.ob(bool(z) or addr(tv) == tptr, key + '-forget', 'after %s the system still holds the thread that has ended' % what, ev[j])
        if z and z[-1].kind == 'wr' and addr(tv) != tptr:
            # a plain pointer: nobody else releases the object
            freed = [e for e in ev[j:] if e.kind == 'thread.dtor' and e.args[0] == tv or e.kind == 'sp.release' and tv in e.args]
            c.ob(bool(freed), key + '-leak', '%s loses the thread object that start() allocated' % what, z[-1])
        common = set(held(ev[r[0]])) & set(held(ev[j])) & set(held(z[-1]) if z else held(ev[j])) - {mtx}
        c.ob(bool(common), key + '-atomic', 'two simultaneous calls of stop(), or start() and stop(), can overlap: looking, joining and forgetting are not one locked step', ev[j])
    for p in m.runs(LS + 'stop'):
        stopping(p, 'stop', 'stop()')
        c.ob(p.status == 'ret', 'stop-exit', 'stop() ends by %s' % p.status, last(p))
    # start and stop exclude each other
    def guard(f):
        g = None
        for p in m.runs(LS + f):
            for e in p.events:
                if e.kind in ('rd', 'op', 'wr') and e.args and addr(e.args[0]) == tptr:
                    h = set(held(e))
                    g = h if g is None else g & h
        return g or set()
    c.ob(bool(guard('start') & guard('stop')), 'exclusive', 'start() and stop() do not exclude each other')
    # ---------------------------------------------------------------- the thread
    def keep(I, S):
        q = models.cont(I, S, ptr(*m_queue))[2]
        return [eq(I.read(S, ptr(THIS, flag), fsize), stopv), eq(q, 0)]
    m_queue = m.queue
    fsize = [e.x['size'] for p in cut for e in p.events if e.kind == 'rd' and addr(e.args[0]) == (THIS, flag)][0]
    waits = pops = rets = 0
    for p in m.thread(mergekeep=keep, concurrent=True, stable=lambda r, o: r != THIS or o not in (flag, m.queue[1])):
        F = None
        fl = q = None
        since = None      # what is known since the mutex was taken (or waiting gave it back)
        for i, e in enumerate(p.events):
            if e.kind == 'lock' and e.x['loc'] == mtx:
                F, fl, q = interp.Facts(), None, None
            elif e.kind == 'unlock' and e.x['loc'] == mtx:
                since, F = (F, fl), None
            elif e.kind == 'if' and F is not None:
                fs = assume(F, tobool(e.name), e.args[0])
                F = fs[0] if fs else (assume(interp.Facts(), tobool(e.name), e.args[0]) or [F])[0]     # another path joined here
            elif e.kind == 'rd' and addr(e.args[0]) == (THIS, flag):
                fl = e.args[1]
                if F is None:
                    since = (p.facts, fl)
            elif e.kind == 'op' and addr(e.args[0]) == m.queue:
                if e.name.endswith(('.empty', '.size')) and e.ret is not None:
                    q = e.ret
                if '.pop' in e.name or e.name.endswith(('.clear', '.swap')):
                    pops += 1
                    c.ob(F is not None and fl is not None and stopset(F, fl) is False, 'thread-go-on', 'after a stop request the thread can still take another message from the queue', e)
            elif e.kind == 'wait':
                waits += 1
                c.ob(F is not None and fl is not None and stopset(F, fl) is False, 'wait-flag', 'the thread can start to wait although stop was requested: the request is missed and stop() hangs', e)
                c.ob(F is not None and q is not None and truth(F, eq(q, 0)) is True, 'wait-queue', 'the thread can start to wait although a message is queued: its wake-up was already given', e)
                F, fl, q = interp.Facts(), None, None
        if p.status == 'ret':
            rets += 1
            F, fl = since if F is None and since is not None else (F, fl)
            c.ob(F is not None and fl is not None and stopset(F, fl) is True, 'thread-end', 'the logging thread can end although no stop was requested', last(p))
        elif p.status != 'cut':
            c.ob(False, 'thread-exit', 'the logging thread ends by %s' % p.status, last(p))
    c.ob(rets > 0, 'thread-stop', 'the logging thread never ends')
    c.extra['thread'] = {'waits': waits, 'messages taken': pops, 'ends': rets}
    # ---------------------------------------------------------------- queueing wakes the thread
    for name, ps in (('log(Message*)', m.logM()), ('log(...)', m.log5())):
        for p in ps:
            pu = [i for i, e in enumerate(p.events) if e.kind == 'op' and '.push' in e.name + ' ' and addr(e.args[0]) == m.queue]
            for i in pu:
                e = p.events[i]
                c.ob(mtx in held(e), 'queue-lock', '%s queues the message without the mutex of the waiting thread' % name, e)
                c.ob(p.status != 'ret' or [x for x in p.events[i:] if x.kind == 'notify' and x.x['loc'] == cvl], 'queue-notify', '%s queues a message without waking the thread up' % name, e)
    # ---------------------------------------------------------------- construction
    sn = ('B', 'arg', m.param(LS + 'LogSystem', 1, 'C2'))
    for p in m.runs(LS + 'LogSystem', 'C2'):
        if p.status != 'ret':
            continue
        sp = [e for e in p.events if e.kind == 'spawn']
        want = truth(p.facts, neg(sn))
        if want is None:
            c.ob(False, 'ctor', 'construction does not decide whether to start', last(p))
            continue
        c.ob(len(sp) == (0 if want else 1), 'ctor', 'construction %s the logging thread' % ('starts' if want else 'does not start'), sp[0] if sp else last(p))
    # ---------------------------------------------------------------- destruction
    n = 0
    pools = {loc for loc in containers(m)}
    seen = {loc: False for loc in pools}
    for p in m.runs(LS + '~LogSystem', 'D2'):
        stopping(p, 'dtor', 'destruction')
        stopped = None
        for i, e in enumerate(p.events):
            if m.stopped(p, i):
                stopped = i
            if e.kind == 'delete' and isinstance(e.args[0], tuple) and e.args[0][0] == 'ld' and e.args[0][1][0] == 'el':
                c.ob(stopped is not None, 'dtor-order', 'messages are freed while the logging thread can run', e)
        for loc in pools:
            n += drained(c, p, loc, seen)
    for loc in pools:
        c.ob(seen[loc], 'dtor-free', 'the messages of %s are not freed at destruction' % ('the queue' if loc == m.queue else 'the pool'), [e for p in m.runs(LS + '~LogSystem', 'D2') for e in p.events][-1])
    c.extra['elements freed'] = n
    c.sample('flag at offset %d, stop value %r; thread pointer at %d; condition variable at %d with mutex at %d' % (flag, stopv, tp, cvl[1], mtx[1]))

def containers(m):
    """the containers that own messages: the queue, and where unused ones are kept"""
    r = {m.queue}
    for p in m.runs(LS + 'LogSystem', 'C2'):
        for e in p.events:
            if e.kind == 'op' and '.push' in e.name and addr(e.args[0])[0] == THIS:
                r.add(addr(e.args[0]))
    return r

def exhausted(p, loc):
    """the last look at the container found its end: nothing left in it, or the iteration at its size"""
    for e in reversed(p.events):
        if e.kind == 'op' and addr(e.args[0]) == loc and e.x.get('size') is not None and truth(p.facts, eq(e.x['size'], 0)) is True:
            return True
        if e.kind == 'if':
            t, v = e.name, e.args[0]
            while t[0] == 'not':
                t, v = t[1], not v
            if t[0] == 'eq0' and v or t[0] == 'lt0' and not v:
                k, at = lin(t[1])
                cs = [x for x in at if x[0] == 'csz']
                if k == 0 and len(cs) == 1 and (cs[0][1] == loc or cs[0][1] == 'w'):
                    rest = [x for x in at if x != cs[0]]
                    if not rest or len(rest) == 1 and rest[0][0] == 'cnt' and at[rest[0]] == -at[cs[0]]:
                        return True
    return False

def drained(c, p, loc, seen):
    """every element met on this path is freed exactly once and none is left out"""
    els = {}
    pos = None
    for e in p.events:
        for t in [e.args[1]] if e.kind == 'rd' else [e.args[0]] if e.kind == 'delete' else []:
            if isinstance(t, tuple) and t[0] == 'ld' and t[1][0] == 'el' and t[1][1] == loc:
                k = els.setdefault(t, [0, e])
                if e.kind == 'delete':
                    k[0] += 1
                    seen[loc] = True
        if e.kind == 'itmove' and e.name == 'operator++' and len(e.args) == 3 and e.args[1][0] == 'it' and e.args[1][1] == loc:
            a, b = e.args[1], e.args[2]
            c.ob(truth(p.facts, eq(sub(b[3], a[3]), 1)) is True, 'dtor-skip', 'destruction skips messages', e)
            if pos is None:
                c.ob(truth(p.facts, eq(a[3], 0)) is True, 'dtor-first', 'destruction does not start with the first message', e)
            pos = b
    fin = p.status == 'ret'
    for t, (k, e) in els.items():
        nul = truth(p.facts, eq(t, 0))
        if fin or list(els)[-1] != t:
            c.ob(k == 1 or k == 0 and nul is True, 'dtor-leak', 'a message is freed %d times at destruction' % k, e)
    if fin:
        c.ob(exhausted(p, loc), 'dtor-rest', 'destruction leaves messages behind', last(p))
    return len(els)

main(Check('C03', 'all abstract paths of construction, start(), stop(), log() and destruction, and of the logging thread: check-and-act under one lock; request, wake-up, join in this order; '
           'the thread waits only after it saw, under the same hold of the mutex, neither request nor message; it returns only on request', UNITS, 200), body)
