#!/usr/bin/env python3
"""Order of messages and of listeners; when a new listener joins."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

THIS = ('P', 'this')
SHAPES = ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)) if os.environ.get('VERIF_TIER') != 'thorough' else tuple((a, b) for a in range(4) for b in range(4) if a + b <= 4)

def taken(e, q):
    """position the event removes from the queue: 'front', 'back', '?' or None"""
    if e.kind != 'op' or e.x.get('rw') != 'w' or addr(e.args[0]) != q:
        return None
    k = e.name.split('.')[-1]
    if k == 'pop_front' or k == 'erase' and e.x.get('it2') is None and e.x['it'][3] == 0:
        return 'front'
    if k == 'pop_back' or k == 'erase' and e.x.get('it2') is None and e.x['it'][3] == sub(e.x['size'], 1):
        return 'back'
    return '?'

def body(c):
    m = Log(c)
    q, pend, act = m.queue, m.pending, m.active
    # ------------------------------------------------------------ the queue is first in, first out
    ends, outs = set(), set()
    for name, ps in (('log(...)', m.log5()), ('log(Message*)', m.logM())):
        for p in ps:
            for e in p.events:
                if e.kind == 'op' and e.x.get('rw') == 'w' and addr(e.args[0]) == q:
                    k = e.name.split('.')[-1]
                    if c.ob(k in ('push_back', 'push_front') or k == 'insert' and 'first' not in e.x and e.x['it'][3] in (0, e.x['size']), 'queue', '%s puts a message at no end of the queue' % name, e):
                        ends.add('back' if k == 'push_back' or k == 'insert' and e.x['it'][3] == e.x['size'] else 'front')
                        w = e
    where = None
    for p in m.thread():
        for e in p.events:
            t = taken(e, q)
            if t is not None:
                if not c.ob(t != '?', 'queue', 'the logging thread takes a message from no end of the queue', e):
                    continue
                outs.add(t)
                where = e
    c.ob(len(ends) == 1 and len(outs) == 1, 'fifo', 'messages are put at several ends of the queue, or taken from several', where)
    if len(ends) == 1 and len(outs) == 1:
        c.ob(ends != outs, 'fifo', 'messages are taken from the end of the queue where they are put: the latest is delivered first', where)
    for f in ('start', 'stop', 'addListener', 'getDiags'):
        for p in m.runs(LS + f):
            for e in p.events:
                c.ob(not (e.kind == 'op' and e.x.get('rw') == 'w' and addr(e.args[0]) == q), 'queue', '%s() changes the queue' % f, e)
    # ------------------------------------------------------------ registration
    L = m.param(LS + 'addListener', 1)
    lk = None
    for p in m.runs(LS + 'addListener'):
        w = [e for e in p.events if e.kind == 'op' and e.x.get('rw') == 'w' and addr(e.args[0])[0] == THIS]
        ok = c.ob(p.status == 'ret' and len(w) == 1 and addr(w[0].args[0]) == pend and '.push' in w[0].name and addr(w[0].args[1])[0] == ('P', L) or
                  len(w) == 1 and '.push' in w[0].name and addr(w[0].args[0]) == pend and w[0].x.get('v') == ('ld', ('P', L), 0, 0), 'register', 'addListener() does not queue its listener exactly once', last(p))
        if ok:
            lk = set(held(w[0])) if lk is None else lk & set(held(w[0]))
            front = w[0].name.endswith('front')
            c.ob(not front, 'register-order', 'addListener() puts the new listener before those that wait already', w[0])
    lk = lk or set()
    # ------------------------------------------------------------ adoption and dispatch
    calls = full = adopts = 0
    for na, np in SHAPES:
        names = ['a%d' % i for i in range(na)] + ['n%d' % i for i in range(np)]
        some, lost = False, None
        for p in m.one(na, np):
            L = Lists()
            L.set(act, names[:na])
            L.set(pend, names[na:])
            got, popped, msg = [], None, None
            looked = None       # first access to the waiting listeners in this round
            rds = {}
            for i, e in enumerate(p.events):
                if e.kind == 'rd' and e.args[0][1][0] == 'el' and e.args[0][1][1] == q:
                    rds[e.args[0][1][3]] = e.args[1]
                t = taken(e, q)
                if t is not None:
                    if popped is not None:
                        break
                    popped, msg = i, rds.get(0 if t == 'front' else None, next(iter(rds.values()), None))
                if e.kind == 'op' and addr(e.args[0]) == pend:
                    if e.x.get('rw') == 'w' and np:
                        c.ob(popped is not None, 'join-early', 'new listeners are adopted before a message was taken: one that is added while the thread waits misses the next message', e)
                    if looked is None:
                        looked = i
                    elif not (set(held(e)) & lk) or any(x.kind == 'unlock' and x.x['loc'] in lk for x in p.events[looked:i]):
                        if e.x.get('rw') == 'w':
                            c.ob(False, 'join-hold', 'the waiting listeners are changed in another hold of the lock than the one in which they were read: a listener added in between is lost', e)
                L.step(e)
                if e.kind == 'vcall' and e.name == m.onMessage:
                    calls += 1
                    w = L.who(e.args[0])
                    if L.l.get(act) is None:
                        lost = e
                        break
                    if not c.ob(w is not None and w in names, 'who', 'a listener is called that is not in the list (%d active, %d new)' % (na, np), e):
                        break
                    c.ob(not got or names.index(w) > names.index(got[-1]), 'order', 'listeners are not called once each, in the order in which they were added (%s after %s)' % (w, got and got[-1]), e)
                    got.append(w)
            if popped is None:
                continue
            if np and L.l.get(pend) is not None:
                adopts += 1
                c.ob(L.l[pend] == [] and (L.l.get(act) is None or sorted(L.l[act], key=names.index) == L.l[act]) if '?' not in (L.l.get(act) or ()) else False, 'join', 'after a message was taken, the new listeners do not follow the active ones in the list, in order', last(p))
            elif np:
                raise Broken('the waiting listeners are changed in a way this analysis does not follow')
            if got == names:
                some = True
                full += 1
        if lost and not some:
            raise Broken('the list of listeners is changed before the calls in a way this analysis does not follow (%s)' % c.at(lost))
        c.ob(some, 'all', 'no path calls all the listeners (%d active, %d new)' % (na, np), ('src/engine/logsystem.cpp', 'LogSystem::loggingThread'))
    c.extra['dispatch'] = {'shapes': len(SHAPES), 'calls': calls, 'paths calling all': full, 'adoptions': adopts}

main(Check('C06', 'ends of the message queue used by producers and by the logging thread; for every number of active and new listeners of the shape set, the lists followed through the operations of each abstract '
           'path of one round of the logging thread: adoption after the message is taken, in one hold of the lock, order of the calls', UNITS, 60), body)
