#!/usr/bin/env python3
"""No deadlock in the logging system."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

SHAPES = ((1, 0), (0, 1), (2, 0)) if os.environ.get('VERIF_TIER') != 'thorough' else ((1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1))

def body(c):
    m = Log(c)
    edges = {}
    def edge(a, b, e, name):
        edges.setdefault(a, {}).setdefault(b, (e, name))
    taken = {}
    for ctx, name, paths, pm in m.entries(True):
        for p in paths:
            if p.status in ('ret', 'throw'):
                c.ob(not p.st.locks, 'leak', '%s can %s without releasing %s' % (name, 'return' if p.status == 'ret' else 'be left by an exception', ','.join(nm(m.place(l[0], pm)) for l in p.st.locks)), last(p))
            elif p.status == 'terminate' and ctx != 'T':
                pass
            for e in p.events:
                if e.kind == 'lock':
                    l = m.place(e.x['loc'], pm)
                    if l is None:
                        continue
                    H = [m.place(h[0], pm) for h in e.x['held']]
                    c.ob(e.x['loc'] not in [h[0] for h in e.x['held']], 'relock', '%s locks %s again while holding it' % (name, nm(l)), e)
                    taken.setdefault(l, set()).add(name)
                    for h in H:
                        if h is not None:
                            # two listeners: the same lock of another object
                            edge(h, l, e, name)
                    if ctx == 'T':
                        edge('thread', l, e, name)
                elif e.kind == 'unlock':
                    c.ob(e.x['loc'] in [h[0] for h in e.x['held']], 'unlock', '%s unlocks %s, which it does not hold' % (name, nm(m.place(e.x['loc'], pm))), e)
                elif e.kind == 'join':
                    for h in e.x['held']:
                        l = m.place(h[0], pm)
                        if l is not None:
                            edge(l, 'thread', e, name)
                    c.ok()
                elif e.kind == 'wait':
                    hs = [h[0] for h in e.x['held']]
                    c.ob(hs == [e.x['mtx']], 'wait', '%s waits while holding %s' % (name, [nm(m.place(h, pm)) for h in hs if h != e.x['mtx']] or 'nothing'), e)
                elif e.kind == 'vcall' and 'Listener' in str(e.x.get('cls')):
                    # application code runs here: it may use the logging system
                    t = {m.onMessage: 'onMessage()', m.vEnable: 'enable()', m.vDetach: 'detach()'}.get(e.name)
                    if t:
                        H = [m.place(h[0], pm) for h in e.locks]
                        c.ob(not [h for h in H if h], 'callback', '%s calls the listener\'s %s while holding %s' % (name, t, [nm(h) for h in H]), e)
                elif e.kind == 'sleep' or e.kind == 'input':
                    c.ob(not e.locks, 'blocking', '%s blocks while holding a lock' % name, e)
    if not taken:
        raise Broken('no lock of the logging system is ever taken')
    # a cycle in the order in which locks are taken
    c.extra['locks'] = {nm(k): sorted(v) for k, v in taken.items()}
    c.extra['order'] = ['%s -> %s (%s, %s)' % (nm(a), nm(b), c.at(e), n) for a in edges for b, (e, n) in edges[a].items()]
    for a in list(edges):
        for b in edges[a]:
            path = reach(edges, b, a)
            e, n = edges[a][b]
            c.ob(path is None, 'order', '%s takes %s while holding %s, but %s' % (n, nm(b), nm(a), '; '.join('%s takes %s while holding %s (%s)' % (edges[x][y][1], nm(y), nm(x), c.at(edges[x][y][0])) for x, y in path or [])) , e)
    for s in c.extra['order'][:10]:
        c.sample(s)
    dismissed(c, m)

class Held:
    """who keeps the listeners alive: the containers and the pointers of one path"""
    def __init__(self, m, na, np):
        self.L = Lists()
        self.names = ['a%d' % i for i in range(na)] + ['n%d' % i for i in range(np)]
        self.L.set(m.active, self.names[:na])
        self.L.set(m.pending, self.names[na:])
        self.ptr, self.src, self.any = {}, None, {}
        self.lost = False       # a container is not followed any more

    def key(self, t):
        """the element a place or a value denotes"""
        if isinstance(t, tuple) and t and t[0] == 'ld' and t[1][0] == 'el':
            t = ('&', t[1], 0)
        r = addr(t)[0] if isinstance(t, tuple) and t and t[0] == '&' else None
        if r is None:
            return None
        if r[0] == 'el':
            return self.L.el(r) or r
        return self.ptr.get(addr(t))

    def alive(self):
        s = set(self.ptr.values())
        for l in list(self.L.l.values()) + list(self.any.values()):
            s |= set(l or ())
        return s

    def step(self, e):
        if e.kind == 'sp.release':
            self.ptr.pop(addr(e.args[0]), None)
            return
        if e.kind != 'op' or not e.args:
            return
        l = addr(e.args[0])
        if e.name.startswith('shared_ptr.'):
            k = e.name.split('.')[-1]
            if k in ('copyfrom', 'movefrom'):
                self.src = self.key(e.args[0])
                if k == 'movefrom':
                    self.ptr.pop(l, None)
            elif e.x.get('rw') == 'dtor' or k in ('reset',):
                self.ptr.pop(l, None)
            elif self.src is not None and e.x.get('rw') in ('init', 'w') and l[0][0] != 'el':
                self.ptr[l] = self.src
                self.src = None
            return
        if e.x.get('rw') == 'dtor':
            self.L.l.pop(l, None)
            self.any.pop(l, None)
            return
        if '.push' in e.name or '.emplace' in e.name or '.insert' in e.name:
            w = self.key(e.x.get('v')) or self.key(e.args[-1])
            if w is not None:
                self.any.setdefault(l, set()).add(w)
        elif e.name.endswith('.swap') and len(e.args) > 1:
            o = addr(e.args[1])
            self.any[l], self.any[o] = self.any.get(o, set()), self.any.get(l, set())
        elif e.name.endswith('.clear') or e.name.split('.')[-1] in ('pop_back', 'pop_front', 'erase'):
            self.any.pop(l, None)
        was = self.L.l.get(l)
        self.L.step(e)
        if was is not None and self.L.l.get(l) is None and l in self.L.l:
            self.lost = True

def dismissed(c, m):
    """a listener leaves the list while a lock is held: something else must keep it until the lock is released, because its destruction runs application code"""
    n = gone = 0
    for na, np in SHAPES:
        for p in m.one(na, np):
            H = Held(m, na, np)
            out = set()
            for e in p.events:
                if e.kind == 'op' and e.name == 'range.remove_if' and e.x.get('rw') == 'w' and addr(e.args[0]) in (m.active, m.pending):
                    n += 1
                    if e.x['keep'] is None or truth(e.facts, e.x['keep']) is not True:
                        r = addr(e.x['el'])[0]
                        if not e.locks:
                            continue
                        gone += 1
                        H.L.l[addr(e.args[0])] = None
                        c.ob(r in H.alive(), 'dismiss', 'a listener is removed from the list, and so destroyed, while %s is held, and nothing keeps it' % ','.join(nm(m.place(h[0], {'this': 'Sys'})) for h in e.locks), e)
                    continue
                if e.kind == 'sp.release' or e.kind == 'op' and (e.x.get('rw') in ('w', 'dtor', 'init') or e.name.split('.')[-1] in ('copyfrom', 'movefrom')):
                    a = H.alive()
                    H.step(e)
                    if H.lost:
                        H.lost = False
                        continue
                    if e.kind == 'op' and e.name.endswith('.erase') and e.x.get('it2') is not None and not isinstance(e.x['it'][3], int):
                        continue
                    for w in sorted(a - H.alive(), key=str):
                        n += 1
                        if isinstance(w, str) and w not in H.names:
                            continue
                        gone += 1
                        c.ob(not e.locks, 'dismiss', 'the last pointer to a listener that left the list is dropped, and so the listener destroyed, while %s is held' % ','.join(nm(m.place(h[0], {'this': 'Sys'})) for h in e.locks), e)
    c.extra['dismissed listeners'] = {'paths that remove a listener': gone}
    if not gone:
        raise Broken('how dismissed listeners leave the list is not followed')
    for ctx, name, paths, pm in m.entries(True):
        if ctx in 'TID':
            continue
        for p in paths:
            for i, e in enumerate(p.events):
                if e.kind == 'op' and e.x.get('rw') == 'w' and e.locks and m.place(addr(e.args[0]), pm) in [m.place(l, {'this': 'Sys'}) for l in (m.active, m.pending)] and e.name.split('.')[-1] in ('clear', 'erase', 'pop_back', 'pop_front', 'resize', 'operator=', 'assign', 'remove_if'):
                    c.ob(False, 'dismiss', '%s removes listeners while a lock is held' % name, e)

def reach(g, a, b):
    """edges of a path from a to b"""
    todo, seen = [(a, ())], {a}
    if a == b:
        return []
    while todo:
        x, p = todo.pop()
        for y in g.get(x, ()):
            if y == b:
                return list(p) + [(x, y)]
            if y not in seen:
                seen.add(y)
                todo.append((y, p + ((x, y),)))
    return None

def nm(l):
    if l == 'thread':
        return 'the end of the logging thread'
    if l is None:
        return 'another lock'
    return {'Sys': 'the log system\'s mutex at offset %s', 'Lst': 'a listener\'s mutex at offset %s'}.get(l[0], str(l[0]).replace('%', '') + '+%s') % (l[1],)

main(Check('C02', 'every abstract path of the public operations and of the logging thread: locks are released on every exit, none is taken twice, the order in which they are nested (with joining the thread '
           'counted as waiting for every lock the thread takes) has no cycle, waiting releases everything held, listeners are called without locks; who keeps a listener alive when it leaves the list under a lock', UNITS, 60), body)
