#!/usr/bin/env python3
"""Singletons: one instance, built once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *

ACC = {'g_get': 'get()', 'g_arrow': 'operator->', 'g_star': 'operator*', 'g_marrow': 'the mutable operator->', 'g_mstar': 'the mutable operator*', 'g_two': 'get() of two singleton objects'}
CTOR, DTOR = 'wit::Probe::Probe', 'wit::Probe::~Probe'

def cell(v):
    """the object a result denotes: a global, or the object that a global points to"""
    r, o = addr(v) if isinstance(v, tuple) else (('abs',), v)
    if r[0] == 'G' and o == 0:
        return ('at', r[1])
    if isinstance(v, tuple) and v[0] == 'ld' and v[1][0] == 'G':
        return ('in', v[1][1], v[2])
    return None

def body(c):
    seen = {}
    for w, what in ACC.items():
        ps, I = c.run(c.fn1('wit::' + w))
        c.ob(bool(ps), 'result', what + ' has no result')
        for p in ps:
            last = p.events[-1] if p.events else None
            if not c.ob(p.status in ('ret', 'cut'), 'exit', '%s ends in %s' % (what, p.status), last):
                continue
            held = None
            made = []
            stored = {}
            for e in p.events:
                if e.kind == 'if' and isinstance(e.name, tuple) and e.name[0] == 'B' and e.name[1] == 'guard' and e.args[0] is True:
                    held = e
                elif e.kind == 'guard.release':
                    held = None
                elif e.kind == 'ext' and e.name == CTOR:
                    made.append(e)
                    once = held is not None or any('call_once' in f for f in e.stack)
                    c.ob(once, 'once', '%s: the instance can be built by two threads at once (no one-time guard)' % what, e)
                    g = addr(e.args[0])[0]
                    if g[0] == 'G':
                        c.ob(not thread_local(c.P, g[1]), 'shared', '%s: each thread gets an instance of its own' % what, e)
                    else:
                        c.ob(g[0] == 'N', 'shared', '%s: the instance is not a global object' % what, e)
                elif e.kind == 'ext' and e.name == DTOR or e.kind == 'delete':
                    c.ob(False, 'lifetime', '%s: the instance is destroyed while it is in use' % what, e)
                elif e.kind == 'wr' and addr(e.args[0])[0][0] == 'G' and not addr(e.args[0])[0][1].startswith('_ZGV'):
                    g = addr(e.args[0])[0][1]
                    c.ob(held is not None or any('call_once' in f for f in e.stack), 'once', '%s: the instance is published without a one-time guard' % what, e)
                    c.ob(not thread_local(c.P, g), 'shared', '%s: each thread gets an instance of its own' % what, e)
                    stored[e.args[1]] = ('in', g, addr(e.args[0])[1])
            c.ob(len(made) <= 1, 'twice', '%s: the instance is built twice' % what, made[-1] if made else None)
            if p.status != 'ret':
                continue
            k = stored.get(p.ret) or cell(p.ret)
            if c.ob(k is not None, 'identity', '%s does not always lead to the one instance' % what, last):
                seen.setdefault(k, what)
                c.sample('%s -> %s %s' % (what, k[0], k[1]))
    c.ob(len(seen) <= 1, 'identity', 'the accessors lead to different instances: %s' % ', '.join('%s %s' % (v, k[1]) for k, v in seen.items()))

main(Check('C29', 'every abstract path of each accessor of Singleton<T>: the result is the same global object (not thread local), whose constructor runs at most once and only between the acquisition '
           'and the release of a one-time guard', ['w_single.cpp'], 20), body)
