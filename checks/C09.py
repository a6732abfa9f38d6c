#!/usr/bin/env python3
"""What a stream listener writes for a message, and on which stream."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *
from render import render, Unknown

THIS, L = ('P', 'this'), ('P', 'l')
LEVELS = {0: b'CRIT', 1: b'ERR ', 2: b'WARN', 3: b'INFO', 4: b'DBG ', 5: b'TRC '}
NPOS = models.NPOS

def body(c):
    m = Log(c)
    M = m.param(LSL + 'onMessage', 1)
    off = {k: m.offset('f_' + k) for k in ('file', 'line', 'level', 'category', 'message')}
    sv = lambda k: ('sval', ('P', M), off[k], (0, 0))
    level = ('ld', ('P', M), off['level'], 0)
    line = ('ld', ('P', M), off['line'], 0)

    # ------------------------------------------------------------ names of the levels
    lname = c.P.defs[m.fn(LS + 'levelToString')].params()[0][2]
    seen = set()
    for k in list(range(-1, 8)) + [1 << 20]:
        for p in c.run(m.fn(LS + 'levelToString'), args=[k])[0]:
            t = models.cstr(p.I, p.st, p.ret) if p.status == 'ret' else None
            seen.add(k)
            c.ob(t == ('sl', LEVELS.get(k, b'????')), 'levelname', 'levelToString() does not give %s for level %d' % (LEVELS.get(k, b'????').decode(), k), last(p))
    for p in m.runs(LS + 'levelToString'):
        poss = [k for k in LEVELS if truth(p.facts, eq(('arg', lname), k)) is not False]
        if len(poss) > 1 or p.status != 'ret':
            continue
        t = models.cstr(p.I, p.st, p.ret)
        if t[0] == 'sl':
            want = LEVELS[poss[0]] if poss else b'????'
            c.ob(t[1] == want, 'levelname', 'levelToString() gives the wrong text for a level', last(p))

    # ------------------------------------------------------------ the line
    streams, mutexes = set(), None
    shapes = set()

    def file_ok(facts, t):
        f = sv('file')
        pos = ('strpos', 'rfind', f, ('sl', b'/'), NPOS)
        if t == f:
            return truth(facts, eq(pos, NPOS)) is True or truth(facts, eq(add_(pos, 1), 0)) is True
        if t[0] == 'sub' and t[1] == f:
            n = t[3]
            return t[2] == add_(pos, 1) and (n == NPOS or n == ('len', f))
        return False

    def number(x, want, w, p):
        if isinstance(x, tuple) and x[0] == 'd' and x[2] == w and (w == 0 or x[3] == 48):
            return x[1] == want
        return False

    runs = []
    for k in list(LEVELS) + [7]:
        runs.append((k, c.run(m.fn(LSL + 'onMessage'), init=lambda I, S, fr: I.write(S, ptr(('P', M), off['level']), 4, k))[0]))
    n = 0
    for k, ps in runs:
        lv = LEVELS.get(k, b'????')
        for p in ps:
            if p.status == 'throw':
                continue
            c.ob(p.status == 'ret', 'end', 'onMessage() does not return', last(p))
            outs = [(i, e) for i, e in enumerate(p.events) if e.kind == 'out' and addr(e.args[0])[0][0] != 'A']
            if not outs:
                c.ob(False, 'line', 'onMessage() writes nothing', last(p))
                continue
            os_ = {e.args[0] for i, e in outs}
            c.ob(len(os_) == 1, 'stream', 'the line is written on several streams', outs[-1][1])
            s = outs[0][1].args[0]
            if s[0] == 'ld' and s[1] == THIS:
                streams.add(s[2])
            else:
                c.ob(False, 'stream', 'the line is not written on the stream of the listener', outs[0][1])
            # under the lock, in one piece, and flushed
            h = None
            for i, e in outs:
                l = {x for x in held(e) if x[0] == THIS}
                h = l if h is None else h & l
            c.ob(bool(h), 'lock', 'the line is not written under one lock of the listener', outs[0][1])
            mutexes = {x[1] for x in h} if mutexes is None else mutexes & {x[1] for x in h}
            rdp = [i for i, e in enumerate(p.events) if e.kind == 'rd' and e.args[1] == s and addr(e.args[0]) == (THIS, s[2] if s[0] == 'ld' else None)]
            for e in p.events[rdp[-1] if rdp else outs[0][0]:outs[-1][0]]:
                c.ob(not (e.kind in ('unlock', 'wait') and e.x.get('loc', e.x.get('mtx')) in h), 'whole', 'the lock is released between the look-up of the stream and the end of the line', e)
            for i in rdp[-1:]:
                c.ob(h <= set(held(p.events[i])), 'lock', 'the stream of the listener is looked up outside of the lock under which it is used', p.events[i])
            fl = [(i, e) for i, e in enumerate(p.events) if e.kind == 'flush' and i > outs[-1][0] and e.args[0] == s]
            c.ob(bool(fl), 'flush', 'the line is not flushed after its end', outs[-1][1])
            for i, e in fl[:1]:
                c.ob(h <= set(held(e)), 'flush', 'the stream is flushed outside of the lock under which it is used', e)
            try:
                R = render([e.args[1] for i, e in outs])
            except Unknown as x:
                raise Broken('the text written by onMessage(): %s' % x)
            shapes.add(tuple('%s' % (x if isinstance(x, bytes) else x[0]) for x in R))
            # the time stamp
            w = outs[0][1]
            tms = [(r, v) for r, v in p.st.ext.items() if r[0] == 'tm']
            ok = len(R) >= 12 and len(tms) == 1 and tms[0][1][0].split('::')[-1] == 'localtime_r'
            c.ob(len(tms) == 1 and tms[0][1][0] == 'localtime_r', 'time', 'the time stamp is not the local time', w)
            now = [e.ret for e in p.events if e.kind == 'now']
            if len(tms) == 1:
                t = tms[0][1][1]
                c.ob(isinstance(t, tuple) and (any(str(x) in str(t) for x in now if x is not None) or 'now' in str(t)), 'time', 'the time stamp is not the time of the call', w)
            if not c.ob(len(R) >= 12, 'format', 'the line does not have the documented parts', w):
                continue
            A = tms[0][0][1] if tms else None
            def tmf(x, o, add_n, width):
                if not (isinstance(x, tuple) and x[0] == 'd'):
                    return False
                v = sub_(x[1], add_n)
                return isinstance(v, tuple) and v[0] == 'ld' and v[1] == A and v[2] == o and x[2] == width and (not width or x[3] == 48)
            want = [(0, 20, 1900, 0, b'-'), (2, 16, 1, 2, b'-'), (4, 12, 0, 2, b' '), (6, 8, 0, 2, b':'), (8, 4, 0, 2, b':'), (10, 0, 0, 2, None)]
            good = True
            for j, o, a, wd, sep in want:
                good &= tmf(R[j], o, a, wd)
                if sep is not None:
                    good &= R[j + 1] == sep
            c.ob(good, 'stamp', 'the line does not start with YYYY-MM-DD HH:MM:SS', w)
            # the rest
            rest = R[11:]
            e1 = truth(p.facts, eq(('len', sv('category')), 0))
            e2 = [truth(p.facts, t) for t in conds(p) if t[:2] == ('B', 'seq') and sv('category') in t and ('sl', b'') in t]
            empty = e1 if e1 is not None else (e2[0] if e2 else None)
            head = b' [' + lv + b'] '
            t = None
            if rest[0] == head and len(rest) > 1:
                c.ob(empty is True, 'category', 'the category of the message is left out of the line', w)
                rest = rest[1:]
            elif len(rest) > 3 and rest[0] == head + b'(' and rest[2] == b') ':
                c.ob(rest[1] == ('t', sv('category'), 0, None), 'category', 'the line does not show the category of the message', w)
                c.ob(empty is False, 'category', 'the line shows an empty category', w)
                rest = rest[3:]
            else:
                c.ob(False, 'level', 'the line does not show the level and category of the message after the time stamp', w)
                continue
            n += 1
            good = len(rest) == 6 and rest[1] == b':' and rest[3] == b' ' and rest[5] == b'\n'
            c.ob(good, 'format', 'the line does not end with file:line message', w)
            if good:
                c.ob(rest[0][0] == 't' and rest[0][2] == 0 and file_ok(p.facts, rest[0][1]), 'file', 'the line does not show the name of the file without its directories', w)
                c.ob(rest[2] == ('d', line, 0, None), 'line', 'the line does not show the line number of the message', w)
                c.ob(rest[4] == ('t', sv('message'), 0, None), 'message', 'the line does not show the text of the message', w)
            for e in p.events:
                c.ob(not (e.kind == 'wr' and addr(e.args[0])[0] in (THIS, ('P', M)) or e.kind == 'op' and e.x.get('rw') == 'w' and addr(e.args[0])[0] in (THIS, ('P', M))), 'effect', 'onMessage() changes the listener or the message', e)
    c.ob(n >= 14, 'line', 'onMessage() does not write a line for every level', ('src/engine/logstream.cpp', 'LogStreamListener::onMessage'))
    if len(streams) != 1:
        if c.bad:
            return
        raise Broken('where a listener keeps its stream')
    pout = streams.pop()

    # ------------------------------------------------------------ the stream
    for w, given, smart in (('w_own', ('ld', ('P', 'o'), 0, 0), 'unique'), ('w_share', ('ld', ('P', 'o'), 0, 0), 'shared'), ('w_writeOn', ('&', ('P', 'o'), 0), None)):
        for p in m.runs(W + w):
            mem = p.st.mem.get(L, {})
            v = lambda o: mem.get(o, (0, None))[1]
            nm = w[2:]
            if not c.ob(p.status == 'ret', 'set', '%s() does not return' % nm, last(p)):
                continue
            # null streams are outside of the interface
            if truth(p.facts, eq(given, 0)) is True:
                continue
            c.ob(v(pout) == given, 'set', 'after %s() the listener does not write on the given stream' % nm, last(p))
            if smart:
                keep = {addr(e.args[0])[1] for e in p.events if e.kind == 'op' and e.x.get('rw') in ('w', 'init') and e.name.split('_')[0] in ('unique', 'shared') and addr(e.args[0])[0] == L}
                c.ob(any(o != pout and v(o) == given for o in keep), 'keep', '%s() does not keep the given stream alive' % nm, last(p))
                if smart == 'unique':
                    c.ob(p.st.mem.get(('P', 'o'), {}).get(0, (0, None))[1] == 0, 'keep', 'own() does not take the stream from the caller', last(p))
            for i, e in enumerate(p.events):
                if e.kind == 'wr' and addr(e.args[0]) == (L, pout):
                    c.ob(bool({x[1] for x in held(e) if x[0] == L} & (mutexes or set())), 'set-lock', '%s() changes the stream without the lock under which lines are written' % nm, e)
                    continue
                if e.kind == 'sp.release' and e.x.get('loc') and e.x['loc'][0] == L:
                    c.ob(bool({x[1] for x in held(e) if x[0] == L} & (mutexes or set())), 'set-lock', '%s() gives up a stream without the lock under which lines are written' % nm, e)
                if e.kind == 'delete' or e.kind == 'sp.release' and e.args[1] == given and e.x.get('loc', (None,))[0] == L:
                    c.ob(e.kind != 'sp.release', 'keep', '%s() gives up the given stream' % nm, e)
    # a new listener writes into a sink of its own
    k = 0
    for p in m.runs(W + 'w_lsl_ctor'):
        if p.status != 'ret':
            continue
        for r, cells in p.st.mem.items():
            if r[0] not in 'AN' or pout not in cells:
                continue
            k += 1
            t = cells[pout][1]
            ok = isinstance(t, tuple) and t[0] == '&' and t[1] == r
            c.ob(ok, 'sink', 'a new listener does not write into a stream of its own', last(p))
            if ok:
                b = cells.get(('rdbuf', t[2]), (0, None))[1]
                own = isinstance(b, tuple) and b[0] == '&' and b[1] == r
                vt = cells.get(b[2], (0, None))[1] if own else None
                c.ob(b == 0 or own and isinstance(vt, tuple) and vt[0] == '&' and vt[1][0] == 'G' and 'falcon' in vt[1][1], 'sink', 'a new listener does not discard what it writes', last(p))
    c.ob(k > 0, 'sink', 'no constructor of stream listeners was seen')
    # the proxy passes the message on
    for p in m.runs(W + 'w_proxy_msg'):
        v = [e for e in p.events if e.kind == 'vcall' and e.name == m.onMessage]
        c.ob(p.status == 'ret' and len(v) == 1 and v[0].args[1] == ('&', ('P', 'm'), 0) and v[0].args[0][0] == 'ld' and v[0].args[0][1] == ('P', 'p'), 'proxy', 'a proxy does not pass the message on to the other listener exactly once', v[0] if v else last(p))
    for p in m.runs(W + 'w_proxy_ctor'):
        if p.status == 'ret':
            c.ob(any(e.kind == 'op' and e.name in ('shared_ptr.copyfrom', 'shared_ptr.movefrom') for e in p.events), 'proxy', 'a proxy does not share the other listener', last(p))
    c.extra['line_shapes'] = len(shapes)
    c.sample('shapes: %s' % sorted(shapes)[:2])

def add_(a, b):
    return interp.add(a, b)

def sub_(a, b):
    return interp.sub(a, b)

def conds(p):
    out = []
    def walk(t):
        if isinstance(t, tuple):
            out.append(t)
            for x in t:
                walk(x)
    for e in p.events:
        if e.kind == 'if':
            walk(e.name)
    return out

main(Check('C09', 'the text written by onMessage() on every abstract path and for every level is rendered symbolically and compared with the documented layout; lock region and flush; effects of own(), share(), writeOn()', UNITS, 100), body)
