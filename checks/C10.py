#!/usr/bin/env python3
"""The message a thread composes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

def body(c):
    s = Stmt(c)
    # ------------------------------------------------------------ private state
    for what, (r, o) in s.roles.items():
        c.ob(r[0] == 'G' and thread_local(c.P, r[1]), 'private', 'the %s of the message being composed is shared between threads' % what, ('src/include/falcon/logger.h', 'Logger'))
    FNS = ('w_setLine', 'w_setFile', 'w_setLevel', 'w_setCategory', 'w_setTempCategory', 'w_compose', 'w_commit', 'w_getCategory')
    for w in FNS:
        for p in s.runs(w):
            for e in p.events:
                if e.kind in ('rd', 'wr', 'op', 'ios', 'out', 'atomic') and e.args and isinstance(e.args[0], tuple) and e.args[0][0] == '&':
                    r = addr(e.args[0])[0]
                    if r[0] == 'G' and c.P.globmod(r[1]) is not None and 'constant' not in c.P.globmod(r[1]).glob(r[1])[2]:
                        c.ob(thread_local(c.P, r[1]), 'private', '%s uses a variable shared between threads (%s)' % (w[2:], r[1]), e)
                    if r[0] == 'P' and r[1] == 'l' and e.kind in ('wr', 'op'):
                        c.ob(e.kind == 'op' and e.x.get('rw') == 'r', 'private', '%s changes the logger, which all threads share' % w[2:], e)
    # ------------------------------------------------------------ setters
    for w, role, kind, given in (('w_setLine', s.line, 'mem', ('arg', 'v')), ('w_setLevel', s.level, 'mem', ('arg', 'v')), ('w_setFile', s.file, 'obj', ('sval', ('P', 'v'), 0, (0, 0))),
                                 ('w_setCategory', s.cat, 'obj', ('sval', ('P', 'c'), 0, (0, 0))), ('w_setTempCategory', s.temp, 'obj', ('sval', ('P', 'c'), 0, (0, 0)))):
        for p in s.runs(w):
            if p.status != 'ret':
                continue
            v = p.st.mem.get(role[0], {}).get(role[1], (0, None))[1] if kind == 'mem' else (p.st.obj.get(role) or (0, None))[1]
            c.ob(v == given, 'set', '%s() does not set what it is given' % w[2:], last(p))
    for p in s.runs('w_getCategory'):
        c.ob(addr(p.ret) == s.cat, 'get', 'getCategory() does not return the category of the thread', last(p))
    for p in s.runs('w_compose'):
        put = [e for e in p.events if e.kind == 'ext' and e.name == W + 'operator<<']
        c.ob(len(put) == 1 and addr(put[0].args[0]) == s.comp and put[0].args[1] == ('&', ('P', 'p'), 0), 'compose', 'a piece of a message is not added exactly once', last(p))
    # ------------------------------------------------------------ commit
    n = 0
    for p in s.runs('w_commit'):
        if p.status != 'ret':
            continue
        n += 1
        lc = [e for e in p.events if e.kind == 'logcall']
        if not c.ob(len(lc) == 1, 'once', 'commit() sends %s' % ('nothing' if not lc else 'a message twice'), lc[-1] if lc else last(p)):
            continue
        e = lc[0]
        c.ob(e.args[0] == ('&', ('P', 'l'), 0), 'send', 'commit() sends the message to another logger', e)
        c.ob(e.x['file'] == s.text(s.file), 'send', 'commit() does not send the file of the statement', e)
        c.ob(e.x['line'] == ('ld', s.line[0], s.line[1], 0), 'send', 'commit() does not send the line of the statement', e)
        c.ob(e.x['level'] == ('ld', s.level[0], s.level[1], 0), 'send', 'commit() does not send the level of the statement', e)
        c.ob(e.x['text'] == ('ossval', s.comp, (0, 0)), 'send', 'commit() does not send the text that was composed', e)
        temp = s.text(s.temp)
        k = truth(p.facts, eq(('len', temp), 0))
        for x in eqs(p, temp):
            k = truth(p.facts, x) if k is None else k
        if e.x['cat'] == temp:
            c.ob(k is False, 'category', 'commit() sends an empty temporary category instead of the category of the thread', e)
        else:
            c.ob(e.x['cat'] == s.text(s.cat) and k is True, 'category', 'commit() does not send the temporary category if there is one, and the category of the thread otherwise', e)
        for what in s.ready(p):
            c.ob(False, 'reset', 'a message leaves %s to the next one' % what, last(p))
        c.ok()
        for e in p.events:
            if e.kind == 'wr' or e.kind == 'op' and e.x.get('rw') == 'w':
                c.ob(addr(e.args[0]) != s.cat, 'category-kept', 'commit() changes the category of the thread', e)
    c.ob(n >= 2, 'once', 'commit() has no path that returns')
    c.sample(', '.join('%s: %s' % (k, v[0][1]) for k, v in s.roles.items()))

main(Check('C10', 'effects of the composition functions and of commit() on every abstract path: storage class of all state they touch, value of every argument sent, state left for the next message', UNITS, 20), body)
