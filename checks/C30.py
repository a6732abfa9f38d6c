#!/usr/bin/env python3
"""The verdict of a test case."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

def body(c):
    f = Fut(c)
    m = Case(c, f)
    T = m.T
    what = lambda k: ('sval', ('P', 'what-' + k), 0, (0, 0))
    DOES = [(), ('err',), ('fail',), ('fail', 'err'), ('std',), ('other',), ('fail', 'std')]
    TD = [(), ('fail',), ('std',), ('other',)]

    def verdict(p, stages, capture):
        w = last(p)
        did = [(e.name, e.args) for e in stages]
        d = dict(did)
        threw = [k for k in m.STAGES if k in d and ('std' in d[k] or 'other' in d[k])]
        failed = [k for k in m.STAGES if k in d and 'fail' in d[k]]
        names = [k for k, _ in did]
        # the steps
        c.ob(names[:1] == ['setup'] and names.count('setup') == 1, 'steps', 'SetUp() is not called exactly once, first', w)
        up = 'setup' not in threw
        c.ob(names.count('test') == (1 if up else 0), 'steps', 'the test body is called %d times although SetUp() %s' % (names.count('test'), 'succeeded' if up else 'threw'), w)
        c.ob(names.count('teardown') == (1 if up else 0), 'steps', 'TearDown() is called %d times although SetUp() %s' % (names.count('teardown'), 'succeeded' if up else 'threw'), w)
        c.ob(names == [k for k in m.STAGES if k in names], 'steps', 'SetUp(), the test body and TearDown() are not called in this order', w)
        # the verdict
        got, K = f.mem(p, 'status', T), f.K
        if threw:
            c.ob(got == K['error'], 'error', 'a test case that threw from %s is not reported as an error' % threw[0], w)
            t, k = f.text(p, 'desc', T), threw[0]
            kind = dict(did)[k]
            if 'std' in kind:
                ok = t is not None and (t == what(k) or t[0] == 'cs' and addr(t[1])[0] == ('P', 'what-' + k) or t == ('sval', ('P', 'what-' + k), 0, (0, 0)))
                c.ob(ok, 'what', 'the text of the exception thrown from %s is not the description of the failure' % k, w)
            else:
                c.ob(t is not None and t[0] == 'sl' and t[1] and not t[1].startswith(b'<fail'), 'what', 'an unknown exception thrown from %s leaves no description of its own' % k, w)
        elif failed:
            c.ob(got == K['fail'], 'fail', 'a test case with a failed check is not reported as failed', w)
            c.ob(f.text(p, 'desc', T) == ('sl', b'<fail %s>' % failed[-1].encode()) and f.text(p, 'file', T) == ('sl', b'<file>') and f.mem(p, 'line', T) == 77, 'kept', 'the description of the failed check is lost', w)
        else:
            err = capture and any('err' in a for k, a in did if k != 'teardown')
            c.ob(got == (K['stream'] if err else K['success']), 'pass', 'a test case that %s is not reported as %s' % ('wrote to the captured standard error' if err else 'passed every check', 'such' if err else 'passed'), w)
    n = 0
    for p in m.runs('w_case', {'setup': DOES, 'test': DOES, 'teardown': TD}):
        if not c.ob(p.status == 'ret', 'contained', 'an exception of a test case leaves run()', last(p)):
            continue
        n += 1
        cap = truth(p.facts, ('B', 'arg', 'capture'))
        # without an answer the captures do not matter on this path: check both
        for v in ((cap,) if cap is not None else (True, False)):
            verdict(p, m.stages(p), v)
    c.ob(n >= 2 * 4 * 7 * 4, 'seen', 'only %d runs were seen' % n, ('src/fut/testcase.cpp', 'TestCase::run'))
    # every status has a name of its own
    names = {}
    for k, v in f.K.items():
        def status(I, S, fr):
            r, o = f.at('status')
            I.write(S, ('&', r, o), 4, v)
        for p in c.run(f.acc('statusDesc'), init=status)[0]:
            t = models.cstr(p.I, p.st, p.ret) if p.status == 'ret' and isinstance(p.ret, tuple) else None
            if c.ob(t is not None and t[0] == 'sl' and t[1], 'name', 'statusDesc() has no name for the status %s' % k, last(p)):
                c.ob(names.setdefault(t[1], k) == k, 'name', 'statusDesc() has the same name, "%s", for the status %s and the status %s' % (t[1].decode('latin-1'), names[t[1]], k), last(p))
    # a second run of the same case does not remember the first
    for p in m.runs('w_twice', {'setup': [()], 'test': [(), ('err',), ('fail',), ('std',)], 'teardown': [(), ('other',)]}):
        if not c.ob(p.status == 'ret', 'contained', 'an exception of a test case leaves run()', last(p)):
            continue
        st = m.stages(p)
        k = [i for i, e in enumerate(st) if e.name == 'setup']
        if c.ob(len(k) == 2, 'steps', 'SetUp() is not called exactly once, first', last(p)):
            verdict(p, st[k[1]:], False)
            if f.mem(p, 'status', T) == f.K['success']:
                t = f.text(p, 'desc', T)
                c.ob(not any(x in str(t) for x in ('<fail', 'what-')) and f.mem(p, 'line', T) != 77, 'again', 'a test case that passes when it runs again keeps the description of its earlier failure', last(p))

main(Check('C30', 'abstract runs of beginTest(), run(), endTest() with SetUp(), test() and TearDown() doing every combination of writing to the output streams, failing a check, throwing: steps, final status and description', CASES, 300), body)
