#!/usr/bin/env python3
"""The command line of a unit test program."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

def body(c):
    f = Fut(c)
    m = Suite(c, f)
    X = ('cs', ('&', ('P', 'x'), 0), 0)
    runs = 0

    def go(w, ks='Q', x=None, v=None):
        nonlocal runs
        rs = m.suite(w, ks, v=v, x=x)
        runs += len(rs)
        return rs

    def refused(r, tag):
        c.ob(not r.marks, 'refused', '%s: test cases are performed' % tag, last(r.p))
        c.ob(r.p.status == 'ret' and isinstance(r.p.ret, int) and r.p.ret & 0xff != 0, 'refused', '%s: the program does not report a failure' % tag, last(r.p))

    def accepted(r, tag, want='abc'):
        return c.ob(r.p.status == 'ret' and sorted(t for t, k in r.tests) == sorted(want), 'accepted', '%s: the test cases are not performed' % tag, last(r.p))
    # options without their value, values out of range, unknown options: nothing is performed
    for w, tag in (('m_vnone', '-v without a level'), ('m_tnone', '-t without a name'), ('m_xnone', '-x without a file'), ('m_nnone', '-n without a name'), ('m_inone', '-i without an ID'),
                   ('m_v6', '-v 6'), ('m_vneg', '-v -1'), ('m_h', '-h'), ('m_ht', '-h after -t')):
        for r in go(w):
            refused(r, tag)
            c.ob(r.text + r.errtext != b'', 'usage', '%s: nothing is printed' % tag, last(r.p))
    for x in ('', 'x', '-', '99999999999', '6', '-1'):
        for r in go('m_vx', x=x.encode()):
            refused(r, '-v "%s"' % x)
    for x in ('', '-', '-z', '-V', '-Q', '--', '-qq', '-q ', ' -q', 'q', '--help', 'foo', '/?', '-v5', '-x=report', 'Btwo::gamma'):
        for w, tag in (('m_opt', 'the unknown option "%s"'), ('m_optlast', 'the unknown option "%s" after -q -c')):
            for r in go(w, x=x.encode()):
                refused(r, tag % x)
    for x in ('', 'Btwo', 'gamma', 'Btwo::', 'Btwo::gamm', 'Btwo::gammas', 'btwo::gamma', 'Aone::beta', 'Btwo gamma'):
        for r in go('m_tx', x=x.encode()):
            refused(r, '-t with the unknown name "%s"' % x)
    # an option of any text
    for w in ('m_opt', 'm_optlast'):
        for r in go(w):
            if r.marks:
                known = [o for o in (b'-q', b'-c', b'-e') if truth(r.p.facts, ('B', 'seq', X, ('sl', o)))]
                other = any(e.kind == 'if' and 'seq' in str(e.name) for e in r.p.events)
                if known or other:
                    c.ob(bool(known), 'refused', 'an option that is none of -q, -c, -e is taken for one', last(r.p))
            else:
                refused(r, 'an option of any other text')
    # a level of any text
    ok = ('B', 'readok', X, 0, 'int&')
    n = ('parsed', X, 0, 'int&')
    for r in go('m_vx'):
        if not r.marks:
            refused(r, 'a level that is none')
        elif any(e.kind == 'if' and 'readok' in str(e.name) for e in r.p.events):
            c.ob(truth(r.p.facts, ok) is True and truth(r.p.facts, lt(n, 0)) is False and truth(r.p.facts, lt(5, n)) is False, 'level', 'a level that is not a number from 0 to 5 is accepted', last(r.p))
    # a test case of any name
    got = set()
    for r in go('m_tx'):
        l = [e.args[1] for e in r.p.events if e.kind == 'lookup']
        if l and l[-1] is None:
            refused(r, '-t with an unknown name')
        elif l and r.p.status == 'ret':
            got.add(l[-1])
            c.ob([full(t) for t, k in r.tests] == [l[-1]], 'select', '-t performs another test case than the one it names', last(r.p))
    c.ob(got == {full(t) for t in 'abc'}, 'select', '-t does not find every test case', ('src/fut/unittest.cpp', 'UnitTest::parseParams'))
    # -v N is setVerbosity(N), -q is -v 0
    same = {}
    for v in range(6):
        same[v] = {tuple(r.tests): r.text for r in go('s_three', 'OEF', v=v)}

    def norm(t):
        return [l for l in t.replace(b'prog', b'').split(b'\n')]
    for w, v, tag in [('m_v%d' % v, v, '-v %d' % v) for v in range(6)] + [('m_q', 0, '-q'), ('m_vq', 0, '-v 5 -q'), ('m_plain', 2, 'no option')]:
        for r in go(w, 'OEF'):
            if accepted(r, tag) and tuple(r.tests) in same[v]:
                c.ob(norm(r.text) == norm(same[v][tuple(r.tests)]), 'verbosity', '%s: the report is not the one of verbosity %d' % (tag, v), last(r.p))
    # -c: not captured, otherwise captured
    for w, cap in (('m_c', False), ('m_plain', True), ('m_q', True), ('m_many', False)):
        for r in go(w, 'OE'):
            if r.p.status != 'ret':
                continue
            for e in r.p.events:
                if e.kind == 'stage':
                    for k in ('out', 'err'):
                        direct = e.x[k] == ('rdbuf0', (m.where(k), 0))
                        c.ob(direct != cap, 'capture', 'the output of test cases is %s' % ('captured although -c is given' if direct is False else 'not captured although -c is not given'), e)
    # -t -n -i -q -c together
    for r in go('m_many', 'QF'):
        accepted(r, '-q -c -n -i -t', 'b')
        c.ob(r.text == b'', 'verbosity', '-q with other options prints', last(r.p))
    for x in ('MyName', 'a name', '-q'):
        for r in go('m_n', x=x.encode()):
            if accepted(r, '-n "%s"' % x):
                c.ob(any(x.encode() in l and b'::' not in l for l in r.segments()[-1].split(b'\n')), 'name', 'the name given with -n is not the one of the report', last(r.p))
    for r in go('m_i', x=b'anid'):
        accepted(r, '-i')
    # -x: exactly this file
    for w, x in (('m_x', None), ('m_x', b'rep.xml'), ('m_x', b'-q'), ('m_xml', None)):
        opened = 0
        want = X if x is None and w == 'm_x' else ('sl', x or b'report.xml')
        for r in go(w, 'QF', x=x):
            accepted(r, '-x')
            o = [e for e in r.p.events if e.kind == 'open']
            for e in o:
                t = e.x['path']
                c.ob(t == want, 'file', 'the report is not written to the file given with -x', e)
            c.ob(len(o) <= 1, 'file', 'the report is written more than once', last(r.p))
            opened += len(o)
        c.ob(opened > 0, 'file', 'no report is written although -x is given', ('src/fut/unittest.cpp', 'UnitTest::main'))
    for w in ('m_plain', 'm_t', 'm_h', 'm_n'):
        for r in go(w, 'QF'):
            c.ob(not any(e.kind == 'open' for e in r.p.events), 'file', 'a report is written although -x is not given', last(r.p))
    c.extra['runs'] = runs
    c.assumptions.append('gettimeofday() succeeds; suites are built with addTestCase() from distinct names')

main(Check('C33', 'abstract runs of UnitTest::main() on command lines of known and of unknown text: whether test cases are performed, which, at which verbosity, captured or not, and where the report goes', CASES, 800), body)
