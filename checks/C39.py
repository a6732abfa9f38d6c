#!/usr/bin/env python3
"""The selection of test cases and the status of a run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

def body(c):
    f = Fut(c)
    m = Suite(c, f)
    say = lambda r: ', '.join('%s %s' % (full(t).decode(), MEANS[k]) for t, k in r.tests) or 'nothing performed'
    runs = 0

    def performed(r, want, tag, whole=''):
        e = last(r.p)
        if not c.ob(r.p.status == 'ret', 'contained', '%s: an exception of a test case ends the run (%s)' % (tag, say(r)), e):
            return False
        got = [t for t, k in r.tests]
        c.ob(sorted(got) == sorted(want), 'performed', '%s: performs %s instead of %s' % (tag, [full(t).decode() for t in got], [full(t).decode() for t in want]), e)
        seq = [(t, st) for pos, t, st in r.marks]
        c.ob(seq == [(t, st) for t in got for st in ('setup', 'test', 'teardown')], 'steps', '%s: SetUp(), test() and TearDown() are not called once each around every test case' % tag, e)
        # the life of a test case: init(), performed, destroy()
        life = [({m.slots['init']: 'init', m.slots['destroy']: 'destroy'}.get(x.name, 'stage'), addr(x.args[0])[0][1], x) for x in r.p.events
                if x.kind == 'vcall' and x.args and addr(x.args[0])[0][0] == 'P' and x.name in [m.slots[k] for k in m.STAGES + ('init', 'destroy')]]
        for t in sorted(set(got)):
            mine = [k for k, u, x in life if u == t]
            c.ob('init' in mine and mine.index('init') < mine.index('stage'), 'life', '%s: init() is not called before the test case %s is performed' % (tag, full(t).decode()), e)
        ends = [i for i, x in enumerate(life) if x[0] == 'destroy']
        c.ob(not ends or all(x[0] != 'stage' for x in life[ends[0]:]), 'life', '%s: destroy() is called before the last test case has been performed' % tag, life[ends[0]][2] if ends else e)
        if whole:
            for t in whole:
                n = sum(1 for x in life if x[:2] == ('destroy', t))
                c.ob(n == 1, 'life', '%s: destroy() of the test case %s is called %d times' % (tag, full(t).decode(), n), e)
        return True

    def verdict(r, tag):
        v = r.p.ret
        if not c.ob(isinstance(v, int), 'status', '%s: the status is not decided by the test cases (%s)' % (tag, say(r)), last(r.p)):
            return
        if r.failed:
            c.ob(v & 0xff != 0, 'status', '%s: reports success although %s failed' % (tag, ', '.join(full(t).decode() for t in r.failed)), last(r.p))
        else:
            c.ob(v == 0, 'status', '%s: reports a failure although no test case failed' % tag, last(r.p))

    def table(w, kinds, want, v=None, tag=None):
        nonlocal runs
        tag = tag or w
        rs = m.suite(w, kinds, v)
        seen = set()
        for r in rs:
            runs += 1
            seen.add(tuple(sorted(r.tests)))
            if performed(r, want, tag, 'abc' if w.startswith('m_') else ''):
                verdict(r, tag)
        c.ob(len(seen) == len(kinds) ** len(want), 'every', '%s: not every test case is performed with every outcome' % tag, last(rs[0].p))

    everything = 'abc'
    # performUnitTests()
    table('s_none', 'Q', '', 2, 'performUnitTests() on an empty suite')
    for v in (0, 2, 5):
        table('s_one', 'QOEFGXYTU', 'a', v, 'performUnitTests() on one test case')
        table('s_three', 'OEFXY', everything, v, 'performUnitTests() on three test cases')
    table('s_default', 'QOEFGXYTU', 'a', None, 'performUnitTests() on one test case')
    # performTest()
    table('p_one', 'QOEFGXYTU', 'c', 2, 'performTest()')
    for r in m.suite('p_twice', 'QEFX'):
        runs += 1
        tag = 'performTest() after performTest()'
        if performed(r, 'ab', tag):
            c.ob([t for t, k in r.tests] == ['a', 'b'], 'performed', tag + ': not the test that was asked for', last(r.p))
            bad = r.kinds.get('b') not in PASS
            c.ob(isinstance(r.p.ret, int) and (r.p.ret & 0xff != 0) == bad, 'status', tag + ': the status is not the one of the second test', last(r.p))
    n = {True: 0, False: 0}
    for r in m.suite('p_unknown', 'QF'):
        runs += 1
        tag = 'performTest() of an unknown name'
        known = [e for e in r.p.events if e.kind == 'lookup']
        if any(e.args[1] is not None for e in known):
            n[True] += 1
            if performed(r, 'a', 'performTest()'):
                verdict(r, 'performTest()')
        else:
            n[False] += 1
            c.ob(not r.tests and not r.marks, 'unknown', tag + ' performs %s' % say(r), last(r.p))
            c.ob(r.p.status == 'throw', 'unknown', tag + ' does not throw', last(r.p))
    c.ob(n[True] and n[False], 'unknown', 'performTest() does not look its name up', ('src/fut/unittest.cpp', 'UnitTest::performTest'))
    # main()
    table('m_plain', 'OEFX', everything, None, 'main() without a selection')
    table('m_c', 'QFX', everything, None, 'main() without capture')
    table('m_e', 'OEF', everything, None, 'main() with -e')
    table('m_q', 'OEF', everything, None, 'main() with -q')
    table('m_t', 'QOEFGXYTU', 'c', None, 'main() with one test case selected')
    table('m_t2', 'OEFXY', 'ac', None, 'main() with two test cases selected')
    table('m_many', 'QFX', 'b', None, 'main() with one test case selected')
    c.extra['runs'] = runs
    c.assumptions.append('gettimeofday() succeeds; suites are built with addTestCase() from distinct names')

main(Check('C39', 'abstract runs of performUnitTests(), performTest() and main() on suites whose test cases quietly pass, write on the standard streams, fail a check or throw: which test cases are performed, with which steps, and the resulting status', CASES, 1500), body)
