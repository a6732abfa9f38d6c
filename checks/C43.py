#!/usr/bin/env python3
"""Performing a unit test again."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

class Part:
    """the events of a run after the mark"""
    def __init__(self, p, evs):
        self.__dict__.update(p.__dict__)
        self.events = evs

def body(c):
    f = Fut(c)
    m = Suite(c, f)
    runs = 0

    def after(w, kinds, v):
        """(outcomes before the mark, run after the mark) of every run"""
        nonlocal runs
        out = []
        for r in m.suite(w, kinds, v):
            at = [i for i, e in enumerate(r.p.events) if e.kind == 'ext' and e.name == W + 'mark']
            runs += 1
            if not c.ob(len(at) == 1 and r.p.status == 'ret', 'ends', '%s: an earlier run does not end normally (%s)' % (SAY[w], r.p.status), last(r.p)):
                continue
            first = Run(m, Part(r.p, r.p.events[:at[0]]))
            out.append((first.tests, Run(m, Part(r.p, r.p.events[at[0]:]))))
        return out

    def written(r):
        """the text of each file"""
        out, cur = [], {}
        for e in r.p.events:
            if e.kind == 'open':
                cur[addr(e.args[0])[0]] = len(out)
                out.append(b'')
            elif e.kind == 'out' and addr(e.args[0])[0] in cur:
                out[cur[addr(e.args[0])[0]]] += flat([e.args[1]])
        return tuple(out)

    def facts(r):
        return {'status': r.p.ret, 'standard output': r.text, 'standard error': r.errtext, 'XML report': written(r),
                'steps': tuple((t, st) for pos, t, st in r.marks)}

    def compare(again, once, kinds, v):
        want = {}
        for before, r in after(once, kinds, v):
            want.setdefault(tuple(r.tests), []).append(facts(r))      # with and without a file that can be written
        if not want:
            raise Broken('no run of a suite')
        names = {t for ts in want for t, k in ts}
        seen = set()
        for before, r in after(again, kinds, v):
            tag = '%s (before: %s)' % (SAY[again], ', '.join('%s %s' % (full(t).decode(), MEANS[k]) for t, k in before))
            got = [t for t, k in r.tests]
            if not c.ob(sorted(got) == sorted(names), 'performed', '%s: performs %s instead of %s' % (tag, ', '.join(full(t).decode() for t in got) or 'nothing', ', '.join(full(t).decode() for t in sorted(names))), last(r.p)):
                continue
            w = want.get(tuple(r.tests))
            if not c.ob(w is not None, 'order', '%s: performs the test cases in another order' % tag, last(r.p)):
                continue
            seen.add(tuple(r.tests))
            h = facts(r)
            best = min(w, key=lambda x: sum(h[k] != x[k] for k in x))
            for k in best:
                c.ob(h[k] == best[k], 'same', '%s: the %s is not the one of a first run with these outcomes' % (tag, k), last(r.p))
        c.ob(seen == set(want), 'every', '%s: not every test case is performed with every outcome' % SAY[again], ('src/fut/unittest.cpp', 'UnitTest::performUnitTests'))

    for v in (2, 5):
        compare('g_all2', 'g_all1', 'QF', v)
    compare('g_all2', 'g_all1', 'QX', 1)
    compare('g_sel2', 'g_sel1', 'QEFXY', 5)
    compare('g_sellate', 'g_sel1', 'QF', 2)
    compare('g_two2', 'g_two1', 'OEFX', 5)
    compare('g_two2', 'g_two1', 'QF', 0)
    compare('g_added', 'g_two1', 'QEFX', 2)
    compare('g_moreadded', 'g_all1', 'QF', 2)
    compare('g_xml2', 'g_xml1', 'QFX', 2)
    compare('g_one2', 'g_one1', 'QOEFGXYTU', 5)
    compare('g_oneafter', 'g_one1', 'QF', 2)
    compare('g_allafter', 'g_all1', 'QF', 2)
    compare('g_loud2', 'g_loud1', 'QFX', None)
    if os.environ.get('VERIF_TIER') == 'thorough':
        compare('g_all3', 'g_all1', 'QF', 2)
        for v in range(6):
            compare('g_two2', 'g_two1', 'QOEFGXYTU', v)
            compare('g_xml2', 'g_xml1', 'QFX', v)
    c.extra['runs'] = runs
    c.assumptions.append('gettimeofday() succeeds; elapsed times are taken to be equal (their values are judged by C40)')

SAY = {'g_all1': 'performUnitTests()', 'g_all2': 'performUnitTests() after performUnitTests()', 'g_all3': 'performUnitTests() for the third time',
       'g_sel1': 'performUnitTests() with a selection', 'g_sel2': 'performUnitTests() after performUnitTests() with a selection', 'g_sellate': 'performUnitTests() with a selection made after performUnitTests()',
       'g_two1': 'performUnitTests()', 'g_two2': 'performUnitTests() after performUnitTests()', 'g_added': 'performUnitTests() after a test case was added to a performed suite',
       'g_moreadded': 'performUnitTests() after a test case was added to a performed suite', 'g_xml1': 'performUnitTests() with a report file', 'g_xml2': 'performUnitTests() after performUnitTests() with a report file',
       'g_one1': 'performTest()', 'g_one2': 'performTest() after performTest()', 'g_oneafter': 'performTest() after performUnitTests()', 'g_allafter': 'performUnitTests() after performTest()',
       'g_loud1': 'performUnitTests() after setVerbosity()', 'g_loud2': 'performUnitTests() after performUnitTests() at verbosity 0'}

main(Check('C43', 'abstract runs of suites performed more than once, in every combination of outcomes: after the first run, test cases performed, status, texts and report equal those of the only run of a fresh suite', CASES, 300), body)
