#!/usr/bin/env python3
"""The order in which the test cases of a run are performed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

def body(c):
    f = Fut(c)
    m = Suite(c, f)
    runs = 0

    def table(w, names, kinds, v=None):
        nonlocal runs
        want = ''.join(sorted(names, key=lambda t: (NAMES[t][0], NAMES[t][1])))
        show = lambda ts: ', '.join(full(t).decode() for t in ts)
        for r in m.suite(w, kinds, v):
            runs += 1
            got = ''.join(t for t, k in r.tests)
            if not c.ob(r.p.status == 'ret' and sorted(got) == sorted(names), 'performed', '%s are performed instead of %s' % (show(got), show(want)), last(r.p)):
                continue
            comps = [NAMES[t][0] for t in got]
            c.ob(all(x not in comps[:i] or comps[i - 1] == x for i, x in enumerate(comps)), 'grouped', 'the test cases of a component are not performed together: %s, added in the order %s' % (show(got), show(names)), last(r.p))
            first = sorted(set(comps), key=comps.index)
            c.ob(first == sorted(first), 'components', 'the components are not performed in the order of their names: %s, added in the order %s' % (show(got), show(names)), last(r.p))
            for x in first:
                ts = [t for t in got if NAMES[t][0] == x]
                c.ob(ts == [t for t in want if NAMES[t][0] == x], 'cases', 'the test cases of a component are not performed in the order of their names: %s, %s in the order %s' % (show(got), 'selected' if w[0] == 't' else 'added', show(names)), last(r.p))
            # nothing of another test case between the steps of one
            seq = [(t, st) for pos, t, st in r.marks]
            c.ob(seq == [(t, st) for t in got for st in ('setup', 'test', 'teardown')], 'one', 'the test cases are not performed one after the other', last(r.p))

    for w in ('abcde', 'edcba', 'cadbe', 'deacb'):
        table('o_' + w, w, 'Q')
    for w in ('bca', 'cba', 'ad', 'da', 'be', 'eb', 'ef', 'fe'):
        table('o_' + w, w, 'QFX')
    for v in (0, 2, 5):
        table('s_three', 'bac', 'QFX', v)
    for w in ('cdb', 'bac', 'aed'):
        table('t_' + w, w, 'QFX')
    c.extra['runs'] = runs
    c.assumptions.append('gettimeofday() succeeds; suites are built with addTestCase() from distinct names')

main(Check('C41', 'abstract runs of suites and selections in different orders: the sequence of the test cases performed is grouped by component, in the lexicographic order of the names', CASES, 60), body)
