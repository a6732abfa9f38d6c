#!/usr/bin/env python3
"""The final report of a run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

def body(c):
    f = Fut(c)
    m = Suite(c, f)
    runs = 0
    lines = lambda s, w: [l for l in s.split(b'\n') if w in l and b'::' not in l]

    def verdict(ls, bad, what, e):
        if not c.ob(len(ls) == 1, 'once', '%s has %d lines in the final report' % (what, len(ls)), e):
            return
        l = ls[0].upper()
        c.ob((b'PASSED' in l) != (b'FAILED' in l) and (b'FAILED' in l) == bad, 'verdict', '%s is reported as %s although %s' % (what, ls[0].strip().split()[-1].decode('latin1') if ls[0].strip() else '', 'one of its test cases failed' if bad else 'none of its test cases failed'), e)
    # how often a test case is named in the report of its own outcome
    alone = {}
    for v in range(1, 6):
        for r in m.suite('p_one', 'QOEFGXYTU', v):
            if r.p.status == 'ret' and len(r.tests) == 1:
                alone[v, r.tests[0][1]] = r.segments()[1].count(full(r.tests[0][0]))

    def report(r, v, tag, unit):
        nonlocal runs
        runs += 1
        e = last(r.p)
        if r.p.status != 'ret' or not r.tests:
            return
        rep = r.segments()[-1]
        lt, lk = r.tests[-1]
        for t, k in r.tests:
            n = rep.count(full(t))
            if t == lt:
                if (v, lk) not in alone:
                    continue
                n -= alone[v, lk]
            if t in r.failed:
                c.ob(n == 1, 'failed', '%s: a test case that %s is listed %d times among the failed ones' % (tag, MEANS[k], n), e)
            else:
                c.ob(n == 0, 'failed', '%s: a test case that %s is listed among the failed ones' % (tag, MEANS[k]), e)
        for t in 'abc':
            if t not in r.kinds:
                c.ob(full(t) not in r.text, 'failed', '%s: a test case that was not performed is mentioned' % tag, e)
        comps = {}
        for t, k in r.tests:
            comps.setdefault(NAMES[t][0], []).append(t)
        if len(comps) > 1:
            for n, ts in comps.items():
                verdict(lines(rep, n.encode()), any(t in r.failed for t in ts), '%s: component %s' % (tag, n), e)
        if unit:
            verdict(lines(rep, unit), bool(r.failed), '%s: the unit test' % tag, e)
        else:
            ls = [l for l in rep.split(b'\n') if l.strip()]
            verdict(ls[-1:] if ls and not any(n.encode() in ls[-1] for n in comps) else [], bool(r.failed), '%s: the unit test' % tag, e)
    for v in range(1, 6):
        for w, ks in (('s_three', 'QFX'), ('s_three', 'OEG'), ('s_one', 'QOEFGXYTU')):
            for r in m.suite(w, ks, v):
                report(r, v, 'verbosity %d' % v, None)
    for r in m.suite('m_plain', 'QFE'):
        report(r, 2, 'main()', b'prog')
    for r in m.suite('m_t', 'QOEFGXYTU'):
        report(r, 2, 'main() with one test case selected', b'prog')
    for r in m.suite('m_t2', 'QFX'):
        report(r, 2, 'main() with two test cases selected', b'prog')
    for r in m.suite('m_rep', 'QFX'):
        report(r, 1, 'main() with a name', b'TheName')
    for r in m.suite('m_repone', 'QOEFGXYTU'):
        report(r, 2, 'main() with a name and one test case', b'TheName')
    c.extra['runs'] = runs
    c.assumptions.append('gettimeofday() succeeds; suites are built with addTestCase() from distinct names')

main(Check('C37', 'abstract runs of suites whose test cases pass, write on the standard streams, fail a check or throw: the text printed after the last test case', CASES, 1500), body)
