#!/usr/bin/env python3
"""The verbosity of a run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

def body(c):
    f = Fut(c)
    m = Suite(c, f)
    runs = 0

    def own(r, t, k, v, seg, tag, alone):
        """what is shown after test t; alone: seg holds nothing else"""
        e, n = last(r.p), full(t)
        passed = k in PASS
        who = '%s: a test case that %s' % (tag, MEANS[k])
        if v == 0:
            return
        for w, tag2, lim in (('out', b'OUT-', 5), ('err', b'ERR-', 4)):
            if w in KINDS[k]:
                need = v >= lim or not passed
                c.ob((tag2 + t.encode() in seg) == need, 'output', '%s: its standard %s is %s' % (who, 'output' if w == 'out' else 'error', 'not shown' if need else 'shown'), e)
        if not passed:
            c.ob(n in seg, 'failure', '%s is not named' % who, e)
            if k in 'FG':
                for x, y in ((b'DESC-' + t.encode(), 'description'), (b'FILE-' + t.encode(), 'file'), (b'%d' % (7700 + ord(t)), 'line')):
                    c.ob(x in seg, 'failure', '%s: the %s of the failure is not shown' % (who, y), e)
            if k in 'XU':
                c.ob(b'WHAT-' + t.encode() in seg, 'failure', '%s: the text of the exception is not shown' % who, e)
            if alone:
                c.ob(b'OK' not in seg and b'Passed' not in seg, 'outcome', '%s is shown as passed' % who, e)
            if k == 'E' and v >= 2:
                c.ob(b'FAIL' in seg.upper(), 'outcome', '%s is not shown as failed' % who, e)
        else:
            line = [l for l in seg.split(b'\n') if n in l]
            if v >= 2:
                c.ob(any(b'OK' in l for l in line), 'outcome', '%s is not shown as passed' % who, e)
                c.ob(not any(b'FAIL' in l.upper() for l in line), 'outcome', '%s is shown as failed' % who, e)
            elif alone:
                c.ob(seg == b'', 'quiet', '%s is reported' % who, e)

    def announced(r, t, v, seg, tag):
        e = last(r.p)
        if v >= 3:
            c.ob(full(t) in seg, 'begin', '%s: the test case is not announced before it begins' % tag, e)
        elif v:
            c.ob(full(t) not in seg, 'begin', '%s: the test case is announced before it begins' % tag, e)

    def silent(r, tag):
        c.ob(r.text == b'' and r.errtext == b'', 'silent', '%s: something is printed (%s)' % (tag, (r.text + r.errtext).strip()[:40]), last(r.p))
    for v in range(6):
        for r in m.suite('p_one', 'QOEFGXYTU', v):
            runs += 1
            tag = 'verbosity %d' % v
            if r.p.status != 'ret' or len(r.tests) != 1:
                continue
            (t, k), (pre, post) = r.tests[0], r.segments()
            if v == 0:
                silent(r, tag)
            announced(r, t, v, pre, tag)
            own(r, t, k, v, post, tag, True)
        for w, ks in (('s_three', 'OEF'), ('s_three', 'QGXY'), ('s_one', 'QOEFGXYTU')):
            for r in m.suite(w, ks, v):
                runs += 1
                tag = 'verbosity %d' % v
                if r.p.status != 'ret':
                    continue
                if v == 0:
                    silent(r, tag)
                seg = r.segments()
                for i, (t, k) in enumerate(r.tests):
                    announced(r, t, v, seg[i], tag)
                    # the end of the segment announces the next test case
                    s = seg[i + 1]
                    own(r, t, k, v, s, tag, v == 1 and i + 1 < len(r.tests))
                    for u in NAMES:
                        if u != t:
                            c.ob(b'OUT-' + u.encode() not in s and b'ERR-' + u.encode() not in s, 'output', '%s: the output of another test case is shown after a test case' % tag, last(r.p))
    # the default shows the outcome of every test case and does not announce it
    for r in m.suite('s_default', 'QOEFXY'):
        runs += 1
        if r.p.status == 'ret' and len(r.tests) == 1:
            own(r, r.tests[0][0], r.tests[0][1], 2, r.segments()[1], 'default verbosity', False)
            announced(r, r.tests[0][0], 2, r.segments()[0], 'default verbosity')
    # what was not captured is not shown again
    for r in m.suite('m_c', 'OEF'):
        runs += 1
        c.ob(b'OUT-' not in r.text and b'ERR-' not in r.text, 'direct', 'output that was not captured is shown', last(r.p))
        c.ob(b'STALE' not in r.text, 'stale', 'the report of a run shows what a test case held before it', last(r.p))
    c.extra['runs'] = runs
    c.assumptions.append('gettimeofday() succeeds; suites are built with addTestCase() from distinct names')

main(Check('C36', 'abstract runs of suites at every verbosity whose test cases quietly pass, write on the standard streams, fail a check or throw: the text that reaches the standard output before, between and after the test cases', CASES, 2500), body)
