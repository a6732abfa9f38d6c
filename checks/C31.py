#!/usr/bin/env python3
"""The capture of the standard streams."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

def body(c):
    f = Fut(c)
    m = Case(c, f)
    T = m.T
    DOES = [(), ('err',), ('fail',), ('fail', 'err'), ('std', 'err'), ('other',)]

    def text(t):
        ps = parts(t) if t is not None else [None]
        if all(isinstance(x, tuple) and x[0] == 'sl' for x in ps):
            return b''.join(x[1] for x in ps)
        return None

    def check(p, stages, capture, occ, base, tag):
        """one run of the case: what it wrote where, and the streams afterwards"""
        out = {'out': b'', 'err': b''}
        for e in stages:
            for k in ('out', 'err'):
                b = e.x[k]
                if capture:
                    c.ob(b[0] == 'bufof', 'redirect', '%s() writes on the standard %s although it is captured%s' % (e.name, 'output' if k == 'out' else 'error', tag), e)
                    if k == 'out' or 'err' in e.args:
                        out[k] += ('<%s %s %d>' % (k, e.name, occ)).encode()
                else:
                    c.ob(b == base[k], 'direct', '%s() does not write on the standard %s although it is not captured%s' % (e.name, 'output' if k == 'out' else 'error', tag), e)
            if capture:
                c.ob(e.x['out'] != e.x['err'], 'apart', 'the standard output and the standard error are captured together%s' % tag, e)
        return out

    def after(p, tag):
        for k in ('out', 'err'):
            b = m.buffer(p.st, k)
            name = 'output' if k == 'out' else 'error'
            c.ob(b == ('rdbuf0', (m.where(k), 0)), 'restored', 'the standard %s is not the one it was before the case%s' % (name, tag), last(p))
            for comp, what in (('flags', 'the format flags'), ('precision', 'the precision'), ('width', 'the field width'), ('fill', 'the fill character'), ('rest', 'the locale and the exceptions'), ('state', 'the error state')):
                v = models.iosget(p.st, (m.where(k), 0), comp)
                c.ob(v == ('ios0', comp, (m.where(k), 0)) or comp == 'state' and v == 0, 'format', '%s of the standard %s can be that of the case after it%s' % (what, name, tag), last(p))

    def kept(p, out, tag):
        for k in ('out', 'err'):
            c.ob(text(f.text(p, k, T)) == out[k], 'kept', 'captured%s() is not what the case wrote%s' % (k.capitalize(), tag), last(p))
    base = {k: ('rdbuf0', (m.where(k), 0)) for k in ('out', 'err')}
    n = 0
    for p in m.runs('w_case', {'setup': DOES, 'test': DOES, 'teardown': DOES}):
        cap = truth(p.facts, ('B', 'arg', 'capture'))
        if p.status != 'ret' or not c.ob(cap is not None, 'asked', 'whether the streams are captured does not depend on the request', last(p)):
            c.ob(p.status == 'ret', 'contained', 'an exception of a test case leaves run()', last(p))
            continue
        n += 1
        tag = '' if cap else ' (no capture)'
        out = check(p, m.stages(p), cap, 0, base, tag)
        after(p, tag)
        kept(p, out if cap else {'out': b'', 'err': b''}, tag)
    c.ob(n >= 2 * 4 * 6 * 6, 'seen', 'only %d runs were seen' % n, ('src/fut/testcase.cpp', 'TestCase::run'))
    # run again, without capture: nothing is left of the first
    n = 0
    for w, caps in (('w_twice', (True, False)), ('w_again', (True, True))):
        for p in m.runs(w, {'setup': [()], 'test': [(), ('err',), ('std', 'err')], 'teardown': [(), ('err',)]}):
            if p.status != 'ret':
                c.ob(False, 'contained', 'an exception of a test case leaves run()', last(p))
                continue
            st = m.stages(p)
            k = [i for i, e in enumerate(st) if e.name == 'setup']
            if len(k) != 2:
                continue
            n += 1
            check(p, st[:k[1]], caps[0], 0, base, '')
            out = check(p, st[k[1]:], caps[1], 1, base, ' (second run)')
            after(p, ' (second run)')
            kept(p, out if caps[1] else {'out': b'', 'err': b''}, ' (second run)')
    c.ob(n >= 2 * 3 * 2 * 3 * 2 - 20, 'seen', 'only %d second runs were seen' % n, ('src/fut/testcase.cpp', 'TestCase::beginTest'))
    # two cases in a row: the second is captured apart from the first, nested ones too
    for p in m.runs('w_pair', {'setup': [()], 'test': [('err',)], 'teardown': [()]}):
        after(p, ' (two cases)')
        if p.status == 'ret':
            kept(p, {'out': b'<out setup 0><out test 0><out teardown 0>', 'err': b'<err test 0>'}, ' (two cases)')

main(Check('C31', 'abstract runs of beginTest(), run(), endTest() with SetUp(), test() and TearDown() writing on the standard streams, failing and throwing: the buffer behind each stream at every step, the streams afterwards and the captured texts', CASES, 500), body)
