#!/usr/bin/env python3
"""Whole unit test programs: declared test cases are registered before main(), which performs them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *
from exact import Exact

CASESOF = {1: 'Comp::second', 2: 'Comp::first', 3: 'Fix::plain', 4: 'Fix::other', 5: '01_Numbered::03_name', 6: 'Comp::third', 7: 'Base::one'}
ALL = set(CASESOF)

def body(c):
    X = Exact(Broken)
    P = c.P
    # the initialisation of the source files
    for src in ('w_reg.cpp', 'w_reg3.cpp'):
        k = [n for n in P.defs if n.split('$$')[0] == '_GLOBAL__sub_I_' + src]
        if len(k) != 1:
            c.ob(False, 'registered', 'a source file with test cases does nothing before main()', ('src/include/falcon/fut/fut.h', 'FALCON_TEST'))
            return
        P.defs['_GLOBAL__sub_I_' + src] = P.defs[k[0]]
    zero = []
    for m in P.mods:
        for g in m.globs:
            if ' external ' in ' ' + m.globs[g]:
                continue
            try:
                ty, ini, fl = m.glob(g)
                size = m.layout(ty)[0]
            except Exception:
                continue
            if 'constant' in fl or ini is None or size not in (1, 2, 4, 8):
                continue
            v = interp_value(m, ty, ini, size)
            if v is not None:
                zero.append((g, size, v))

    def run(w, fails):
        """fails: the test case whose check can fail"""
        def init(I, S, fr):
            for g, size, v in zero:
                I.write(S, ('&', ('G', g), 0), 1 if g.startswith('_ZGV') else size, v)

        def hook(I, S, ins, cn, name, args):
            if cn == W + 'reg_body':
                if not isinstance(args[0], int):
                    raise Broken('the body of a test case')
                I.emit(S, 'stage', 'test', (args[0], addr(args[1])[0]), None, None, ins)
                return Outcome(S, None)
            if cn == W + 'reg_step':
                I.emit(S, 'stage', {1: 'setup', 2: 'teardown'}[args[0]], (args[0], addr(args[1])[0]), None, None, ins)
                return Outcome(S, None)
            if cn == W + 'reg_ok':
                out = []
                for ok in ((True, False) if args[0] == fails else (True,)):
                    s = S.fork()
                    I.emit(s, 'ok', cn, (args[0], ok), None, None, ins)
                    out.append(Outcome(s, 1 if ok else 0))
                return out
            if cn == '__cxa_guard_acquire' and not S.ext.get(('guarded', addr(args[0]))):
                return Outcome(S, 1)
            if cn == '__cxa_guard_release':
                I.write(S, args[0], 1, 1)
                return None
            r = X.hook(I, S, ins, cn, name, args)
            if r is None and cn == 'falcon::testing::TimeLapse::elapsed':
                r = Outcome(S, 1500)
            return r
        fn = c.fn1(W + w)
        ps = c.run(fn, init=init, hook=hook, time_ok=True, unroll=400, maxpaths=2000, maxsteps=8000000)[0]
        if any(p.status == 'cut' for p in ps):
            raise Broken('%s: a loop over a known text or suite does not end' % w)
        return ps

    n = 0
    def program(w, want, tag, refused=False, fails=None):
        nonlocal n
        ps = run(w, fails)
        outcomes = set()
        for p in ps:
            n += 1
            e = last(p)
            if not c.ob(p.status == 'ret' and isinstance(p.ret, int), 'status', '%s: the program does not end with a status' % tag, e):
                continue
            r = Run(None, p)
            tests = [(t, o) for t, o in r.tests]
            ids = [t if t < 10 else t // 10 for t, o in tests]
            if refused:
                c.ob(not ids and p.ret & 0xff != 0, 'arguments', '%s: main() does not act on the command line it was given' % tag, e)
                continue
            c.ob(sorted(ids) == sorted(want), 'performed', '%s: performs %s instead of %s' % (tag, [CASESOF.get(t, t) for t in ids], [CASESOF[t] for t in sorted(want)]), e)
            # one object each, fixtures included
            c.ob(len({o for t, o in tests}) == len(tests), 'instance', '%s: two test cases share one object' % tag, e)
            for t, o in tests:
                if t >= 10:
                    c.ob(t % 10 == 1, 'fixture', '%s: %s does not find its fixture as SetUp() leaves it' % (tag, CASESOF.get(t // 10, t)), e)
            fixed = [(x.name, x.args[1]) for x in p.events if x.kind == 'stage' and (x.name != 'test' or x.args[0] >= 10)]
            c.ob(fixed == [(k, o) for t, o in tests if t >= 10 for k in ('setup', 'test', 'teardown')], 'fixture', '%s: SetUp() and TearDown() of a fixture are not called around each of its test cases' % tag, e)
            # the names
            lines = r.text.split(b'\n')
            for t in ids:
                nm = CASESOF.get(t, '?').encode()
                c.ob(any(nm in x for x in lines), 'name', '%s: a test case is not known as %s' % (tag, CASESOF.get(t, t)), e)
            bad = {x.args[0] for x in p.events if x.kind == 'ok' and not x.args[1]}
            outcomes.add(bool(bad))
            c.ob((p.ret & 0xff != 0) == bool(bad), 'status', '%s: main() %s' % (tag, 'returns success although %s failed' % ', '.join(CASESOF[t] for t in bad) if bad else 'returns a failure although no test case failed'), e)
            for t in bad:
                c.ob(len([x for x in lines if CASESOF[t].encode() in x and b'FAIL' in x.upper()]) > 0, 'name', '%s: the failure is not reported as one of %s' % (tag, CASESOF[t]), e)
        c.ob(outcomes or refused, 'status', '%s: the program never ends' % tag, ('src/fut/unittest.cpp', 'UnitTest::main'))
        if fails in want:
            c.ob(outcomes == {True, False}, 'body', '%s: the body of %s does not matter' % (tag, CASESOF[fails]), ('src/include/falcon/fut/fut.h', 'FALCON_TEST'))

    two = 'a program of two source files'
    program('r_12', ALL, two)
    program('r_21', ALL, two + ' initialised in the other order')
    for t in sorted(ALL):
        program('r_12', ALL, two, fails=t)
    program('r_select', {4, 7, 5}, 'a selection of test cases', fails=7)
    program('r_wrong', set(), 'an unknown test case selected', refused=True)
    program('r_count', {6}, 'FALCON_TEST_MAIN with fewer arguments than the array holds', fails=6)
    program('r_entry', ALL, 'main() of the library', fails=4)
    program('r_entryselect', {6}, 'main() of the library with a selection', fails=6)
    program('r_entrycount', {6}, 'main() of the library with fewer arguments than the array holds')
    program('r_none', set(), 'a program without test cases')
    c.extra['runs'] = n
    c.assumptions.append('gettimeofday() succeeds; objects with static storage that are not initialised by a function hold their constant value before the first initialiser runs')

def interp_value(m, ty, ini, size):
    I = interp.Interp.__new__(interp.Interp)
    try:
        v = I.cread(m, ty, ini, 0, size)
    except Exception:
        return None
    return v if isinstance(v, int) else None

main(Check('C42', 'abstract runs of whole programs: the initialisers of two source files that declare test cases with every macro, in both orders, then main(): test cases performed, their objects, fixtures, names, and the status', ['w_reg.cpp', 'w_reg2.cpp', 'w_reg3.cpp', 'fut', 'fut/fut_main.cpp'], 80), body)
