#!/usr/bin/env python3
"""Elapsed times."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *
from interp import sub, add, scale, lin, lt, fpval
import interp

TL, MT = 'falcon::testing::TimeLapse::', 'falcon::testing::'
DAY = 24 * 60 * 60 * 1000

def body(c):
    n = 0
    # ------------------------------------------------------------ the clock
    SEC, USEC, NSEC = (('s', x, 'clock', x) for x in ('sec', 'usec', 'nsec'))

    def clock(I, S, ins, cn, name, args):
        if cn in ('gettimeofday', 'clock_gettime'):
            s = S.fork()
            I.emit(s, 'clock', cn, ('failed',), None, None, ins)
            p = args[0 if cn == 'gettimeofday' else 1]
            I.write(S, p, 8, SEC)
            I.write(S, ('&', addr(p)[0], addr(p)[1] + 8), 8, USEC if cn == 'gettimeofday' else NSEC)
            I.emit(S, 'clock', cn, (), None, None, ins)
            return [Outcome(S, 0), Outcome(s, -1)]
        if re.fullmatch(r'std::chrono::(_V2::)?(system|steady)_clock::now', cn):
            I.emit(S, 'clock', cn, (), None, None, ins)
            return Outcome(S, NSEC)
        return None
    unsigned = lambda t: t if not isinstance(t, tuple) else tuple('sdiv' if x == 'udiv' else unsigned(x) for x in t)
    def fits(t, ns):
        """without the changes of width of the parts of a second, which fit 32 bits"""
        if not isinstance(t, tuple):
            return t
        if t[0] == 'lin':
            out = t[1]
            for x, k in t[2]:
                out = add(out, scale(fits(x, ns), k))
            return out
        if t[0] == 'cv' and (t[1] in ('sext', 'zext') or t[1] == 'trunc' and t[3] >= 32):
            x = fits(t[2], ns)
            while isinstance(x, tuple) and x[0] == 'op' and x[1] == 'sdiv' and isinstance(x[3], int) and x[3] > 0:
                x = x[2]
            if x == USEC or x == NSEC and not ns or t[1] == 'sext':
                return fits(t[2], ns)
        return tuple(fits(x, ns) for x in t)
    div = lambda t, k: ('op', 'sdiv', t, k)
    good = [add(scale(SEC, 1000), div(USEC, 1000)), add(scale(SEC, 1000), div(NSEC, 1000000)), div(NSEC, 1000000), div(div(NSEC, 1000), 1000),
            div(add(scale(SEC, 1000000), USEC), 1000), div(add(scale(SEC, 1000000000), NSEC), 1000000)]
    good += [div(t, k) for t in good for k in ()]
    for p in c.run(c.fn1(MT + 'markTime'), hook=clock, exact_casts=True)[0]:
        n += 1
        ev = [e for e in p.events if e.kind == 'clock']
        e = ev[-1] if ev else last(p)
        c.ob(len(ev) >= 1, 'clock', 'markTime() does not read the clock', e)
        if any(x.args for x in ev):
            c.ob(p.status == 'throw', 'clock', 'markTime() returns although the clock cannot be read', e)
            continue
        c.ob(p.status == 'ret', 'clock', 'markTime() %ss although the clock is read' % p.status, e)
        ps = c.P.fn(c.fn1(MT + 'markTime')).params()
        v = p.st.mem.get(('P', ps[0][2]), {}).get(0)
        t = fits(unsigned(v[1]), 'now' in str(e.name)) if v is not None else None
        c.ob(t in good, 'clock', 'markTime() does not give the milliseconds of the clock', e)
    # ------------------------------------------------------------ waiting
    fn = c.fn1(MT + 'waitTime')
    MS = ('arg', c.P.fn(fn).params()[0][2])
    for p in c.run(fn, exact_casts=True)[0]:
        n += 1
        if p.status == 'cut':
            continue
        sl = [e for e in p.events if e.kind == 'sleep']
        e = sl[-1] if sl else last(p)
        total = 0
        for x in sl:
            k = re.search(r'sleep_forI[xl]St5ratioILl1ELl(\d+)EE', x.x['m']) if x.name.endswith('sleep_for') else None
            if k:
                r, o = addr(x.args[0])
                v = p.st.mem.get(r, {}).get(o)
                total = add(total, scale(v[1], 1000000 // int(k.group(1)))) if v is not None and 1000000 % int(k.group(1)) == 0 else None
            elif x.name == 'usleep':
                c.ob(truth(p.facts, lt(x.args[0], 2 ** 32)) is True and truth(p.facts, lt(x.args[0], 0)) is False, 'wait', 'the number of microseconds passed to usleep() may not fit its 32 bits', x)
                total = add(total, x.args[0])
            else:
                raise Broken('waiting by %s' % x.name)
            if total is None:
                raise Broken('the time waited for')
        if not sl and (truth(p.facts, lt(MS, 1)) is True or truth(p.facts, lt(MS, 0)) is True):
            continue
        c.ob(total == scale(MS, 1000), 'wait', 'waitTime() does not wait for the milliseconds it is given, whatever their number', e)
    # ------------------------------------------------------------ TimeLapse
    at = {}
    for k in ('begin', 'end'):
        r = {p.ret for p in c.run(c.fn1(TL + k), exact_casts=True)[0]}
        v = r.pop()
        if r or not (isinstance(v, tuple) and v[0] == 'ld'):
            raise Broken('where a TimeLapse keeps its %s' % k)
        at[k] = v
    now = ('s', 'now', 'clock', 'now')

    def mark(I, S, ins, cn, name, args):
        if cn == MT + 'markTime':
            I.emit(S, 'clock', cn, (), None, None, ins)
            I.write(S, args[0], 8, now)
            return Outcome(S, None)
        return None

    def mem(p, k):
        v = p.st.mem.get(at[k][1], {}).get(at[k][2])
        return v[1] if v is not None else at[k]

    def same(a, b):
        return a == b or sub(a, b) == 0
    for meth, k, o in (('markBegin', 'begin', 'end'), ('markEnd', 'end', 'begin')):
        for p in c.run(c.fn1(TL + meth), hook=mark, exact_casts=True)[0]:
            n += 1
            c.ob(p.status == 'ret' and same(mem(p, k), now) and same(mem(p, o), at[o]), 'mark', '%s() does not set the %s, and only this, to the present time' % (meth, k), last(p))
            c.ob(same(p.ret, now), 'mark', '%s() does not return the time it marks' % meth, last(p))
    for meth, end in (('elapsed', at['end']), ('elapsedNow', now)):
        b = at['begin']
        whole = {True: 0, False: 0}
        for p in c.run(c.fn1(TL + meth), hook=mark, exact_casts=True)[0]:
            n += 1
            back = truth(p.facts, lt(end, b))
            c.ob(p.status == 'ret' and same(mem(p, 'begin'), b) and same(mem(p, 'end'), at['end']), 'elapsed', '%s() changes the time lapse' % meth, last(p))
            if not c.ob(back is not None or same(p.ret, sub(end, b)) and False, 'elapsed', '%s() does not regard that the end may be before the begin' % meth, last(p)):
                continue
            whole[back] += 1
            c.ob(same(p.ret, add(sub(end, b), DAY if back else 0)), 'elapsed', '%s() is not the time from the begin to the %s%s' % (meth, 'end' if meth == 'elapsed' else 'present', ' plus a day when it is before the begin' if back else ''), last(p))
    # ------------------------------------------------------------ test cases and suites
    c.P = None
    c.load(CASES)
    f = Fut(c)
    m = Suite(c, f)
    m.clock = lambda i: 1700000000000 + (2 ** 32 + 7) * 2 ** i if i < 500 else None     # all differences are different, and none fits 32 bits

    def tick(I, S, ins, cn, name, args):
        if cn == MT + 'markTime':
            i = sum(1 for e in S.events() if e.kind == 'clock')
            I.emit(S, 'clock', cn, (i, m.clock(i)), None, None, ins)
            I.write(S, args[0], 8, m.clock(i))
            return Outcome(S, None)
        return None

    def readings(p):
        """(position, time) of the readings of the clock"""
        return [(i, e.args[1]) for i, e in enumerate(p.events) if e.kind == 'clock']

    def stages(p):
        return [(i, e.name, e.args[0]) for i, e in enumerate(p.events) if e.kind == 'stage']

    def between(p, ms, lo, first, lst, hi):
        """ms is the time from a reading in (lo, first) to one in (lst, hi)"""
        r = readings(p)
        return any(abs(y - x - ms) <= 1e-9 * abs(ms) for i, x in r if lo < i < first for j, y in r if lst < j < hi)
    for w in ('w_time', 'w_timenow', 'w_timeagain'):
        does = {'setup': [()], 'test': [(), ('fail',), ('std',), ('other',)], 'teardown': [(), ('std',), ('other',)]}
        for p in m.runs(w, does, hook=tick):
            n += 1
            st = [(i, e.name, e.args) for i, e in enumerate(p.events) if e.kind == 'stage']
            ts = [x for x in st if x[1] == 'test']
            if p.status != 'ret' or not ts:
                continue
            i = ts[-1][0]
            lo = max([x[0] for x in st if x[0] < i and x[1] == 'teardown'] or [-1])
            k = next((d for d in ('fail', 'std', 'other') if d in ts[-1][2]), None)
            say = {'fail': 'fails a check', 'std': 'throws a std::exception', 'other': 'throws something', None: 'returns'}[k]
            r = readings(p)
            if w == 'w_timenow':
                asked = [j for j, e in enumerate(p.events) if e.kind == 'ext' and e.name == W + 'mark']
                good = bool(r) and bool(asked) and r[-1][0] > asked[0] and any(r[-1][1] - x == p.ret for j, x in r if lo < j < i)
                c.ob(good, 'case', 'elapsedTimeNow() is not the time since the test case, whose body %s, has begun' % say, last(p))
            else:
                c.ob(isinstance(p.ret, int) and between(p, p.ret, lo, i, i, len(p.events)), 'case', 'elapsedTime() is not the time from the begin to the end of the %stest case, whose body %s' % ('latest run of the ' if w == 'w_timeagain' else '', say), last(p))

    def text(evs, roots):
        """what is written on the streams, with times as {milliseconds}"""
        out = b''
        for e in evs:
            if e.kind == 'out' and addr(e.args[0]) in roots:
                out += fl([e.args[1]])
        return out

    def fl(pieces):
        out = b''
        for x in pieces:
            if x[0] == 'f':
                v = fpval(x[1])
                out += b'{%.6f}' % (v * 1000) if v is not None else b'{?}'
            elif x[0] == 's':
                out += ft(x[1])
            else:
                out += flat([x])
        return out

    def ft(t):
        if t[0] == 'cat':
            return b''.join(ft(x) for x in t[1])
        return fl(t[1]) if t[0] == 'fmt' else flatt(t)

    def ms(s):
        return [None if x == b'?' else float(x) for x in re.findall(rb'\{([^}]*)\}', s)]

    def shown(p, s, what, lo, first, lst, hi, at):
        v = ms(s)
        v = [x for x in v if x != -1000]
        if c.ob(len(v) == 1, 'shown', '%s shows %d times for %s' % (at, len(v), what), last(p)):
            if v[0] is None:
                raise Broken('the time shown for %s' % what)
            c.ob(between(p, v[0], lo, first, lst, hi), 'shown', '%s: the time of %s is not the time from its begin to its end' % (at, what), last(p))

    def spans(r):
        st = stages(r.p)
        out, order = {}, [t for t, k in r.tests]
        for t in order:
            own = [i for i, nm, x in st if x == t]
            body = [i for i, nm, x in st if x == t and nm == 'test'][0]
            other = [i for i, nm, x in st if x != t]
            out[t] = (max([i for i in other if i < body] or [-1]), body, min([i for i in other if i > body] or [len(r.p.events)]))
        return out

    def group(r, ts, sp):
        st = stages(r.p)
        a, b = min(sp[t][1] for t in ts), max(sp[t][1] for t in ts)
        lo = max([i for i, nm, x in st if x not in ts and i < a] or [-1])
        hi = min([i for i, nm, x in st if x not in ts and i > b] or [len(r.p.events)])
        first = min(i for i, nm, x in st if x in ts and i > lo)
        lst = max(i for i, nm, x in st if x in ts and i < hi)
        return lo, first, lst, hi

    runs = 0
    for w, v in (('s_three', 2), ('s_three', 5), ('s_one', 2)):
        for r in m.suite(w, 'QFX', v):
            if r.p.status != 'ret' or not r.tests:
                continue
            runs += 1
            sp = spans(r)
            direct = text(r.p.events, [(COUT, 0)])
            cut = [i for i, nm, x in stages(r.p)]
            for t in sp:
                after = min([i for i in cut if i > sp[t][1] and dict((a, (nm, x)) for a, nm, x in stages(r.p))[i][1] != t] or [len(r.p.events)])
                seg = text(r.p.events[sp[t][1]:after], [(COUT, 0)])
                ls = [l for l in seg.split(b'\n') if full(t) in l and b'{' in l]
                if ls or t not in r.failed:
                    shown(r.p, b''.join(ls[:1]), 'test case %s' % full(t).decode(), sp[t][0], sp[t][1], sp[t][1], sp[t][2], 'verbosity %d' % v)
            rep = [l for l in text(r.p.events[cut[-1]:], [(COUT, 0)]).split(b'\n') if b'{' in l and b'::' not in l]
            comps = {}
            for t in sp:
                comps.setdefault(NAMES[t][0], []).append(t)
            for cn, ts in comps.items():
                ls = [l for l in rep if cn.encode() in l]
                if ls or len(comps) > 1:
                    shown(r.p, b''.join(ls), 'component %s' % cn, *group(r, ts, sp), 'the final report')
            ls = [l for l in rep if not any(x.encode() in l for x in comps)]
            shown(r.p, b''.join(ls), 'the unit test', *group(r, list(sp), sp), 'the final report')
    for r in m.suite('s_elapsed', 'QFX', 0):
        if r.p.status == 'ret' and r.tests:
            runs += 1
            sp = spans(r)
            asked = [j for j, e in enumerate(r.p.events) if e.kind == 'ext' and e.name == W + 'mark']
            c.ob(isinstance(r.p.ret, int) and bool(asked) and between(r.p, r.p.ret, *group(r, list(sp), sp)[:3], asked[0]), 'case', 'elapsedTime() of a unit test is not the time from its begin to its end', last(r.p))
    for w in ('m_xml', 'm_xmlone'):
        for r in m.suite(w, 'QF'):
            roots = [addr(e.args[0]) for e in r.p.events if e.kind == 'open']
            t = text(r.p.events, roots)
            if r.p.status != 'ret' or not r.tests or b'<test' not in t:
                continue
            runs += 1
            sp = spans(r)
            comps = {}
            for x in sp:
                comps.setdefault(NAMES[x][0], []).append(x)
            tags = re.findall(rb'<(testsuites|testsuite|testcase)\b([^<>]*)', t)
            for tag, a in tags:
                nm = re.search(rb'\bname\s*=\s*["\']([^"\']*)', a)
                tm = b''.join(re.findall(rb'\btime\s*=\s*["\']([^"\']*)', a))
                nm = nm.group(1).decode('latin1') if nm else ''
                ts = list(sp) if tag == b'testsuites' else comps.get(nm, []) if tag == b'testsuite' else [x for x in sp if NAMES[x][1] == nm]
                if tag == b'testcase' and ts:
                    lo, i, hi = sp[ts[0]]
                    shown(r.p, tm, 'testcase %s' % nm, lo, i, i, hi, 'the XML report')
                elif ts:
                    shown(r.p, tm, '%s %s' % (tag.decode(), nm), *group(r, ts, sp), 'the XML report')
    c.extra['suite_runs'] = runs
    c.extra['paths_of_times'] = n
    c.assumptions.append('the clock can be read while test cases are performed')

main(Check('C40', 'linear forms of the clock functions on every abstract path, and constant propagation of an injective sequence of clock readings through whole runs: every time shown is the difference of the readings around what it measures', UNITS, 100), body)
