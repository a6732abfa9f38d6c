#!/usr/bin/env python3
"""The check macros of the unit test framework."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from futs import *

SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness', 'w_fut.cpp')

def lineof(w):
    for i, l in enumerate(open(SRC), 1):
        if re.match(r'void T::%s\(' % w, l):
            return i
    raise Broken('witness %s' % w)

def body(c):
    f = Fut(c)
    P, I2 = ('P', 'this'), None

    def hook(I, S, ins, cn, name, args):
        if cn == W + 'may_throw':
            out = []
            for k, ti in (('none', None), ('exc', '_ZTIN3wit3ExcE'), ('derived', '_ZTIN3wit7DerivedE'), ('std', '_ZTIN3wit3StdE'), ('other', '_ZTIN3wit5OtherE')):
                s = S.fork()
                I.emit(s, 'ext', cn, args, None, {'m': name, 'threw': k}, ins)
                out.append(Outcome(s, None) if ti is None else models.stdthrow(I, s, ins, ti))
            return out
        return None

    def runs(w):
        ps = [p for p in c.run(c.fn1(W + 'T::' + w), hook=hook)[0] if p.status != 'cut']
        if not ps:
            raise Broken('no path of %s' % w)
        return ps

    def after(p):
        return [e for e in p.events if e.kind == 'ext' and e.name == W + 'after']

    def failed(p):
        return bool(f.writes(p, 'status'))

    def passes(p, tag, w):
        c.ob(p.status == 'ret', 'pass', '%s: %s although the check holds' % (tag, p.status), w)
        for k in ('status', 'desc', 'file', 'line'):
            for e in f.writes(p, k):
                c.ob(False, 'pass', '%s marks the test as failed although the check holds' % tag, e)
        c.ob(len(after(p)) == 1, 'pass', '%s does not go on with the test although the check holds' % tag, w)

    def fails(p, tag, wname, text, shown, w, leaves=True):
        if not c.ob(p.status == 'ret', 'fail', '%s: %s when the check fails' % (tag, p.status), w):
            return
        c.ob(f.mem(p, 'status') == f.K['fail'], 'fail', '%s does not mark the test as failed when the check fails' % tag, w)
        if leaves is not None:
            c.ob(not after(p) if leaves else len(after(p)) == 1, 'leave', '%s %s the test when the check fails' % (tag, 'goes on with' if leaves else 'leaves'), w)
        c.ob(f.mem(p, 'line') == lineof(wname), 'where', '%s does not report the line of the check' % tag, w)
        t = f.text(p, 'file')
        whole = ('sl', SRC.encode())
        c.ob(t is not None and (t == whole or t == ('sl', os.path.basename(SRC).encode()) or t[0] == 'sub' and t[1] == whole), 'where', '%s does not report the file of the check' % tag, w)
        d = parts(f.text(p, 'desc')) if f.text(p, 'desc') is not None else []
        lit = b''.join(x[1] for x in d if x[0] == 'sl')
        c.ob(text in lit and bool(d), 'text', '%s does not report the text of the check' % tag, w)
        if shown is not None:
            ok = any(shown(x) for x in d)
            told.setdefault(tag, []).append(ok)
            empty = any(e.kind == 'if' and truth(p.facts, e.name) is False and 'len' in str(e.name) for e in p.events)
            c.ob(ok or empty, 'actual', '%s does not report the actual value' % tag, w)

    told = {}
    n = 0
    # ------------------------------------------------------------ comparisons
    SYM = {'t_eq': '==', 't_ne': '!=', 't_gt': '>', 't_ge': '>=', 't_lt': '<', 't_le': '<='}
    for w, op in SYM.items():
        tag = 'EXPECT_' + w[2:].upper()
        seen = set()
        for p in runs(w):
            n += 1
            cmp = [e for e in p.events if e.kind == 'ext' and re.fullmatch(re.escape(W) + r'operator(==|!=|<|<=|>|>=)', e.name)]
            ex = [e for e in p.events if e.kind == 'ext' and e.name in (W + 'ea', W + 'eb')]
            if not c.ob(len(cmp) == 1, 'compare', '%s compares %d times' % (tag, len(cmp)), last(p)):
                continue
            e = cmp[0]
            m = e.x['m']
            c.ob(e.name == W + 'operator' + op and re.search(r'ERKNS_1AERKNS_1BE$', m), 'compare', '%s does not compare expected %s actual' % (tag, op), e)
            r = truth(p.facts, e.ret)
            if not c.ob(r is not None, 'decide', '%s does not depend on the comparison' % tag, e):
                continue
            seen.add(r)
            once = [x for x in ex if p.events.index(x) < p.events.index(e)]
            c.ob(sorted(x.name for x in once) == [W + 'ea', W + 'eb'], 'once', '%s does not evaluate its arguments once for the comparison' % tag, e)
            if r:
                c.ob(len(ex) == 2, 'once', '%s evaluates its arguments again although the check holds' % tag, e)
                passes(p, tag, e)
            else:
                put = [x for x in p.events if x.kind == 'ext' and x.name == W + 'operator<<']
                c.ob(any(x.x['m'].endswith('ERKNS_1BE') or 'RKNS_1BE' in x.x['m'] for x in put) and not any('RKNS_1AE' in x.x['m'] for x in put), 'actual', '%s does not report the actual value' % tag, e)
                fails(p, tag, w, b'ea() ' + op.encode() + b' eb()', lambda x: x[0] in ('ossval', 'fmt', 'sval'), e)
        c.ob(seen == {True, False}, 'decide', '%s does not depend on the comparison' % tag)
    # ------------------------------------------------------------ booleans
    for w, want in (('t_true', True), ('t_false', False)):
        tag = 'EXPECT_' + w[2:].upper()
        seen = set()
        for p in runs(w):
            n += 1
            ev = [e for e in p.events if e.kind == 'ext' and e.name == W + 'bt']
            if not c.ob(bool(ev), 'once', '%s does not evaluate its argument' % tag, last(p)):
                continue
            r = truth(p.facts, tobool(ev[0].ret))
            if not c.ob(r is not None, 'decide', '%s does not depend on its argument' % tag, ev[0]):
                continue
            seen.add(r)
            if r == want:
                c.ob(len(ev) == 1, 'once', '%s evaluates its argument again although the check holds' % tag, ev[0])
                passes(p, tag, ev[0])
            else:
                fails(p, tag, w, b'bt()', lambda x: x[0] != 'sl' and any(str(e.ret) in str(x) for e in ev), ev[0])
        c.ob(seen == {True, False}, 'decide', '%s does not depend on its argument' % tag)
    # ------------------------------------------------------------ texts
    for w, want in (('t_streq', True), ('t_strne', False), ('t_streqs', True)):
        tag = 'EXPECT_STR' + ('EQ' if want else 'NE')
        A, B = (('sval', ('P', k), 0, (0, 0)) for k in 'ab')
        seen = set()
        for p in runs(w):
            n += 1
            dec = None
            for e in p.events:
                if e.kind == 'if':
                    t = e.name
                    v = bool(e.args[0])
                    while isinstance(t, tuple) and t[0] == 'not':
                        t, v = t[1], not v
                    s = set(texts(t))
                    if len(s) == 2 and s == {('P', 'a'), ('P', 'b')}:
                        if t[:2] == ('B', 'seq'):
                            dec = (v, e)
                        elif t[0] == 'eq0' and "('len'" not in str(t):
                            dec = (v, e)
            if not c.ob(dec is not None, 'decide', '%s does not depend on whether the texts are equal' % tag, last(p)):
                continue
            v, e = dec
            seen.add(v)
            if v == want:
                passes(p, tag, e)
            else:
                fails(p, tag, w, b'==' if want else b'!=', lambda x: 'b' in texts2(x), e)
        c.ob(seen == {True, False}, 'decide', '%s does not depend on whether the texts are equal' % tag)
    # ------------------------------------------------------------ floats
    sc = lambda n: ('cv', 'fptosi', ('op', 'fmul', ('arg', n), ('fp', '1.000000e+04')), ('i', 64))
    for w, want in (('t_feq', True), ('t_fne', False)):
        tag = 'EXPECT_FLOAT_' + w[3:].upper()
        seen = set()
        for p in runs(w):
            n += 1
            r = truth(p.facts, eq(sc('a'), sc('b')))
            if not c.ob(r is not None, 'decide', '%s does not depend on whether both values agree to four decimals' % tag, last(p)):
                continue
            seen.add(r)
            if r == want:
                passes(p, tag, last(p))
            else:
                fails(p, tag, w, b'', lambda x: x[0] != 'sl' and "('arg', 'b')" in str(x), last(p))
        c.ob(seen == {True, False}, 'decide', '%s does not depend on whether both values agree to four decimals' % tag)
    # ------------------------------------------------------------ arguments of low precedence
    def low(w):
        for p in runs(w):
            ex = [e for e in p.events if e.kind == 'ext' and e.name.startswith(W)]
            yield p, ex, {e.ret: e.name[len(W):] for e in ex if e.name[len(W):] in ('xa', 'xb', 'xc', 'xd', 'ia', 'ib')}, {e.ret: tuple(e.args) for e in ex if e.name == W + 'operator|'}
    def whole(v, names, ors, want):
        return v in ors and tuple(names.get(x) for x in ors[v]) == want
    for w, op in list(SYM.items()) + [('t_feq', '*'), ('t_fne', '*')]:
        tag = 'EXPECT_' + (w[2:] if op != '*' else 'FLOAT_' + w[3:]).upper()
        for p, ex, names, ors in low('l' + w[1:]):
            n += 1
            got = [e for e in ex if e.name == W + 'operator' + op]
            a = [x for e in got for x in (e.args[:1] if op == '*' else e.args)][:2]
            if op == '*':
                a.sort(key=lambda x: tuple(names.get(y, '') for y in ors.get(x, ())))
            c.ob(len(a) == 2 and whole(a[0], names, ors, ('xa', 'xb')) and whole(a[1], names, ors, ('xc', 'xd')), 'operands', '%s does not compare the values of its whole arguments' % tag, last(p))
            for e in ex:
                if e.name == W + 'operator<<':
                    c.ob(whole(e.args[1], names, ors, ('xc', 'xd')), 'operands', '%s does not report the value of its whole argument' % tag, e)
    for w, want in (('l_true', True), ('l_false', False)):
        tag = 'EXPECT_' + w[2:].upper()
        seen = set()
        for p, ex, names, ors in low(w):
            n += 1
            r = None
            if len(names) >= 2:
                x, y = [k for k in names][:2]
                for t in (('bor', x, y), ('op', 'or', x, y), ('bor', y, x)):
                    r = truth(p.facts, tobool(t)) if r is None else r
            if c.ob(r is not None, 'operands', '%s does not depend on the value of its whole argument' % tag, last(p)):
                seen.add(r)
                c.ob(bool(after(p)) == (r == want), 'operands', '%s does not depend on the value of its whole argument' % tag, last(p))
        c.ob(seen == {True, False}, 'operands', '%s does not depend on the value of its whole argument' % tag)
    # ------------------------------------------------------------ FAIL
    for p in runs('t_fail'):
        n += 1
        fails(p, 'FAIL', 't_fail', b'because', None, last(p), leaves=None)
    # ------------------------------------------------------------ exceptions
    for w, good in (('t_throw', ('exc', 'derived')), ('t_any', ('exc', 'derived', 'std', 'other')), ('t_nothrow', ('none',))):
        tag = {'t_throw': 'EXPECT_THROW', 't_any': 'EXPECT_ANY_THROW', 't_nothrow': 'EXPECT_NO_THROW'}[w]
        kinds = set()
        for p in runs(w):
            n += 1
            ev = [e for e in p.events if e.kind == 'ext' and e.name == W + 'may_throw']
            if not c.ob(len(ev) == 1, 'once', '%s does not evaluate its expression once' % tag, last(p)):
                continue
            k = ev[0].x['threw']
            kinds.add(k)
            if k in good:
                passes(p, tag, ev[0])
            elif w == 't_throw' and k != 'none':
                # the wrong exception must not make the test pass
                c.ob(p.status == 'throw' or f.mem(p, 'status') == f.K['fail'], 'other', '%s swallows an exception of another type' % tag, ev[0])
            else:
                what = [e.ret for e in p.events if e.kind == 'vcall']
                fails(p, tag, w, b'Exc' if w == 't_throw' else b'', (lambda x: x[0] != 'sl' and any(str(r) in str(x) for r in what)) if w == 't_nothrow' and k == 'std' else None, ev[0], leaves=None)
        c.ob(kinds == {'none', 'exc', 'derived', 'std', 'other'}, 'once', '%s does not evaluate its expression' % tag)
    for tag, l in told.items():
        c.ob(any(l), 'actual', '%s never reports the %s' % (tag, 'text of the exception' if 'THROW' in tag else 'actual value'))
    c.extra['macro_paths'] = n

def texts(t):
    """parameters whose text occurs in a term"""
    if isinstance(t, tuple):
        if t in (('P', 'a'), ('P', 'b')):
            yield t
        else:
            for x in t:
                yield from texts(x)

def texts2(t):
    return {x[1] for x in texts(t)}

main(Check('C34', 'decision table of every check macro over abstract paths of witness tests: what is compared, how often it is evaluated, status, position and text recorded, whether the test goes on', UNITS, 100), body)
