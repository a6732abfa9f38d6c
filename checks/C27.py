#!/usr/bin/env python3
"""Items: conversions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *
import models

V = ('arg', 'v')
CS = ('cs', ('&', ('P', 'v'), 0), 0)
SV = ('sval', ('P', 'v'), 0, (0, 0))
BN = ('bnval', (('P', 'v'), 0), (0, 0))
B = ('B', 'arg', 'v')
INTS = (('char', 8, 'sext'), ('byte', 8, 'zext'), ('int32', 32, 'sext'), ('uint32', 32, 'zext'), ('int64', 64, None), ('uint64', 64, None))
FLAT = dict(nil=1, bool=1, numeric=1, cstr=0, string=0, bignum=0)
NAME = dict(nil='Nil', bool='Bool', numeric='Float', cstr='String', string='String', bignum='BigNum')
for n, s, e in INTS:
    FLAT[n] = 1
    NAME[n] = 'Int'

def text(kind, p):
    """expected text on this path, or None when undecided"""
    if kind == 'nil':
        return [('sl', b'nil')]
    if kind == 'bool':
        t = truth(p.facts, B)
        return [('sl', b'true') if t else ('sl', b'false')] if t is not None else []
    if kind == 'numeric':
        return [('fmt', (('f', V),))]
    if kind == 'bignum':
        return [('fmt', (('bn', BN),))]
    if kind in ('cstr', 'string'):
        return [CS if kind == 'cstr' else SV]
    n, s, e = [x for x in INTS if x[0] == kind][0]
    v = V if e is None else ('cv', e, V, s)
    return [('fmt', (('i', v),))]

def ival(kind):
    if kind == 'nil':
        return 0
    if kind == 'numeric':
        return ('cv', 'fptosi', V, ('i', 64))
    if kind == 'bignum':
        return ('bnconv', BN)
    for n, s, e in INTS:
        if n == kind:
            return V if e is None else ('cv', e, V, s)

def bval(kind):
    if kind == 'nil':
        return 0
    if kind == 'bool':
        return B
    if kind == 'numeric':
        return neg(('fcmp', 'oeq', V, ('fp', '0.000000e+00')))
    if kind == 'bignum':
        return neg(('B', 'bniszero', BN))
    if kind in ('cstr', 'string'):
        return neg(eq(models.slen(CS if kind == 'cstr' else SV), 0))
    return neg(eq(ival(kind), 0))

def body(c):
    for kind in sorted(NAME):
        for f in 'tibnfc':
            w = 'wit::%s_%s' % (f, kind)
            ps, I = c.run(c.fn1(w), exact_casts=True)
            what = {'t': 'text', 'i': 'integer value', 'b': 'truth value', 'n': 'type name', 'f': 'flatness', 'c': 'copy flatness'}[f] + ' of an item built from ' + kind
            c.ob(bool(ps), 'result', what + ': no result')
            for p in ps:
                last = p.events[-1] if p.events else None
                if not c.ob(p.status == 'ret' and not any(e.kind == 'terminate' for e in p.events), 'terminate', '%s: asking for it can end in %s' % (what, p.status), last):
                    continue
                g = p.ret
                if f in 'tn':
                    g = models.sget(I, p.st, ('&', ('A', 'ret'), 0))
                if f == 't':
                    ws = text(kind, p)
                    ok = g in ws or kind in ('cstr', 'string') and g == ('cat', (ws[0],))
                    if not ws:
                        ok = all(True for _ in ()) and False
                    c.ob(ok, 'text', '%s is %s' % (what, I.describe(g)), last)
                elif f == 'i':
                    if kind == 'bool':
                        ok = all((r == b) for h, (r, b) in cases(p.facts, eq(g, 1), B)) and all((r != b) for h, (r, b) in cases(p.facts, eq(g, 0), B))
                    elif kind in ('cstr', 'string'):
                        s = CS if kind == 'cstr' else SV
                        ok = isinstance(g, tuple) and g[0] == 'strtoll' and g[1] == s and g[2] == 10 and g[3].replace('__isoc23_', '') in ('strtoll', 'strtol')
                        if not ok:
                            # the empty text, or one without digits, may be answered directly
                            ok = g == 0 and truth(p.facts, eq(models.slen(s), 0)) is True
                    else:
                        ok = g == ival(kind) or kind != 'numeric' and truth(p.facts, eq(g, ival(kind))) is True
                    c.ob(ok, 'integer', '%s is %s' % (what, I.describe(g)), last)
                elif f == 'b':
                    c.ob(equiv(p.facts, tobool(g), bval(kind)), 'truth', '%s is %s' % (what, I.describe(g)), last)
                elif f == 'n':
                    c.ob(g == ('sl', NAME[kind].encode()), 'name', '%s is %s' % (what, I.describe(g)), last)
                elif f == 'f':
                    c.ob(truth(p.facts, tobool(g)) == bool(FLAT[kind]), 'flat', '%s is wrong' % what, last)
                else:
                    c.ob(truth(p.facts, tobool(g)) is True, 'copy-flat', '%s is wrong' % what, last)
                if f in 'tib':
                    c.sample('%s: %s' % (what, I.describe(g)))
                # the item is left as it was: only the destruction of the scenario touches the payload
                for e in p.events:
                    if e.kind == 'op' and e.x.get('rw') == 'w' and addr(e.args[0])[0][0] in ('N', 'G'):
                        c.ob(False, 'modify', '%s: asking for it modifies the item' % what, e)

main(Check('C27', 'decision table, per kind of item, of the abstract result of text, integer, truth, type name and flatness queries on every path of construct-then-ask, integer width changes kept exact; '
           'no path terminates or throws', ['w_item.cpp', 'engine'], 150), body)
