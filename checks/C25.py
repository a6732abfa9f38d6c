#!/usr/bin/env python3
"""Items: what goes in comes out."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *
import models

V = ('arg', 'v')
BN = ('bnval', (('P', 'v'), 0), (0, 0))
def number(t, size, signed):
    """the numeric value of an argument of this width as a 64 bit integer"""
    return V if size == 64 else ('cv', 'sext' if signed else 'zext', V, size)
WANT = {'r_bool': ('B', 'arg', 'v'), 'r_numeric': V, 'r_cstr': ('cs', ('&', ('P', 'v'), 0), 0), 'r_string': ('sval', ('P', 'v'), 0, (0, 0)), 'r_bignum': BN}
for n, size, sg in (('char', 8, 1), ('byte', 8, 0), ('int32', 32, 1), ('uint32', 32, 0), ('int64', 64, 1), ('uint64', 64, 0)):
    for k in 'su':
        WANT['r_%s_%s' % (k, n)] = number(V, size, sg)

def result(I, p, w):
    if p.ret is not None:
        return p.ret
    r = ('&', ('A', 'ret'), 0)
    v = p.st.obj.get(addr(r))
    if v is None:
        return None
    return v[1]

def body(c):
    for w, want in sorted(WANT.items()):
        ps, I = c.run(c.fn1('wit::' + w), exact_casts=True)
        what = 'an item built from %s' % w.split('_')[-1]
        c.ob(bool(ps), 'round-trip', what + ' has no result')
        for p in ps:
            last = p.events[-1] if p.events else None
            if not c.ob(p.status == 'ret', 'round-trip', '%s cannot be read back (%s)' % (what, p.status), last):
                continue
            got = result(I, p, w)
            same = got == want or (w == 'r_bool' and got is not None and equiv(p.facts, got, want))
            if isinstance(want, tuple) and not same and got is not None and want[0] != 'sval' and w.startswith('r_s_') or w.startswith('r_u_'):
                same = same or truth(p.facts, eq(got, want)) is True
            c.ob(same, 'round-trip', '%s reads back as %s' % (what, I.describe(got) if got is not None else None), last)
            c.sample('%s: %s' % (w, I.describe(got) if got is not None else None))
    for w in ('x_ctor_short', 'x_ctor_float', 'x_ctor_cstring', 'x_ctor_other', 'x_get_int32', 'x_get_float', 'x_get_other'):
        ps, I = c.run(c.fn1('wit::' + w))
        for p in ps:
            good = p.status == 'throw' and p.ret and p.ret[1] == '_ZTISt16invalid_argument'
            c.ob(good, 'unsupported', '%s: a type that is not supported is not refused with invalid_argument (%s)' % (w, p.status), p.events[-1] if p.events else None)
            c.ob(not any(e.kind == 'delete' for e in p.events), 'unsupported', '%s: something is released while refusing' % w, p.events[-1] if p.events else None)
    # a new item without a value, and the kind each type gets: same handler for the same kind of value
    hs = {}
    for k in ('nil', 'bool', 'char', 'byte', 'int32', 'uint32', 'int64', 'uint64', 'numeric', 'cstr', 'string', 'bignum'):
        ps, I = c.run(c.fn1('wit::w_ctor_' + k))
        for p in ps:
            g = tuple(v[1] for o, (sz, v) in sorted(p.st.mem.get(('P', 'p'), {}).items()) if isinstance(v, tuple) and v[0] == '&' and v[1][0] == 'G')
            c.ob(p.status == 'ret' and len(g) == 1, 'handler', 'an item built from %s has no handler' % k, p.events[-1] if p.events else None)
            hs.setdefault(k, set()).add(g)
    groups = [{'nil'}, {'bool'}, {'char', 'byte', 'int32', 'uint32', 'int64', 'uint64'}, {'numeric'}, {'cstr', 'string'}, {'bignum'}]
    for a in groups:
        u = set()
        for k in a:
            u |= hs[k]
        c.ob(len(u) == 1, 'handler', 'the types %s do not make the same kind of item' % ', '.join(sorted(a)))
        for b in groups:
            if a is not b:
                c.ob(not u & set().union(*[hs[k] for k in b]), 'handler', 'the types %s and %s make the same kind of item' % (sorted(a)[0], sorted(b)[0]))

main(Check('C25', 'for each supported type: abstract execution of construct-then-read (all integer width changes kept exact) yields the constructor argument itself, value-extended by its own '
           'signedness; unsupported types always raise invalid_argument; the types of one kind share a handler and kinds do not', ['w_item.cpp', 'engine'], 60), body)
