#!/usr/bin/env python3
"""What the kinds of values say of themselves, and the values they make."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *
import models

KINDS = {'nil': 'nil', 'bool': 'boolean', 'int': 'integer', 'float': 'float', 'string': 'text', 'bignum': 'big number', 'deep': 'deep', 'flatcopy': 'deep and flat to copy', 'flat': 'flat',
         'deeppod': 'deep plain object', 'deepint': 'deep number', 'deepwide': 'deep wide object', 'copypod': 'plain object flat to copy', 'copytext': 'text flat to copy'}
OUT, RET = ('P', 'out'), ('&', ('A', 'ret'), 0)

def last(p):
    return p.events[-1] if p.events else None

def zero(v):
    """a converted value is the null of its kind: True, False, or None (not decided)"""
    if isinstance(v, int):
        return v == 0
    if not isinstance(v, tuple):
        return None
    if v[0] == 'fp':
        return float(v[1]) == 0 if not str(v[1]).startswith('0x') else int(str(v[1]), 16) == 0
    if v[0] in ('cv', 'bnconv', 'not') and any(isinstance(x, tuple) for x in v[1:]):
        for x in v[1:]:
            if isinstance(x, tuple) and x[0] not in ('i',):
                z = zero(x)
                return z
    if v[0] == 'strtoll':
        return v[1] == ('sl', b'') or (None if v[1][0] != 'sl' else False)
    if v == ('bnzero',):
        return True
    if v[0] == 'B' and v[1] == 'bniszero':
        return zero(v[2])
    return False if garbage(v) else None

def garbage(t):
    """the value depends on memory that nobody wrote"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ('mix', 'ld') and isinstance(t[1], tuple) and t[1] and t[1][0] in ('A', 'N'):
        return True
    if t[0] == 'undef' or t[0] == '&' and isinstance(t[1], tuple) and t[1][0] in ('A', 'N'):
        return True         # or on where some object happens to lie
    return any(garbage(x) for x in t)

def balanced(c, p, what):
    """whatever was allocated on the way is released, once, as what it is, and not used afterwards"""
    news, dels, dtors, strs = {}, set(), set(), set()
    for e in p.events:
        r = addr(e.args[0])[0] if e.args and isinstance(e.args[0], tuple) and addr(e.args[0]) else None
        if e.kind == 'new':
            news[addr(e.ret)[0]] = e
        elif e.kind == 'delete':
            if r == ('abs',):
                continue
            if c.ob(r in news, 'foreign', '%s: something is released that was not allocated' % what, e):
                c.ob(r not in dels, 'twice', '%s: a payload is released twice' % what, e)
                c.ob(e.name == news[r].name.replace('new', 'delete'), 'form', '%s: a payload is released in the wrong form' % what, e)
                c.ob(r not in strs or r in dtors, 'destroy', '%s: a payload is released without being destroyed' % what, e)
                dels.add(r)
        elif e.kind == 'op' and r in news:
            c.ob(r not in dels, 'use', '%s: a released payload is used' % what, e)
            if e.name == 'string.ctor':
                strs.add(r)
            elif e.name == 'string.dtor':
                c.ob(r not in dtors, 'twice', '%s: a payload is destroyed twice' % what, e)
                dtors.add(r)
    for r, e in news.items():
        c.ob(r in dels, 'leak', '%s: what was allocated is never released' % what, e)

def effects(p):
    return [e for e in p.events if e.kind in ('new', 'delete', 'throw', 'terminate', 'ext') or e.kind == 'op' and e.x.get('rw') not in ('r',) or e.kind == 'wr' and addr(e.args[0])[0] not in (OUT,) and addr(e.args[0])[0][0] != 'A']

def body(c):
    def run(w, N, **o):
        return c.run(c.fn1('wit::%s_%s' % (w, N)), **o)
    flags = {}
    for N, name in KINDS.items():
        what = 'the %s kind' % name
        for w, f in (('hf', 'isFlat()'), ('hp', 'isCopyFlat()')):
            v = set()
            for p in run(w, N)[0]:
                if c.ob(p.status == 'ret' and isinstance(p.ret, int), 'flag', '%s: %s has no fixed answer' % (what, f), last(p)):
                    v.add(bool(p.ret))
                    flags[w, N, 'at'] = last(p) or c.P.defs[c.fn1('wit::%s_%s' % (w, N))]
            if not c.ob(len(v) == 1, 'flag', '%s: %s has no fixed answer' % (what, f)):
                return
            flags[w, N] = v.pop()
        flat = flags['hf', N]
        src = ('src/include/falcon/engine', 'handler of %s' % what)
        c.ob(not flat or flags['hp', N], 'flag', '%s says that it is flat, but not flat to copy' % what, src)
        # ---- what it does
        for p in run('ha', N)[0]:
            v = p.st.mem.get(OUT, {}).get(0, (0, None))[1]
            if not c.ob(p.status == 'ret', 'allocate', '%s: allocating a value ends in %s' % (what, p.status), last(p)):
                continue
            made = isinstance(v, tuple) and v[0] == '&' and v[1][0] == 'N' and v[2] == 0
            if flat:
                c.ob(not effects(p), 'flat-allocate', '%s says that it is flat, but allocating a value has an effect' % what, (effects(p) or [last(p)])[0])
            else:
                c.ob(made and any(e.kind == 'new' and e.ret == v for e in p.events), 'deep-allocate', '%s says that it is not flat, but allocating a value makes no payload' % what, last(p))
        for p in run('hc', N)[0]:
            v = p.st.mem.get(OUT, {}).get(0, (0, None))[1]
            if not c.ob(p.status == 'ret', 'clone', '%s: cloning a value ends in %s' % (what, p.status), last(p)):
                continue
            if flat:
                c.ob(isinstance(v, tuple) and v[0] == 'arg', 'flat-clone', '%s says that it is flat, but the clone of a value is not the same data' % what, last(p))
                c.ob(not effects(p), 'flat-clone', '%s says that it is flat, but cloning a value has an effect' % what, (effects(p) or [last(p)])[0])
            else:
                c.ob(isinstance(v, tuple) and v[0] == '&' and v[1][0] == 'N' and any(e.kind == 'new' and e.ret == v for e in p.events), 'deep-clone', '%s says that it is not flat, but a clone has no payload of its own' % what, last(p))
        freed = False
        for p in run('hd', N)[0]:
            if not c.ob(p.status == 'ret', 'destroy', '%s: destroying a value ends in %s' % (what, p.status), last(p)):
                continue
            if flat:
                c.ob(not effects(p), 'flat-destroy', '%s says that it is flat, but destroying a value has an effect' % what, (effects(p) or [last(p)])[0])
            d = [e for e in p.events if e.kind == 'delete']
            c.ob(len(d) <= 1 and all(isinstance(e.args[0], tuple) and e.args[0][0] in ('arg', '&', 'ld') for e in d), 'destroy', '%s: destroying a value releases something else' % what, d[0] if d else None)
            freed |= bool(d)
        c.ob(flat or freed, 'deep-destroy', '%s says that it is not flat, but destroying a value releases nothing' % what, src)
        # ---- a value it made itself
        for w, how in (('hi', 'toInt() of a new value'), ('hb', 'toBool() of a new value'), ('ht', 'toString() of a new value'), ('hk', 'toInt() of the clone of a new value'), ('hs', 'toString() of the clone of a new value')):
            ps, I = run(w, N)
            c.ob(any(p.status == 'ret' for p in ps), 'fresh', '%s: %s is not possible' % (what, how))
            for p in ps:
                if not c.ob(p.status == 'ret', 'fresh', '%s: %s ends in %s' % (what, how, p.status), last(p)):
                    continue
                balanced(c, p, '%s: %s' % (what, how))
                if w in ('ht', 'hs'):
                    v = models.sget(I, p.st, RET)
                    if not c.ob(not garbage(v), 'fresh-garbage', '%s: %s depends on data that was never written' % (what, how), last(p)):
                        continue
                    if N in ('nil', 'bool', 'int', 'float'):
                        for q in run('hz', N)[0]:
                            z = models.sget(I, q.st, RET)
                            c.ob(v == z, 'fresh-text', '%s: %s is %s, not %s as for its null value' % (what, how, I.describe(v), I.describe(z)), last(p))
                    elif N == 'string':
                        c.ob(v == ('sl', b''), 'fresh-text', '%s: %s is not empty' % (what, how), last(p))
                    elif N == 'bignum':
                        c.ob(('bnzero',) in flatten(v), 'fresh-text', '%s: %s is not that of zero' % (what, how), last(p))
                else:
                    z = zero(p.ret)
                    if not c.ob(not garbage(p.ret), 'fresh-garbage', '%s: %s depends on data that was never written' % (what, how), last(p)):
                        continue
                    if z is None:
                        raise Broken('%s: %s gives %s' % (what, how, I.describe(p.ret)))
                    c.ob(z, 'fresh-value', '%s: %s is not that of the null value' % (what, how), last(p))
                c.sample('%s: %s' % (what, how))
    # the bases that kinds are made from
    for N, base, f, p in (('deep', 'DeepHandler', False, False), ('deeppod', 'DeepHandler', False, False), ('deepint', 'DeepHandler', False, False), ('deepwide', 'DeepHandler', False, False),
                          ('copypod', 'DeepFlatCopyHandler', False, True), ('copytext', 'DeepFlatCopyHandler', False, True), ('flatcopy', 'DeepFlatCopyHandler', False, True), ('flat', 'FlatHandler', True, True)):
        src = ('src/include/falcon/engine/%s.h' % base.lower(), base)
        c.ob(flags['hf', N] == f, 'base', 'a kind made with %s says that it is%s flat' % (base, '' if not f else ' not'), src)
        c.ob(flags['hp', N] == p, 'base', 'a kind made with %s says that it is%s flat to copy' % (base, '' if not p else ' not'), src)
    c.extra['flags'] = {KINDS[N]: {'flat': flags['hf', N], 'flat to copy': flags['hp', N]} for N in KINDS}

def flatten(t):
    out = [t]
    if isinstance(t, tuple):
        for x in t:
            out += flatten(x)
    return out

main(Check('C44', 'every abstract path of isFlat, isCopyFlat, allocate, clone, destroy and of the conversions of a new value and of its clone, for the six kinds of values and for kinds made with '
           'each of the three bases: effects and results of a flat kind, payloads of a deep one, no data used before it was written', ['w_hand.cpp', 'engine'], 200), body)
