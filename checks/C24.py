#!/usr/bin/env python3
"""Item payload ownership."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *
import models

KINDS = ('nil', 'bool', 'char', 'byte', 'int32', 'uint32', 'int64', 'uint64', 'numeric', 'cstr', 'string', 'bignum')

class Kind:
    """state of an item of one kind, as its constructor leaves it"""
    def __init__(self, name, mem, owned, string):
        self.name, self.mem, self.owned, self.string = name, mem, owned, string

    def put(self, S, root, pay):
        """item at root, payload object pay"""
        d = S.mem.setdefault(root, {})
        for off, (sz, v) in self.mem.items():
            if isinstance(v, tuple) and v[0] == '&' and v[1] == self.owned:
                v = ('&', pay, 0)
            elif isinstance(v, tuple) and v[0] != '&':
                v = ('arg', 'content of ' + root[1])
                sz = 8      # the whole word of the union
            d[off] = (sz, v)

def content(I, S, kind, p):
    if kind.string:
        return models.sget(I, S, p)
    v = S.obj.get(addr(p))
    return v[1] if v is not None and v[0] == 'bn' else ('bnval', addr(p), models.EP(I, S, addr(p)))

def ledger(c, p, what, kinds, live, key):
    """every payload is released at most once, the way it was made; those in live are not, all others are.
    kinds: payload root -> is a string"""
    news, dels, dtors = {}, {}, {}
    for e in p.events:
        if e.kind == 'new':
            news[addr(e.ret)[0]] = e
        elif e.kind == 'delete':
            r, o = addr(e.args[0])
            if r == ('abs',) and o == 0:
                continue
            if r not in news and r not in kinds:
                c.ob(False, key + '-foreign', '%s: something that is no payload is released' % what, e)
                continue
            c.ob(r not in dels, key + '-twice', '%s: a payload is released twice' % what, e)
            dels[r] = e
            c.ob(o == 0 and e.name == (news[r].name.replace('new', 'delete') if r in news else 'delete'), key + '-form', '%s: a payload is released with the wrong form of delete' % what, e)
            if kinds.get(r):
                c.ob(r in dtors, key + '-destroy', '%s: a string payload is released without being destroyed' % what, e)
            elif r in kinds:
                c.ob(r not in dtors, key + '-destroy', '%s: a payload that is no string is destroyed as one' % what, e)
            elif r in strs(p):
                c.ob(r in dtors, key + '-destroy', '%s: a string payload is released without being destroyed' % what, e)
            for r2 in [r]:
                c.ob(r2 not in live, key + '-dangling', '%s: a payload still in use is released' % what, e)
        elif e.kind == 'op' and e.name == 'string.dtor':
            r, o = addr(e.args[0])
            if r in news or r in kinds:
                c.ob(r not in dtors, key + '-twice', '%s: a payload is destroyed twice' % what, e)
                dtors[r] = e
                c.ob(r not in live, key + '-dangling', '%s: a payload still in use is destroyed' % what, e)
        elif e.kind == 'op' and addr(e.args[0])[0] in dels:
            c.ob(False, key + '-use', '%s: a payload is used after it was released' % what, e)
    for r in set(news) | set(kinds):
        if r in live or r in dels:
            continue
        if r[0] == 'N' and p.st.ext.get(('noctor', r)):
            continue
        if r in news and p.status == 'throw' and not used(p, r):
            # the allocation was released by nobody although its construction did not finish
            pass
        e = news.get(r)
        c.ob(False, key + '-leak', '%s: a payload is never released' % what, e if e is not None else (p.events[-1] if p.events else None))
    return news, dels

def strs(p):
    return {addr(e.args[0])[0] for e in p.events if e.kind == 'op' and e.name == 'string.ctor'}

def used(p, r):
    return any(e.kind == 'op' and e.args and addr(e.args[0])[0] == r for e in p.events)

def hmem(S, root):
    return {o: v for o, v in S.mem.get(root, {}).items()}

def payload(mem, K):
    """the payload pointer of an item of kind K in this memory"""
    for off, (sz, v) in K.mem.items():
        if isinstance(v, tuple) and v[0] == '&' and v[1] == K.owned:
            return mem.get(off, (0, None))[1]
    return None

def flatpart(mem, K, skip_payload=True):
    out = {}
    for off, (sz, v) in K.mem.items():
        if K.owned and isinstance(v, tuple) and v[0] == '&' and v[1] == K.owned:
            continue
        out[off] = mem.get(off, (0, None))[1]
    return out

def check_value(c, p, I, what, mem, K, src, key, orig):
    """mem is an item of kind K equal to the source"""
    a, b = flatpart(mem, K), flatpart(src, K)
    c.ob(a == b, key + '-value', '%s: the result differs from the source' % what, p.events[-1] if p.events else None)
    if K.owned:
        q = payload(mem, K)
        if not c.ob(isinstance(q, tuple) and q[0] == '&' and q[2] == 0, key + '-value', '%s: the result has no payload' % what, p.events[-1] if p.events else None):
            return None
        got = content(I, p.st, K, q)
        c.ob(got == orig, key + '-value', '%s: the payload of the result is not the one of the source' % what, p.events[-1] if p.events else None)
        return q[1]
    return None

def body(c):
    kinds = {}
    for k in KINDS:
        n = c.fn1('wit::w_ctor_' + k)
        ps, I = c.run(n, new_throw=True)
        for p in ps:
            what = 'constructing from %s' % k
            if p.status == 'throw':
                ledger(c, p, what, {}, set(), 'ctor')
                continue
            if not c.ob(p.status == 'ret', 'ctor-exit', '%s ends in %s' % (what, p.status), p.events[-1] if p.events else None):
                continue
            mem = hmem(p.st, ('P', 'p'))
            own = {v[1] for sz, v in mem.values() if isinstance(v, tuple) and v[0] == '&' and v[1][0] == 'N'}
            foreign = [v for sz, v in mem.values() if isinstance(v, tuple) and v[0] == '&' and v[1][0] in ('P', 'A')]
            c.ob(not foreign, 'ctor-borrow', '%s: the item refers to the value it was given' % what, p.events[-1] if p.events else None)
            c.ob(len(own) <= 1, 'ctor-two', '%s: more than one payload' % what)
            ledger(c, p, what, {}, own, 'ctor')
            r = own.pop() if own else None
            kinds[k] = Kind(k, mem, r, r in strs(p))
            if k in ('cstr', 'string', 'bignum'):
                c.ob(r is not None, 'ctor-payload', '%s: the item has no payload of its own' % what)
    reps = {}
    for k, K in kinds.items():
        g = tuple(sorted((o, v) for o, (sz, v) in K.mem.items() if isinstance(v, tuple) and v[0] == '&' and v[1][0] == 'G'))
        reps.setdefault(repr(g), K)
    reps = sorted(reps.values(), key=lambda K: K.name)
    if len(reps) < 6:
        raise Broken('only %d kinds of items' % len(reps))
    c.extra['item_kinds'] = [K.name for K in reps]
    A, O = ('P', 'a'), ('P', 'o')
    PA, PO = ('P', 'payload of a'), ('P', 'payload of o')

    def unary(w, K, key, both=False):
        def init(I, S, fr):
            K.put(S, O, PO)
        return c.run(c.fn1('wit::' + w), None, init, new_throw=True)

    # copies
    for K in reps:
        for w in ('w_copy', 'w_passed'):
            what = '%s of a %s item' % ({'w_copy': 'copy', 'w_passed': 'copy passed by value'}[w], K.name)
            ps, I = unary(w, K, 'copy')
            for p in ps:
                held = {PO} if K.owned else set()
                src = hmem(p.st, O)
                S0 = interp.State()
                K.put(S0, O, PO)
                c.ob(all(src.get(o) == v for o, v in S0.mem[O].items()), 'copy-source', '%s modifies its source' % what, p.events[-1] if p.events else None)
                orig = ('sval', PO, 0, (0, 0)) if K.string else ('bnval', (PO, 0), (0, 0))
                if K.owned:
                    c.ob(content(I, p.st, K, ('&', PO, 0)) == orig, 'copy-source', '%s modifies the payload of its source' % what, p.events[-1] if p.events else None)
                if p.status == 'throw':
                    ledger(c, p, what, {PO: K.string} if K.owned else {}, held, 'copy')
                    continue
                if not c.ob(p.status == 'ret', 'copy-exit', '%s ends in %s' % (what, p.status), p.events[-1] if p.events else None):
                    continue
                mem = hmem(p.st, ('P', 'p'))
                q = check_value(c, p, I, what, mem, K, src, 'copy', orig)
                if K.owned:
                    c.ob(q != PO, 'copy-share', '%s shares the payload of the original' % what, p.events[-1])
                    held = held | {q}
                ledger(c, p, what, {PO: K.string} if K.owned else {}, held, 'copy')
                c.sample('%s: %s' % (what, 'payload duplicated' if K.owned else 'flat'))
    # destruction
    for K in reps:
        what = 'destroying a %s item' % K.name
        def init(I, S, fr):
            K.put(S, A, PA)
        ps, I = c.run(c.fn1('wit::w_dtor'), None, init)
        for p in ps:
            c.ob(p.status == 'ret', 'dtor-exit', '%s ends in %s' % (what, p.status), p.events[-1] if p.events else None)
            ledger(c, p, what, {PA: K.string} if K.owned else {}, set(), 'dtor')
    # assignment
    for K in reps:
        for L in reps:
            what = 'assigning a %s item to a %s item' % (L.name, K.name)
            def init(I, S, fr):
                K.put(S, A, PA)
                L.put(S, O, PO)
            kd = {}
            if K.owned:
                kd[PA] = K.string
            if L.owned:
                kd[PO] = L.string
            for w in ('w_assign', 'w_moveassign', 'w_exchange'):
                ps, I = c.run(c.fn1('wit::' + w), None, init, new_throw=w == 'w_assign')
                for p in ps:
                    if truth(p.facts, eq(('&', A, 0), ('&', O, 0))) is True:
                        continue        # the two items of this case are different objects
                    if w != 'w_assign':
                        c.ob(p.status == 'ret', 'assign-exit', '%s (%s) ends in %s' % (what, w, p.status), p.events[-1] if p.events else None)
                        if p.status == 'ret':
                            ledger(c, p, what + (' by move, then destroying both' if w == 'w_moveassign' else ' and back, then destroying both'), kd, set(), 'move')
                        continue
                    orig = ('sval', PO, 0, (0, 0)) if L.string else ('bnval', (PO, 0), (0, 0))
                    held = {PO} if L.owned else set()
                    if L.owned:
                        c.ob(content(I, p.st, L, ('&', PO, 0)) == orig, 'assign-source', '%s modifies its source' % what, p.events[-1] if p.events else None)
                    mem = hmem(p.st, A)
                    if p.status == 'throw':
                        # the target stays usable: as it was, or as the source
                        S0 = interp.State()
                        K.put(S0, A, PA)
                        same = all(mem.get(o) == v for o, v in S0.mem[A].items())
                        c.ob(same, 'assign-throw', '%s: an allocation failure leaves the target in a mixed state' % what, p.events[-1])
                        ledger(c, p, what, kd, held | ({PA} if K.owned else set()), 'assign')
                        continue
                    if not c.ob(p.status == 'ret', 'assign-exit', '%s ends in %s' % (what, p.status), p.events[-1] if p.events else None):
                        continue
                    q = check_value(c, p, I, what, mem, L, hmem(p.st, O), 'assign', orig)
                    if L.owned:
                        c.ob(q != PO, 'assign-share', '%s: both share one payload' % what, p.events[-1])
                        held = held | {q}
                    ledger(c, p, what, kd, held, 'assign')
    # assignment to itself; move construction
    for K in reps:
        what = 'assigning a %s item to itself' % K.name
        def init(I, S, fr):
            K.put(S, A, PA)
        ps, I = c.run(c.fn1('wit::w_assign'), [('&', A, 0), ('&', A, 0)], init, new_throw=True)
        for p in ps:
            if p.status == 'throw':
                ledger(c, p, what, {PA: K.string} if K.owned else {}, {PA} if K.owned else set(), 'self')
                continue
            if not c.ob(p.status == 'ret', 'self-exit', '%s ends in %s' % (what, p.status), p.events[-1] if p.events else None):
                continue
            S0 = interp.State()
            K.put(S0, A, PA)
            orig = ('sval', PA, 0, (0, 0)) if K.string else ('bnval', (PA, 0), (0, 0))
            q = check_value(c, p, I, what, hmem(p.st, A), K, S0.mem[A], 'self', orig)
            ledger(c, p, what, {PA: K.string} if K.owned else {}, {q} if q else set(), 'self')
        what = 'moving a %s item and destroying both' % K.name
        ps, I = unary('w_move', K, 'move')
        for p in ps:
            if p.status == 'throw':
                ledger(c, p, what, {PO: K.string} if K.owned else {}, {PO} if K.owned else set(), 'move')
            elif c.ob(p.status == 'ret', 'move-exit', '%s ends in %s' % (what, p.status), p.events[-1] if p.events else None):
                ledger(c, p, what, {PO: K.string} if K.owned else {}, set(), 'move')
    # the generic deep and flat handlers
    for cls, deep in (('wit::Deep', True), ('wit::FlatCopy', True)):
        base = 'falcon::DeepHandler'
        for n in c.fn(base + '::clone', lambda n: 'basic_string' in n) :
            def init(I, S, fr):
                for k, v in list(fr.regs.items()):
                    if v == ('arg', 'data.coerce') or k.startswith('data'):
                        fr.regs[k] = ('&', PO, 0)
            ps, I = c.run(n, None, init, new_throw=True)
            for p in ps:
                if p.status == 'ret':
                    r = addr(p.ret)[0] if p.ret is not None else None
                    c.ob(r is not None and r[0] == 'N' and r in strs(p), 'clone', 'cloning a deep payload does not make a new one', p.events[-1])
                    ledger(c, p, 'cloning a deep payload', {PO: True}, {PO, r}, 'clone')
                else:
                    ledger(c, p, 'cloning a deep payload', {PO: True}, {PO}, 'clone')
        for n in c.fn(base + '::allocate', lambda n: 'basic_string' in n):
            ps, I = c.run(n)
            for p in ps:
                r = addr(p.ret)[0] if p.ret is not None else None
                c.ob(p.status == 'ret' and r is not None and r[0] == 'N' and r in strs(p), 'allocate', 'allocating a deep payload does not make one', p.events[-1] if p.events else None)
                ledger(c, p, 'allocating a deep payload', {}, {r}, 'allocate')

main(Check('C24', 'ownership ledger over every abstract path of construction, copy, move, assignment (all ordered pairs of kinds, and self), pass by value and destruction of items, from the '
           'states the constructors leave, with allocation failures: each payload is released exactly once, in the form it was allocated, and no two live items refer to the same one',
           ['w_item.cpp', 'engine'], 100), body)
