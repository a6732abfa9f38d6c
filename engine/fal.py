"""Helpers shared by the checks: field lookup, event filters, decision-table comparison."""
import re
from interp import truth, assume, lt, eq, neg, lin, add, sub, addr, ptr, tobool, Facts
from check import Broken

def cases(f, *conds):
    """refinements of f in which every condition is decided: [(facts, (v1, v2, ...))]"""
    out = [(f, ())]
    for c in conds:
        n = []
        for g, vs in out:
            for v in (True, False):
                for h in assume(g, tobool(c), v):
                    n.append((h, vs + (v,)))
        out = n
    return out

def equiv(f, a, b):
    """a <=> b in every concretisation that the domain can tell apart"""
    for g, (va,) in cases(f, a):
        t = truth(g, tobool(b))
        if t is None:
            if any(vb != va for h, (vb,) in cases(g, b)):
                return False
        elif t != va:
            return False
    return True

def implies(f, a, b):
    for g, (va,) in cases(f, a):
        if va and truth(g, tobool(b)) is not True:
            return False
    return True

REL = ('release', 'acq_rel', 'seq_cst')
ACQ = ('acquire', 'acq_rel', 'seq_cst')

class Access:
    """uniform view of one access to a shared word"""
    __slots__ = ('ev', 'i', 'kind', 'old', 'new', 'ord', 'ok', 'root', 'off', 'ptr', 'atomic', 'exp')

def accesses(ev):
    """atomic and plain accesses of a trace: kind in load/store/rmw/cas"""
    out = []
    for i, e in enumerate(ev):
        a = Access()
        a.ev, a.i, a.ok, a.old, a.new, a.exp = e, i, True, None, None, None
        if e.kind == 'rd':
            a.kind, a.old, a.ord = 'load', e.args[1], e.x['atomic']
        elif e.kind == 'wr':
            a.kind, a.new, a.ord = 'store', e.args[1], e.x['atomic']
        elif e.kind == 'atomic' and e.name == 'cas':
            a.kind, a.old, a.ok, a.exp = 'cas', e.ret[0], e.x['ok'], e.args[1]
            a.new = e.args[2] if a.ok else None
            a.ord = e.x['ord'][0] if a.ok else e.x['ord'][1]
        elif e.kind == 'atomic' and e.name.startswith('rmw'):
            a.kind, a.old, a.ord = 'rmw', e.ret, e.x['ord']
            op = e.name.split()[1]
            a.exp = op
            v = e.args[1]
            if op == 'xchg':
                a.new = v
            elif op == 'add':
                a.new = add(a.old, v)
            elif op == 'sub':
                a.new = sub(a.old, v)
            else:
                a.new = ('op', op, a.old, v)
        else:
            continue
        a.ptr = e.args[0]
        a.root, a.off = addr(e.args[0])
        a.atomic = a.ord is not None
        out.append(a)
    return out

def thread_local(P, g):
    m = P.globmod(g)
    if m is None:
        raise Broken('global %s is not defined' % g)
    return 'tls' in m.glob(g)[2]

def truth_all(f, c):
    return truth(f, tobool(c))
