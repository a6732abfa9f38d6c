#!/usr/bin/env python3
"""Which listener gets which message."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

THIS = ('P', 'this')
SHAPES = ((0, 0), (1, 0), (0, 1), (2, 0)) if os.environ.get('VERIF_TIER') != 'thorough' else ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (3, 0))

def subterms(t, out):
    if isinstance(t, tuple):
        out.append(t)
        for x in t:
            subterms(x, out)
    return out

class Filter:
    """terms about the category of the message and of one listener that a path decided"""
    def __init__(self, cat, filt, reg):
        self.cat, self.filt, self.reg = cat, filt, reg      # (root, offset) of message category, listener category, listener regex

    def accepts(self, facts, terms):
        """True, False or None (undecided)"""
        def empty(loc):
            r = {truth(facts, eq(('len', t), 0)) for t in terms if t[0] == 'sval' and (t[1], t[2]) == loc}
            r |= {truth(facts, t) for t in terms if t[:2] == ('B', 'seq') and any(x[0] == 'sval' and (x[1], x[2]) == loc for x in t[2:]) and ('sl', b'') in t[2:]}
            r.discard(None)
            return r.pop() if len(r) == 1 else None
        a, b = empty(self.cat), empty(self.filt)
        if a or b:
            return True
        ms = {truth(facts, t) for t in terms if t[:2] == ('B', 'rematch') and t[2][0] == 'sval' and (t[2][1], t[2][2]) == self.cat and t[3][0] == 'reval' and t[3][1] == self.reg}
        ms.discard(None)
        if True in ms:
            # an empty category or filter would be accepted anyway
            return True if a is False and b is False else None
        if False in ms and a is False and b is False:
            return False
        return None

def body(c):
    m = Log(c)
    act = m.active
    en, det, lvl, cat = member(m, 'w_isEnabled', 'whether it is enabled', 'w_enable'), member(m, 'w_isDetached', 'whether it is detached', 'w_detach'), member(m, 'w_level_get', 'its level', 'w_level_set'), member(m, 'w_category_get', 'its category')
    reg = {addr(e.args[0])[1] for p in m.runs(LI + 'checkCategory') for e in p.events if e.kind == 'op' and e.name == 'regex.read' and addr(e.args[0])[0] == THIS}
    if len(reg) != 1:
        raise Broken('where a listener keeps its compiled category filter')
    reg = reg.pop()
    mlev, mcat = m.offset('f_level'), m.offset('f_category')
    # ------------------------------------------------------------ the category filter
    C = m.param(LI + 'checkCategory', 1)
    F = Filter((('P', C), 0), (THIS, cat), (THIS, reg))
    n = 0
    for p in m.runs(LI + 'checkCategory'):
        if p.status == 'throw':
            continue
        terms = subterms(tuple(e.name for e in p.events if e.kind == 'if') + (p.ret,), [])
        for g, (v,) in cases(p.facts, tobool(p.ret)):
            n += 1
            c.ob(F.accepts(g, terms) is v, 'category', 'checkCategory() %s a message although the filter says otherwise (no category, no filter, or a whole match)' % ('accepts' if v else 'rejects'), last(p))
    c.ob(n >= 3, 'category', 'checkCategory() does not decide')
    # ------------------------------------------------------------ setters, getters and initial state of a listener
    def one(w, off, want, msg, size=None):
        for p in m.runs(W + w):
            v = p.st.mem.get(('P', 'l'), {}).get(off, (0, None))[1]
            c.ob(p.status != 'ret' or v == want, 'set-' + w, msg, last(p))
    one('w_level_set', lvl, ('arg', 'v'), 'level(l) does not set the level of a listener')
    one('w_detach', det, 1, 'detach() does not mark the listener as detached')
    for p in m.runs(W + 'w_enable'):
        v = p.st.mem.get(('P', 'l'), {}).get(en, (0, None))[1]
        c.ob(v is not None and equiv(p.facts, tobool(v), tobool(('B', 'arg', 'm'))), 'set-enable', 'enable(mode) does not set whether the listener is enabled', last(p))
    for w, off in (('w_isEnabled', en), ('w_isDetached', det), ('w_level_get', lvl)):
        for p in m.runs(W + w):
            v = ('ld', ('P', 'l'), off, 0)
            c.ob(p.ret == v or w != 'w_level_get' and equiv(p.facts, tobool(p.ret), neg(eq(v, 0))), 'get-' + w, 'the getter %s() does not return the state of the listener' % w[2:], last(p))
    for w, off in (('w_enable', (det, lvl)), ('w_detach', (en, lvl)), ('w_level_set', (en, det))):
        for p in m.runs(W + w):
            for e in p.events:
                if e.kind in ('wr', 'atomic') and addr(e.args[0])[0] == ('P', 'l'):
                    c.ob(addr(e.args[0])[1] not in off, 'set-other', '%s() changes another property of the listener' % w[2:], e)
    k = 0
    for p in m.runs(W + 'w_listener_ctor'):
        if p.status != 'ret':
            continue
        w = {(r, o): v[1] for r, cells in p.st.mem.items() if r[0] in 'AN' for o, v in cells.items()}
        roots = {r for r, o in w if o == det}
        for r in roots:
            k += 1
            c.ob(w.get((r, det)) == 0 and w.get((r, en)) == 1 and isinstance(w.get((r, lvl)), int) and w[(r, lvl)] >= 5, 'initial', 'a new listener is not enabled, attached and open to every level', last(p))
    c.ob(k > 0, 'initial', 'no constructor of listeners was seen')
    # ------------------------------------------------------------ the level of the system
    sl = {addr(e.args[0])[1] for p in m.runs(W + 'w_sys_level_get') for e in p.events if e.kind == 'rd' and addr(e.args[0])[0] == ('P', 'l')}
    if len(sl) != 1:
        raise Broken('where the log system keeps its level')
    sl = sl.pop()
    for p in m.runs(W + 'w_sys_level_set'):
        v = p.st.mem.get(('P', 'l'), {}).get(sl, (0, None))[1]
        c.ob(v == ('arg', 'v'), 'syslevel-set', 'level(l) does not set the level of the log system', last(p))
    ps5 = [x for x in c.fn(LS + 'log') if 'Message' not in x][0]
    lname = c.P.defs[ps5].params()[3][2]
    yes = no = 0
    for p in m.log5():
        if p.status != 'ret':
            continue
        push = [e for e in p.events if e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == m.queue]
        above = truth(p.facts, lt(('ld', THIS, sl, 0), ('arg', lname)))
        if push:
            yes += 1
            c.ob(above is False, 'syslevel', 'log() sends a message that is above the level of the log system', push[0])
        else:
            no += 1
            c.ob(above is True, 'syslevel', 'log() drops a message that is not above the level of the log system', last(p))
            for e in p.events:
                c.ob(not (e.kind in ('wr', 'new', 'delete', 'notify') or e.kind == 'op' and e.x.get('rw') == 'w' or e.kind == 'atomic'), 'syslevel-effect', 'log() has an effect although it drops the message', e)
    c.ob(yes and no, 'syslevel', 'log() does not filter by level')
    for p in m.logM():
        if p.status == 'ret':
            c.ob(any(e.kind == 'op' and '.push' in e.name and addr(e.args[0]) == m.queue for e in p.events), 'direct', 'log(Message*) filters messages', last(p))
    # ------------------------------------------------------------ dispatch
    st = {'called': 0, 'skipped': 0, 'dropped': 0, 'kept': 0}
    for na, np in SHAPES:
        names = ['a%d' % i for i in range(na)] + ['n%d' % i for i in range(np)]
        for p in m.one(na, np):
            L = Lists()
            L.set(act, names[:na])
            L.set(m.pending, names[na:])
            got, ids = {}, {}
            msg, taken = None, False
            reads = {}          # (element, offset) -> (value, position)
            mlevels, terms = [], []
            removed, unknown, cleaned = set(), False, None
            for i, e in enumerate(p.events):
                if e.kind == 'rd':
                    r, o = addr(e.args[0])
                    if r[0] == 'el' and r[1] == m.queue:
                        msg = e.args[1]
                    elif r[0] == 'S' and msg is not None and r[1] == msg and o == mlev:
                        mlevels.append(e.args[1])
                    elif r[0] == 'S':
                        w = L.who(r[1])
                        if w is not None:
                            ids[r] = w
                            reads.setdefault((w, o), []).append((e.args[1], i))
                elif e.kind == 'op' and e.args:
                    r = addr(e.args[0])[0]
                    if r[0] == 'S' and r not in ids and L.who(r[1]) is not None:
                        ids[r] = L.who(r[1])
                if e.kind == 'if':
                    subterms(e.name, terms)
                if e.kind == 'op' and e.x.get('rw') == 'w' and addr(e.args[0]) == m.queue:
                    taken = True
                if e.kind == 'op' and addr(e.args[0]) == act and e.x.get('rw') == 'w':
                    k = e.name.split('.')[-1]
                    if k == 'remove_if':
                        cleaned = e
                        if e.x['keep'] is not None:
                            r = addr(e.x['el'])[0]
                            d = [y.args[1] for y in p.events[:i] if y.kind == 'rd' and addr(y.args[0])[0][0] == 'S' and addr(y.args[0])[0][1][0] == 'ld' and addr(y.args[0])[0][1][1] == r and addr(y.args[0])[1] == det]
                            c.ob(len(d) > 0 and equiv(e.facts, tobool(e.x['keep']), eq(d[-1], 0)), 'drop', 'the listeners that leave the list are not exactly the detached ones', e)
                            if d and truth(e.facts, eq(d[-1], 0)) is False:
                                st['dropped'] += 1
                            unknown = True
                    elif k == 'erase' and e.x.get('it2') is not None and cleaned is not None and not isinstance(e.x['it'][3], int):
                        c.ob(e.x['it2'][3] == e.x['size'], 'drop', 'the listeners that were moved to the end of the list are not all removed', e)
                        unknown = True
                    elif unknown and k not in ('shrink_to_fit',):
                        c.ob(False, 'drop', 'the list of listeners is changed again after the detached ones were removed', e)
                L.step(e)
                if e.kind == 'vcall' and e.name == m.onMessage:
                    w = L.who(e.args[0])
                    if w is None:
                        raise Broken('a listener is called in a way this analysis does not follow (%s)' % c.at(e))
                    r = ('S', e.args[0])
                    val = lambda o: [v for v, j in reads.get((w, o), ()) if j < i]
                    E, D, V = val(en), val(det), val(lvl)
                    ok = c.ob(bool(E) and truth(e.facts, eq(E[-1], 0)) is False, 'enabled', 'a listener that is not enabled is called', e)
                    ok &= c.ob(bool(D) and truth(e.facts, eq(D[-1], 0)) is True, 'detached', 'a detached listener is called', e)
                    ok &= c.ob(any(truth(e.facts, lt(v, x)) is False for v in V[-1:] for x in mlevels[-1:]), 'level', 'a listener is called for a message above its level', e)
                    FF = Filter((('S', msg), mcat), (r, cat), (r, reg))
                    ok &= c.ob(FF.accepts(e.facts, terms) is True, 'filter', 'a listener is called for a message that its category filter does not accept', e)
                    c.ob(any(a == msg for a in e.args[1:]), 'message', 'a listener is called with another message', e)
                    got[w] = got.get(w, 0) + 1
                    c.ob(got[w] == 1, 'once', 'a listener is called twice for one message', e)
                    st['called'] += 1
            if not taken or p.status != 'cut' or truth(p.facts, eq(msg, 0)) is True:
                continue
            # those that were not called
            for w in names:
                if w in got:
                    continue
                st['skipped'] += 1
                rr = [r for r, x in ids.items() if x == w]
                E, D, V = [[v for v, j in reads.get((w, o), ())] for o in (en, det, lvl)]
                why = any(truth(p.facts, eq(v, 0)) is True for v in E) or any(truth(p.facts, eq(v, 0)) is False for v in D) or any(truth(p.facts, lt(v, x)) is True for v in V for x in mlevels)
                why = why or any(Filter((('S', msg), mcat), (r, cat), (r, reg)).accepts(p.facts, terms) is False for r in rr)
                c.ob(why, 'missed', 'a listener that is enabled, attached, open to the level and to the category of the message is not called', last(p))
            # those that left the list
            if not unknown and L.l.get(act) is not None:
                for w in names:
                    D = [v for v, j in reads.get((w, det), ())]
                    if w not in L.l[act] and w not in (L.l.get(m.pending) or ()):
                        st['dropped'] += 1
                        c.ob(any(truth(p.facts, eq(v, 0)) is False for v in D), 'drop', 'a listener leaves the list without being detached', last(p))
                    else:
                        st['kept'] += 1
                        c.ob(not D or cleaned is not None or truth(p.facts, eq(D[-1], 0)) is not False, 'stay', 'a listener that is seen detached stays in the list', last(p))
    c.ob(st['called'] > 0 and st['dropped'] > 0, 'drop', 'no path calls a listener, or none drops a detached one', ('src/engine/logsystem.cpp', 'LogSystem::loggingThread'))
    c.extra['dispatch'] = st
    c.sample('listener: enabled at %s, detached at %s, level at %s, category at %s, compiled filter at %s' % (en, det, lvl, cat, reg))

main(Check('C07', 'decision table of the dispatch: on every abstract path of one round of the logging thread (shapes of 0 to 2 listeners) a listener is called if and only if it is enabled, attached, open to the level and to the '
           'category; the category predicate; the level filter of log(); which listeners leave the list', UNITS, 100), body)
