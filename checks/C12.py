#!/usr/bin/env python3
"""The category filter helper of the logger."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

SYS, DL = ('arg', 'sys'), ('arg', 'dl')

def body(c):
    m = Log(c)
    en, det, lvl, cat = member(m, 'w_isEnabled', 'whether it is enabled', 'w_enable'), member(m, 'w_isDetached', 'whether it is detached', 'w_detach'), member(m, 'w_level_get', 'its level', 'w_level_set'), member(m, 'w_category_get', 'its category')
    reg = {addr(e.args[0])[1] for p in m.runs(LI + 'checkCategory') for e in p.events if e.kind == 'op' and e.name == 'regex.read' and addr(e.args[0])[0] == ('P', 'this')}
    if len(reg) != 1:
        raise Broken('where a listener keeps its compiled category filter')
    reg = reg.pop()

    def same(g, v, w):
        return v == w or truth(g, eq(v, w)) is True

    def split(facts, *conds):
        gs = [facts]
        for x in conds:
            gs = [h for g in gs for b in (True, False) for h in assume(g, x, b)]
        return gs

    def levels(p, e, filt, key, when, SYS=SYS, DL=DL):
        """the levels seen by the observation e, with filt the level of the active filter or None"""
        s, d = e.args[1], e.args[2]
        if filt is None:
            c.ob(same(p.facts, s, SYS), key, 'the level of the logger is not the one preceding the filter %s' % when, e)
            c.ob(same(p.facts, d, DL), key, 'the level of the default listener is not the one preceding the filter %s' % when, e)
            return
        for g in split(p.facts, lt(SYS, filt), lt(SYS, DL)):
            up, high = truth(g, lt(SYS, filt)), truth(g, lt(SYS, DL))
            c.ob(same(g, s, filt if up else SYS), key, 'the level of the logger is not raised exactly as needed %s' % when, e)
            c.ob(same(g, d, SYS if up and high else DL), key, 'the default listener does not keep logging exactly what it logged before %s' % when, e)

    def scan(p):
        """listeners handed to the log system, observations, detachments"""
        lst, obs, out = [], [], []
        for e in p.events:
            if e.kind == 'op' and '.push' in e.name and addr(e.args[0])[1] == m.pending[1] and e.x.get('v') is not None:
                lst.append(e.x['v'])
                out.append(('add', e.x['v'], e))
            elif e.kind == 'ext' and e.name == W + 'obs':
                out.append(('obs', e.args[0], e))
            elif e.kind in ('wr', 'atomic') and addr(e.args[0])[0][0] == 'N' and addr(e.args[0])[1] == det and (e.kind == 'atomic' or e.args[1] != 0):
                out.append(('detach', ptr(addr(e.args[0])[0], 0), e))
        return lst, out

    def proxy(p, q, dflt, text, level, detached, when):
        r = addr(q)[0]
        cells = p.st.mem.get(r, {})
        v = lambda o: cells.get(o, (0, None))[1]
        w = last(p)
        t, x = p.st.obj.get((r, cat)), p.st.obj.get((r, reg))
        c.ob(t is not None and t[1] == text and x is not None and x[1] == text, 'filter', 'the filter listener does not filter by the given category', w)
        c.ob(same(p.facts, v(lvl), level), 'filter', 'the filter listener does not have the given level', w)
        c.ob(v(en) == 1, 'filter', 'the filter listener is not enabled', w)
        c.ob(any(o > lvl and y[1] == dflt for o, y in cells.items() if isinstance(o, int)), 'filter', 'the filter listener does not pass messages on to the default listener', w)
        vt = v(0)
        c.ob(v(det) == (1 if detached else 0), 'active', ('a filter that was removed or replaced is still attached %s' if detached else 'the filter is detached %s') % when, w)

    def run(w):
        ps = [p for p in c.run(m.fn(W + w))[0] if p.status != 'cut']
        for p in ps:
            if p.status not in ('ret', 'throw'):
                c.ob(False, 'end', 'the category filter helper does not return', last(p))
        return ps
    T = lambda n: ('sval', ('P', n), 0, (0, 0))
    A = lambda n: ('arg', n)

    def want(w, steps, ends, thrown=None):
        """steps: expected order of additions/detachments/observations"""
        n = 0
        for p in run(w):
            lst, out = scan(p)
            got = [k for k, v, e in out if k == 'obs']
            if p.status != ends or len(got) != sum(1 for s in steps if s[0] == 'obs'):
                continue
            n += 1
            dflt = lst[0] if lst else None
            prox = lst[1:]
            adds = sum(1 for s in steps if s[0] == 'add')
            if not c.ob(len(prox) == adds, 'add', 'the category filter helper adds %d listeners instead of %d' % (len(prox), adds), last(p)):
                continue
            k = 0
            active, gone = None, set()
            for s in steps:
                # consume up to the next event of this kind
                while k < len(out) and (out[k][0] == 'detach' or out[k][0] == 'add' and out[k][1] == dflt):
                    if out[k][0] == 'detach':
                        if out[k][1] == dflt:
                            c.ob(False, 'default', 'the default listener is detached', out[k][2])
                        gone.add(out[k][1])
                    k += 1
                if k >= len(out) or out[k][0] != s[0]:
                    c.ob(False, 'order', 'the category filter helper adds a listener at the wrong time', last(p))
                    break
                if s[0] == 'add':
                    active = out[k][1]
                    k += 1
                    continue
                e = out[k][2]
                # one filter at most
                live = [q for q in prox[:sum(1 for o in out[:k] if o[0] == 'add' and o[1] != dflt)] if q not in gone]
                c.ob(len(live) == (0 if s[1] is None else 1), 'active', 'there are %d active filters %s' % (len(live), s[2]), e)
                if live and s[1] is not None:
                    c.ob(live[-1] == active, 'active', 'the active filter is not the last one set %s' % s[2], e)
                levels(p, e, s[1], 'restore' if s[1] is None else 'levels', s[2], *s[3:])
                k += 1
            for q, x in zip(prox, ends_state.get(w, ())):
                proxy(p, q, dflt, x[0], x[1], x[2], x[3])
            # what the logger holds
        c.ob(n > 0, 'seen', 'no path of %s was seen' % w, ('src/engine/logger.cpp', 'Logger::categoryFilter'))
    ends_state = {
        'w_filter': [(T('c'), A('l'), True, 'after clearFilter()')],
        'w_deffilter': [(T('c'), 5, False, 'after categoryFilter()')],
        'w_filter2': [(T('c'), A('l'), True, 'after it is replaced'), (T('c2'), A('l2'), True, 'after clearFilter()')],
        'w_badfilter2': [(T('c'), A('l'), True, 'after clearFilter()')],
    }
    want('w_filter', [('add',), ('obs', A('l'), 'after categoryFilter()'), ('obs', None, 'after clearFilter()'), ('obs', None, 'after a second clearFilter()', A('sys2'), A('dl2'))], 'ret')
    want('w_deffilter', [('add',), ('obs', 5, 'after categoryFilter()')], 'ret')
    want('w_filter2', [('add',), ('obs', A('l'), 'after categoryFilter()'), ('add',), ('obs', A('l2'), 'after the filter is replaced'), ('obs', None, 'after clearFilter()')], 'ret')
    want('w_nofilter', [('obs', None, 'when there is no filter')], 'ret')
    want('w_badfilter', [('obs', None, 'after an invalid filter is rejected')], 'ret')
    want('w_badfilter2', [('add',), ('obs', A('l'), 'after an invalid filter is rejected'), ('obs', None, 'after clearFilter()')], 'ret')
    # an invalid filter is reported
    for w in ('w_filter', 'w_deffilter'):
        for p in run(w):
            if p.status == 'throw':
                th = [e for e in p.events if e.kind == 'throw']
                c.ob(th[-1].name == '_ZTIN6falcon9LogSystem15InvalidCategoryE', 'invalid', 'an invalid filter is not reported as InvalidCategory', th[-1])
            bad = any(e.kind == 'regex!' for e in p.events)
            c.ob(not bad or p.status == 'throw', 'invalid', 'an invalid filter is accepted silently', last(p))

main(Check('C12', 'abstract runs of categoryFilter() and clearFilter() from a fresh logger with arbitrary levels: filter set, cleared, replaced, rejected; levels observed after every step, listeners added and detached', UNITS, 60), body)
