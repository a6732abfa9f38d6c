#!/usr/bin/env python3
"""Setting the category filter of a listener is all or nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

L = ('P', 'l')
INVALID = '_ZTIN6falcon9LogSystem15InvalidCategoryE'

def at(e):
    return addr(e.args[0])

def body(c):
    m = Log(c)
    cat = {at(e)[1] for p in m.runs(W + 'w_category_get') for e in p.events if e.kind == 'op' and e.name.startswith('string.') and at(e)[0] == L}
    reg = {at(e)[1] for p in m.runs(LI + 'checkCategory') for e in p.events if e.kind == 'op' and e.name == 'regex.read' and at(e)[0] == ('P', 'this')}
    if len(cat) != 1 or len(reg) != 1:
        raise Broken('where a listener keeps its category filter')
    cat, reg = cat.pop(), reg.pop()
    given = ('sval', ('P', 's'), 0, (0, 0))
    ok = bad = 0
    for p in m.runs(W + 'w_category_set'):
        S = p.st
        wr = [e for e in p.events if e.kind in ('wr', 'op', 'atomic') and e.args and isinstance(e.args[0], tuple) and at(e)[0] == L and (e.kind == 'wr' or e.kind == 'atomic' or e.x.get('rw') in ('w', 'init'))]
        invalid = any(e.kind == 'regex!' or e.kind == 'op' and e.name == 'regex.assign!' for e in p.events) or p.status == 'throw'
        if p.status == 'ret' and not invalid:
            ok += 1
            t, r = S.obj.get((L, cat)), S.obj.get((L, reg))
            c.ob(t is not None and t[1] == given, 'text', 'category(filter) returns without keeping the text of the filter', last(p))
            c.ob(r is not None and r[1:] == (given,), 'regex', 'category(filter) returns without compiling exactly the given filter', last(p))
            for e in wr:
                c.ob(at(e)[1] in (cat, reg), 'other', 'category(filter) changes another member of the listener', e)
        elif p.status == 'throw':
            bad += 1
            th = [e for e in p.events if e.kind == 'throw']
            src = [e for e in th if 'regex_error' in e.name]
            c.ob(bool(th) and th[-1].name == INVALID, 'invalid', 'an invalid filter is not reported as InvalidCategory', th[-1] if th else last(p))
            for e in wr:
                c.ob(False, 'kept', 'a filter that is rejected has already changed the listener', e)
            c.ok()
        else:
            c.ob(False, 'invalid', 'an invalid filter is accepted silently', last(p))
        # both members change in one critical section
        held_ = None
        for e in wr:
            h = frozenset(l for l in held(e) if l[0] == L)
            c.ob(bool(h), 'lock', 'the category filter changes without a lock', e)
        if len(wr) > 1:
            i, j = p.events.index(wr[0]), p.events.index(wr[-1])
            for e in p.events[i:j]:
                c.ob(e.kind != 'unlock' or addr(e.args[0])[0] != L, 'together', 'the text and the compiled form of the filter do not change together', e)
    c.ob(ok > 0 and bad > 0, 'invalid', 'category(filter) has no path for a valid filter, or none for an invalid one', ('src/include/falcon/logsystem.h', 'Listener::category'))
    for p in m.runs(W + 'w_category_get'):
        c.ob(p.status == 'ret' and p.st.obj.get((('A', 'ret'), 0), (0, None))[1] == ('sval', L, cat, (0, 0)), 'get', 'category() does not return the text of the filter', last(p))
        for e in p.events:
            c.ob(not (e.kind == 'wr' and at(e)[0] == L or e.kind == 'op' and at(e)[0] == L and e.x.get('rw') == 'w'), 'get-const', 'category() changes the listener', e)
    # the reader takes both from one critical section
    for p in m.runs(LI + 'checkCategory'):
        T = ('P', 'this')
        rd = [i for i, e in enumerate(p.events) if e.kind == 'op' and at(e)[0] == T and at(e)[1] in (cat, reg)]
        for i in rd:
            c.ob(any(l[0] == T for l in held(p.events[i])), 'read-lock', 'the category filter is read without a lock', p.events[i])
        if rd:
            for e in p.events[rd[0]:rd[-1]]:
                c.ob(e.kind != 'unlock', 'read-together', 'the text and the compiled form of the filter are not read together', e)
        for e in p.events:
            if e.kind == 'op' and at(e)[0] == T:
                c.ob(e.x.get('rw') != 'w', 'read-const', 'checking a category changes the filter', e)
        c.ob(p.status == 'ret', 'read', 'checking a category does not return', last(p))
    # a new listener has no filter
    n = 0
    for p in m.runs(W + 'w_listener_ctor') + m.runs(W + 'w_new_logger'):
        if p.status != 'ret':
            continue
        for e in p.events:
            if e.kind == 'op' and e.name.startswith('string.') and at(e)[0][0] in 'AN' and at(e)[1] == cat and e.x.get('rw') == 'w':
                c.ob(e.x.get('val') == ('sl', b''), 'initial', 'a new listener has a category filter', e)
        t = [v for (r, o), v in p.st.obj.items() if r[0] in 'AN' and o == cat]
        for v in t:
            n += 1
            c.ob(v[1] == ('sl', b''), 'initial', 'a new listener has a category filter', last(p))
    c.extra['listeners_constructed'] = n
    c.sample('filter text at %s, compiled filter at %s' % (cat, reg))

main(Check('C08', 'effect analysis of Listener::category(): on every abstract path the text and the compiled form of the filter are replaced together by the given filter, or (invalid filter) neither and InvalidCategory is thrown', UNITS, 15), body)
