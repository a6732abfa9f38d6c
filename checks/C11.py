#!/usr/bin/env python3
"""Log statements: what is evaluated, what is sent."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from logs import *

NAMED = {'crit': 0, 'err': 1, 'warn': 2, 'info': 3, 'dbg': 4, 'trc': 5, 'cond': 3}
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness', 'w_log.cpp')

def lineof(w):
    for i, l in enumerate(open(SRC), 1):
        if re.search(r'\b%s\(' % w, l):
            return i
    raise Broken('witness %s' % w)

def program(c, k):
    """the statements compiled with a compile-time limit"""
    d = '-DFALCON_MIN_LOG_LEVEL=%s' % ('::falcon::LLDISABLE' if k < 0 else '::falcon::LogSystem::LEVEL(%d)' % k)
    return c.load([('w_log.cpp', 'min%d' % k, [d])] + UNITS[1:])

def pieces(p):
    """the steps of a statement in order: ('put', n), ('body', n), ('send', event)"""
    val = {}
    out = []
    for e in p.events:
        if e.kind == 'ext' and e.name == W + 'piece':
            val[e.ret] = e.args[0]
            out.append(('eval', e.args[0], e))
        elif e.kind == 'ext' and e.name == W + 'operator<<':
            out.append(('put', val.get(e.args[1], e.args[1]), e))
        elif e.kind == 'ext' and e.name == W + 'body':
            out.append(('body', e.args[0], e))
        elif e.kind == 'logcall':
            out.append(('send', None, e))
    return out

def judge(c, s, K, w, level, want, block=False, cat=False, throws=False):
    """want: steps other than evaluations; None in the middle: may end there (break)"""
    tag = w[2:] + (' (limit %d)' % K if K != 5 else '')
    lvl = ('arg', 'lvl') if level is None else level
    n = 0
    sys_level = None
    sl = {addr(e.args[0])[1] for p in s.runs('w_sys_level_get') for e in p.events if e.kind == 'rd'}
    if len(sl) != 1:
        raise Broken('where the log system keeps its level')
    cur = ('ld', LOGGER, sl.pop(), 0)
    for p in s.runs(w, throws):
        if p.status not in ('ret', 'throw'):
            c.ob(p.status == 'ret', 'end', '%s does not end' % tag, last(p))
            continue
        by_limit, by_level = truth(p.facts, lt(K, lvl)), truth(p.facts, lt(cur, lvl))
        on = False if by_limit is True or by_level is True else True if by_limit is False and by_level is False else None
        st = pieces(p)
        do = [(k, v) for k, v, e in st if k != 'eval']
        send = [e for k, v, e in st if k == 'send']
        where = send[0] if send else (st[-1][2] if st else last(p))
        n += 1
        if on is None:
            # a level was not looked at: both outcomes are on this path
            c.ob(not do, 'filter', '%s does not depend on the level of the statement' % tag, where)
            c.ob(not any(assume(g, lt(cur, lvl), False) for g in assume(p.facts, lt(K, lvl), False)), 'enabled', '%s does nothing although its level is enabled' % tag, where)
            continue
        if not on:
            c.ob(not do, 'filter', '%s %s although it is filtered' % (tag, 'sends a message' if send else 'renders a part of the message'), where)
            for e in p.events:
                if e.kind in ('wr', 'op') and addr(e.args[0]) in s.roles.values() and (e.kind == 'wr' or e.x.get('rw') == 'w'):
                    c.ob(addr(e.args[0]) != s.temp, 'filter', '%s leaves a temporary category behind although it is filtered' % tag, e)
            c.ob(p.status == 'ret', 'filter', '%s throws although it is filtered' % tag, last(p))
            continue
        # enabled
        left = p.status == 'throw' or ('break',) in want and do == want[:want.index(('break',))]
        if left and not send:
            threw = [i for i, (k, v, e) in enumerate(st) if k == 'body' and e.x and e.x.get('threw')]
            full = [x for x in want if x != ('break',)]
            c.ob(do == full[:len(do)], 'order', '%s does not render its parts in order' % tag, where)
            for what in s.ready(p):
                if do:
                    c.ob(what not in ('its text', 'its temporary category'), 'abandon', '%s leaves %s to the next message when the block is left early' % (tag, what), last(p))
            c.ok()
            continue
        full = [x for x in want if x != ('break',)]
        c.ob(p.status == 'ret', 'end', '%s sends a message although the block is left by an exception' % tag, where)
        if not c.ob(do == full + [('send', None)], 'order', '%s does not render its parts once, in order, and then send one message' % tag, where):
            continue
        e = send[0]
        c.ob(e.args[0] == ptr(LOGGER, 0), 'send', '%s sends the message to another logger' % tag, e)
        c.ob(e.x['level'] == lvl, 'send', '%s does not send its level' % tag, e)
        c.ob(e.x['line'] == lineof(w), 'send', '%s does not send its line' % tag, e)
        c.ob(e.x['file'] == ('sl', SRC.encode()), 'send', '%s does not send its file' % tag, e)
        t = e.x['text']
        c.ob(t[0] == 'ossval' and t[1] == s.comp, 'send', '%s does not send the text that was composed' % tag, e)
        if cat:
            given = ('sval', ('P', 'c'), 0, (0, 0))
            k = truth(p.facts, eq(('len', given), 0))
            for x in eqs(p, given):
                k = truth(p.facts, x) if k is None else k
            c.ob(e.x['cat'] == given and k is not True or k is True and e.x['cat'] == s.text(s.cat), 'category', '%s does not send the category given in the statement' % tag, e)
        for what in s.ready(p):
            c.ob(False, 'reset', '%s leaves %s to the next message' % (tag, what), last(p))
    return n

def body(c):
    progs = [(5, c.P), (2, program(c, 2)), (-1, program(c, -1))]
    total = 0
    for K, P in progs:
        s = Stmt(c, P)
        P1 = [('put', 1)]
        total += judge(c, s, K, 'w_log1', None, P1)
        total += judge(c, s, K, 'w_log3', None, [('put', 1), ('put', 2), ('put', 3)])
        total += judge(c, s, K, 'w_logcat', None, P1, cat=True)
        total += judge(c, s, K, 'w_logcat2', None, P1 + [('put', 2)], cat=True)
        blk = [('body', 1), ('put', 1), ('put', 2), ('body', 2)]
        total += judge(c, s, K, 'w_block', None, blk, True)
        total += judge(c, s, K, 'w_block', None, blk, True, throws=True)
        total += judge(c, s, K, 'w_block_break', None, [('put', 1), ('break',), ('put', 2)], True)
        for nm, k in NAMED.items():
            total += judge(c, s, K, 'w_' + nm, k, P1)
            total += judge(c, s, K, 'w_b' + nm, k, [('body', 1)], True)
        # the category of the thread
        for p in s.runs('w_logcategory'):
            v = p.st.obj.get(s.cat)
            if K >= 0:
                c.ob(p.status == 'ret' and v is not None and v[1] == ('sval', ('P', 'c'), 0, (0, 0)), 'logcategory', 'LOG_CATEGORY does not set the category of the thread (limit %d)' % K, last(p))
            else:
                c.ob(v is None, 'logcategory', 'LOG_CATEGORY has an effect although logs are compiled out', last(p))
        # enabled and filtered paths must both exist
        if K >= 0:
            ps = s.runs('w_log1')
            c.ob(any(e.kind == 'logcall' for p in ps for e in p.events), 'filter', 'LOG never sends a message (limit %d)' % K)
    c.extra['statement_paths'] = total
    c.extra['limits'] = [k for k, P in progs]

main(Check('C11', 'decision table of the statement macros: for every statement form, run-time level and compile-time limit (all, WARN, disabled), what is rendered, in which order, what is sent, and what is left behind on every '
           'abstract path, exits by break and by exception included', UNITS, 150), body)
