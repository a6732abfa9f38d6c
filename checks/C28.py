#!/usr/bin/env python3
"""Source text objects: buffer bounds and ownership."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
from fal import *
import models
from models import slen

def sv(n):
    return ('sval', ('P', n), 0, (0, 0))
# scenario -> text it must report (None: unspecified, but it must be readable)
WANT = {'s_text': sv('v'), 's_default': ('sl', b''), 's_copy': sv('v'), 's_origin': sv('v'), 's_assign': sv('v'), 's_source': sv('v'), 's_self': sv('v'), 's_move': sv('v'),
        's_moved': None, 's_reuse': sv('v'), 's_frommoved': None, 's_copymoved': None, 's_moveassign': sv('v'), 's_compile': None,
        's_assigncopy': sv('v'), 's_assignmove': sv('v'), 's_assignassign': sv('v'), 's_movecopy': sv('v'), 's_copycopy': sv('v'), 's_selfcopy': sv('v')}

def span(c, p, e, root, size, off, n, what):
    """a write of n bytes at off of a buffer of this size"""
    if n == 0:
        return
    end = add(off, n)
    c.ob(truth(p.facts, lt(size, end)) is False, 'bounds', '%s: a write can pass the end of the buffer' % what, e)
    c.ob(truth(p.facts, lt(off, 0)) is not True, 'bounds', '%s: a write precedes the buffer' % what, e)

def body(c):
    for w, want in sorted(WANT.items()):
        ps, I = c.run(c.fn1('wit::' + w))
        what = {'s_text': 'a new object', 's_default': 'an empty object', 's_copy': 'the copy of a destroyed object', 's_origin': 'an object whose copy was destroyed', 's_assign': 'an assigned object',
                's_source': 'the source of an assignment', 's_self': 'an object assigned to itself', 's_move': 'a moved object', 's_moved': 'the source of a move', 's_reuse': 'an object moved from and assigned',
                's_frommoved': 'an object assigned from the source of a move', 's_copymoved': 'a copy of the source of a move', 's_moveassign': 'an object assigned by move', 's_compile': 'the result of compiling',
                's_assigncopy': 'the copy of an assigned object', 's_assignmove': 'the object an assigned one was moved to', 's_assignassign': 'an object assigned from an assigned one', 's_movecopy': 'the copy of a moved object', 's_copycopy': 'the copy of a copy', 's_selfcopy': 'the copy of an object assigned to itself'}[w]
        c.ob(any(p.status == 'ret' for p in ps), 'result', what + ' cannot be obtained')
        for p in ps:
            last = p.events[-1] if p.events else None
            if p.status == 'cut':
                pass
            elif not c.ob(p.status == 'ret', 'exit', '%s: ends in %s' % (what, p.status), last):
                continue
            size, dead, whole, nul, elems = {}, {}, {}, {}, {}
            src = {}
            for e in p.events:
                if e.kind == 'new':
                    size[addr(e.ret)[0]] = (e.args[0], e.name, e)
                elif e.kind in ('uaf',):
                    c.ob(False, 'use-after', '%s: the text is read from a released buffer' % what, e)
                elif e.kind == 'nulltext':
                    c.ob(False, 'null', '%s: the text is read through a null pointer' % what, e)
                elif e.kind in ('terminate', 'throw'):
                    c.ob(False, 'throw', '%s: ends in %s' % (what, e.kind), e)
                elif e.kind == 'delete':
                    r, o = addr(e.args[0])
                    if r == ('abs',) and o == 0:
                        continue
                    if truth(p.facts, eq(e.args[0], 0)) is True:
                        continue
                    if not c.ob(r in size and o == 0, 'foreign', '%s: something that was not allocated is released' % what, e):
                        continue
                    c.ob(r not in dead, 'twice', '%s: a buffer is released twice' % what, e)
                    c.ob(e.name == size[r][1].replace('new', 'delete'), 'form', '%s: a buffer is released with the wrong form of delete' % what, e)
                    dead[r] = e
                elif e.kind in ('wr', 'rd') and e.name not in ('copy', 'memcpy'):
                    r, o = addr(e.args[0])
                    if r in size:
                        c.ob(r not in dead, 'use-after', '%s: a released buffer is accessed' % what, e)
                        if e.kind == 'wr' and size[r][1] == 'new[]':
                            span(c, p, e, r, size[r][0], o, e.x['size'], what)
                            if e.args[1] == 0:
                                nul.setdefault(r, []).append(o)
                            else:
                                elems.setdefault(r, []).append((o, e.args[1]))
                elif e.kind in ('copy', 'memcpy') or e.kind == 'wr' and e.name == 'memcpy' and isinstance(e.x['size'], int):
                    d = e.args[2] if e.kind == 'copy' else e.args[0]
                    s = e.args[0] if e.kind == 'copy' else e.args[1] if e.kind == 'memcpy' else e.args[1][1]
                    n = e.x['n'] if e.kind == 'copy' else e.args[2] if e.kind == 'memcpy' else e.x['size']
                    r, o = addr(d)
                    if r in size:
                        c.ob(r not in dead, 'use-after', '%s: a released buffer is written' % what, e)
                        span(c, p, e, r, size[r][0], o, n, what)
                        sr, so = addr(s)
                        if sr in dead:
                            c.ob(False, 'use-after', '%s: a released buffer is read' % what, e)
                        if sr[0] == 'cstr' and so == 0 and o == 0:
                            t = sr[1]
                            if n == slen(t) and n != 0:
                                src[r] = t
                            elif n == add(slen(t), 1):
                                src[r] = t
                                elems.pop(r, None)
                                nul.setdefault(r, []).append(slen(t))
                        elif sr in src and so == 0 and o == 0 and n in (slen(src[sr]), add(slen(src[sr]), 1), size[sr][0]):
                            src[r] = src[sr]
                            if n != slen(src[sr]):
                                nul.setdefault(r, []).append(slen(src[sr]))
            if p.status == 'cut':
                continue
            for r in size:
                c.ob(r in dead, 'leak', '%s: a buffer is never released' % what, size[r][2])
            got = models.sget(I, p.st, ('&', ('A', 'ret'), 0))
            t = None
            if got[0] == 'cs':
                r, o = addr(got[1])
                if r in size:
                    if r in src:
                        t = src[r]
                    elif r in elems and all(isinstance(v, tuple) and (v[0] == 'chr' and v[2] == oo or v[0] == 'ch0' and oo == 0) for oo, v in elems[r]) and len({v[1] for oo, v in elems[r]}) == 1:
                        t = elems[r][0][1][1]
                    elif r not in elems:
                        t = ('sl', b'')
                    c.ob(o == 0, 'text', '%s: the text is not read from the start' % what, last)
                    if want is not None and want[0] == 'sval' and t == ('sl', b'') and truth(p.facts, eq(slen(want), 0)) is True:
                        t = want
                    if t is not None:
                        end = slen(t)
                        c.ob(any(truth(p.facts, eq(z, end)) is True or z == end for z in nul.get(r, [])), 'nul', '%s: the buffer is not terminated after the text' % what, size[r][2])
            else:
                t = got
            if want is not None:
                if want[0] == 'sval' and got == ('sl', b'') and truth(p.facts, eq(slen(want), 0)) is True:
                    t = want
                c.ob(t == want, 'text', '%s reports %s instead of %s' % (what, I.describe(t) if t is not None else 'something else', I.describe(want)), last)
            c.sample('%s: %s' % (what, I.describe(t) if t is not None else got[0]))

main(Check('C28', 'abstract execution of twenty lifetimes of source text objects (build, copy, assign, self-assign, move, use after move, compile), all string lengths symbolic: every write is within '
           'the allocated size, every buffer is released once in its form and not used afterwards, and the text reported is the text given', ['w_item.cpp', 'engine'], 80), body)
