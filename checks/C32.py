#!/usr/bin/env python3
"""The XML report."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import re
import xml.etree.ElementTree as ET
from futs import *

EVIL = {'a': ('Aone<&>"\']]>', 'alpha<&>"\']]>'), 'b': ('Btwo&amp;', 'beta&#65;\x1b'), 'c': ('Btwo&amp;', 'gamma\xe9')}
# a character that XML does not know may be replaced by anything
BAD = '[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]'

def same(got, want):
    """got is the text want up to what XML cannot represent"""
    return got is not None and re.fullmatch(pattern(want), got) is not None

def pattern(want):
    return '[\\s\\S]*?'.join(re.escape(x) for x in re.split(BAD + '+', want))

def text_of(b):
    return b.decode('utf-8', 'surrogateescape')

def body(c):
    f = Fut(c)
    m = Suite(c, f)
    runs = 0

    def flatx(p):
        """the text of the report of a path: None if nothing is written"""
        roots = []
        for e in p.events:
            if e.kind == 'open':
                roots.append(addr(e.args[0]))
        out = b''
        for e in p.events:
            if e.kind == 'out' and addr(e.args[0]) in roots:
                x = e.args[1]
                if x[0] == 'f':
                    out += b'0.5'
                else:
                    out += fl([x])
        return out, bool(roots)

    def fl(pieces):
        out = b''
        for x in pieces:
            if x[0] == 'f':
                out += b'0.5'
            elif x[0] == 's':
                out += ft(x[1])
            else:
                out += flat([x])
        return out

    def ft(t):
        if t[0] == 'cat':
            return b''.join(ft(x) for x in t[1])
        if t[0] == 'fmt':
            return fl(t[1])
        return flatt(t)

    def check(r, tag, want, name, ident, names, suffix=''):
        nonlocal runs
        runs += 1
        e = last(r.p)
        if r.p.status != 'ret':
            return
        text, wrote = flatx(r.p)
        if truth(r.p.facts, opened(r.p)) is False:
            c.ob(not text, 'unopened', '%s: the report is written although its file cannot be opened' % tag, e)
            c.ob(r.errtext != b'', 'unopened', '%s: nobody is told that the file of the report cannot be opened' % tag, e)
            return
        if not c.ob(wrote, 'written', '%s: no report is written' % tag, e):
            return
        if b'\0' in text:
            raise Broken('the text of the report: ...%s' % text[max(0, text.index(b'\0') - 150):][:200])
        try:
            root = ET.fromstring(text)
        except (ET.ParseError, ValueError) as x:
            c.ob(False, 'wellformed', '%s: the report is not well-formed XML (%s)' % (tag, x), e)
            return
        say = ', '.join('%s %s' % (full(t).decode(), MEANS[k]) for t, k in r.tests) or 'nothing performed'
        tag = '%s (%s)' % (tag, say)

        def counts(el, tests, what):
            for a, n in (('tests', len(tests)), ('failures', len([t for t in tests if t in r.failed]))):
                c.ob(el.get(a) == str(n), 'counts', '%s: %s says %s="%s" instead of %d' % (tag, what, a, el.get(a), n), e)
            number(el, what)

        def number(el, what):
            try:
                ok = float(el.get('time')) >= 0
            except (TypeError, ValueError):
                ok = False
            c.ob(ok, 'time', '%s: the time of %s is no number' % (tag, what), e)
        c.ob(root.tag == 'testsuites' and not root.attrib.keys() - {'id', 'name', 'tests', 'failures', 'time', 'errors', 'skipped', 'timestamp'}, 'shape', '%s: the report is no <testsuites>' % tag, e)
        c.ob(same(root.get('name'), name), 'name', '%s: the name of the report is %s' % (tag, root.get('name')), e)
        c.ob(same(root.get('id'), ident), 'name', '%s: the ID of the report is %s' % (tag, root.get('id')), e)
        counts(root, want, 'the report')
        comps = {}
        for t in want:
            comps.setdefault(names[t][0], []).append(t)
        got = list(root)
        c.ob(len(got) == len(comps) and all(x.tag == 'testsuite' for x in got), 'shape', '%s: %d test suites for %d components' % (tag, len(got), len(comps)), e)
        for comp, ts in comps.items():
            els = [x for x in got if same(x.get('name'), comp)]
            if not c.ob(len(els) == 1, 'component', '%s: component %s is reported %d times' % (tag, ascii(comp), len(els)), e):
                continue
            el = els[0]
            c.ob(same(el.get('id'), ident + '.' + comp), 'name', '%s: the ID of component %s is %s' % (tag, ascii(comp), el.get('id')), e)
            counts(el, ts, 'component %s' % ascii(comp))
            c.ob(len(el) == len(ts) and all(x.tag == 'testcase' for x in el), 'shape', '%s: component %s holds %d test cases instead of %d' % (tag, ascii(comp), len(el), len(ts)), e)
            for t in ts:
                n = names[t][1]
                els = [x for x in el if same(x.get('name'), n)]
                if not c.ob(len(els) == 1, 'case', '%s: test case %s is reported %d times' % (tag, ascii(n), len(els)), e):
                    continue
                x, k = els[0], r.kinds.get(t)
                number(x, 'test case %s' % ascii(n))
                c.ob(same(x.get('id'), '.'.join((ident, comp, n))), 'name', '%s: the ID of test case %s is %s' % (tag, ascii(n), x.get('id')), e)
                fs = [y for y in x if y.tag in ('failure', 'error')]
                if not c.ob(len(fs) == (t in r.failed), 'failure', '%s: test case %s, which %s, is reported with %d failures' % (tag, ascii(n), MEANS[k], len(fs)), e):
                    continue
                if fs and k in 'FGXU':
                    d = ('WHAT-' if k in 'XU' else 'DESC-') + t + suffix
                    body = ''.join(fs[0].itertext())
                    c.ob(same(fs[0].get('message'), d), 'message', '%s: the message of the failure of test case %s is %s' % (tag, ascii(n), ascii(fs[0].get('message'))), e)
                    if k in 'FG':
                        c.ob(re.search(pattern('FILE-' + t + suffix), body) is not None and str(7700 + ord(t)) in body, 'where', '%s: the failure of test case %s is reported without its position' % (tag, ascii(n)), e)
                c.ob('STALE' not in text.decode('utf-8', 'replace'), 'stale', '%s: the report shows what a test case held before the run' % tag, e)

    def opened(p):
        for e in p.events:
            if e.kind == 'if' and isinstance(e.name, tuple) and 'opened' in str(e.name):
                t = e.name
                while t[0] == 'not':
                    t = t[1]
                return t
        return 1
    for r in m.suite('m_xml', 'QOEFGX'):
        check(r, 'main() -x', 'abc', 'TheName', 'TheId', NAMES)
    for r in m.suite('m_xmlplain', 'QFY'):
        check(r, 'main() -x without a name', 'abc', 'prog', 'prog', NAMES)
    for r in m.suite('m_xmlone', 'QOEFGXYTU'):
        check(r, 'main() -x with one test case selected', 'c', 'TheName', 'TheId', NAMES)
    for r in m.suite('m_xmlnone', 'Q'):
        check(r, 'main() -x of an empty suite', '', 'prog', 'prog', NAMES)
    n = runs
    # every special character, everywhere
    every = bytes(range(1, 128)) + '\xe9\u20ac\U0001f600'.encode()
    every += b'\xef\xbf\xbd\xef\xbf\xbf\xed\x9f\xbf\xed\xa0\x80\xf4\x8f\xbf\xbf'
    # what is no UTF-8: single bytes, incomplete, overlong and surrogate sequences, values out of range
    latin = b'a\xe9b\xff\xfe\xe9'
    wrong = b'\xc0\x80.\xc1\xbf.\xe0\x9f\xbf.\xf0\x8f\xbf\xbf.\xf4\x90\x80\x80.\xf5\x80\x80\x80.\xe2\x82.\xf0\x9f\x98.\x80.\xbf.\xc3'
    broken = b'\xc3\xff.\xc3\x7f.\xc3A.\xe2A\xac.\xe2\xc2\xac.\xe2\x82A.\xe2\x82\xc3\xa9.\xf0A\x98\x80.\xf0\x9fA\x80.\xf0\x9f\x98A.\xf0\x9f\x98\xff.\xc3'
    high = b'.'.join(bytes([x]) for x in range(128, 256))
    for sfx in (latin, wrong, broken, high, b'\xf0\x9f\x98', b'x\xe2\x82', b'a\r\nb\rc\n', b'<&>"\']]>', b'<!-- & -->', b'\x01\x1f\x7f', '\xe9'.encode(), b'&amp;&#60;', b'\n\t x', b'<![CDATA[ ]]>', every):
        m.suffix = sfx
        for r in m.suite('m_xmlevil', 'QFX'):
            check(r, 'special characters', 'abc', 'The<&>"\'Name', 'The<&>"\'Id', EVIL, text_of(sfx))
    m.suffix = b''
    for r in m.suite('m_xmlname', 'QF', x=every):
        check(r, 'a name of special characters', 'a', text_of(every), 'TheId', NAMES)
    for r in m.suite('m_xmlid', 'QF', x=every):
        check(r, 'an ID of special characters', 'a', 'TheName', text_of(every), NAMES)
    # no text given from outside reaches the report as it is
    X = ('cs', ('&', ('P', 'x'), 0), 0)

    def looked(k):
        if not isinstance(k, tuple) or k == ('len', X):
            return False
        return k == X or k == ('P', 'x') or any(looked(y) for y in k)
    for w in ('m_xmlname', 'm_xmlid'):
        for r in m.suite(w, 'Q', sym=1):
            runs += 1
            roots = [addr(e.args[0]) for e in r.p.events if e.kind == 'open']
            for e in r.p.events:
                if e.kind == 'out' and addr(e.args[0]) in roots:
                    # (a text that has been looked at may be what needs no change)
                    empty = truth(r.p.facts, ('eq0', ('len', X))) is True or any(looked(k) for d in (r.p.facts.iv, r.p.facts.b, r.p.facts.fx) for k in d)
                    c.ob(empty or e.args[1] not in (('s', X),) and not (e.args[1][0] == 's' and X in parts(e.args[1][1])), 'raw', 'a text given on the command line reaches the report as it is', e)
    c.extra['runs'] = runs
    c.ob(n >= 250, 'seen', 'only %d runs were seen' % n, ('src/fut/unittest.cpp', 'UnitTest::main'))
    c.assumptions.append('gettimeofday() succeeds; writing on an opened file succeeds')

main(Check('C32', 'abstract runs of main() with -x: the concatenation of everything written to the report is parsed as XML and compared with the test cases performed, for names and failures holding every character', CASES, 3000), body)
