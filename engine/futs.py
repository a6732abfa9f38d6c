"""Where the unit test framework keeps its state, found through its public accessors."""
import re
from check import *
from fal import *
from models import Outcome
UNITS = ['w_fut.cpp', 'fut']
CASES = ['w_case.cpp', 'fut']
TC, UT, W = 'falcon::testing::TestCase::', 'falcon::testing::UnitTest::', 'wit::'
THIS = ('P', 'this')

def last(p):
    """where to report a path: its last event in the sources of the repository"""
    src = build.SRC + '/'
    for e in reversed(p.events):
        if e.loc and str(e.loc[0]).startswith(src):
            return e
    return p.events[-1] if p.events else None

def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t

class Fut:
    FIELDS = {'status': 'status', 'desc': 'failDesc', 'file': 'failFile', 'line': 'failLine', 'out': 'capturedOut', 'err': 'capturedErr', 'case': 'caseName', 'component': 'componentName', 'name': 'fullName'}

    def __init__(self, c):
        self.c = c
        self._at = {}
        K = {}
        for k in ('none', 'success', 'fail', 'error', 'stream'):
            r = {p.ret for p in c.run(c.fn1(W + 'k_' + k))[0]}
            if len(r) != 1 or not isinstance(list(r)[0], int):
                raise Broken('the value of a test status')
            K[k] = r.pop()
        self.K = K

    def acc(self, meth):
        """the const accessor of a TestCase"""
        return self.c.fn1(TC + meth, lambda n: n.startswith('_ZNK'))

    def at(self, field, obj=THIS):
        """(root, offset) of a field of the test case at the root obj"""
        if field not in self._at:
            r = set()
            for p in self.c.run(self.acc(self.FIELDS[field]))[0]:
                v = p.ret
                if isinstance(v, tuple) and v[0] == '&' and v[1][0] == 'cstr':
                    v = v[1][1]
                if isinstance(v, tuple) and v[0] in ('ld', 'sval'):
                    r.add((v[1], v[2]))
                else:
                    r.add(None)
            if len(r) != 1 or None in r:
                raise Broken('where a test case keeps %s' % field)
            self._at[field] = r.pop()
        l = self._at[field]
        return subst(l, THIS, obj) if obj != THIS else l

    def mem(self, p, field, obj=THIS):
        r, o = self.at(field, obj)
        v = p.st.mem.get(r, {}).get(o)
        return v[1] if v is not None else ('ld', r, o, 0)

    def text(self, p, field, obj=THIS):
        l = self.at(field, obj)
        v = p.st.obj.get(l)
        return v[1] if v is not None else None

    def writes(self, p, field, obj=THIS):
        l = self.at(field, obj)
        return [e for e in p.events if e.kind in ('wr', 'op') and e.args and isinstance(e.args[0], tuple) and e.args[0][0] == '&' and addr(e.args[0]) == l and (e.kind == 'wr' or e.x.get('rw') == 'w')]

def parts(t):
    """a text as a list of parts"""
    if isinstance(t, tuple) and t[0] == 'cat':
        return [y for x in t[1] for y in parts(x)]
    return [t]

class Case:
    """abstract runs of one test case whose SetUp(), test() and TearDown() do every combination of: writing on the output
    streams, failing a check, throwing"""
    STAGES = ('setup', 'test', 'teardown')
    T = ('P', 't')

    def __init__(self, c, f):
        self.c, self.f = c, f
        self.slots = {}
        for k in self.STAGES + ('what', 'init', 'destroy'):
            n = {e.name for p in c.run(c.fn1(W + 'v_' + k))[0] for e in p.events if e.kind == 'vcall'}
            if len(n) != 1:
                raise Broken('the virtual function %s of a test case' % k)
            self.slots[k] = n.pop()
        self.bufs = {}
        for k in ('out', 'err'):
            self.bufs[k] = self.where(k)

    def where(self, k):
        return ('G', '_ZSt4cout' if k == 'out' else '_ZSt4cerr')

    def buffer(self, S, k):
        """the buffer that a standard stream writes to"""
        r = self.where(k)
        v = S.mem.get(r, {}).get(('rdbuf', 0))
        return v[1] if v is not None else ('rdbuf0', (r, 0))

    def write(self, S, k, text):
        b = self.buffer(S, k)
        if b[0] == 'bufof':
            v = S.obj.get(b[1])
            S.obj[b[1]] = ('oss', (v[1] if v is not None and v[0] == 'oss' else (('s', ('unknown',)),)) + (('s', ('sl', text)),))
        return b

    def hook(self, does):
        """does: stage -> what it may do"""
        f, T = self.f, self.T
        def h(I, S, ins, cls, name, args):
            r = addr(args[0])[0]
            st = [k for k in self.STAGES if self.slots[k] == name]
            if r != T or not st:
                if name == self.slots['what'] and r[0] == 'X' and str(r[1]).startswith('exc-'):
                    return Outcome(S, ('&', ('P', 'what-' + r[1][4:]), 0))
                return None
            k = st[0]
            n = sum(1 for e in S.events() if e.kind == 'stage' and e.name == k)
            out = []
            for d in does[k]:
                s = S.fork()
                b = self.write(s, 'out', ('<out %s %d>' % (k, n)).encode())
                be = self.write(s, 'err', ('<err %s %d>' % (k, n)).encode()) if 'err' in d else self.buffer(s, 'err')
                for o in ('out', 'err'):        # and it may leave the streams in any state
                    for comp in models.IOSTATE:
                        models.iosset(s, (self.where(o), 0), comp, ('left', k, n))
                I.emit(s, 'stage', k, tuple(d), None, {'out': b, 'err': be}, ins)
                if 'fail' in d:
                    rt, o = f.at('status', T)
                    I.write(s, ('&', rt, o), 4, f.K['fail'])
                    rt, o = f.at('line', T)
                    I.write(s, ('&', rt, o), 4, 77)
                    s.obj[f.at('desc', T)] = ('str', ('sl', b'<fail %s>' % k.encode()))
                    s.obj[f.at('file', T)] = ('str', ('sl', b'<file>'))
                if 'std' in d:
                    out.append(models.stdthrow(I, s, ins, '_ZTIN3wit3StdE', ('&', ('X', 'exc-' + k), 0)))
                elif 'other' in d:
                    out.append(models.stdthrow(I, s, ins, '_ZTIN3wit5OtherE', ('&', ('X', 'exc-' + k), 0)))
                else:
                    out.append(Outcome(s, None))
            return out
        return h

    def runs(self, w, does, **o):
        ps = [p for p in self.c.run(self.c.fn1(W + w), vcall=self.hook(does), time_ok=True, **o)[0] if p.status != 'cut']
        if not ps:
            raise Broken('no run of a test case')
        return ps

    def stages(self, p):
        return [e for e in p.events if e.kind == 'stage']

NAMES = {'a': ('Aone', 'alpha'), 'b': ('Btwo', 'beta'), 'c': ('Btwo', 'gamma'), 'd': ('Aone', 'alp'), 'e': ('B', 'zeta'), 'f': ('B', 'epsilon')}
COUT, CERR = ('G', '_ZSt4cout'), ('G', '_ZSt4cerr')
KINDS = {'Q': (), 'O': ('out',), 'E': ('err',), 'F': ('fail', 'out'), 'G': ('fail', 'err'), 'X': ('std', 'out'), 'Y': ('other', 'err'), 'T': ('out', 'err', 'td'), 'U': ('std', 'out', 'td')}
PASS = 'QOT'

MEANS = {'Q': 'passes', 'O': 'passes with output', 'E': 'writes on the standard error', 'F': 'fails a check', 'G': 'fails a check with output on the standard error', 'X': 'throws a std::exception', 'Y': 'throws something else',
         'T': 'passes and writes in TearDown()', 'U': 'throws a std::exception in TearDown()'}

def full(t):
    return '::'.join(NAMES[t]).encode()

def flat(pieces):
    """the text of stream pieces; a zero byte for what is not known"""
    out = b''
    for x in pieces:
        if x[0] == 's':
            out += flatt(x[1])
        elif x[0] in ('i', 'u', 'c', 'b'):
            out += str(x[1]).encode() if isinstance(x[1], int) else b'\0'
        elif x[0] == 'm':
            if x[1] == 'endl':
                out += b'\n'
        elif x[0] == 'f':
            out += b'\0'
        else:
            out += b'\0'
    return out

def flatt(t):
    if t[0] == 'sl':
        return t[1]
    if t[0] == 'cat':
        return b''.join(flatt(x) for x in t[1])
    if t[0] == 'fmt':
        return flat(t[1])
    if t[0] == 'sub' and all(isinstance(x, int) for x in t[2:4]):
        x = flatt(t[1])
        if b'\0' not in x:
            return x[t[2]:t[2] + t[3]]
    return b'\0'

class Suite(Case):
    """abstract runs of a whole suite: every test case quietly passes, writes on the output streams, fails a check or throws"""
    def __init__(self, c, f):
        Case.__init__(self, c, f)
        self.suffix = b''       # of the descriptions and files of failures
        self.clock = None       # the n-th reading of the clock, if times matter
        from exact import Exact
        self.X = Exact(Broken)

    def stage(self, kinds):
        f = self.f
        def h(I, S, ins, cls, name, args):
            r = addr(args[0])[0]
            st = [k for k in self.STAGES if self.slots[k] == name]
            if name == self.slots['what'] and r[0] == 'X' and str(r[1]).startswith('exc-'):
                return Outcome(S, ('&', ('cstr', ('sl', b'WHAT-' + r[1][4:].encode() + self.suffix)), 0))
            if not st or r[0] != 'P' or r[1] not in NAMES:
                return None
            t = r[1]
            did = [e.args[1] for e in S.events() if e.kind == 'stage' and e.name == 'test' and e.args[0] == t]
            if st[0] != 'test' and not (st[0] == 'teardown' and did and 'td' in KINDS[did[-1]]):
                I.emit(S, 'stage', st[0], (t,), None, {'out': self.buffer(S, 'out'), 'err': self.buffer(S, 'err')}, ins)
                return Outcome(S, None)
            out = []
            for k in kinds if st[0] == 'test' else did[-1:]:
                d = KINDS[k]
                s = S.fork()
                I.emit(s, 'stage', st[0], (t, k) if st[0] == 'test' else (t,), None, {'out': self.buffer(s, 'out'), 'err': self.buffer(s, 'err')}, ins)
                if 'td' in d and st[0] == 'test':
                    out.append(Outcome(s, None))
                    continue
                for w, tag in (('out', b'OUT-'), ('err', b'ERR-')):
                    if w in d:
                        self.write(s, w, tag + t.encode())
                if 'fail' in d:
                    rt, o = f.at('status', r)
                    I.write(s, ('&', rt, o), 4, f.K['fail'])
                    rt, o = f.at('line', r)
                    I.write(s, ('&', rt, o), 4, 7700 + ord(t))
                    s.obj[f.at('desc', r)] = ('str', ('sl', b'DESC-' + t.encode() + self.suffix))
                    s.obj[f.at('file', r)] = ('str', ('sl', b'FILE-' + t.encode() + self.suffix))
                if 'std' in d:
                    out.append(models.stdthrow(I, s, ins, '_ZTIN3wit3StdE', ('&', ('X', 'exc-' + t), 0)))
                elif 'other' in d:
                    out.append(models.stdthrow(I, s, ins, '_ZTIN3wit5OtherE', ('&', ('X', 'exc-' + t), 0)))
                else:
                    out.append(Outcome(s, None))
            return out
        return h

    def suite(self, w, kinds, v=None, hook=None, x=None, sym=None):
        """v: the verbosity, x: the text given on the command line (unknown if None)"""
        fn = self.c.fn1(W + w)
        ps = [nm for ty, at, nm in self.c.P.fn(fn).params()]
        args = [v if nm == 'v' else ('&', ('cstr', ('sl', x)), 0) if nm == 'x' and x is not None else None for nm in ps]

        def init(I, S, fr):
            for t in NAMES:
                for k in ('out', 'err', 'desc', 'file', 'case', 'component'):
                    S.obj[self.f.at(k, ('P', t))] = ('str', ('sl', b'STALE-' + k.encode()))
                S.obj[self.f.at('name', ('P', t))] = ('str', ('sl', b'STALE-name'))

        def hk(I, S, ins, cn, name, args):
            r = self.X.hook(I, S, ins, cn, name, args)
            if r is None and hook is not None:
                r = hook(I, S, ins, cn, name, args)
            if r is None and self.clock is not None and cn == 'falcon::testing::markTime':
                n = sum(1 for e in S.events() if e.kind == 'clock')
                I.emit(S, 'clock', cn, (n, self.clock(n)), None, None, ins)
                I.write(S, args[0], 8, self.clock(n))
                r = Outcome(S, None)
            if r is None and self.clock is None and cn == 'falcon::testing::TimeLapse::elapsed':
                r = Outcome(S, 1500)
            return r
        ps = [p for p in self.c.run(fn, args, init=init, vcall=self.stage(kinds), hook=hk, time_ok=True, unroll=400, unroll_sym=sym, maxpaths=60000, maxsteps=8000000)[0]]
        if any(p.status == 'cut' and p.why != 'sym' for p in ps):
            raise Broken('%s: a loop over a known text or suite does not end' % w)
        ps = [p for p in ps if p.status != 'cut']
        if not ps:
            raise Broken('no run of a suite')
        return [Run(self, p) for p in ps]

class Run:
    """what one run of a suite did: (kind of segment, test, text written by the program) in order"""
    def __init__(self, m, p):
        self.p, self.m = p, m
        self.tests = []         # (test, kind) in order
        self.text = b''         # what reached the standard output
        self.errtext = b''
        self.before, self.after = {}, {}
        self.marks = []         # (position in text, test, 'setup'/'teardown')
        direct = {COUT: True, CERR: True}
        for e in p.events:
            if e.kind == 'rdbuf.set':
                r = addr(e.args[0])[0]
                if r in direct:
                    direct[r] = e.args[1] == ('rdbuf0', (r, 0))
            elif e.kind == 'out':
                r = addr(e.args[0])[0]
                if direct.get(r):
                    if r == COUT:
                        self.text += flat([e.args[1]])
                    else:
                        self.errtext += flat([e.args[1]])
            elif e.kind == 'stage':
                if e.name == 'test':
                    self.tests.append(e.args)
                self.marks.append((len(self.text), e.args[0], e.name))
        self.kinds = dict(self.tests)
        self.failed = [t for t, k in self.tests if not isinstance(k, str) or k not in PASS]

    def segments(self):
        """text before each test, after each test"""
        cut = [0]
        for pos, t, st in self.marks:
            if st == 'test':
                cut.append(pos)
        cut.append(len(self.text))
        return [self.text[a:b] for a, b in zip(cut, cut[1:])]
