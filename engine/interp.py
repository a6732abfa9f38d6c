"""Path-sensitive abstract interpretation of clang's LLVM IR.

Values are abstract terms (value numbers), memory maps abstract locations to terms, loop heads are
widened until the state repeats, calls to project code are inlined, the standard library is
represented by the transfer functions of models.py.  Branch conditions are recorded as facts in a
small interval domain (no solver is involved; a condition that the domain cannot decide is explored
both ways).  Every abstract path yields a trace of events (calls, accesses, branches)."""
import re, struct
from ll import IRError, canon

class Limit(Exception):
    pass

# ------------------------------------------------------------------ terms
_ids = {}
_rev = []
def tid(t):
    i = _ids.get(t)
    if i is None:
        i = len(_rev)
        _ids[t] = i
        _rev.append(t)
    return i

def lin(t):
    """-> (const, {term: coef})"""
    if isinstance(t, int):
        return t, {}
    if isinstance(t, tuple) and t[0] == 'lin':
        return t[1], dict(t[2])
    if isinstance(t, tuple) and t[0] == '&' and t[2] != 0:
        c, d = lin(t[2])
        b = ('&', t[1], 0)
        if t[1][0] == 'S':
            b = t[1][1]
        d[b] = d.get(b, 0) + 1
        return c, d
    return 0, {t: 1}

def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda kv: tid(kv[0]))))

def add(a, b, s=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + s * b
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(ca + s * cb, d)

def sub(a, b):
    return add(a, b, -1)

def scale(a, k):
    c, d = lin(a)
    return mklin(c * k, {t: v * k for t, v in d.items()})

def neg(t):
    if isinstance(t, int):
        return 1 - (t & 1)
    if t[0] == 'not':
        return t[1]
    return ('not', t)

def ptr(root, off=0):
    if root[0] == 'S' and off == 0:
        return root[1]
    return ('&', root, off)

def addr(v):
    """pointer term -> (root, off)"""
    if isinstance(v, tuple):
        if v[0] == '&':
            return v[1], v[2]
        if v[0] == 'lin':
            # pointer plus offset: find the pointer-like term
            d = dict(v[2])
            cand = [k for k, c in d.items() if c == 1 and isinstance(k, tuple) and k[0] == '&']
            if not cand:
                cand = [k for k, c in d.items() if c == 1 and isptrish(k)]
            if not cand:
                cand = [k for k, c in d.items() if c == 1]
            if cand:
                b = cand[0]
                del d[b]
                off = mklin(v[1], d)
                if b[0] == '&':
                    return b[1], add(b[2], off)
                return ('S', b), off
        return ('S', v), 0
    if isinstance(v, int):
        return ('abs',), v
    return ('S', v), 0

def isptrish(t):
    return isinstance(t, tuple) and t[0] in ('ld', 's', 'ret', 'w', 'arg')

FRESH0 = 10 ** 9
_fresh = [FRESH0]
def fresh(hint='', *x):
    _fresh[0] += 1
    return ('s', _fresh[0], hint) + x

# ------------------------------------------------------------------ facts
class Facts:
    __slots__ = ('iv', 'b', 'fx')

    def __init__(self, iv=None, b=None, fx=None):
        self.iv = iv or {}
        self.b = b or {}
        self.fx = fx or {}

    def copy(self):
        return Facts(dict(self.iv), dict(self.b), dict(self.fx))

def fixlin(f, t):
    """the term with the values that are known"""
    c, d = lin(t)
    if not any(k in f.fx for k in d):
        return t
    r = c
    for k, v in d.items():
        r = add(r, scale(f.fx.get(k, k), v))
    return r

def fixed(g, H, v):
    """H = v was learned: pin down single terms and carry them into the other facts; False on contradiction"""
    todo = []
    if len(H) == 1:
        if v % H[0][1] == 0:
            todo.append((H[0][0], v // H[0][1]))
    elif v == 0 and all(k > 0 and isinstance(x, tuple) and x[0] in NONNEG for x, k in H):
        todo += [(x, 0) for x, k in H]
    while todo:
        x, n = todo.pop()
        if x in g.fx:
            if g.fx[x] != n:
                return False
            continue
        g.fx[x] = n
        r = g.iv.get(((x, 1),))
        if r and (n < r[0] or n > r[1] or n in r[2]):
            return False
        g.iv[((x, 1),)] = (n, n, frozenset())
        for H2 in [h for h in g.iv if len(h) > 1 and any(y == x for y, k in h)]:
            lo, hi, ne = g.iv.pop(H2)
            k = [k for y, k in H2 if y == x][0]
            rest = tuple((y, j) for y, j in H2 if y != x)
            t = 0
            for y, j in rest:
                t = add(t, scale(y, j))
            c, s, H3 = homog(t)
            lo, hi, ne = lo - k * n - c, hi - k * n - c, frozenset(z - k * n - c for z in ne)
            if H3 is None:
                if lo > 0 or hi < 0 or 0 in ne:
                    return False
                continue
            if s < 0:
                lo, hi, ne = -hi, -lo, frozenset(-z for z in ne)
            l0, h0, n0 = interval(g, H3)
            lo, hi, ne = max(lo, l0), min(hi, h0), ne | n0
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            if lo > hi:
                return False
            g.iv[H3] = (lo, hi, ne)
            if lo == hi:
                if len(H3) == 1 and lo % H3[0][1] == 0:
                    todo.append((H3[0][0], lo // H3[0][1]))
                elif lo == 0 and all(k > 0 and isinstance(y, tuple) and y[0] in NONNEG for y, k in H3):
                    todo += [(y, 0) for y, k in H3]
    return True

INF = float('inf')

NONNEG = ('csz', 'len', 'usz', 'cnt')

def homog(t):
    """split L = c + s*H with H canonical"""
    c, d = lin(t)
    items = sorted(d.items(), key=lambda kv: tid(kv[0]))
    if not items:
        return c, 1, None
    s = 1
    if items[0][1] < 0:
        s = -1
        items = [(k, -v) for k, v in items]
    return c, s, tuple(items)

def solid(t):
    """address term of a definite object (never null)"""
    return isinstance(t, tuple) and (t[0] == 'fn' or (t[0] == '&' and t[1][0] in ('A', 'N', 'G', 'el', 'cstr', 'P', 'X')))

def distinct(a, b):
    """two different definite objects"""
    if a == b or not (solid(a) and solid(b)):
        return False
    if a[0] == 'fn' or b[0] == 'fn':
        return True
    ra, rb = a[1], b[1]
    if ra[0] == 'P' and rb[0] == 'P':
        return False
    if ra[0] in ('A', 'N') or rb[0] in ('A', 'N'):
        return ra != rb
    if ra[0] == 'G' and rb[0] == 'G':
        return ra != rb
    return False

def single_iv(f, t):
    """interval of one term"""
    r = f.iv.get(((t, 1),))
    lo, hi, ne = r if r else (-INF, INF, frozenset())
    if isinstance(t, tuple) and t[0] in NONNEG and lo < 0:
        lo = 0
    if isinstance(t, tuple) and t[0] == 'bool':
        lo, hi = max(lo, 0), min(hi, 1)
    return lo, hi, ne

def interval(f, H, depth=0):
    r = f.iv.get(H)
    lo, hi, ne = r if r else (-INF, INF, frozenset())
    if len(H) == 1 and H[0][1] == 1:
        return single_iv(f, H[0][0])
    # sum of the parts
    sl = sh = 0
    for t, c in H:
        a, b, _ = single_iv(f, t)
        if c > 0:
            sl += c * a
            sh += c * b
        else:
            sl += c * b
            sh += c * a
    lo = max(lo, sl)
    hi = min(hi, sh)
    if depth < 1 and len(H) == 2 and H[0][1] == 1 and H[1][1] == -1:
        a, b = H[0][0], H[1][0]
        for H2, (l2, h2, n2) in list(f.iv.items()):
            if len(H2) == 2 and H2[0][1] == 1 and H2[1][1] == -1 and H2 != H:
                x, y = H2[0][0], H2[1][0]
                # a-b = (a-x') + (x'-b)
                for p, q, l, h in ((x, y, l2, h2), (y, x, -h2, -l2)):
                    if p == a and q != b:
                        m, s2, H3 = homog(sub(q, b))
                        if H3 is not None:
                            l3, h3, _ = interval(f, H3, depth + 1)
                            if s2 < 0:
                                l3, h3 = -h3, -l3
                            lo = max(lo, l + l3)
                            hi = min(hi, h + h3)
    return lo, hi, ne

def truth(f, t):
    """True / False / None"""
    if isinstance(t, int):
        return bool(t)
    k = t[0]
    if k == 'not':
        r = truth(f, t[1])
        return None if r is None else not r
    if k in ('lt0', 'eq0'):
        c, s, H = homog(fixlin(f, t[1]) if f.fx else t[1])
        if H is None:
            return c < 0 if k == 'lt0' else c == 0
        if k == 'eq0':
            if len(H) == 1 and (c == 0 or H[0][1] == 1 and s * c > 0) and solid(H[0][0]):
                return False    # nor is a subobject of an existing object null
            if len(H) == 1 and isinstance(H[0][0], tuple) and H[0][0][0] == 'fn' and c == 0:
                return False
            if len(H) == 2 and H[0][1] == 1 and H[1][1] == -1:
                if c == 0 and distinct(H[0][0], H[1][0]):
                    return False
                a, b = H[0][0], H[1][0]
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'tid' and b[0] == 'tid':
                    return a == b and c == 0
        lo, hi, ne = interval(f, H)
        if s < 0:
            lo, hi = -hi, -lo
            ne = frozenset(-x for x in ne)
        lo += c
        hi += c
        if k == 'lt0':
            if hi < 0:
                return True
            if lo >= 0:
                return False
            return None
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        if -c in ne:
            return False
        return None
    if k == 'and':
        a, b = truth(f, t[1]), truth(f, t[2])
        if a is False or b is False:
            return False
        if a and b:
            return True
        return None
    if k == 'or':
        a, b = truth(f, t[1]), truth(f, t[2])
        if a or b:
            return True
        if a is False and b is False:
            return False
        return None
    if t in f.b:
        return f.b[t]
    r = f.iv.get(((t, 1),))
    if r:
        if r[0] > 0 or r[1] < 0 or 0 in r[2]:
            return True
        if r[0] == r[1] == 0:
            return False
    if t[:2] == ('B', 'seq') and t[3][0] == 'sl':
        # one text equals no two different ones
        for x, v in f.b.items():
            if v and x[:3] == t[:3] and x[3][0] == 'sl' and x[3] != t[3]:
                return False
    return None

def assume(f, t, v):
    """list of refined Facts (empty if contradictory)"""
    r = truth(f, t)
    if r is not None:
        return [f] if r == v else []
    k = t[0]
    if k == 'not':
        return assume(f, t[1], not v)
    if k == 'and':
        if v:
            return [y for x in assume(f, t[1], True) for y in assume(x, t[2], True)]
        return assume(f, t[1], False) + [y for x in assume(f, t[1], True) for y in assume(x, t[2], False)]
    if k == 'or':
        if not v:
            return [y for x in assume(f, t[1], False) for y in assume(x, t[2], False)]
        return assume(f, t[1], True) + [y for x in assume(f, t[1], False) for y in assume(x, t[2], True)]
    g = f.copy()
    if k in ('lt0', 'eq0'):
        c, s, H = homog(fixlin(f, t[1]) if f.fx else t[1])
        lo, hi, ne = interval(f, H)
        if k == 'lt0':
            if v:   # s*H < -c
                if s > 0:
                    hi = min(hi, -c - 1)
                else:
                    lo = max(lo, c + 1)
            else:   # s*H >= -c
                if s > 0:
                    lo = max(lo, -c)
                else:
                    hi = min(hi, c)
        else:
            x = -c if s > 0 else c
            if v:
                lo = max(lo, x)
                hi = min(hi, x)
            else:
                ne = ne | {x}
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return []
        g.iv[H] = (lo, hi, ne)
        if lo == hi and not fixed(g, H, lo):
            return []
        return [g]
    g.b[t] = v
    # a boolean term used as integer
    return [g]

def lt(a, b):
    x = sub(a, b)
    if isinstance(x, int):
        return 1 if x < 0 else 0
    return ('lt0', x)

def eq(a, b):
    if a == b:
        return 1
    x = sub(a, b)
    if isinstance(x, int):
        return 1 if x == 0 else 0
    # canonical sign
    c, s, H = homog(x)
    if s < 0:
        x = scale(x, -1)
    # bool terms compared with constants
    c2, d2 = lin(x)
    if len(d2) == 1:
        (k, co), = d2.items()
        if isinstance(k, tuple) and k[0] in BOOLK and co == 1:
            if c2 == 0:
                return neg(k)
            if c2 == -1:
                return k
            return 0
        if isinstance(k, tuple) and k[0] == 'ch0' and c2 == 0:
            return ('eq0', ('len', k[1]))
    return ('eq0', x)

def fpval(t):
    """the value of a constant double"""
    if not isinstance(t, tuple):
        return None
    if t[0] == 'fp' and isinstance(t[1], str):
        try:
            return struct.unpack('>d', bytes.fromhex(t[1][2:].rjust(16, '0')))[0] if t[1].startswith('0x') and len(t[1]) <= 18 else float(t[1])
        except (ValueError, struct.error):
            return None
    if t[0] == 'cv' and t[1] in ('sitofp', 'uitofp') and isinstance(t[2], int):
        return float(t[2])
    if t[0] == 'op' and t[1] in ('fdiv', 'fmul', 'fadd', 'fsub'):
        x, y = fpval(t[2]), fpval(t[3])
        if x is None or y is None or t[1] == 'fdiv' and y == 0:
            return None
        return {'fdiv': lambda: x / y, 'fmul': lambda: x * y, 'fadd': lambda: x + y, 'fsub': lambda: x - y}[t[1]]()
    return None

BOOLK = {'lt0', 'eq0', 'not', 'and', 'or', 'fcmp', 'B'}

def isbool(t):
    return isinstance(t, int) and t in (0, 1) or (isinstance(t, tuple) and t[0] in BOOLK)

def tobool(t):
    """integer term -> condition"""
    if isinstance(t, int):
        return 1 if t & 1 else 0
    if isbool(t):
        return t
    return neg(eq(t, 0))

# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'ins', 'id', 'heads', 'onret', 'dynalloc', 'entry', 'looped')

    def __init__(self, fn, fid, ins=None):
        self.fn = fn
        fn.blocks
        self.blk = fn.entry
        self.prev = None
        self.ip = 0
        self.regs = {}
        self.ins = ins      # calling instruction in the caller
        self.id = fid
        self.heads = {}     # loop head -> (count, snapshot)
        self.onret = None
        self.dynalloc = 0
        self.entry = None
        self.looped = False

    def phi1(self, reg):
        for i in self.fn.blocks[self.blk]:
            if i.op == 'phi' and i.res == reg:
                return i.ty == ('i', 1)
        return False

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.prev = self.prev
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.ins = self.ins
        f.id = self.id
        f.heads = dict(self.heads)
        f.onret = self.onret
        f.dynalloc = self.dynalloc
        f.entry = self.entry
        f.looped = self.looped
        return f


class Event:
    __slots__ = ('kind', 'name', 'args', 'ret', 'loc', 'fn', 'depth', 'locks', 'x', 'stack', 'facts')

    def __init__(self, kind, name, args, ret, loc, fn, depth, locks, x, stack):
        self.kind = kind
        self.name = name
        self.args = args
        self.ret = ret
        self.loc = loc
        self.fn = fn
        self.depth = depth
        self.locks = locks
        self.x = x
        self.stack = stack

    def __repr__(self):
        return '<%s %s %s ->%s @%s:%s L%s %s>' % (self.kind, self.name, self.args, self.ret, self.loc[0].split('/')[-1], self.loc[1], self.locks, self.x or '')


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.obj = {}
        self.facts = Facts()
        self.trace = None       # linked list
        self.ntrace = 0
        self.locks = ()         # tuple of (mutex loc, mode)
        self.epoch = {}
        self.cop = ()
        self.exc = None
        self.caught = ()
        self.written = frozenset()
        self.ext = {}           # monitor scratch (immutable values)
        self.steps = 0

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {r: dict(d) for r, d in self.mem.items()}
        s.obj = dict(self.obj)
        s.facts = self.facts
        s.trace = self.trace
        s.ntrace = self.ntrace
        s.locks = self.locks
        s.epoch = dict(self.epoch)
        s.cop = self.cop
        s.exc = self.exc
        s.caught = self.caught
        s.written = self.written
        s.ext = dict(self.ext)
        s.steps = self.steps
        return s

    def events(self):
        r = []
        t = self.trace
        while t is not None:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r


class Path:
    def __init__(self, status, st, ret=None, why=None):
        self.status = status
        self.st = st
        self.ret = ret
        self.why = why
        self.facts = st.facts
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = self.st.events()
        return self._ev

LOCAL_ROOTS = ('A',)

ANYVER = ('v', '?')

def samecont(a, b):
    """two iterators into the same container: its location"""
    return a[1] if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('it',) and b[:1] == ('it',) and a[1] is not None and a[1] == b[1] else None

def someit(a):
    return a[1] if isinstance(a, tuple) and a[:1] == ('it',) and a[2] == ANYVER else None

def ival(v):
    """(base, position) of a value that can count"""
    if isinstance(v, int):
        return None, v
    if isinstance(v, tuple):
        if v[0] == '&':
            return ('&', v[1]), v[2]
        if v[0] == 'it':
            return v[:3], v[3]
        if v[0] == 'lin':
            r, o = addr(v)
            if r[0] not in ('S', 'abs'):
                return ('&', r), o
        if v[0] in ('lin', 's', 'cnt', 'arg', 'ld', 'csz', 'len', 'usz', 'w') and not isbool(v):
            return None, v
    return None

def itag(v):
    i = ival(v)
    return i[0] if i is not None else None

def imk(tag, x):
    if tag is None:
        return x
    if tag[0] == '&':
        return ptr(tag[1], x)
    return tag + (x,)

def idelta(a, b):
    """constant difference of two values of the same base"""
    i, j = ival(a), ival(b)
    if i is None or j is None or i[0] != j[0]:
        return None
    d = sub(j[1], i[1])
    return d if isinstance(d, int) and d else None

class Interp:
    def __init__(self, prog, models, **opts):
        self.prog = prog
        self.models = models
        self.opts = dict(maxpaths=6000, maxsteps=400000, cb_throw=False, record_rw=True, inline_virtual=None, stop=(), depth=48)
        self.opts.update(opts)
        self.unmodelled = {}
        self.inlined = {}
        self.fid = 0
        self.merged = set()
        self.modset = {}
        self.nin = 0
        self.typehint = {}
        self.fieldname = {}
        self.steps = 0
        self.cuts = []

    # ---------------------------------------------------------- events
    def cur(self, S):
        return S.frames[-1]

    def emit(self, S, kind, name='', args=(), ret=None, x=None, ins=None):
        f = S.frames[-1] if S.frames else None
        loc = ('?', 0)
        fn = '?'
        if f is not None:
            i = ins
            if i is None and f.ip < len(f.fn.blocks[f.blk]):
                i = f.fn.blocks[f.blk][f.ip]
            loc = f.fn.loc(i.dbg) if i is not None and i.dbg else ('?', 0)
            fn = f.fn.name
            if (loc[1] == 0 or not self.project_file(loc[0])) and len(S.frames) > 1:
                # attribute to the nearest project frame
                for g in reversed(S.frames):
                    j = g.fn.blocks[g.blk][min(g.ip, len(g.fn.blocks[g.blk]) - 1)]
                    l2 = g.fn.loc(j.dbg) if j.dbg else ('?', 0)
                    if self.project_file(l2[0]) and l2[1]:
                        loc = l2
                        fn = g.fn.name
                        break
        e = Event(kind, name, tuple(args), ret, loc, fn, len(S.frames), S.locks, x, tuple(g.fn.name for g in S.frames))
        e.facts = S.facts
        S.trace = (S.trace, e)
        S.ntrace += 1
        return e

    def project_file(self, f):
        return '/usr/' not in f and f != '?' and '/c++/' not in f

    # ---------------------------------------------------------- memory
    def size(self, mod, t):
        return mod.layout(t)[0]

    def epoch(self, S, root):
        if root[0] in ('A', 'cstr'):
            return S.epoch.get(root, 0)
        return (S.epoch.get(root, 0), S.epoch.get('*', 0)) if (root in S.epoch or '*' in S.epoch) else 0

    def default(self, S, root, off, size):
        """content of a location nobody wrote on this path"""
        if root[0] == 'cstr' and size == 1:
            if root[1][0] == 'sl' and isinstance(off, int):
                b = root[1][1]
                return (b[off] ^ 128) - 128 if off < len(b) else 0     # a signed char
            if off == 0:
                return ('ch0', root[1])
            return ('chr', root[1], off)
        for (dr, lo, hi, sr, so, ep) in reversed(S.cop):
            if dr == root and isinstance(off, int) and lo <= off < hi:
                return ('ld', sr, add(so, off - lo), ep)
        if root[0] in ('A', 'N') and not S.epoch.get(root) and not S.ext.get(('zero', root)):
            return ('undef', root, off)
        if S.ext.get(('zero', root)) and not S.epoch.get(root):
            return 0
        if root[0] == 'G' and isinstance(off, int):
            v = self.gconst(root[1], off, size)
            if v is not None:
                return v
        if root[0] == 'S' and isinstance(off, int) and -128 <= off < 0:
            return 0    # virtual-base offset in a vtable: base and object share one abstract address
        return ('ld', root, off, self.epoch(S, root))

    def read(self, S, p, size):
        root, off = addr(p)
        d = S.mem.get(root)
        if d:
            e = d.get(off)
            if e is not None:
                if e[0] == size:
                    return e[1]
                if isinstance(e[1], int) and size < e[0]:
                    return e[1] & ((1 << (8 * size)) - 1)
                if size > e[0]:
                    return ('mix', root, off, e[0], e[1], size)
                if isinstance(e[1], tuple) and e[1][0] == 'mix' and size == e[1][3]:
                    return e[1][4]
                return ('part', e[1], 0, size)
            if isinstance(off, int):
                for o, (sz, v) in d.items():
                    if isinstance(o, int) and o < off < o + sz:
                        if isinstance(v, int):
                            return (v >> (8 * (off - o))) & ((1 << (8 * size)) - 1)
                        return ('part', v, off - o, size)
        if size == 8 and (root, off) in S.obj and S.obj[(root, off)][0] == 'it':
            return S.obj[(root, off)]
        if root[0] in ('S', 'P', 'X') and size == 8 and isinstance(off, tuple) and False:
            pass
        v = self.default(S, root, off, size)
        S.mem.setdefault(root, {})[off] = (size, v)
        return v

    def write(self, S, p, size, v):
        root, off = addr(p)
        d = S.mem.setdefault(root, {})
        if isinstance(off, int):
            for o in [o for o, (sz, _) in d.items() if isinstance(o, int) and o < off + size and off < o + sz and o != off]:
                del d[o]
        else:
            # unknown index: forget other unknown-index entries of this root
            for o in [o for o in d if not isinstance(o, int) and o != off]:
                del d[o]
            # base object's integer entries may be overwritten when the root is an array; keep (arrays are rare here)
        d[off] = (size, v)
        S.obj.pop((root, off), None)

    def gconst(self, g, off, size):
        m = self.prog.globmod(g)
        if m is None:
            return None
        ty, init, flags = m.glob(g)
        if init is None or 'constant' not in flags:
            if size == 8:
                # the dynamic type of an object with static storage does not change
                if init is not None:
                    v = self.cread(m, ty, init, off, size)
                    if isinstance(v, tuple) and v[0] == '&' and v[1][0] == 'G' and v[1][1].startswith('_ZTV'):
                        return v
                if off == 0:
                    z = self.globclass(m, g)
                    if z:
                        return ('&', ('G', z), 16)
            return None
        return self.cread(m, ty, init, off, size)

    def globclass(self, m, g):
        """vtable of the class of a global object (from the debug information)"""
        k = (m.path, g)
        c = self.prog.__dict__.setdefault('_globclass', {})
        if k not in c:
            c[k] = None
            mm = re.search(r'!dbg !(\d+)', m.globs[g])
            if mm:
                v = m.mdfield(int(mm.group(1)), 'var')
                t = m.mdfield(v, 'type') if isinstance(v, int) else None
                i = m.mdfield(t, 'identifier') if isinstance(t, int) else None
                if i:
                    z = '_ZTV' + i.strip('!"')[4:]
                    if self.prog.globmod(z) is not None:
                        c[k] = z
        return c[k]

    def cread(self, m, ty, v, off, size):
        t = m.resolve(ty)
        if v[0] == 'zero':
            return 0
        if v[0] == 'str':
            b = v[1]
            if size == 1 and 0 <= off < len(b):
                return b[off]
            return None
        if v[0] == 'agg':
            if t[0] == 'st':
                offs = m.layout(t)[2]
                for (et, ev), o in zip(v[1], offs):
                    sz = m.layout(et)[0]
                    if o <= off < o + sz:
                        return self.cread(m, et, ev, off - o, size)
            elif t[0] == 'arr':
                es = m.layout(t[2])[0]
                k = off // es if es else 0
                if 0 <= k < len(v[1]):
                    return self.cread(m, v[1][k][0], v[1][k][1], off - k * es, size)
            return None
        if off == 0:
            try:
                return self.cval(m, ty, v)
            except IRError:
                return None
        return None

    def cval(self, m, ty, v):
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'null' or k == 'zero':
            t = m.resolve(ty) if ty else ty
            if t and t[0] in ('st', 'arr') and k == 'zero':
                return ('aggz',)
            if t and t[0] == 'f':
                return ('fp', '0.0')
            return 0
        if k == 'undef':
            return ('undef',)
        if k == 'fp':
            return ('fp', v[1])
        if k == 'glob':
            n = v[1]
            if n in self.prog.defs or n in self.prog.decls or n in self.prog.alias:
                return ('fn', self.prog.alias.get(n, n) if n not in self.prog.defs else n)
            return ('&', ('G', n), 0)
        if k == 'agg':
            t = m.resolve(ty)
            return ('agg',) + tuple(self.cval(m, et, ev) for et, ev in v[1])
        if k == 'cx':
            if v[1] == 'gep':
                b = self.cval(m, ('ptr',), v[3])
                return self.gep(m, v[2], b, [self.cval(m, ('i', 64), x) for x in v[4]])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                return self.cval(m, v[2], v[3])
            if v[1] in ('sub', 'add'):
                return add(self.cval(m, v[2], v[3]), self.cval(m, v[2], v[4]), -1 if v[1] == 'sub' else 1)
        if k == 'str':
            return ('bytes', v[1])
        if k == 'meta':
            return ('meta', v[1])
        raise IRError('constant %r' % (v,))

    def gep(self, m, sty, base, idx):
        root, off = addr(base)
        if isinstance(base, int) and base == 0:
            root, off = ('abs',), 0
        o = off
        t = sty
        first = True
        for i in idx:
            if first:
                sz = m.layout(t)[0]
                o = add(o, scale(i, sz))
                first = False
                continue
            r = m.resolve(t)
            if r[0] == 'st':
                k = i if isinstance(i, int) else 0
                o = add(o, m.layout(r)[2][k])
                t = r[1][k]
            elif r[0] in ('arr', 'vec'):
                t = r[2]
                o = add(o, scale(i, m.layout(t)[0]))
            else:
                raise IRError('gep into %r' % (r,))
        if isinstance(o, tuple) and o[0] == 'lin' and isinstance(o[1], int):
            pass
        return ptr(root, o)

    def havoc_root(self, S, root):
        S.mem.pop(root, None)
        for k in [k for k in S.obj if k[0] == root]:
            del S.obj[k]
        _fresh[0] += 1
        S.epoch[root] = _fresh[0]
        S.cop = tuple(c for c in S.cop if c[0] != root)

    def havoc_shared(self, S, keep=()):
        """another thread may have changed everything that is not local to this path"""
        _fresh[0] += 1
        for r in list(S.mem):
            if r[0] in ('A', 'cstr', 'vt') or self.is_local_heap(S, r) or self.is_const_glob(r):
                continue
            # keep what is guarded by locks we hold / declared stable
            d = S.mem[r]
            for o in list(d):
                if self.opts.get('stable') and self.opts['stable'](r, o):
                    continue
                del d[o]
        for k in list(S.obj):
            r = k[0]
            if r[0] in ('A', 'cstr') or self.is_local_heap(S, r):
                continue
            if S.obj[k][0] in ('mtx',):
                continue
            if self.opts.get('stable') and self.opts['stable'](k[0], k[1]):
                continue
            del S.obj[k]
        S.epoch['*'] = _fresh[0]

    def is_const_glob(self, r):
        return r[0] == 'G' and r[1] in ('_ZSt4cout', '_ZSt4cerr')

    def private(self, S, r):
        """storage no other thread can reach: locals and heap objects that never escaped"""
        return r[0] in ('A', 'cstr') or self.is_local_heap(S, r)

    def is_local_heap(self, S, r):
        return r[0] == 'N' and r not in S.ext.get('escaped', frozenset())

    def escape(self, S, v):
        if isinstance(v, tuple):
            r, _ = addr(v)
            if r[0] == 'N':
                S.ext['escaped'] = S.ext.get('escaped', frozenset()) | {r}

    # ---------------------------------------------------------- values
    def val(self, S, f, ty, v):
        if v[0] == 'reg':
            try:
                return f.regs[v[1]]
            except KeyError:
                raise IRError('undefined register %s in %s' % (v[1], f.fn.name))
        return self.cval(f.fn.mod, ty, v)

    # ---------------------------------------------------------- run
    def run(self, fname, args=None, init=None):
        """explore every abstract path of the function; args: list of terms (default: symbolic)"""
        fn = self.prog.fn(fname)
        if fn is None:
            raise IRError('no body for ' + fname)
        S = State()
        self.fid += 1
        fr = Frame(fn, self.fid)
        for k, (ty, at, nm) in enumerate(fn.params()):
            if args is not None and k < len(args) and args[k] is not None:
                fr.regs[nm] = args[k]
            elif 'sret' in at:
                fr.regs[nm] = ('&', ('A', 'ret'), 0)
            elif ty[0] == 'ptr':
                fr.regs[nm] = ('&', ('P', nm), 0)
            else:
                fr.regs[nm] = ('arg', nm)
                if ty == ('i', 1):
                    fr.regs[nm] = ('B', 'arg', nm)
        S.frames.append(fr)
        self.inlined[fname] = self.inlined.get(fname, 0) + 1
        if init:
            init(self, S, fr)
        return self.explore([S])

    def explore(self, work):
        paths = []
        while work:
            S = work.pop()
            if isinstance(S, _Done):
                paths.append(S.path)
                continue
            try:
                r = self.step_until(S, work)
            except RecursionError:
                raise Limit('recursion')
            if r is not None and r != 'dead':
                paths.append(r)
                if len(paths) > self.opts['maxpaths']:
                    raise Limit('path limit')
        return paths

    def step_until(self, S, work):
        while True:
            self.steps += 1
            if self.steps > self.opts['maxsteps']:
                raise Limit('step limit')
            f = S.frames[-1]
            ins = f.fn.blocks[f.blk][f.ip]
            op = ins.op
            if op == 'alloca':
                n = ins.n
                root = ('A', f.id, ins.res)
                S.mem.pop(root, None)
                for k in [k for k in S.obj if k[0] == root]:
                    del S.obj[k]
                S.epoch.pop(root, None)
                f.regs[ins.res] = ('&', root, 0)
                f.ip += 1
                continue
            if op == 'load':
                p = self.val(S, f, ('ptr',), ins.ptr)
                sz = self.size(f.fn.mod, ins.ty)
                if ins.atomic and self.opts.get('atomic_fresh') and not self.private(S, addr(p)[0]):
                    # another thread may have stored anything meanwhile
                    v = fresh('ald')
                    if ins.ty == ('i', 1):
                        v = ('B', 'ald', v[1])
                else:
                    v = self.load(S, f, p, ins.ty, sz)
                self.access(S, 'rd', p, sz, v, ins)
                f.regs[ins.res] = v
                f.ip += 1
                continue
            if op == 'store':
                p = self.val(S, f, ('ptr',), ins.ptr)
                v = self.val(S, f, ins.ty, ins.val)
                sz = self.size(f.fn.mod, ins.ty)
                self.store(S, f, p, ins.ty, v, sz)
                self.access(S, 'wr', p, sz, v, ins)
                f.ip += 1
                continue
            if op == 'gep':
                b = self.val(S, f, ('ptr',), ins.base)
                idx = [self.val(S, f, ('i', 64), x) for x in ins.idx]
                p = self.gep(f.fn.mod, ins.sty, b, idx)
                f.regs[ins.res] = p
                if ins.sty[0] == 'named':
                    r, o = addr(b)
                    if o == 0 and r not in self.typehint:
                        self.typehint[r] = ins.sty[1]
                    if len(ins.idx) == 2 and isinstance(idx[1], int):
                        r2, o2 = addr(p)
                        if isinstance(o2, int) and (r2, o2) not in self.fieldname:
                            self.fieldname[(r2, o2)] = re.sub(r'(?<=[a-zA-Z_])\d+$', '', ins.res)
                f.ip += 1
                continue
            if op in ('call', 'invoke'):
                r = self.do_call(S, f, ins, work)
                if r is None:
                    continue
                if r == 'dead':
                    return None
                return r
            if op == 'br':
                if ins.cond is None:
                    r = self.goto(S, f, ins.targets[0])
                    if r is not None:
                        return r
                    continue
                c = tobool(self.val(S, f, ('i', 1), ins.cond))
                t = truth(S.facts, c)
                if t is not None:
                    r = self.goto(S, f, ins.targets[0 if t else 1])
                    if r is not None:
                        return r
                    continue
                alts = []
                for v in (True, False):
                    for g in assume(S.facts, c, v):
                        alts.append((v, g))
                states = [S] + [S.fork() for _ in alts[1:]]
                for s2, (v, g) in list(zip(states, alts))[::-1]:
                    s2.facts = g
                    self.emit(s2, 'if', c, (v,), ins=ins)
                    r = self.goto(s2, s2.frames[-1], ins.targets[0 if v else 1])
                    if r is not None:
                        work.append(_Done(r))
                        continue
                    work.append(s2)
                return self.pop_done(work)
            if op == 'switch':
                c = self.val(S, f, ins.ty, ins.cond)
                alts = []
                facts = [S.facts]
                for cv, tgt in ins.cases:
                    e = eq(c, cv)
                    nf = []
                    for g in facts:
                        for h in assume(g, e, True):
                            alts.append((tgt, h, cv))
                        nf += assume(g, e, False)
                    facts = nf
                for g in facts:
                    alts.append((ins.default, g, None))
                states = [S] + [S.fork() for _ in alts[1:]]
                for s2, (tgt, g, cv) in list(zip(states, alts))[::-1]:
                    s2.facts = g
                    if len(alts) > 1:
                        self.emit(s2, 'case', c, (cv,), ins=ins)
                    r = self.goto(s2, s2.frames[-1], tgt)
                    if r is not None:
                        work.append(_Done(r))
                        continue
                    work.append(s2)
                return self.pop_done(work)
            if op == 'ret':
                v = None if ins.val is None else self.val(S, f, ins.ty, ins.val)
                r = self.do_ret(S, v)
                if r is not None:
                    return r
                continue
            if op == 'icmp':
                a = self.val(S, f, ins.oty, ins.x)
                b = self.val(S, f, ins.oty, ins.y)
                f.regs[ins.res] = self.icmp(ins.pred, a, b)
                f.ip += 1
                continue
            if op == 'bin':
                a = self.val(S, f, ins.ty, ins.x)
                b = self.val(S, f, ins.ty, ins.y)
                f.regs[ins.res] = self.binop(ins.o, a, b, ins.ty)
                f.ip += 1
                continue
            if op == 'cast':
                a = self.val(S, f, ins.sty, ins.x)
                f.regs[ins.res] = self.cast(ins.o, a, ins.sty, ins.ty)
                f.ip += 1
                continue
            if op == 'fcmp':
                a = self.val(S, f, ins.oty, ins.x)
                b = self.val(S, f, ins.oty, ins.y)
                p = ins.pred
                if p in ('ogt', 'ugt', 'oge', 'uge'):
                    p = {'ogt': 'olt', 'ugt': 'ult', 'oge': 'ole', 'uge': 'ule'}[p]
                    a, b = b, a
                x, y = fpval(a), fpval(b)
                if x is not None and y is not None and x == x and y == y and p[1:] in ('lt', 'le', 'eq', 'ne'):
                    f.regs[ins.res] = int({'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}[p[1:]])
                elif p in ('one', 'une'):
                    f.regs[ins.res] = neg(('fcmp', 'oeq', a, b))
                else:
                    f.regs[ins.res] = ('fcmp', p, a, b)
                f.ip += 1
                continue
            if op == 'select':
                c = tobool(self.val(S, f, ('i', 1), ins.cond))
                t = truth(S.facts, c)
                alts = []
                for v in ((True, False) if t is None else (t,)):
                    for g in assume(S.facts, c, v):
                        alts.append((v, g))
                states = [S] + [S.fork() for _ in alts[1:]]
                for s2, (v, g) in list(zip(states, alts))[::-1]:
                    s2.facts = g
                    f2 = s2.frames[-1]
                    if t is None:
                        self.emit(s2, 'if', c, (v,), ins=ins)
                    f2.regs[ins.res] = self.val(s2, f2, ins.ty, ins.x if v else ins.y)
                    f2.ip += 1
                    work.append(s2)
                return self.pop_done(work)
            if op == 'phi':
                f.ip += 1   # handled in goto
                continue
            if op == 'extractvalue':
                a = self.val(S, f, None, ins.x)
                for i in ins.idx:
                    a = self.exv(a, i)
                f.regs[ins.res] = a
                f.ip += 1
                continue
            if op == 'insertvalue':
                a = self.val(S, f, ins.ty, ins.x)
                e = self.val(S, f, ins.ety, ins.e)
                t = f.fn.mod.resolve(ins.ty)
                n = len(t[1]) if t[0] == 'st' else t[1]
                l = [self.exv(a, i) for i in range(n)]
                if len(ins.idx) == 1:
                    l[ins.idx[0]] = e
                f.regs[ins.res] = ('agg',) + tuple(l)
                f.ip += 1
                continue
            if op == 'landingpad':
                r = self.landing(S, f, ins, work)
                if r == 'fork':
                    return self.pop_done(work)
                if r is not None:
                    return r
                continue
            if op == 'resume':
                r = self.unwind(S, pop=True)
                if r is not None:
                    return r
                continue
            if op == 'unreachable':
                return Path('unreachable', S)
            if op == 'cmpxchg':
                p = self.val(S, f, ('ptr',), ins.ptr)
                c = self.val(S, f, ins.ty, ins.cmp)
                n = self.val(S, f, ins.ty, ins.new)
                sz = self.size(f.fn.mod, ins.ty)
                fail = S.fork()
                # success: the old value is the expected one
                known = S.mem.get(addr(p)[0], {}).get(addr(p)[1])
                sequential = not self.opts.get('atomic_fresh') and known is not None
                states = []
                for s2, good in ((S, True), (fail, False)):
                    f2 = s2.frames[-1]
                    old = c if good else (known[1] if sequential else fresh('cas_old'))
                    if sequential:
                        fs = assume(s2.facts, eq(known[1], c), good) if not (ins.weak and not good) else [s2.facts]
                        if not fs:
                            continue
                        s2.facts = fs[0]
                    elif not good and not ins.weak:
                        fs = assume(s2.facts, eq(old, c), False)
                        if not fs:
                            continue
                        s2.facts = fs[0]
                    self.emit(s2, 'atomic', 'cas', (p, c, n), (old, 1 if good else 0), {'ord': ins.ord, 'raw': True, 'weak': ins.weak, 'size': sz, 'ok': good}, ins)
                    if good:
                        self.write(s2, p, sz, n)
                    elif not sequential:
                        self.write(s2, p, sz, old)
                    f2.regs[ins.res] = ('agg', old, 1 if good else 0)
                    f2.ip += 1
                    states.append(s2)
                work.extend(reversed(states))
                return None
            if op == 'atomicrmw':
                p = self.val(S, f, ('ptr',), ins.ptr)
                v = self.val(S, f, ins.ty, ins.x)
                sz = self.size(f.fn.mod, ins.ty)
                known = S.mem.get(addr(p)[0], {}).get(addr(p)[1])
                if known is not None and not self.opts.get('atomic_fresh') and known[0] == sz:
                    old = known[1]
                else:
                    old = fresh('rmw_old')
                self.emit(S, 'atomic', 'rmw ' + ins.o, (p, v), old, {'ord': ins.ord, 'raw': True, 'size': sz}, ins)
                new = v if ins.o == 'xchg' else self.binop(ins.o, old, v, ins.ty) if ins.o in ('add', 'sub', 'and', 'or', 'xor') else fresh('aft')
                self.write(S, p, sz, new)
                f.regs[ins.res] = old
                f.ip += 1
                continue
            if op == 'fence':
                self.emit(S, 'atomic', 'fence', (), None, {'ord': ins.ord}, ins)
                f.ip += 1
                continue
            if op == 'opaque':
                f.regs[ins.res] = fresh('opaque')
                f.ip += 1
                continue
            raise IRError('op ' + op)

    def pop_done(self, work):
        if work and isinstance(work[-1], _Done):
            return work.pop().path
        # continue with the next state, through explore()
        return None

    def exv(self, a, i):
        if isinstance(a, tuple) and a[0] == 'agg':
            return a[1 + i]
        if isinstance(a, tuple) and a[0] == 'aggz':
            return 0
        return ('xv', a, i)

    def load(self, S, f, p, ty, sz):
        t = f.fn.mod.resolve(ty)
        if t[0] == 'st':
            offs = f.fn.mod.layout(t)[2]
            return ('agg',) + tuple(self.load(S, f, add(p, o), et, f.fn.mod.layout(et)[0]) for et, o in zip(t[1], offs))
        return self.read(S, p, sz)

    def store(self, S, f, p, ty, v, sz):
        t = f.fn.mod.resolve(ty)
        if t[0] == 'st':
            offs = f.fn.mod.layout(t)[2]
            for i, (et, o) in enumerate(zip(t[1], offs)):
                self.store(S, f, add(p, o), et, self.exv(v, i), f.fn.mod.layout(et)[0])
            return
        self.write(S, p, sz, v)
        root, _ = addr(p)
        if root[0] != 'A':
            self.escape(S, v)

    def access(self, S, kind, p, sz, v, ins):
        root, off = addr(p)
        if root[0] in ('A', 'cstr', 'vt') or not self.opts['record_rw']:
            if kind == 'rd' and isinstance(v, tuple) and v[0] == 'undef' and root[0] == 'A':
                self.emit(S, 'undefread', '', (p,), v, ins=ins)
            return
        if root[0] == 'G' and kind == 'rd':
            m = self.prog.globmod(root[1])
            if m and 'constant' in m.glob(root[1])[2]:
                return
        self.emit(S, kind, '', (p, v), None, {'size': sz, 'atomic': ins.atomic}, ins)

    def icmp(self, pred, a, b):
        if isinstance(a, tuple) and a[0] == 'undef':
            a = fresh('undef')
        if isinstance(b, tuple) and b[0] == 'undef':
            b = fresh('undef')
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return neg(eq(a, b))
        if pred in ('slt', 'ult'):
            return lt(a, b)
        if pred in ('sgt', 'ugt'):
            return lt(b, a)
        if pred in ('sle', 'ule'):
            return neg(lt(b, a))
        return neg(lt(a, b))

    def binop(self, o, a, b, ty):
        if o == 'add':
            return add(a, b)
        if o == 'sub':
            return sub(a, b)
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = {'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b,
                     'lshr': lambda: a >> b, 'ashr': lambda: a >> b, 'sdiv': lambda: int(a / b) if b else None, 'udiv': lambda: a // b if b else None,
                     'srem': lambda: a % b if b else None, 'urem': lambda: a % b if b else None}.get(o, lambda: None)()
                if r is not None:
                    return r
            except Exception:
                pass
        if o == 'mul' and isinstance(b, int):
            return scale(a, b)
        if o == 'mul' and isinstance(a, int):
            return scale(b, a)
        if o == 'shl' and isinstance(b, int) and b < 63:
            return scale(a, 1 << b)
        if o == 'sdiv' and isinstance(b, int) and b:
            c, d = lin(a)
            if c % b == 0 and all(v % b == 0 for v in d.values()):
                return mklin(c // b, {k: v // b for k, v in d.items()})
        if o == 'xor' and b == 1 and ty == ('i', 1):
            return neg(tobool(a))
        if o == 'xor' and b == -1:
            return sub(-1, a)
        if ty == ('i', 1) and o in ('and', 'or'):
            if a == (0 if o == 'or' else 1):
                return b
            if b == (0 if o == 'or' else 1):
                return a
            return (o, tobool(a), tobool(b))
        if o == 'and' and b == 1 and isbool(a):
            return a
        return ('op', o, a, b)

    def cast(self, o, a, st, dt):
        if self.opts.get('exact_casts') and isinstance(a, tuple) and a[0] != 'fp' and st[0] == 'i' and dt[0] == 'i' and st[1] > 1 and dt[1] > 1 and not isbool(a):
            # integer width changes are kept as terms (otherwise integers are idealised)
            if o in ('sext', 'zext'):
                if a[0] == 'cv' and a[1] == 'zext':
                    return a
                if a[0] == 'cv' and a[1] == 'sext' and o == 'sext':
                    return a
                return ('cv', o, a, st[1])
            if o == 'trunc':
                if a[0] == 'cv' and a[1] in ('sext', 'zext'):
                    if dt[1] == a[3]:
                        return a[2]
                    if dt[1] > a[3]:
                        return a
                    a = a[2]
                if a[0] == 'cv' and a[1] == 'trunc':
                    a = a[2]
                return ('cv', 'trunc', a, dt[1])
        if o in ('zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if o == 'sext' and st == ('i', 1):
                return a if isinstance(a, int) else ('op', 'sext1', a)
            if isinstance(a, int) and o == 'zext' and a < 0:
                return a & ((1 << st[1]) - 1)
            return a
        if o == 'trunc':
            if isinstance(a, int):
                n = dt[1]
                v = a & ((1 << n) - 1)
                if n > 1 and v >= (1 << (n - 1)) and a < 0:
                    v -= 1 << n
                return v
            if dt == ('i', 1):
                return tobool(a)
            return a
        if isinstance(a, tuple) and a[0] == 'cv' and a[1] == o:
            return a
        return ('cv', o, a, dt)

    # ---------------------------------------------------------- control
    def goto(self, S, f, tgt):
        """enter a block: phis, loop widening.  returns a Path when the state is subsumed"""
        prev = f.blk
        f.prev = prev
        blk = f.fn.blocks[tgt]
        vals = {}
        for ins in blk:
            if ins.op != 'phi':
                break
            for v, b in ins.inc:
                if b == prev:
                    vals[ins.res] = self.val(S, f, ins.ty, v)
                    break
        f.blk = tgt
        f.ip = 0
        f.regs.update(vals)
        if tgt in f.fn.loop_heads():
            return self.loop_head(S, f, tgt, vals)
        return None

    def snapshot(self, S):
        return ({(r, o): v for r, d in S.mem.items() for o, (sz, v) in d.items()}, dict(S.obj), S.locks, S.ntrace)

    def loop_head(self, S, f, h, phis):
        if self.opts.get('finite'):
            # finite-state loop: no widening, stop when the local state has been seen before
            def nv(v):
                return v if isinstance(v, int) else v if isinstance(v, tuple) and v[0] in ('fp', '&') else '*'
            live = {g.id for g in S.frames}
            key = (tuple(sorted((tid(k), nv(v)) for k, v in
                                (((r, o), v) for r, d in S.mem.items() if r[0] == 'A' and len(r) > 2 and r[1] in live for o, (sz, v) in d.items()) if nv(v) != '*')),
                   tuple(sorted((k, nv(v)) for k, v in phis.items())), S.locks)
            cnt, seen = f.heads.get(h, (0, frozenset()))
            self.emit(S, 'loop', h, (f.id, cnt))
            if key in seen:
                return Path('cut', S)
            if cnt >= self.opts['finite']:
                return Path('cut', S, why='bound')
            f.heads[h] = (cnt + 1, seen | {key})
            return None
        if self.opts.get('unroll'):
            # concrete shapes: every loop is decided by the shape and simply runs
            cnt = f.heads.get(h, 0)
            self.emit(S, 'loop', h, (f.id, cnt))
            if cnt and self.opts.get('until') and self.opts['until'](S, f.id, h):
                return Path('cut', S, why='until')
            if cnt >= self.opts['unroll']:
                return Path('cut', S, why='bound')
            f.heads[h] = cnt + 1
            if self.opts.get('unroll_sym'):
                # iterations that depended on something unknown
                n, was = f.heads.get((h, 'sym'), (0, None))
                now = len(S.facts.b) + sum(2 - (lo == hi) + len(ne) for lo, hi, ne in S.facts.iv.values())
                n += was is not None and now != was
                if n > self.opts['unroll_sym']:
                    return Path('cut', S, why='sym')
                f.heads[(h, 'sym')] = (n, now)
            return None
        for g in S.frames:
            g.looped = True
        cnt, snap, wid, ind, inv, base = f.heads.get(h, (0, None, frozenset(), {}, (), 0))
        merge = self.opts.get('merge') if S.exc is None else None
        mem, obj, locks, nt = self.snapshot(S)
        if cnt == 0:
            _fresh[0] += 1
            f.heads[h] = (1, (mem, obj, dict(phis), locks, S.facts), frozenset(), {}, (), _fresh[0])
            self.emit(S, 'loop', h, (f.id, 0))
            return None
        pm, po, pp, plocks, pfacts = snap
        if self.opts.get('at_head'):
            self.opts['at_head'](self, S, f, h, cnt, snap)
        if locks != plocks:
            self.emit(S, 'looplocks', h, (plocks, locks))
        changed = set()
        for k in set(pm) | set(mem):
            a, b = pm.get(k), mem.get(k)
            if a != b:
                if k[0][0] == 'cstr' or k not in pm and self.pure_default(S, k, b):
                    continue
                changed.add(('m', k))
        for k in set(po) | set(obj):
            if po.get(k) != obj.get(k):
                changed.add(('o', k))
        for k, v in phis.items():
            if pp.get(k) != v:
                changed.add(('r', k))
        # locations of frames that no longer exist are irrelevant
        # objects created since the last visit of the head are fresh in every iteration
        known = {k[0] for k in pm} | {k[0] for k in po}
        changed = {c for c in changed if c[0] == 'r' or c[1][0] in known or not self.ephemeral(c[1][0])}
        live = {g.id for g in S.frames}
        changed = {c for c in changed if c[0] == 'r' or not (c[1][0][0] == 'A' and len(c[1][0]) > 2 and c[1][0][1] not in live)}
        # cells at computed offsets written by the loop body are forgotten
        for r, d in S.mem.items():
            if r[0] not in ('A', 'cstr'):
                gone = [o for o in d if not isinstance(o, int) and not (isinstance(o, tuple) and o and o[0] == 'rdbuf') and pm.get((r, o)) != d[o][1]]
                for o in gone:
                    del d[o]
                    changed.discard(('m', (r, o)))
                if gone:
                    _fresh[0] += 1
                    S.epoch[r] = _fresh[0]
        self.emit(S, 'loop', h, (f.id, cnt))
        old = lambda c: pm.get(c[1]) if c[0] == 'm' else po.get(c[1]) if c[0] == 'o' else pp.get(c[1])
        cur = lambda c: mem.get(c[1]) if c[0] == 'm' else obj.get(c[1]) if c[0] == 'o' else f.regs.get(c[1])
        cur2 = lambda c: S.mem[c[1][0]][c[1][1]][1] if c[0] == 'm' else S.obj[c[1]] if c[0] == 'o' else f.regs[c[1]]
        # values that move by a constant in every iteration: a + d * (number of iterations)
        lost = set()
        ind = dict(ind)
        for c in list(ind):
            if idelta(old(c), cur(c)) != ind[c][1]:
                del ind[c]
                lost.add(c)
        for c in changed & wid:
            if c not in ind and itag(old(c)) is not None and itag(old(c)) != itag(cur(c)) and not (someit(old(c)) and someit(old(c)) == samecont(old(c), cur(c))):
                lost.add(c)
        inv2 = tuple(v for v in inv if v[2] in ind and self.holds(S.facts, v, cur(v[2])))
        if cnt > 1 and not lost and changed <= wid and inv2 == inv:
            return Path('cut', S)
        if cnt >= (40 if merge else 8):
            return Path('cut', S, why='nofix')
        w = wid | changed
        if merge:
            # everything that some path through the loop changes
            mod = self.modset.setdefault((f.id, h, base), set())
            mod |= w
            w = frozenset(mod)
        if cnt == 1:
            for c in changed:
                if c[0] == 'm' and (S.mem.get(c[1][0], {}).get(c[1][1], (0,))[0] <= 1) or c[0] == 'r' and f.phi1(c[1]):
                    continue
                d = idelta(old(c), cur(c))
                if d is not None:
                    ind[c] = (ival(old(c)), d)
                    x = ival(cur(c))[1]
                    if d < 0:
                        inv2 += ((0, 1, c),)
                    elif isinstance(x, int):
                        for H, (lo, hi, ne) in S.facts.iv.items():
                            if len(H) == 1 and H[0][1] == 1 and lo == x:
                                inv2 += ((H[0][0], -1, c),)
            inv2 = tuple(v for v in inv2 if self.holds(S.facts, v, cur(v[2])) and self.holds(pfacts, v, old(v[2])))
        self.widen(S, f, h, w - set(ind), snap, lost)
        if ind:
            _fresh[0] += 1
            W = ('cnt', _fresh[0])
            for c, ((tag, x), d) in ind.items():
                v = imk(tag, add(x, scale(W, d)))
                if c[0] == 'm':
                    S.mem[c[1][0]][c[1][1]] = (S.mem[c[1][0]][c[1][1]][0], v)
                elif c[0] == 'o':
                    S.obj[c[1]] = v
                else:
                    f.regs[c[1]] = v
            for t, sg, c in inv2:
                (tag, x), d = ind[c]
                e = add(t, scale(add(x, scale(W, d)), sg))
                fs = assume(S.facts, lt(e, 0), False)
                if fs:
                    S.facts = fs[0]
        if merge:
            known = self.kept(S)
            self.forget(S, None, base)
            k = (f.id, h, base, len(mod), merge(S), known, tuple(sorted((repr(c), ind[c][1]) for c in ind)), repr(inv2)) + self.canon_state(S, base, [f.regs[r] for r in sorted(phis)])
            if k in self.merged:
                return Path('cut', S, why='merged')
            self.merged.add(k)
            S.facts = pfacts
            for t, sg, c in inv2:
                fs = assume(S.facts, lt(add(t, scale(ival(cur2(c))[1], sg)), 0), False)
                if fs:
                    S.facts = fs[0]
            self.keep(S, known)
        mem, obj, locks, nt = self.snapshot(S)
        pp2 = {k: f.regs[k] for k in phis}
        f.heads[h] = (cnt + 1, (mem, obj, pp2, locks, pfacts), w, ind, inv2, base)
        return None

    def holds(self, facts, v, x):
        t, sg, c = v
        i = ival(x)
        return i is not None and truth(facts, lt(add(t, scale(i[1], sg)), 0)) is False

    def ephemeral(self, r):
        return r[0] in ('N', 'el', 'S', 'cstr', 'X')

    def pure_default(self, S, k, v):
        return isinstance(v, tuple) and v[0] in ('ld', 'undef', 'ch0', 'chr') and v[1:2] == (k[0],)

    def widen(self, S, f, h, w, snap, lost=()):
        pm, po, pp, pl, pf = snap
        merge = self.opts.get('merge') and S.exc is None
        bump = set()
        for c in w:
            if c[0] == 'm':
                r, o = c[1]
                if merge and r[0] != 'A' and not self.is_local_heap(S, r) and not any(x[0] == r for x in S.cop):
                    S.mem.get(r, {}).pop(o, None)
                    bump.add(r)
                    continue
                d = S.mem.get(r)
                old = pm.get(c[1])
                if d is not None and o in d:
                    sz, v = d[o]
                    d[o] = (sz, self.wval(old, v, h, f, c, sz == 1))
                elif old is not None:
                    # known at the first visit, unknown now
                    S.mem.setdefault(r, {})
            elif c[0] == 'o':
                if merge and c[1][0][0] != 'A' and not self.is_local_heap(S, c[1][0]) and not any(x[0] == c[1][0] for x in S.cop) and (S.obj.get(c[1]) or ('cont',))[0] == 'cont':
                    S.obj.pop(c[1], None)
                    bump.add(('o', c[1]))
                    continue
                old = po.get(c[1])
                v = S.obj.get(c[1])
                if v is None and old is None:
                    continue
                nv = self.wobj(old, v, h)
                if nv is None:
                    S.obj.pop(c[1], None)
                    _fresh[0] += 1
                    S.epoch[('o', c[1])] = _fresh[0]
                else:
                    S.obj[c[1]] = nv
            else:
                f.regs[c[1]] = self.wval(pp.get(c[1]), f.regs[c[1]], h, f, c, f.phi1(c[1]))

        for r in bump:
            _fresh[0] += 1
            S.epoch[r] = _fresh[0]

    def wval(self, a, b, h, f, c, narrow=True):
        t = itag(a)
        if t is not None and t == itag(b):
            return imk(t, fresh('w'))
        if samecont(a, b):
            return ('it', samecont(a, b), ANYVER, fresh('w'))
        if narrow and isbool(b) and (a is None or isbool(a)):
            return ('B', 'w', fresh('w')[1])
        return fresh('w', h)

    def wobj(self, a, b, h):
        if b is None:
            # known before, given up since
            return None
        if b[0] == 'cont':
            _fresh[0] += 1
            same = a is not None and a[0] == 'cont'
            return ('cont', b[1] if same and a[1] == b[1] else ('v', _fresh[0]), b[2] if same and a[2] == b[2] else ('csz', 'w', _fresh[0]),
                    b[3] if same and a[3] == b[3] else None)
        t = itag(a)
        if t is not None and t == itag(b):
            return imk(t, fresh('w'))
        if samecont(a, b):
            return ('it', samecont(a, b), ANYVER, fresh('w'))
        if b[0] in ('lg', 'ul', 'mtx'):
            return b
        return fresh('w', b[0])

    # ---------------------------------------------------------- calls
    def do_ret(self, S, v):
        f = S.frames.pop()
        # locals die
        if f.onret is not None:
            r = f.onret(self, S, f, v)
            if r is not None:
                if r[0] == 'val':
                    v = r[1]
                elif r[0] == 'path':
                    return r[1]
                elif r[0] == 'handled':
                    return None
        if not S.frames:
            return Path('ret', S, v)
        self.emit(S, 'ret', f.fn.name, (), v)
        g = S.frames[-1]
        ins = f.ins
        for k in [k for k in S.mem if k[0] == 'A' and len(k) > 2 and k[1] == f.id]:
            del S.mem[k]
        for k in [k for k in S.obj if k[0][0] == 'A' and len(k[0]) > 2 and k[0][1] == f.id]:
            del S.obj[k]
        if ins is None:
            return None
        if self.opts.get('merge') and f.looped and (ins.res is None or isinstance(v, int)) and S.exc is None:
            # states that a call leaves behind and that differ in nothing but what was learnt on the way are continued once
            known = self.kept(S)
            self.forget(S, f.entry[1], f.entry[2])
            k = (f.id, v, self.opts['merge'](S), known) + self.canon_state(S, f.entry[2])
            if k in self.merged:
                return Path('cut', S, v, why='merged')
            self.merged.add(k)
            S.facts = f.entry[0]
            self.keep(S, known)
        if ins.res is not None:
            g.regs[ins.res] = v
        return self.after(S, g, ins)

    def kept(self, S):
        h = self.opts.get('mergekeep')
        return tuple(truth(S.facts, t) for t in h(self, S)) if h else ()

    def keep(self, S, known):
        h = self.opts.get('mergekeep')
        if h:
            for t, v in zip(h(self, S), known):
                if v is not None:
                    fs = assume(S.facts, tobool(t), v)
                    if fs:
                        S.facts = fs[0]

    def forget(self, S, before, base):
        """states are merged: what is known about objects reached through pointers, and about containers that changed, is given up"""
        for r in list(S.mem):
            if r[0] in ('el', 'S', 'X'):
                if any(x[1] != ('ld', r, o, self.epoch(S, r)) for o, x in S.mem[r].items()):
                    _fresh[0] += 1
                    S.epoch[r] = _fresh[0]
                del S.mem[r]
        for l in [l for l in S.obj if l[0][0] in ('el', 'S', 'X')]:
            del S.obj[l]
            _fresh[0] += 1
            S.epoch[('o', l)] = _fresh[0]
        if before is None:
            return
        for l, x in list(S.obj.items()):
            if x != before.get(l) and isinstance(x, tuple) and x[0] == 'cont' and l[0][0] != 'A':
                _fresh[0] += 1
                S.obj[l] = ('cont', ('v', _fresh[0]), ('csz', 'w', _fresh[0]), None)

    def canon_state(self, S, base, regs=()):
        """what the state holds, with the values that appeared after `base` numbered in order"""
        star = lambda v: tuple(star(x) for x in v) if isinstance(v, tuple) else '*' if isinstance(v, int) and v > base else v
        names, roots = {}, {}
        def num(v):
            if isinstance(v, tuple):
                if v in S.epoch:
                    roots.setdefault(v)
                return tuple(num(x) for x in v)
            if isinstance(v, int) and v > base:
                return ('#', names.setdefault(v, len(names)))
            return v
        live = {g.id for g in S.frames}
        ok = lambda r: not (r[0] == 'A' and len(r) > 2 and r[1] not in live)
        cells = sorted(((repr(star((r, o))), r, o, v) for r, d in S.mem.items() if ok(r) for o, (sz, v) in d.items() if v != ('ld', r, o, self.epoch(S, r))), key=lambda c: c[0])
        objs = sorted(((repr(star(l)), l, v) for l, v in S.obj.items() if ok(l[0])), key=lambda c: c[0])
        dead = lambda v: isinstance(v, tuple) and (v[:1] == ('A',) and len(v) > 2 and isinstance(v[1], int) and v[1] not in live or any(dead(x) for x in v))
        out = (S.locks, tuple(num(v) for v in regs), tuple(num(x) for x in S.cop if not dead(x)), S.caught, tuple(num((r, o, v)) for _, r, o, v in cells), tuple(num((l, v)) for _, l, v in objs),
               tuple(num(x) for x in sorted((x for x in S.ext.items() if x[0][0] != 'vtype' and not dead(x[0])), key=lambda x: repr(star(x)))))
        for r in S.epoch:
            if r == '*' or star(r) == r and not dead(r):
                roots.setdefault(r)
        ep = sorted((repr(star(r)), r) for r in roots)
        return out + (tuple((num(r), num(S.epoch[r])) for _, r in ep),)

    def after(self, S, g, ins):
        if ins.op == 'invoke':
            return self.goto(S, g, ins.normal)
        g.ip += 1
        return None

    def do_call(self, S, f, ins, work):
        cal = ins.callee
        if cal[0] == 'asm':
            args = [self.val(S, f, t, v) for t, a, v in ins.args]
            r = fresh('asm')
            self.emit(S, 'asm', cal[1], args, r, ins=ins)
            if ins.res:
                f.regs[ins.res] = r
            return self.after(S, f, ins)
        args = [self.val(S, f, t, v) for t, a, v in ins.args]
        if cal[0] == 'glob':
            name = cal[1]
            return self.call_name(S, f, ins, name, args, work)
        fv = self.val(S, f, ('ptr',), cal)
        if isinstance(fv, tuple) and fv[0] == 'fn':
            return self.call_name(S, f, ins, fv[1], args, work)
        if isinstance(fv, tuple) and fv[0] == 'ld' and fv[1][0] == 'S' and ('vtype', fv[1][1]) in S.ext:
            return self.call_virtual(S, f, ins, fv, args, work)
        # unknown function pointer
        h = self.models.get('<indirect>')
        return self.finish(S, f, ins, self.extern(S, ins, '<indirect>', args, fv), work)

    def call_name(self, S, f, ins, name, args, work):
        if name.startswith('llvm.'):
            return self.intrinsic(S, f, ins, name, args, work)
        cn, targs, params = self.prog.canon(name)
        h = self.models.find(cn, name)
        if self.opts.get('hook'):
            r = self.opts['hook'](self, S, ins, cn, name, args)
            if r is not None:
                return self.finish(S, f, ins, r, work)
        if h is not None:
            res = h(self, S, ins, args, CallInfo(name, cn, targs, params, self))
            if res is NotImplemented:
                h = None
            else:
                return self.finish(S, f, ins, res, work)
        fn = self.prog.fn(name)
        if fn is not None and self.inlinable(cn, name, fn) and len(S.frames) < self.opts['depth'] and sum(1 for g in S.frames if g.fn is fn) < self.opts.get('rec', 12):
            self.enter(S, fn, args, ins, cn)
            return None
        return self.finish(S, f, ins, self.extern(S, ins, cn, args, None, name), work)

    def inlinable(self, cn, name, fn):
        if cn in self.opts['stop'] or name in self.opts['stop']:
            return False
        if self.project_fn(cn, name):
            return True
        return self.models.transparent(cn, name)

    def project_fn(self, cn, name):
        return cn.startswith('falcon::') or cn.startswith('wit') or self.opts.get('project', lambda c, n: False)(cn, name) or not (cn.startswith('std::') or cn.startswith('__gnu_cxx::') or cn.startswith('boost::') or cn.startswith('__'))

    def enter(self, S, fn, args, ins, cn=None):
        self.fid += 1
        self.inlined[fn.name] = self.inlined.get(fn.name, 0) + 1
        self.emit(S, 'call', cn or fn.name, args, None, {'m': fn.name, 'inl': True}, ins)
        fr = Frame(fn, self.fid, ins)
        fr.entry = (S.facts, dict(S.obj), _fresh[0]) if self.opts.get('merge') else None
        ps = fn.params()
        for k, (ty, at, nm) in enumerate(ps):
            if k < len(args):
                v = args[k]
                if 'byval' in at:
                    v2 = ('&', ('A', self.fid, '.byval%d' % k), 0)
                    self.memcpy(S, v2, v, fn.mod.layout(at['byval'])[0])
                    v = v2
                fr.regs[nm] = v
        S.frames.append(fr)
        return fr

    def finish(self, S, f, ins, res, work):
        """res: value | Outcome | list of Outcome | 'pushed' (a frame was pushed)"""
        if isinstance(res, str) and res == 'pushed':
            return None
        outs = res if isinstance(res, list) else [res]
        outs = [o if isinstance(o, Outcome) else Outcome(S, o) for o in outs]
        if len(outs) == 1 and outs[0].st is S:
            return self.apply(outs[0], ins)
        if not outs:
            return 'dead'
        for o in reversed(outs):
            r = self.apply(o, ins)
            if r is not None:
                work.append(_Done(r))
            else:
                work.append(o.st)
        return self.pop_done(work) or 'dead'

    def apply(self, o, ins):
        S = o.st
        if o.kind == 'pushed':
            return None
        f = S.frames[-1]
        if o.kind == 'val':
            if ins.res is not None:
                f.regs[ins.res] = o.val
            return self.after(S, f, ins)
        if o.kind == 'throw':
            S.exc = o.val
            self.emit(S, 'throw', o.val[1] if isinstance(o.val, tuple) and len(o.val) > 1 else '?', (o.val,), None, None, ins)
            return self.unwind(S)
        if o.kind == 'end':
            return Path(o.val, S)
        raise IRError('outcome ' + o.kind)

    def unwind(self, S, pop=False):
        """propagate S.exc from the current instruction"""
        if pop:
            self.popframe(S)
        while S.frames:
            f = S.frames[-1]
            ins = f.fn.blocks[f.blk][f.ip]
            if ins.op == 'invoke':
                lp = [x for x in f.fn.blocks[ins.unwind] if x.op == 'landingpad'][0]
                if lp.cleanup or self.clause_may(S, lp):
                    return self.goto(S, f, ins.unwind)
            if 'nounwind' in f.fn.head and False:
                return Path('terminate', S)
            self.popframe(S)
        return Path('throw', S, S.exc)

    def popframe(self, S):
        f = S.frames.pop()
        for k in [k for k in S.mem if k[0] == 'A' and len(k) > 2 and k[1] == f.id]:
            del S.mem[k]
        for k in [k for k in S.obj if k[0][0] == 'A' and len(k[0]) > 2 and k[0][1] == f.id]:
            del S.obj[k]
        if f.onret is not None and S.frames:
            f.onret(self, S, f, ('unwind',))

    def clause_may(self, S, lp):
        for k, v in lp.clauses:
            if k == 'catch':
                m = self.catches(v, S.exc)
                if m is not False:
                    return True
        return False

    def catches(self, v, exc):
        """True/False/None: does this clause catch the exception"""
        if v[0] in ('null',):
            return True
        T = v[1]
        et = exc[1]
        if et is None:
            return None
        if et == '?std':     # some class derived from std::exception
            if T == '_ZTISt9exception':
                return True
            return None
        if et == '?other':
            return False
        return T in self.bases(et)

    STDB = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
            '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt11regex_error': ['_ZTISt13runtime_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
            '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
            '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error']}

    def bases(self, T):
        out = [T]
        todo = [T]
        while todo:
            t = todo.pop()
            bs = list(self.STDB.get(t, []))
            m = self.prog.globmod(t)
            if m is not None:
                try:
                    ty, init, fl = m.glob(t)
                    if init and init[0] == 'agg':
                        for et, ev in init[1][2:]:
                            if ev[0] == 'glob' and ev[1].startswith('_ZTI'):
                                bs.append(ev[1])
                except IRError:
                    pass
            for b in bs:
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def landing(self, S, f, ins, work):
        exc = S.exc
        alts = []   # (selector)
        decided = False
        for k, v in ins.clauses:
            if k != 'catch':
                continue
            m = self.catches(v, exc)
            if m is False:
                continue
            alts.append(('tid', v[1] if v[0] == 'glob' else '...'))
            if m is True:
                decided = True
                break
        if not decided and ins.cleanup:
            alts.append(('tid', '<none>'))
        elif not decided and not ins.cleanup:
            alts.append(None)
        if not alts:
            alts = [('tid', '<none>')]
        states = [S] + [S.fork() for _ in alts[1:]]
        multi = len(alts) > 1
        for s2, sel in list(zip(states, alts))[::-1]:
            f2 = s2.frames[-1]
            if sel is None:
                r = self.unwind(s2, pop=True)
                if r is not None:
                    if multi:
                        work.append(_Done(r))
                        continue
                    return r
            else:
                f2.regs[ins.res] = ('agg', exc[2], sel)
                f2.ip += 1
            if multi:
                work.append(s2)
        return 'fork' if multi else None

    # ---------------------------------------------------------- virtual calls
    def call_virtual(self, S, f, ins, fv, args, work):
        vt, off = fv[1][1], fv[2]
        slot = off // 8 if isinstance(off, int) else None
        cls = S.ext.get(('vtype', vt))
        name, link = self.vslot(cls, slot)
        h = self.models.get('virtual')
        iv = self.opts['inline_virtual']
        if iv is not None:
            tgt = iv(cls, name, link, args)
            if tgt:
                fn = self.prog.fn(tgt)
                if fn is not None:
                    self.enter(S, fn, args, ins, self.prog.canon(tgt)[0])
                    return None
        e = self.emit(S, 'vcall', name, args, None, {'cls': cls, 'link': link}, ins)
        outs = []
        hook = self.opts.get('vcall')
        if hook is not None:
            r = hook(self, S, ins, cls, name, args)
            if r is not None:
                return self.finish(S, f, ins, r, work)
        if 'D0' in (link or '') or (name or '').startswith('~'):
            return self.finish(S, f, ins, None, work)
        ret = None
        if ins.ty[0] != 'void':
            ret = fresh('vret', name)
            if ins.ty == ('i', 1):
                ret = ('B', 'vret', ret[1], name)
        e.ret = ret
        if self.opts['cb_throw'] and (self.opts['cb_throw'] is True or name in self.opts['cb_throw']):
            s2 = S.fork()
            return self.finish(S, f, ins, [Outcome(S, ret), Outcome(s2, ('exc', '?std', fresh('exc')), 'throw'), ] + ([Outcome(S.fork(), ('exc', '?other', fresh('exc')), 'throw')] if self.opts.get('cb_other') else []), work)
        return self.finish(S, f, ins, ret, work)

    def vslot(self, cls, slot):
        """(method name, linkage) for a virtual table slot of a class (by _ZTS ident)"""
        seen = 0
        todo = [cls]
        while todo and seen < 20:
            seen += 1
            c = todo.pop(0)
            if c is None:
                continue
            for nm, link, vi, s in self.prog.methods(c):
                if vi is None:
                    continue
                if nm.startswith('~'):
                    if slot in (vi, vi + 1):
                        return nm, link
                elif vi == slot:
                    return nm, link
            r = self.prog.members(c)
            if r:
                for n, o, sz, t, s in r[1]:
                    if n == '<base>' and isinstance(t, int):
                        ident = r[0].mdfield(t, 'identifier')
                        if ident:
                            todo.append(ident)
        return ('slot%s' % slot, None)

    # ---------------------------------------------------------- external
    PURE = re.compile(r'^(strlen|strcmp|memcmp|usleep|getpid)$')

    def extern(self, S, ins, cn, args, fv=None, mangled=None):
        self.unmodelled[cn] = self.unmodelled.get(cn, 0) + 1
        e = self.emit(S, 'ext', cn, args, None, {'m': mangled}, ins)
        for a in args:
            if isinstance(a, tuple):
                root, off = addr(a)
                if root[0] == 'A':
                    self.havoc_root(S, root)
                elif root[0] in ('P', 'N', 'S', 'el', 'X'):
                    S.obj.pop((root, off), None)
                    d = S.mem.get(root)
                    if d:
                        for o in list(d):
                            if not isinstance(o, int) or not isinstance(off, int) or o >= off:
                                if not (isinstance(o, int) and isinstance(off, int) and off == 0 and root == ('P', 'this')):
                                    d.pop(o, None)
                    _fresh[0] += 1
                    S.epoch[root] = _fresh[0]
                    self.escape(S, a)
        ret = None
        if ins.ty[0] != 'void':
            ret = ('B', 'ext', fresh(cn)[1], cn) if ins.ty == ('i', 1) else fresh('ext', cn)
        e.ret = ret
        return ret

    def memcpy(self, S, d, s, n):
        dr, do = addr(d)
        sr, so = addr(s)
        if not isinstance(n, int) or not isinstance(do, int) or not isinstance(so, int):
            if isinstance(do, int) or True:
                self.emit(S, 'memcpy', '', (d, s, n))
            return
        src = dict(S.mem.get(sr, {}))
        dd = S.mem.setdefault(dr, {})
        for o in [o for o in dd if isinstance(o, int) and do <= o < do + n]:
            del dd[o]
        for k in [k for k in S.obj if k[0] == dr and isinstance(k[1], int) and do <= k[1] < do + n]:
            del S.obj[k]
        for o, (sz, v) in src.items():
            if isinstance(o, int) and so <= o < so + n:
                dd[do + o - so] = (sz, v)
        for k, v in list(S.obj.items()):
            if k[0] == sr and isinstance(k[1], int) and so <= k[1] < so + n:
                S.obj[(dr, do + k[1] - so)] = v
        m = re.match(r'', '')
        if sr[0] == 'G':
            # constant aggregates
            for o in range(0, n, 8):
                if do + o not in dd:
                    v = self.gconst(sr[1], so + o, 8)
                    if v is not None:
                        dd[do + o] = (8, v)
        S.cop = S.cop + ((dr, do, do + n, sr, so, self.epoch(S, sr)),)

    def intrinsic(self, S, f, ins, name, args, work):
        base = name.split('.')[1]
        ret = None
        if base in ('memcpy', 'memmove'):
            self.memcpy(S, args[0], args[1], args[2])
            r0 = addr(args[0])[0]
            if r0[0] not in ('A',):
                self.emit(S, 'wr', 'memcpy', (args[0], ('bytes', args[1])), None, {'size': args[2], 'atomic': None}, ins)
            r1 = addr(args[1])[0]
            if r1[0] not in ('A', 'G', 'cstr'):
                self.emit(S, 'rd', 'memcpy', (args[1], None), None, {'size': args[2], 'atomic': None}, ins)
        elif base == 'memset':
            r, o = addr(args[0])
            if isinstance(args[2], int) and isinstance(o, int) and args[1] == 0:
                d = S.mem.setdefault(r, {})
                for k in [k for k in d if isinstance(k, int) and o <= k < o + args[2]]:
                    del d[k]
                if o == 0:
                    S.ext[('zero', r)] = True
                else:
                    for k in range(o, o + args[2], 8):
                        d[k] = (min(8, o + args[2] - k), 0)
            self.emit(S, 'wr', 'memset', (args[0], args[1]), None, {'size': args[2], 'atomic': None}, ins)
        elif base == 'eh':
            ret = ('tid', args[0][1][1] if isinstance(args[0], tuple) and args[0][0] == '&' else '?')
        elif base == 'threadlocal':
            ret = args[0]
            if isinstance(ret, tuple) and ret[0] == 'meta':
                ret = fresh('tls')
        elif base in ('public', 'type'):
            ret = 1
            # vptr term: remember the static class
            mv = ins.args[1][2]
            if mv[0] == 'meta':
                S.ext[('vtype', args[0])] = mv[1].strip('"')
        elif base in ('assume', 'lifetime', 'invariant', 'donothing', 'experimental', 'stackrestore', 'dbg', 'prefetch'):
            pass
        elif base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            o = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[base[1:]]
            ret = ('agg', self.binop(o, args[0], args[1], ('i', 64)), 0)
        elif base == 'trap':
            return Path('unreachable', S)
        elif base in ('umax', 'umin', 'smax', 'smin', 'abs', 'ctlz', 'cttz', 'fabs', 'fmuladd', 'expect', 'objectsize', 'ctpop', 'is', 'load'):
            ret = args[0] if base == 'expect' else 0 if base == 'is' and '.constant' in name else ('op', base) + tuple(args)
        else:
            ret = fresh('intr', name)
        if ins.res is not None:
            f.regs[ins.res] = ret
        return self.after(S, f, ins)

    # ---------------------------------------------------------- descriptions
    def describe(self, t, n=0):
        if n > 6:
            return '...'
        if isinstance(t, int):
            return str(t)
        if not isinstance(t, tuple):
            return str(t)
        k = t[0]
        d = lambda x: self.describe(x, n + 1)
        if k == '&':
            fld = self.fieldname.get((t[1], t[2])) if not isinstance(t[2], tuple) else None
            if fld:
                return '%s.%s' % (d(('root',) + t[1]) if False else self.droot(t[1], n), fld)
            return '%s+%s' % (self.droot(t[1], n), d(t[2])) if t[2] != 0 else '&' + self.droot(t[1], n)
        if k == 'ld':
            fld = self.fieldname.get((t[1], t[2])) if not isinstance(t[2], tuple) else None
            return '%s.%s' % (self.droot(t[1], n), fld if fld else d(t[2]))
        if k == 'lin':
            return '(' + ' + '.join([str(t[1])] * (t[1] != 0) + ['%s%s' % ('' if c == 1 else '%d*' % c, d(x)) for x, c in t[2]]) + ')'
        if k == 'sl':
            return repr(t[1].decode('latin1'))
        if k in ('lt0', 'eq0'):
            return '%s %s 0' % (d(t[1]), '<' if k == 'lt0' else '==')
        if k == 'not':
            return '!(%s)' % d(t[1])
        if k == 's':
            return '$%s%d' % (t[2], t[1])
        if not isinstance(k, str):
            return '(' + ', '.join(d(x) for x in t) + ')'
        try:
            return k + '(' + ', '.join(d(x) for x in t[1:]) + ')'
        except Exception:
            return repr(t)

    def droot(self, r, n=0):
        if n > 6:
            return '...'
        if not isinstance(r, tuple):
            return str(r)
        if r[0] == 'P':
            return str(r[1])
        if r[0] == 'A':
            return str(r[-1])
        if r[0] == 'G':
            return r[1]
        if r[0] == 'S':
            return '(*%s)' % self.describe(r[1], n + 1)
        if r[0] == 'N':
            return 'new#%s' % (r[1],)
        if r[0] == 'el':
            return 'element(%s)' % (self.describe(ptr(*r[1]), n + 1) if r[1] else '?',)
        return str(r[0])


class _Done:
    def __init__(self, p):
        self.path = p


class Outcome:
    __slots__ = ('st', 'val', 'kind')

    def __init__(self, st, val=None, kind='val'):
        self.st = st
        self.val = val
        self.kind = kind


class CallInfo:
    __slots__ = ('name', 'cn', 'targs', 'params', 'I')

    def __init__(self, name, cn, targs, params, I):
        self.name = name
        self.cn = cn
        self.targs = targs
        self.params = params
        self.I = I
