"""Paged stacks of known shape: N pages, the top on page K, symbolic page size and symbolic number of elements on the top page.
Elements are named by their index from the bottom (a linear expression)."""
import interp, models
from check import *
from fal import *
from interp import Outcome

def nn(name):
    """a symbol for any number >= 0"""
    return ('csz', 'stk', name)

class Shape:
    """K full pages below the top page; s elements on the top page; M pages in all; ps elements fit on a page"""
    def __init__(self, name, K, M, s, ps):
        self.name, self.K, self.M, self.s, self.ps = name, K, M, s, ps

    @property
    def total(self):
        return add(interp.scale(self.ps, self.K), self.s)

    def size(self, j):
        return self.ps if j < self.K else self.s if j == self.K else 0

def shapes(deep=False):
    """every stack whose top is on one of the first pages: empty, partly filled, with and without spare pages"""
    a, d = nn('a'), nn('d')
    out = [Shape('an empty stack', 0, m, 0, add(1, d)) for m in ((1, 2, 3) if deep else (1, 2))]
    for K in (range(0, 4) if deep else range(0, 3)):
        for m in (1, 2, 3) if deep else (1, 2):
            out.append(Shape('a stack of %d page%s%s' % (K + 1, 's' if K else '', '' if m == 1 else ' and %d spare' % (m - 1)), K, K + m, add(1, a), add(add(1, a), d)))
    return out

def content_hook(I, S, loc, meth, a, before, pt):
    """abstract content of a page: ('seg', page, first, n) parts and ('val', v)"""
    key = (loc[0], ('content', loc[1]))
    c = S.obj.get(key)
    if meth == 'vector':
        S.obj[key] = () if len(a) < 2 or 'vector<' not in pt else S.obj.get((addr(a[1])[0], ('content', addr(a[1])[1])), ('?',))
        return
    if c is None:
        if isinstance(before, int) and before == 0:
            c = ()
        else:
            return
    if meth in ('push_back', 'emplace_back'):
        S.obj[key] = c + (('val', tuple(a[1:])),)
    elif meth == 'pop_back':
        S.obj[key] = cut(S, c, sub(before, 1), before)
    elif meth == 'resize':
        S.obj[key] = cut(S, c, a[1], before)
    elif meth == 'clear':
        S.obj[key] = ()
    elif meth in ('erase',) and len(a) == 3:
        i, j = models.asit(a[1]), models.asit(a[2])
        S.obj[key] = cut(S, c, i[3], before) if truth(S.facts, eq(j[3], before)) is True else ('?',)
    elif meth == 'erase':
        i = models.asit(a[1])
        S.obj[key] = cut(S, c, i[3], before) if truth(S.facts, eq(add(i[3], 1), before)) is True else ('?',)
    elif meth in ('insert', 'swap', 'operator=', 'assign', 'emplace'):
        S.obj[key] = ('?',)

def cut(S, c, n, before):
    """the first n of the elements"""
    if c == ('?',):
        return c
    while c:
        k = sub(before, n)
        if truth(S.facts, eq(k, 0)) is True:
            return c
        if c[-1][0] == 'val':
            c, before = c[:-1], sub(before, 1)
            continue
        if len(c) == 1:
            if truth(S.facts, lt(before, n)) is False:
                return (('seg', c[0][1], c[0][2], n),)
        # more elements than there were, at least for some sizes
        return c + (('val', ('new elements',)),)
    return () if truth(S.facts, eq(n, 0)) is True else (('val', ('new elements',)),)

def newnode(I, S, el, args, meth, info):
    """a page enters the list"""
    loc = addr(el)
    if args and (addr(args[0]) in S.obj) and S.obj[addr(args[0])][0] == 'cont':
        src = addr(args[0])
        S.obj[loc] = S.obj[src]
        S.obj[(loc[0], ('content', loc[1]))] = S.obj.get((src[0], ('content', src[1])), ('?',))
        if not info.params.rstrip().endswith('&&'):
            S.obj[loc] = S.obj[src][:3] + (None,)
        else:
            S.obj[src] = ('cont', ('v', interp.fresh()[1]), 0, None)
    else:
        S.obj[loc] = ('cont', ('v', 'page', interp.fresh()[1]), 0, None)
        S.obj[(loc[0], ('content', loc[1]))] = ()

OPTS = dict(unroll=40, nodes=True, newnode=newnode, content=content_hook, local_ops=True)

class Model:
    def __init__(self, c):
        self.c = c
        self.make = c.fn1('wit::w_make')
        self.cache = {}

    def template(self, M, ps):
        """what the constructor builds"""
        k = (M, ps)
        if k in self.cache:
            return self.cache[k]
        ps_, I = self.c.run(self.make, [None, ps, M], None, **OPTS)
        done = [p for p in ps_ if p.status == 'ret']
        if len(done) != 1:
            raise Broken('construction of the stack: %s' % [p.status for p in ps_])
        self.cache[k] = done[0]
        return done[0]

    def put(self, S, sh, root=('P', 's'), tmpl=None, keep=None):
        """a stack of this shape at root; keep: state whose other cells (counters) are taken over"""
        p = tmpl or self.template(sh.M, sh.ps)
        src = p.st
        r0 = ('P', 's')
        lists = [(l, v) for l, v in src.obj.items() if l[0] == r0 and isinstance(v, tuple) and v[0] == 'cont']
        if len(lists) != 1:
            raise Broken('the pages of the stack: %d containers' % len(lists))
        (_, loff), lv = lists[0]
        if lv[2] != sh.M:
            raise Broken('the constructor makes %r pages, %r were asked for' % (lv[2], sh.M))
        vid = ('ml', root[1])
        nl = (('ML', vid), 0)
        S.obj[(root, loff)] = ('cont', vid, sh.M, None)
        onl = (('ML', lv[1]), 0)
        for j in range(sh.M):
            o = src.obj.get((('el', onl, lv[1], j), 0))
            if o is None:
                raise Broken('page %d of a new stack' % j)
            e = ('el', nl, vid, j)
            S.obj[(e, 0)] = ('cont', ('ml', 'page', root[1], j), sh.size(j), o[3])
            n = sh.size(j)
            S.obj[(e, ('content', 0))] = (('seg', (root[1], j), 0, n),) if n != 0 else ()
        cur = 0
        d = S.mem.setdefault(root, {})
        for o, (sz, v) in (keep or src).mem.get(r0, {}).items():
            if isinstance(v, tuple) and v[0] == 'it':
                v = ('it', nl, vid, sh.K)
                cur += 1
            elif keep is not None and src.mem.get(r0, {}).get(o, (0, None))[1] != v and isinstance(v, tuple) and v[0] == 'it':
                raise Broken('cursor')
            d[o] = (sz, v)
        if cur != 1:
            raise Broken('%d page cursors in the stack' % cur)
        for o, v in src.obj.items():
            if o[0] == r0 and o[1] != loff and (root, o[1]) not in S.obj:
                S.obj[(root, o[1])] = v

    def init(self, sh, root=('P', 's'), facts=(), more=None):
        def f(I, S, fr):
            self.put(S, sh, root)
            for t, v in facts:
                g = assume(S.facts, tobool(t), v)
                if not g:
                    raise Broken('contradictory shape')
                S.facts = g[0]
            if more:
                more(I, S, fr)
        return f

    def run(self, w, sh, args=None, facts=(), more=None, root=('P', 's'), **opts):
        o = dict(OPTS)
        o.update(opts)
        return self.c.run(self.c.fn1('wit::' + w), args, self.init(sh, root, facts, more), **o)

class View:
    """a stack at the end of a path"""
    def __init__(self, p, root=('P', 's')):
        S = p.st
        self.p, self.f = p, S.facts
        lists = [(l, v) for l, v in S.obj.items() if l[0] == root and isinstance(v, tuple) and v[0] == 'cont']
        if len(lists) != 1:
            raise Broken('the pages of the stack')
        lv = lists[0][1]
        if not isinstance(lv[2], int):
            raise Broken('number of pages')
        self.M = lv[2]
        vid = lv[1]
        self.vid = vid
        self.nl = (('ML', vid), 0)
        self.pages = []
        for j in range(self.M):
            e = ('el', self.nl, vid, j)
            v = S.obj.get((e, 0))
            if v is None:
                raise Broken('page %d' % j)
            self.pages.append((v[2], v[3], S.obj.get((e, ('content', 0)), ('?',))))
        curs = [v for sz, v in S.mem.get(root, {}).values() if isinstance(v, tuple) and v[0] == 'it']
        if len(curs) != 1:
            raise Broken('page cursor')
        self.cur = curs[0]

    def problems(self, ps):
        """violations of the structural invariant"""
        f = self.f
        out = []
        cur = self.cur
        if cur[1] != self.nl or cur[2] != self.vid or not isinstance(cur[3], int) or not 0 <= cur[3] < self.M:
            return ['the top page is not a page of the stack']
        k = cur[3]
        for j, (n, cap, c) in enumerate(self.pages):
            if j < k and truth(f, eq(n, ps)) is not True:
                out.append('a page below the top page is not full')
            if j > k and truth(f, eq(n, 0)) is not True:
                out.append('a page above the top page is not empty')
            if j == k and k > 0 and truth(f, lt(0, n)) is not True:
                out.append('the top page is left empty although there are elements below it')
            if j == k and truth(f, lt(ps, n)) is not False:
                out.append('the top page holds more than a page of elements')
        return out

    def flat(self):
        """content from the bottom: parts"""
        out = []
        k = self.cur[3]
        for j, (n, cap, c) in enumerate(self.pages):
            if c == ('?',):
                return None
            if j > k:
                break
            for x in c:
                if x[0] == 'seg' and truth(self.f, eq(x[3], 0)) is True:
                    continue
                out.append(x)
        return out

def same_seq(f, parts, root, ps, n, vals):
    """parts = the first n elements of the original stack at root, followed by vals"""
    pos = 0
    i = 0
    for x in parts:
        if x[0] != 'seg':
            break
        if x[1][0] != root[1] or truth(f, eq(add(interp.scale(ps, x[1][1]), x[2]), pos)) is not True:
            return False
        pos = add(pos, x[3])
        i += 1
    if truth(f, eq(pos, n)) is not True:
        return False
    rest = parts[i:]
    if len(rest) != len(vals) or any(x[0] != 'val' for x in rest):
        return False
    return all(x[1] == v for x, v in zip(rest, vals))

def index(v, ps, roots):
    """index from the bottom of the element at this address: (stack root, expression)"""
    r, o = addr(v) if isinstance(v, tuple) and v[0] == '&' else (('?',), 0)
    if r[0] != 'el' or o != 0 or not isinstance(r[1], tuple):
        return None
    pg = r[1][0]
    if not (isinstance(pg, tuple) and pg[0] == 'el' and isinstance(pg[2], tuple) and pg[2][0] == 'ml'):
        return None
    return pg[2][1], add(interp.scale(ps, pg[3]), r[3])

def excluded(p, sh, n):
    """the path ends in an assertion that fails only when fewer than n elements are there"""
    return p.status == 'assert' and truth(p.facts, lt(sh.total, n)) is not False

NL = (('ML', ('ml', 's')), 0)

def page_it(j):
    return ('it', NL, ('ml', 's'), j)

def elem_it(j, x):
    return ('it', (('el', NL, ('ml', 's'), j), 0), ('ml', 'page', 's', j), x)

def is_page_it(v):
    return isinstance(v, tuple) and v[0] == 'it' and v[1] == NL

def is_elem_it(v):
    return isinstance(v, tuple) and v[0] == 'it' and isinstance(v[1], tuple) and v[1][0][0] == 'el'

class Iters:
    """iterators of one kind, at any position of a stack of known shape"""
    def __init__(self, m, kind, forward=True):
        self.m, self.kind, self.forward = m, kind, forward
        a, d = nn('a'), nn('d')
        sh = Shape('', 2, 3, add(1, a), add(add(1, a), d))
        first = self.cells(sh, 'first')
        el = [o for o, (sz, v) in first.items() if is_elem_it(v)]
        if len(el) != 1:
            raise Broken('representation of the %s iterators: %r' % (kind, {o: v for o, (sz, v) in first.items()}))
        at = first[el[0]][1][1][0][3]
        pg = sorted(o for o, (sz, v) in first.items() if is_page_it(v) and v[3] == at)
        if not pg:
            raise Broken('representation of the %s iterators: %r' % (kind, {o: v for o, (sz, v) in first.items()}))
        self.base, self.data = pg[0], el[0]

    def cells(self, sh, which):
        return dict(self.state(sh, which).st.mem.get(('P', 'out'), {}))

    def state(self, sh, which='first', **kw):
        ps, I = self.m.run('w_%s_%s' % (self.kind, which), sh, **kw)
        done = [p for p in ps if p.status == 'ret']
        if len(done) != 1:
            raise Broken('creating a %s iterator: %s' % (self.kind, [p.status for p in ps]))
        return done[0]

    def at(self, sh, j, x):
        c = self.cells(sh, 'first')
        c[self.base] = (c[self.base][0], page_it(j))
        c[self.data] = (c[self.data][0], elem_it(j, x))
        return c

def place(S, root, cells):
    S.mem[root] = dict(cells)

def between(K, j):
    """orders of: an index x on page j, the number s of elements on the top page K, the page size: [(name, x, s, ps)]"""
    x, a, d = nn('x'), nn('a'), nn('d')
    if j == K:
        s = add(add(x, 1), a)
        return [('on the top page', x, s, add(s, d))]
    s = add(add(x, 1), a)
    out = [('below the top page', x, s, add(s, d))]
    s = add(1, a)
    out.append(('below the top page, behind its last element', add(s, x), s, add(add(add(s, x), 1), d)))
    return out

def wild(p, sh, root='s'):
    """dereferences that hit no page or no element of the stack (which does not change on the path)"""
    nl = (('ML', ('ml', root)), 0)
    for e in p.events:
        if e.kind != 'deref':
            continue
        v = e.args[0]
        if v[1] == nl and v[2] == ('ml', root):
            if isinstance(v[3], int) and not 0 <= v[3] < sh.M:
                yield e, 'a page that does not exist is accessed'
        elif isinstance(v[1], tuple) and v[1][0][0] == 'el' and v[1][0][1] == nl:
            j = v[1][0][3]
            if isinstance(j, int) and (truth(p.facts, lt(v[3], 0)) is not False or truth(p.facts, lt(v[3], sh.size(j))) is not True):
                yield e, 'an element that does not exist is accessed'
