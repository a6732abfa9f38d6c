"""Reader for the textual LLVM IR that clang emits for the analysed translation units.

Only what clang 18 prints at -O0 for x86-64 is supported; anything else raises IRError, which
ends a check with an error exit (never with a verdict)."""
import os, re, subprocess

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<punc>\.\.\.|[=,(){}\[\]<>*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k in ('loc', 'glob'):
            nm = v[1:]
            if nm.startswith('"'):
                nm = nm[1:-1]
            out.append((k, nm))
        else:
            out.append((k, v))
    return out

# ---- types: tuples
#  ('i',n) ('ptr',) ('void',) ('f',name) ('arr',n,T) ('st',(T..),packed) ('named',name) ('fn',ret,args,var) ('lab',) ('meta',) ('vec',n,T)

class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('punc', 'word'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek()[1] != v:
            raise IRError('expected %r got %r in %r' % (v, self.peek(), self.t[max(0, self.i - 8):self.i + 8]))
        self.i += 1

    def type(self):
        k, v = self.next()
        t = None
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
                if self.peek()[1] == 'addrspace':
                    self.i += 4
            elif v == 'void':
                t = ('void',)
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128', 'bfloat'):
                t = ('f', v)
            elif v == 'label':
                t = ('lab',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'token':
                t = ('tok',)
            elif v == 'opaque':
                t = ('opaque',)
        elif k == 'loc':
            t = ('named', v)
        elif k == 'punc' and v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif k == 'punc' and v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = ('st', tuple(self.tlist('}')), True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif k == 'punc' and v == '{':
            t = ('st', tuple(self.tlist('}')), False)
        if t is None:
            raise IRError('type expected at %r' % (self.t[max(0, self.i - 3):self.i + 6],))
        # function type suffix
        if self.peek() == ('punc', '(') and t[0] != 'lab':
            # only when this is followed by types and ')' : used in call of varargs / aliases
            save = self.i
            try:
                self.next()
                args = []
                var = False
                while not self.accept(')'):
                    if self.accept('...'):
                        var = True
                    else:
                        args.append(self.type())
                    self.accept(',')
                t = ('fn', t, tuple(args), var)
            except IRError:
                self.i = save
        return t

    def tlist(self, end):
        r = []
        while not self.accept(end):
            r.append(self.type())
            self.accept(',')
        return r

    # values -> tuples: ('reg',n) ('glob',n) ('int',n) ('fp',s) ('null',) ('undef',) ('zero',) ('agg',[(T,V)]) ('str',bytes) ('cx',op,...)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('reg', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            if ty[0] == 'f':
                return ('fp', v)
            return ('int', int(v))
        if k == 'str':
            return ('str', unescape(v))
        if k == 'meta':
            # metadata operand: skip nested
            if self.peek()[1] == '(':
                d = 0
                while True:
                    x = self.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            return ('meta', v)
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v in ('zeroinitializer', 'none'):
                return ('zero',)
            if v in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add', 'zext', 'sext', 'icmp', 'select', 'xor', 'mul', 'shl'):
                return self.constexpr(v)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
            if v == 'blockaddress':
                raise IRError('blockaddress')
        if k == 'punc' and v in '{[':
            end = '}' if v == '{' else ']'
            r = []
            while not self.accept(end):
                t = self.type()
                r.append((t, self.value(t)))
                self.accept(',')
            return ('agg', r)
        if k == 'punc' and v == '<':
            if self.peek()[1] == '{':
                self.next()
                r = []
                while not self.accept('}'):
                    t = self.type()
                    r.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', r)
            r = []
            while not self.accept('>'):
                t = self.type()
                r.append((t, self.value(t)))
                self.accept(',')
            return ('agg', r)
        raise IRError('value expected: %r in %r' % ((k, v), self.t[max(0, self.i - 8):self.i + 8]))

    def constexpr(self, op):
        while self.peek()[1] in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange'):
            self.next()
        pred = None
        if op == 'icmp':
            pred = self.next()[1]
        self.expect('(')
        if op == 'getelementptr':
            sty = self.type()
            self.expect(',')
            self.type()
            base = self.value(('ptr',))
            idx = []
            while self.accept(','):
                while self.peek()[1] in ('inrange',):
                    self.next()
                t = self.type()
                idx.append(self.value(t))
            self.expect(')')
            return ('cx', 'gep', sty, base, idx)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cx', op, t, v, t2)
        t = self.type()
        a = self.value(t)
        self.expect(',')
        t2 = self.type()
        b = self.value(t2)
        self.expect(')')
        return ('cx', op, t, a, b)


def unescape(s):
    if s.startswith('c'):
        s = s[1:]
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)

PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'nofree', 'nest', 'returned', 'readonly',
         'writeonly', 'readnone', 'immarg', 'swiftself', 'swifterror', 'nosanitize', 'dead_on_unwind', 'writable', 'noext', 'allocptr', 'allocalign'}

def param_attrs(p):
    a = {}
    while True:
        k, v = p.peek()
        if k == 'word' and v in PATTR:
            a[v] = True
            p.next()
        elif k == 'word' and v in ('align',):
            p.next()
            if p.accept('('):
                p.next()
                p.expect(')')
            else:
                p.next()
        elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'nofpclass', 'range', 'memory'):
            p.next()
            p.expect('(')
            d = 1
            while d:
                x = p.next()[1]
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
        elif k == 'word' and v in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated'):
            p.next()
            p.expect('(')
            a[v] = p.type()
            p.expect(')')
        elif k == 'str':
            p.next()
            if p.accept('='):
                p.next()
        else:
            return a


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'fn', 'text')

    def __init__(self, op, res=None, ty=None, dbg=None, **a):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = dbg

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}

class Function:
    def __init__(self, mod, name, head, body, decl=False):
        self.mod = mod
        self.name = name
        self.head = head
        self.body = body
        self.decl = decl
        self._blocks = None
        self._params = None
        self._loops = None
        m = re.search(r'!dbg !(\d+)', head)
        self.dbg = int(m.group(1)) if m else None

    def params(self):
        """[(type, attrs, name)]"""
        if self._params is None:
            t = tokenize(self.head)
            p = P(t)
            # find @name
            while p.peek() != ('glob', self.name):
                p.next()
            # return type: the tokens before; reparse
            q = P(t[:p.i])
            self.ret = None
            # try parse a type ending exactly at p.i
            for s in range(1, p.i):
                q.i = s
                try:
                    ty = q.type()
                    if q.i == p.i:
                        self.ret = ty
                        break
                except IRError:
                    pass
            p.next()
            p.expect('(')
            r = []
            self.vararg = False
            while not p.accept(')'):
                if p.accept('...'):
                    self.vararg = True
                    continue
                ty = p.type()
                at = param_attrs(p)
                nm = None
                if p.peek()[0] == 'loc':
                    nm = p.next()[1]
                r.append((ty, at, nm))
                p.accept(',')
            # unnamed params are numbered
            n = 0
            rr = []
            for ty, at, nm in r:
                if nm is None:
                    nm = str(n)
                    n += 1
                rr.append((ty, at, nm))
            self._params = rr
        return self._params

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        cur = None
        lines = self.body.split('\n')
        # first block label
        i = 0
        nparams = sum(1 for p in self.params() if p[2].isdigit())
        acc = None
        for ln in lines:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if m and not ln.startswith(' '):
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = nm
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = str(nparams)
                blocks[cur] = []
                order.append(cur)
            # continuation lines for invoke / switch / landingpad
            if acc is not None:
                acc += ' ' + s
                if acc_sw:
                    if s == ']' or s.startswith(']'):
                        blocks[cur].append(acc)
                        acc = None
                else:
                    if s.startswith('to label') :
                        blocks[cur].append(acc)
                        acc = None
                continue
            if re.match(r'(%\S+ = )?invoke ', s) or re.match(r'(%"[^"]*" = )?invoke ', s):
                acc = s
                acc_sw = False
                continue
            if s.startswith('switch ') and not s.endswith(']') and '[' in s and ']' not in s.split('[', 1)[1]:
                acc = s
                acc_sw = True
                continue
            if (s.startswith('catch ') or re.match(r'cleanup\b', s) or s.startswith('filter ')) and blocks[cur]:
                blocks[cur][-1] += ' ' + s
                continue
            blocks[cur].append(s)
        self._order = order
        self._blocks = {b: [parse_instr(x, self) for x in l] for b, l in blocks.items()}
        for b, l in self._blocks.items():
            self._blocks[b] = [x for x in l if x is not None]
        self.entry = order[0]

    def successors(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.a['targets']))
        if t.op == 'switch':
            return list(dict.fromkeys([t.a['default']] + [x[1] for x in t.a['cases']]))
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

    def loop_heads(self):
        """targets of retreating edges in a DFS"""
        if self._loops is None:
            _ = self.blocks
            heads = set()
            color = {}
            st = [(self.entry, iter(self.successors(self.entry)))]
            color[self.entry] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    if color.get(s, 0) == 0:
                        color[s] = 1
                        st.append((s, iter(self.successors(s))))
                        break
                    elif color[s] == 1:
                        heads.add(s)
                else:
                    color[b] = 2
                    st.pop()
            self._loops = heads
        return self._loops

    def loc(self, dbg):
        return self.mod.loc(dbg)


def parse_instr(s, fn):
    dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        dbg = int(m.group(1))
    # strip metadata attachments
    s2 = re.sub(r', ![a-zA-Z_.]+ !\d+', '', s)
    if 'call void @llvm.dbg.' in s2:
        return None
    p = P(tokenize(s2))
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    try:
        r = _parse_op(op, p, res, dbg)
    except IRError as e:
        raise IRError('%s in: %s' % (e, s))
    r.fn = fn
    return r

def _parse_op(op, p, res, dbg):
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        if p.accept(',') and p.peek()[1] != 'align':
            ty = p.type()
            n = p.value(ty)
        return Instr('alloca', res, t, dbg, n=n)
    if op == 'load':
        at = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        p.expect(',')
        p.type()
        v = p.value(('ptr',))
        ordn = None
        if at and p.peek()[0] == 'word':
            ordn = p.next()[1]
        return Instr('load', res, t, dbg, ptr=v, atomic=ordn if at else None, vol=vol)
    if op == 'store':
        at = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        val = p.value(t)
        p.expect(',')
        p.type()
        v = p.value(('ptr',))
        ordn = None
        if at and p.peek()[0] == 'word':
            ordn = p.next()[1]
        return Instr('store', None, t, dbg, val=val, ptr=v, atomic=ordn if at else None, vol=vol)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        sty = p.type()
        p.expect(',')
        p.type()
        base = p.value(('ptr',))
        idx = []
        while p.accept(','):
            t = p.type()
            idx.append(p.value(t))
        return Instr('gep', res, ('ptr',), dbg, sty=sty, base=base, idx=idx)
    if op in ('call', 'invoke'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'):
            p.next()
        param_attrs(p)
        t = p.type()
        ret = t[1] if t[0] == 'fn' else t
        k, v = p.peek()
        if k == 'word' and v == 'asm':
            p.next()
            while p.peek()[1] in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            tmpl = p.next()[1]
            p.expect(',')
            p.next()
            callee = ('asm', tmpl)
        else:
            callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            at = param_attrs(p)
            if ty[0] == 'meta':
                # metadata operand, may be a value
                if p.peek()[0] == 'meta':
                    args.append((ty, at, p.value(ty)))
                else:
                    t2 = p.type()
                    args.append((ty, at, p.value(t2)))
            else:
                args.append((ty, at, p.value(ty)))
            p.accept(',')
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.expect('label')
            nb = p.next()[1]
            p.expect('unwind')
            p.expect('label')
            ub = p.next()[1]
            return Instr('invoke', res, ret, dbg, callee=callee, args=args, normal=nb, unwind=ub)
        return Instr('call', res, ret, dbg, callee=callee, args=args)
    if op == 'br':
        if p.accept('label'):
            return Instr('br', None, None, dbg, cond=None, targets=[p.next()[1]])
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return Instr('br', None, None, dbg, cond=c, targets=[a, b])
    if op == 'switch':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            cases.append((v[1] if v[0] == 'int' else 0, p.next()[1]))
        return Instr('switch', None, t, dbg, cond=c, default=d, cases=cases)
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return Instr('ret', None, t, dbg, val=None)
        return Instr('ret', None, t, dbg, val=p.value(t))
    if op == 'resume':
        t = p.type()
        return Instr('resume', None, t, dbg, val=p.value(t))
    if op == 'unreachable':
        return Instr('unreachable', None, None, dbg)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, res, ('i', 1), dbg, pred=pred, oty=t, x=a, y=b)
    if op in BIN:
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr('bin', res, t, dbg, o=op, x=a, y=b)
    if op == 'fneg':
        t = p.type()
        return Instr('bin', res, t, dbg, o='fneg', x=p.value(t), y=('int', 0))
    if op in CAST:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Instr('cast', res, t2, dbg, o=op, sty=t, x=v)
    if op == 'select':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Instr('select', res, t, dbg, cond=c, x=a, y=b)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Instr('phi', res, t, dbg, inc=inc)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', res, t, dbg, x=v, idx=idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        e = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', res, t, dbg, x=v, e=e, ety=t2, idx=idx)
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.peek()[0] is not None:
            w = p.next()[1]
            if w == 'cleanup':
                cleanup = True
            elif w in ('catch', 'filter'):
                ty = p.type()
                cl.append((w, p.value(ty)))
            elif w == ',':
                break
        return Instr('landingpad', res, t, dbg, clauses=cl, cleanup=cleanup)
    if op == 'cmpxchg':
        weak = p.accept('weak')
        p.accept('volatile')
        p.type()
        ptr = p.value(('ptr',))
        p.expect(',')
        t = p.type()
        c = p.value(t)
        p.expect(',')
        t = p.type()
        n = p.value(t)
        o1 = p.next()[1]
        o2 = p.next()[1]
        return Instr('cmpxchg', res, t, dbg, ptr=ptr, cmp=c, new=n, ord=(o1, o2), weak=weak)
    if op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()[1]
        p.type()
        ptr = p.value(('ptr',))
        p.expect(',')
        t = p.type()
        v = p.value(t)
        return Instr('atomicrmw', res, t, dbg, o=o, ptr=ptr, x=v, ord=p.next()[1])
    if op == 'fence':
        return Instr('fence', None, None, dbg, ord=p.next()[1])
    if op == 'freeze':
        t = p.type()
        return Instr('cast', res, t, dbg, o='bitcast', sty=t, x=p.value(t))
    if op == 'va_arg':
        p.type()
        p.value(('ptr',))
        p.expect(',')
        return Instr('opaque', res, p.type(), dbg)
    raise IRError('unknown instruction ' + str(op))


class Module:
    count = 0

    def __init__(self, path, srcname=None):
        self.path = path
        txt = open(path, encoding='utf8', errors='replace').read()
        # symbols with internal linkage get a name of their own
        loc = set(re.findall(r'^@([-a-zA-Z$._0-9]+) = (?:dso_local )?(?:private|internal) ', txt, re.M))
        loc |= set(re.findall(r'^define (?:dso_local )?(?:private|internal) [^@\n]*@([-a-zA-Z$._0-9]+)\(', txt, re.M))
        if loc:
            Module.count += 1
            sfx = '$$%d' % Module.count
            txt = re.sub(r'@([-a-zA-Z$._0-9]+)', lambda m: m.group(0) + sfx if m.group(1) in loc else m.group(0), txt)
        self.types = {}
        self.funcs = {}
        self.globs = {}
        self.aliases = {}
        self.md = {}
        self._layout = {}
        self._locs = {}
        lines = txt.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                nm = self._gname(l)
                self.funcs[nm] = Function(self, nm, l, '\n'.join(lines[i + 1:j]))
                i = j + 1
                continue
            if l.startswith('declare '):
                nm = self._gname(l)
                self.funcs[nm] = Function(self, nm, l, None, True)
            elif l.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                if m:
                    nm = m.group(1)
                    if nm.startswith('"'):
                        nm = nm[1:-1]
                    self.types[nm] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                rest = m.group(2)
                if re.search(r'\balias\b', rest.split('"')[0]):
                    mm = re.search(r', ptr @("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest)
                    self.aliases[nm] = mm.group(1).strip('"')
                else:
                    self.globs[nm] = rest
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        self._gcache = {}
        self._tcache = {}
        self._dicls = None

    def _gname(self, l):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        nm = m.group(1)
        if nm.startswith('"'):
            nm = nm[1:-1]
        return nm

    # ---- globals
    def glob(self, name):
        """-> (type, init value or None, flags set)"""
        if name in self._gcache:
            return self._gcache[name]
        rest = self.globs[name]
        rest = re.sub(r', ![a-zA-Z_.]+ !\d+', '', rest)
        p = P(tokenize(rest))
        flags = set()
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('global', 'constant'):
                flags.add(v)
                p.next()
                break
            if k == 'word' and v == 'thread_local':
                flags.add('tls')
                p.next()
                if p.accept('('):
                    p.next()
                    p.expect(')')
                continue
            if k is None:
                raise IRError('global ' + name)
            flags.add(v)
            p.next()
        ty = p.type()
        init = None
        if p.peek()[0] is not None and p.peek()[1] != ',' and 'external' not in flags:
            init = p.value(ty)
        r = (ty, init, flags)
        self._gcache[name] = r
        return r

    # ---- layout
    def named(self, name):
        if name not in self._tcache:
            if name not in self.types:
                raise IRError('no type ' + name)
            self._tcache[name] = P(tokenize(self.types[name])).type()
        return self._tcache[name]

    def layout(self, t):
        """(size, align, field offsets or None)"""
        if t in self._layout:
            return self._layout[t]
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16), None)
        elif k == 'ptr' or k == 'fn':
            r = (8, 8, None)
        elif k == 'f':
            s = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16, 'bfloat': 2}[t[1]]
            r = (s, s, None)
        elif k == 'arr':
            s, a, _ = self.layout(t[2])
            r = (s * t[1], a, None)
        elif k == 'vec':
            s, a, _ = self.layout(t[2])
            r = (s * t[1], s * t[1], None)
        elif k == 'named':
            d = self.named(t[1])
            if d[0] == 'opaque':
                r = (1, 1, None)
            else:
                r = self.layout(d)
        elif k == 'st':
            off = 0
            al = 1
            offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]:
                    a = 1
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else:
            raise IRError('layout %r' % (t,))
        self._layout[t] = r
        return r

    def resolve(self, t):
        return self.named(t[1]) if t[0] == 'named' else t

    # ---- debug info
    def mdnode(self, i):
        return self.md.get(i, '')

    def mdfield(self, i, f):
        s = self.mdnode(i)
        m = re.search(r'[(, ]' + f + r': (?:!(\d+)|"((?:[^"\\]|\\.)*)"|([^,)]+))', s)
        if not m:
            return None
        if m.group(1):
            return int(m.group(1))
        if m.group(2) is not None:
            return m.group(2)
        return m.group(3)

    def loc(self, dbg):
        """(file, line) of a DILocation"""
        if dbg is None:
            return ('?', 0)
        if dbg in self._locs:
            return self._locs[dbg]
        line = int(self.mdfield(dbg, 'line') or 0)
        sc = self.mdfield(dbg, 'scope')
        fl = '?'
        seen = 0
        while isinstance(sc, int) and seen < 60:
            seen += 1
            f = self.mdfield(sc, 'file')
            if isinstance(f, int):
                fl = self.mdfield(f, 'filename') or '?'
                break
            sc = self.mdfield(sc, 'scope')
        r = (fl, line)
        self._locs[dbg] = r
        return r

    def di_classes(self):
        """qualified class name -> DICompositeType id (complete ones)"""
        if self._dicls is None:
            d = {}
            for i, s in self.md.items():
                if 'DICompositeType(' in s and ('DW_TAG_class_type' in s or 'DW_TAG_structure_type' in s or 'DW_TAG_union_type' in s or 'DW_TAG_enumeration_type' in s) and 'DIFlagFwdDecl' not in s:
                    ident = self.mdfield(i, 'identifier')
                    if ident:
                        d[ident] = i
            self._dicls = d
        return self._dicls

    def elements(self, i):
        """element ids of a composite"""
        e = self.mdfield(i, 'elements')
        if not isinstance(e, int):
            return []
        return [int(x) for x in re.findall(r'!(\d+)', self.mdnode(e))]

    def members(self, ident):
        """class members by _ZTS identifier -> [(name, byte offset, byte size, type id, flags text)] ; bases as '<base>'"""
        i = self.di_classes().get(ident)
        if i is None:
            return None
        out = []
        for e in self.elements(i):
            s = self.mdnode(e)
            if 'DW_TAG_member' in s and 'DIFlagStaticMember' not in s:
                out.append((self.mdfield(e, 'name') or '', int(self.mdfield(e, 'offset') or 0) // 8, int(self.mdfield(e, 'size') or 0) // 8, self.mdfield(e, 'baseType'), s))
            elif 'DW_TAG_inheritance' in s:
                out.append(('<base>', int(self.mdfield(e, 'offset') or 0) // 8, 0, self.mdfield(e, 'baseType'), s))
        return out

    def methods(self, ident):
        """[(name, linkageName, virtualIndex or None, text)]"""
        i = self.di_classes().get(ident)
        if i is None:
            return []
        out = []
        for e in self.elements(i):
            s = self.mdnode(e)
            if 'DISubprogram(' in s:
                vi = self.mdfield(e, 'virtualIndex')
                if 'DISPFlagVirtual' not in s and 'DISPFlagPureVirtual' not in s:
                    vi = None
                elif vi is None:
                    vi = '0'
                out.append((self.mdfield(e, 'name'), self.mdfield(e, 'linkageName'), int(vi) if vi is not None else None, s))
        return out

    def typename(self, i):
        """readable type name of a DIType"""
        seen = 0
        if not isinstance(i, int):
            return 'void'
        s = self.mdnode(i)
        nm = self.mdfield(i, 'name')
        b = self.mdfield(i, 'baseType')
        if 'DW_TAG_pointer_type' in s:
            return self.typename(b) + '*'
        if 'DW_TAG_reference_type' in s:
            return self.typename(b) + '&'
        if 'DW_TAG_rvalue_reference_type' in s:
            return self.typename(b) + '&&'
        if 'DW_TAG_const_type' in s:
            return 'const ' + self.typename(b)
        if 'DW_TAG_volatile_type' in s:
            return 'volatile ' + self.typename(b)
        if 'DW_TAG_typedef' in s:
            return self.typename(b)
        if 'DW_TAG_array_type' in s:
            return self.typename(b) + '[]'
        ident = self.mdfield(i, 'identifier')
        if ident and ident.startswith('_ZTS'):
            return demangle([ident])[0].replace('typeinfo name for ', '')
        return nm or '?'


def less(name):
    """a mangled instance of the operator< of the iterators of vectors and strings"""
    return name.startswith('_ZN9__gnu_cxxltI')

_dm = {}
FILT = next((x for x in ('/usr/bin/llvm-cxxfilt-18', '/usr/lib/llvm-18/bin/llvm-cxxfilt', '/usr/bin/llvm-cxxfilt', '/usr/bin/c++filt') if os.path.exists(x)), 'c++filt')

def demangle(names):
    todo = [n for n in names if n not in _dm]
    if todo:
        out = subprocess.run([FILT], input='\n'.join(todo), text=True, capture_output=True).stdout.split('\n')
        for a, b in zip(todo, out):
            # this template operator< is not operator<<
            _dm[a] = b.replace('operator<<', 'operator< <', 1) if less(a) else b
    return [_dm[n] for n in names]


OPTOK = ['operator<<=', 'operator>>=', 'operator<=>', 'operator<<', 'operator>>', 'operator->*', 'operator->', 'operator<=', 'operator>=', 'operator<', 'operator>', 'operator()', 'operator[]', 'operator new[]', 'operator delete[]', 'operator new', 'operator delete']

def canon(d):
    """demangled signature -> (canonical qualified name without template args / params / abi tags, template-arg text of the class, param text)"""
    d0 = d
    d = d.replace('[abi:cxx11]', '').replace('__cxx11::', '').replace('_V2::', '').replace('(anonymous namespace)', '{anon}')
    out = ''
    i = 0
    n = len(d)
    params = ''
    targs = []
    while i < n:
        m = None
        for o in OPTOK:
            if d.startswith(o, i) and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == '_')):
                m = o
                break
        if m:
            out += m
            i += len(m)
            if i < n and d[i] == ' ' and i + 1 < n and d[i + 1] == '<':
                i += 1
            continue
        # conversion operators: operator T() — keep the text up to the parameter list
        if d.startswith('operator ', i) and (i == 0 or d[i - 1] == ':'):
            j = i + 9
            depth = 0
            while j < n and not (d[j] == '(' and depth == 0):
                if d[j] == '<':
                    depth += 1
                elif d[j] == '>':
                    depth -= 1
                j += 1
            out += 'operator conv'
            targs.append(d[i + 9:j])
            i = j
            continue
        c = d[i]
        if c == '<':
            depth = 0
            j = i
            while j < n:
                if d.startswith('operator', j):
                    for o in OPTOK:
                        if d.startswith(o, j):
                            j += len(o)
                            break
                    else:
                        j += 8
                    continue
                if d[j] == '<':
                    depth += 1
                elif d[j] == '>' and d[j - 1] != '-':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            targs.append(d[i + 1:j])
            i = j + 1
            continue
        if c == '{':
            j = i
            depth = 0
            while j < n:
                if d[j] == '{':
                    depth += 1
                elif d[j] == '}':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            out += d[i:j + 1].replace(' ', '_')
            i = j + 1
            continue
        if c == '(':
            # parameter list (or enclosing function's list if followed by ::)
            depth = 0
            j = i
            while j < n:
                if d[j] == '(':
                    depth += 1
                elif d[j] == ')':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            rest = d[j + 1:]
            if rest.startswith('::') or rest.startswith(' const::') :
                k = rest.index('::')
                out += rest[k:k + 2]
                i = j + 1 + k + 2
                continue
            params = d[i + 1:j]
            break
        out += c
        i += 1
    # drop the return type: last space outside
    out = out.strip()
    nm = out
    if ' ' in out:
        k = out.rfind(' ')
        # keep 'operator new', 'operator delete', 'operator conv'
        m = re.search(r'(\S*operator (?:new|delete)(?:\[\])?|\S*operator conv)$', out)
        nm = m.group(1) if m else out[k + 1:]
    return nm, targs, params


class Program:
    """All modules together."""
    def __init__(self, mods):
        self.mods = mods
        self.defs = {}
        self.decls = {}
        self.alias = {}
        for m in mods:
            for n, f in m.funcs.items():
                if f.decl:
                    self.decls.setdefault(n, f)
                else:
                    self.defs.setdefault(n, f)
            for a, b in m.aliases.items():
                self.alias.setdefault(a, b)
        names = list(dict.fromkeys(list(self.defs) + list(self.decls) + list(self.alias)))
        dm = demangle([n.split('$$')[0] for n in names])
        self.dem = dict(zip(names, dm))
        self._canon = {}
        self._gl = {}
        for m in mods:
            for g in m.globs:
                if g not in self._gl or ' external ' in ' ' + self._gl[g].globs[g]:
                    self._gl[g] = m
        self._by = None

    def canon(self, name):
        r = self._canon.get(name)
        if r is None:
            d = self.dem.get(name)
            if d is None:
                d = demangle([name.split('$$')[0]])[0]
                self.dem[name] = d
            r = canon(d)
            self._canon[name] = r
        return r

    def fn(self, name):
        s = 0
        while name not in self.defs and name in self.alias and s < 5:
            name = self.alias[name]
            s += 1
        return self.defs.get(name)

    def by_canon(self, q):
        """mangled names of defined functions with this canonical qualified name"""
        if self._by is None:
            self._by = {}
            for n in self.defs:
                self._by.setdefault(self.canon(n)[0], []).append(n)
        return self._by.get(q, [])

    def globmod(self, g):
        return self._gl.get(g)

    def members(self, ident):
        best = None
        for m in self.mods:
            r = m.members(ident)
            if r is not None and (best is None or len(r) > len(best[1])):
                best = (m, r)
        return best

    def methods(self, ident):
        for m in self.mods:
            r = m.methods(ident)
            if r:
                return r
        return []
