"""The logging system: roles found in the code, locations shared between threads."""
from check import *
from fal import *

UNITS = ['w_log.cpp', 'engine/logsystem.cpp', 'engine/logger.cpp', 'engine/logstream.cpp']
LS = 'falcon::LogSystem::'
LI = 'falcon::LogSystem::Listener::'
LG = 'falcon::Logger::'
LSL = 'falcon::LogStreamListener::'
W = 'wit::'

def last(p):
    return p.events[-1] if p.events else None

def held(e):
    return [l[0] for l in e.locks]

class Log:
    def __init__(self, c):
        self.c = c
        self.cache = {}
        self.size = None
        size = [e for p in self.runs(W + 'w_new_sys') for e in p.events if e.kind == 'new']
        if not size or not isinstance(size[0].args[0], int):
            raise Broken('size of the log system')
        self.size = size[0].args[0]
        t = set()
        for p in self.runs(LS + 'start'):
            for e in p.events:
                if e.kind == 'spawn':
                    t.add(e.name)
        if len(t) != 1 or list(t)[0] not in c.P.defs:
            raise Broken('the function of the logging thread')
        self.entry = t.pop()
        # the containers: roles
        self.pending = None
        pend = {addr(e.args[0]) for p in self.runs(LS + 'addListener') for e in p.events if e.kind == 'op' and e.x.get('rw') == 'w' and addr(e.args[0])[0] == ('P', 'this')}
        if len(pend) != 1:
            raise Broken('the container of new listeners')
        self.pending = pend.pop()
        q = {addr(e.args[0]) for p in self.runs(LS + 'log', 'Message') for e in p.events if e.kind == 'op' and '.push' in e.name and addr(e.args[0])[0] == ('P', 'this')}
        if len(q) != 1:
            raise Broken('the message queue')
        self.queue = q.pop()
        sl = {}
        for w in ('w_onMessage', 'w_v_enable', 'w_v_detach'):
            s = {e.name for p in self.runs(W + w) for e in p.events if e.kind == 'vcall'}
            if len(s) != 1:
                raise Broken('virtual function called by %s' % w)
            sl[w] = s.pop()
        self.onMessage, self.vEnable, self.vDetach = sl['w_onMessage'], sl['w_v_enable'], sl['w_v_detach']

    def offset(self, w):
        """position of a member, from the witness that returns a reference to it"""
        v = {addr(p.ret) for p in self.runs(W + w)}
        if len(v) != 1 or list(v)[0][0][0] != 'P':
            raise Broken('position of the member read by %s' % w)
        return v.pop()[1]

    def fn(self, q, part=None):
        r = [n for n in self.c.fn(q) if part is None or part in n]
        return self.c.fn1(q, lambda n: part is None or part in n) if len(r) != 1 else r[0]

    def param(self, q, i, part=None):
        """name of parameter i (0 is this) of a function"""
        return self.c.P.defs[self.fn(q, part)].params()[i][2]

    def log5(self, **o):
        l = [n for n in self.c.fn(LS + 'log') if 'Message' not in n]
        if len(l) != 1:
            raise Broken('LogSystem::log')
        return self.runs1(l[0], **o)

    def logM(self, **o):
        return self.runs(LS + 'log', 'Message', **o)

    def runs(self, q, part=None, **o):
        return self.runs1(self.fn(q, part), **o)

    def runs1(self, n, **o):
        k = (n, tuple(sorted((a, str(b)) for a, b in o.items())))
        if k not in self.cache:
            self.cache[k] = self.c.run(n, **o)[0]
        return self.cache[k]

    def thread(self, merge=None, **o):
        if merge is None and not o:
            if not hasattr(self, '_thr'):
                self._thr = self.c.run(self.entry, merge=lambda S: (), maxpaths=200000, maxsteps=4000000)[0]
            return self._thr
        merge = merge or (lambda S: ())
        return self.c.run(self.entry, merge=merge, maxpaths=200000, maxsteps=4000000, **o)[0]

    @property
    def active(self):
        """the container whose elements the logging thread calls"""
        if not hasattr(self, '_act'):
            r = set()
            for p in self.thread():
                for e in p.events:
                    if e.kind == 'vcall' and e.name == self.onMessage:
                        t = e.args[0]
                        if t[0] == 'ld' and t[1][0] == 'el' and t[1][1] is not None and t[1][1][0] == ('P', 'this'):
                            r.add(t[1][1])
            if len(r) != 1:
                r = {(('P', 'this'), o) for o in self.lst_offs()} - {self.pending}
            if len(r) != 1:
                raise Broken('the container of active listeners')
            self._act = r.pop()
        return self._act

    def one(self, na, np, **o):
        """the logging thread from its start to the point where it is done with one message, with na active and np new listeners"""
        def until(S, fid, h):
            t, taken, done, waits = S.trace[0], False, None, 0
            while t is not None:
                e = t[1]
                waits += e.kind == 'wait'
                if done is None and e.kind == 'loop' and e.name == h and e.args[0] == fid:
                    done = taken
                if e.kind == 'op' and e.args and addr(e.args[0]) == self.queue and e.name.split('.')[-1] in ('pop_front', 'pop_back', 'erase'):
                    taken = True
                t = t[0]
            return done or waits > 1
        def size(I, S, l):
            k = na if l == self.active else np if l == self.pending else None
            return None if k is None else ('cont', ('c0', l, 0), k, None)
        return self.c.run(self.entry, cont_default=size, unroll=na + np + 4, until=until, maxpaths=60000, maxsteps=4000000, local_ops=True, **o)[0]

    def threadptr(self):
        """the member that tells whether the thread runs: written with the new thread object by start()"""
        if not hasattr(self, '_tp'):
            r = set()
            for p in self.runs(LS + 'start'):
                t = None
                for e in p.events:
                    if e.kind == 'spawn':
                        t = e.args[0]
                        if addr(t)[0] == ('P', 'this'):
                            r.add(addr(t)[1])
                    if e.kind == 'wr' and t is not None and e.args[1] == t and addr(e.args[0])[0] == ('P', 'this'):
                        r.add(addr(e.args[0])[1])
                    if e.kind == 'op' and t is not None and e.x.get('rw') == 'w' and addr(e.args[0])[0] == ('P', 'this') and e.name.split('.')[0] in ('thread', 'unique_ptr', 'shared_ptr'):
                        r.add(addr(e.args[0])[1])
            if len(r) != 1:
                raise Broken('where the log system keeps its thread')
            self._tp = r.pop()
        return self._tp

    def flags(self):
        """members that stop() changes and the thread looks at: {offset: (size, values written)}"""
        if not hasattr(self, '_fl'):
            T, wr, rd = ('P', 'this'), {}, {}
            for p in self.runs(LS + 'stop'):
                for e in p.events:
                    if e.kind == 'wr' and addr(e.args[0])[0] == T and addr(e.args[0])[1] != self.threadptr():
                        wr.setdefault(addr(e.args[0])[1], set()).add(e.args[1])
            for p in self.thread():
                for e in p.events:
                    if e.kind == 'rd' and addr(e.args[0])[0] == T:
                        rd[addr(e.args[0])[1]] = e.x['size']
            self._fl = {o: (rd[o], wr[o]) for o in wr if o in rd}
        return self._fl

    def keepflags(self, I, S):
        return [eq(I.read(S, ptr(('P', 'this'), o), n), 0) for o, (n, w) in self.flags().items()]

    def keepsize(self, I, S, *locs):
        return [eq(models.cont(I, S, ptr(*l))[2], 0) for l in locs if l]

    def stopped(self, p, i, roots=(('P', 'this'),)):
        """event i of the path shows that the thread does not run (any more)"""
        e = p.events[i]
        if e.kind == 'join':
            return True
        if e.kind in ('rd', 'op') and addr(e.args[0]) and addr(e.args[0])[1] == self.threadptr() and e.args[0][1][0] == 'P':
            v = e.args[1] if e.kind == 'rd' else e.ret
            return v is not None and truth(p.facts, eq(v, 0)) is True
        return False

    # ------------------------------------------------------------ locations
    def listeners(self, loc):
        return loc in (self.pending, self.active)

    def cls(self, root, pm, pub=()):
        """the kind of shared object a root denotes: Sys, Lst, Msg, ... or None (private)"""
        k = root[0]
        if k == 'P':
            return pm.get(root[1])
        if k == 'G':
            if 'instanceEvE9' in root[1] or root[1] in pm.get('globals', ()):
                return 'Sys'
            return 'G:' + root[1]
        if k == 'el' and root[1] is None:
            return None
        if k == 'el':
            return self.cls(root[1][0], pm, pub)
        if k == 'N':
            return 'Lst' if root in pub else None
        if k == 'S' and isinstance(root[1], tuple) and root[1][0] == 'ld':
            b, off = root[1][1], root[1][2]
            if b[0] == 'el':
                loc = b[1]
                if loc is None:
                    return None
                if self.cls(loc[0], pm, pub) == 'Sys':
                    return 'Lst' if self.is_listeners(loc[1]) else 'Msg'
                if loc[0][0] == 'A':
                    # a local container: elements taken from the shared ones
                    return 'Lst'
                return None
            c = self.cls(b, pm, pub)
            if c == 'Sys':
                return 'Lst' if off >= self.size else 'Own'
            if c == 'Lst':
                return 'Via%s' % off
        return None

    def is_listeners(self, off):
        return off in self.lst_offs()

    def lst_offs(self):
        if not hasattr(self, '_lo'):
            r = {self.pending[1]}
            for p in self.thread():
                for e in p.events:
                    if e.kind == 'op' and e.name in ('range.append', 'range.prepend', 'range.insert'):
                        a = addr(e.args[0])
                        if a and a[0] == ('P', 'this'):
                            r.add(a[1])
                    # containers whose elements receive the message
                    if e.kind == 'vcall' and e.name == self.onMessage:
                        t = e.args[0]
                        if t[0] == 'ld' and t[1][0] == 'el':
                            if t[1][1] and t[1][1][0] == ('P', 'this'):
                                r.add(t[1][1][1])
            self._lo = r
        return self._lo

    def place(self, p, pm, pub=()):
        """(class, offset) of an address, or None when it is private"""
        a = addr(p) if not (isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], tuple)) else p
        if a is None or a[0] is None:
            return None
        root, off = a
        if root[0] == 'el':
            return self.place(root[1], pm, pub) if root[1] is not None else None
        c = self.cls(root, pm, pub)
        if c is None:
            return None
        return (c, off if isinstance(off, int) else '?')

    def places(self, e, pm, pub=()):
        """[(place, 'r'|'w', atomic?, size)] touched by an event"""
        out = []
        def put(p, rw, at=False, n=1):
            l = self.place(p, pm, pub)
            if l is not None:
                out.append((l, rw, at, n))
        k = e.kind
        if k == 'rd':
            put(e.args[0], 'r', e.x['atomic'] is not None, e.x['size'])
        elif k == 'wr':
            put(e.args[0], 'w', e.x['atomic'] is not None, e.x['size'])
        elif k == 'atomic' and e.name != 'fence':
            put(e.args[0], 'r' if e.name == 'cas' and not e.x['ok'] else 'w', True, e.x.get('size') or 1)
        elif k == 'op':
            rw = e.x.get('rw')
            if e.args and isinstance(e.args[0], tuple):
                put(e.args[0], 'r' if rw == 'r' else 'w')
            if rw != 'r':
                # the source of an assignment is read
                for a in e.args[1:]:
                    if isinstance(a, tuple) and a and a[0] == '&' and 'string' in e.name:
                        put(a, 'r')
        elif k in ('deref', 'itmove'):
            it = e.args[0] if k == 'deref' else e.args[1]
            if isinstance(it, tuple) and it and it[0] == 'it':
                put(it[1], 'r')
        elif k in ('copy', 'memcpy'):
            if len(e.args) > 1:
                put(e.args[0], 'w', False, e.args[2] if len(e.args) > 2 and isinstance(e.args[2], int) else 1)
                put(e.args[1], 'r', False, e.args[2] if len(e.args) > 2 and isinstance(e.args[2], int) else 1)
        elif k == 'sp.release':
            if e.x and e.x.get('loc'):
                put(e.x['loc'], 'w')
        elif k == 'sp.adopt':
            if e.x and e.x.get('loc'):
                put(e.x['loc'], 'w')
        return out

    def published(self, p):
        """heap objects that are listeners (their virtual table pointer is that of a listener class): those shared through the list"""
        r = {}
        pushed = None
        for i, e in enumerate(p.events):
            if e.kind == 'wr' and isinstance(e.args[1], tuple) and e.args[1][0] == '&' and e.args[1][1][0] == 'G' and '_ZTV' in e.args[1][1][1] and 'Listener' in e.args[1][1][1]:
                a = addr(e.args[0])
                if a[0][0] == 'N' and a[1] == 0:
                    r.setdefault(a[0], None)
            if e.kind == 'op' and '.push' in e.name and pushed is None:
                a = addr(e.args[0])
                if a[0][0] in 'PG' and self.is_listeners(a[1]):
                    pushed = i
        return r, pushed

    def locks(self, e, pm, pub=()):
        r = set()
        for (loc, mode) in e.locks:
            l = self.place(loc, pm, pub)
            if l is not None:
                r.add(l)
        return r

    # ------------------------------------------------------------ contexts
    def entries(self, faults=False):
        """[(context, name, paths, class of the parameters)]: A any thread, C the configuring thread, T the logging thread,
        I construction, D destruction"""
        fo = {'new_throw': True} if faults else {}
        Sy, L = {'this': 'Sys'}, {'this': 'Lst'}
        out = []
        out.append(('A', 'log(...)', self.log5(**fo), Sy))
        out.append(('A', 'log(Message*)', self.logM(**fo), {'this': 'Sys', self.param(LS + 'log', 1, 'Message'): 'Msg'}))
        for f in ('addListener', 'start', 'stop', 'getDiags'):
            out.append(('A', LS + f, self.runs(LS + f, **fo), Sy))
        out.append(('A', LS + 'level', self.runs(W + 'w_sys_level_set', **fo), {'l': 'Sys'}))
        out.append(('A', LS + 'level', self.runs(W + 'w_sys_level_get', **fo), {'l': 'Sys'}))
        out.append(('A', LS + 'levelToString', self.runs(LS + 'levelToString', **fo), {}))
        for w in ('w_own', 'w_share', 'w_writeOn', 'w_category_set', 'w_category_get', 'w_enable', 'w_detach', 'w_level_set', 'w_level_get', 'w_isEnabled', 'w_isDetached'):
            out.append(('A', w[2:], self.runs(W + w, **fo), {'l': 'Lst'}))
        out.append(('A', LI + 'checkCategory', self.runs(LI + 'checkCategory', **fo), L))
        for w in ('w_setCategory', 'w_setTempCategory', 'w_getCategory', 'w_commit', 'w_setLevel', 'w_setFile', 'w_setLine', 'w_compose', 'w_default'):
            out.append(('A', w[2:], self.runs(W + w, **fo), {'l': 'Sys'}))
        for w in ('w_log3', 'w_logcat', 'w_block_break', 'w_logcategory', 'w_instance'):
            out.append(('A', w[2:], self.runs(W + w, **fo), {}))
        out.append(('C', LG + 'categoryFilter', self.runs(LG + 'categoryFilter', **fo), Sy))
        out.append(('C', LG + 'clearFilter', self.runs(LG + 'clearFilter', **fo), Sy))
        out.append(('T', 'the logging thread', self.thread(), Sy))
        out.append(('T', LSL + 'onMessage', self.runs(LSL + 'onMessage', **fo), L))
        out.append(('T', 'LogProxyListener::onMessage', self.runs(W + 'w_proxy_msg', **fo), {'p': 'Lst'}))
        out.append(('I', LS + 'LogSystem', self.runs(LS + 'LogSystem', 'C2', **fo), Sy))
        out.append(('I', LG + 'Logger', self.runs(LG + 'Logger', 'C2', **fo), Sy))
        out.append(('D', LS + '~LogSystem', self.runs(LS + '~LogSystem', 'D2', **fo), Sy))
        out.append(('D', '~Logger', self.runs(W + 'w_delete_logger', **fo), {'l': 'Sys'}))
        return out

class Lists:
    """the elements of some containers, followed through the operations of one path with shapes of a known size"""
    def __init__(self, **init):
        self.l = {}

    def set(self, loc, names):
        self.l[loc] = list(names)

    def names(self, it, it2=None):
        """elements between two iterators"""
        l = self.l.get(it[1])
        if l is None or not isinstance(it[3], int) or it2 is not None and (it2[1] != it[1] or not isinstance(it2[3], int)):
            return None
        return l[it[3]:it2[3]] if it2 is not None else l[it[3]:it[3] + 1]

    def who(self, t):
        """element a pointer was read from"""
        if isinstance(t, tuple) and t and t[0] == 'ld' and t[1][0] == 'el' and t[2] == 0:
            return self.el(t[1])
        return None

    def el(self, r):
        l = self.l.get(r[1])
        return l[r[3]] if l is not None and isinstance(r[3], int) and 0 <= r[3] < len(l) else None

    def step(self, e):
        if e.kind != 'op' or not e.args:
            return
        loc = addr(e.args[0]) if isinstance(e.args[0], tuple) else None
        if loc is None:
            return
        k = e.name.split('.')[-1]
        if k == 'copyfrom' or e.x.get('rw') == 'r':
            if k == 'copyfrom':
                self.src = loc
            return
        cont = e.name.split('.')[0] in models.CONT
        if cont and k in models.CONT and (e.x.get('rw') == 'w' or loc in self.l):
            # constructed as a copy
            s = addr(e.args[1]) if len(e.args) > 1 and isinstance(e.args[1], tuple) else None
            self.l[loc] = list(self.l[s]) if s in self.l and self.l[s] is not None else None if len(e.args) > 1 else []
            return
        if cont and e.x.get('rw') == 'init':
            self.l[loc] = []
            return
        if loc not in self.l:
            return
        l = self.l[loc]
        if k in ('clear', 'movefrom'):
            self.l[loc] = []
        elif k == 'swap':
            if len(e.args) > 1:
                o = addr(e.args[1])
                self.l[loc], self.l[o] = self.l.get(o), l
        elif k in ('operator=', 'assign') and len(e.args) > 1:
            s = addr(e.args[1]) if isinstance(e.args[1], tuple) else None
            self.l[loc] = list(self.l[s]) if self.l.get(s) is not None else None
        elif l is None:
            pass
        elif k == 'prepend':
            n = self.names(e.x['first'], e.x['last'])
            self.l[loc] = n[::-1] + l if n is not None else None
        elif k == 'append' or k == 'insert' and 'first' in e.x:
            n = self.names(e.x['first'], e.x['last'])
            at = len(l) if k == 'append' else e.x['it'][3]
            self.l[loc] = l[:at] + n + l[at:] if n is not None and isinstance(at, int) else None
        elif k in ('push_back', 'push_front', 'insert') or k.startswith('push'):
            w = self.who(e.x.get('v'))
            a = addr(e.args[-1]) if isinstance(e.args[-1], tuple) else None
            if w is None and a is not None and a[0][0] == 'el':
                w = self.el(a[0])
            self.l[loc] = [w or '?'] + l if k == 'push_front' else l + [w or '?'] if k.startswith('push') else None
        elif k == 'pop_front':
            self.l[loc] = l[1:]
        elif k == 'pop_back':
            self.l[loc] = l[:-1]
        elif k == 'erase' and isinstance(e.x['it'][3], int):
            i = e.x['it'][3]
            j = i + 1 if e.x.get('it2') is None else e.x['it2'][3]
            self.l[loc] = l[:i] + l[j:] if isinstance(j, int) else None
        elif k in ('shrink_to_fit', 'reserve'):
            pass
        else:
            self.l[loc] = None

class Fold:
    """a monitor over the trace of a state: folded once over the shared prefix"""
    def __init__(self, init, step):
        self.init, self.step = init, step
        self.cache = {}

    def at(self, S):
        t, todo = S.trace, []
        while t is not None and id(t) not in self.cache:
            todo.append(t)
            t = t[0]
        st = self.cache[id(t)][1] if t is not None else self.init
        for t in reversed(todo):
            st = self.step(st, t[1])
            self.cache[id(t)] = (t, st)
        return st

    def along(self, p):
        """[(event, state before, state after)]"""
        st, out = self.init, []
        for e in p.events:
            n = self.step(st, e)
            out.append((e, st, n))
            st = n
        return out

def inner(ev, i, pred):
    return [j for j in range(i, len(ev)) if pred(ev[j])]

def member(m, w, what, setter=None):
    s = {addr(e.args[0])[1] for p in m.runs(W + w) for e in p.events if (e.kind == 'rd' or e.kind == 'op' and e.name.startswith('string.')) and addr(e.args[0])[0] == ('P', 'l')}
    if setter and len(s) > 1:
        s &= {addr(e.args[0])[1] for p in m.runs(W + setter) for e in p.events if e.kind in ('wr', 'atomic') and addr(e.args[0])[0] == ('P', 'l')}
    if len(s) != 1:
        raise Broken('where a listener keeps ' + what)
    return s.pop()

LOGGER = ('P', 'the-logger')

def stdhook(throws=False):
    """Logger::instance() is one fixed object; LogSystem::log(file, line, level, category, message) is an event; body() may throw"""
    def h(I, S, ins, cn, name, args):
        if cn == LG + 'instance':
            return models.Outcome(S, ptr(LOGGER, 0))
        if cn == LS + 'log' and len(args) == 6:
            I.emit(S, 'logcall', '', tuple(args), None, {'file': models.sget(I, S, args[1]), 'line': args[2], 'level': args[3], 'cat': models.sget(I, S, args[4]), 'text': models.sget(I, S, args[5])}, ins)
            return models.Outcome(S, None)
        if throws and cn == W + 'body':
            s2 = S.fork()
            I.emit(S, 'ext', cn, args, None, {'m': name}, ins)
            I.emit(s2, 'ext', cn, args, None, {'m': name, 'threw': True}, ins)
            return [models.Outcome(S, None), models.stdthrow(I, s2, ins, '_ZTISt13runtime_error')]
        return None
    return h

class Stmt:
    """the state of the message a thread composes: which global holds what"""
    def __init__(self, c, P=None):
        self.c, self.P = c, P or c.P
        def written(w):
            r = set()
            for p in self.runs(w):
                for e in p.events:
                    if e.kind == 'wr' or e.kind == 'op' and e.x.get('rw') == 'w':
                        r.add(addr(e.args[0]))
            return r
        def one(w, what):
            r = {x for x in written(w) if x[0][0] != 'A'}
            if not r and not any(e.kind in ('ext', 'vcall') for p in self.runs(w) for e in p.events):
                self.c.ob(False, 'set', '%s() keeps nothing: %s is lost' % (w[2:], what))
            if len(r) != 1:
                raise Broken('where a thread keeps ' + what)
            return r.pop()
        self.line, self.file, self.level = one('w_setLine', 'the line of its message'), one('w_setFile', 'the file of its message'), one('w_setLevel', 'the level of its message')
        self.cat, self.temp = one('w_setCategory', 'its category'), one('w_setTempCategory', 'its temporary category')
        r = {addr([e for e in p.events if e.kind == 'ext' and e.name == W + 'operator<<'][0].args[0]) for p in self.runs('w_compose') if any(e.kind == 'ext' and e.name == W + 'operator<<' for e in p.events)}
        if len(r) != 1:
            raise Broken('where a thread composes its message')
        self.comp = r.pop()
        self.roles = {'line': self.line, 'file': self.file, 'level': self.level, 'category': self.cat, 'temporary category': self.temp, 'text': self.comp}

    def runs(self, w, throws=False):
        if not hasattr(self, '_c'):
            self._c = {}
        if (w, throws) not in self._c:
            self._c[(w, throws)] = self.c.run(self.c.fn1(W + w, P=self.P), P=self.P, hook=stdhook(throws), unroll=4)[0]
        return self._c[(w, throws)]

    def text(self, loc):
        return ('sval', loc[0], loc[1], (0, 0))

    def ready(self, p):
        """problems of the state the path leaves for the next message"""
        out = []
        S, I = p.st, p.I
        t = models.sget(I, S, ptr(*self.temp))
        if t != ('sl', b'') and truth(p.facts, eq(models.slen(t), 0)) is not True and not any(truth(p.facts, x) is True for x in eqs(p, t)):
            out.append('its temporary category')
        if S.obj.get(self.comp) != ('oss', ()):
            out.append('its text')
        fresh_, clear, fmt = set(), False, set()
        for e in p.events:
            if e.kind == 'ios' and e.name in ('basic_ios', 'ios_base', 'basic_ostream'):
                fresh_.add(addr(e.args[0]))
            if e.kind in ('ext', 'out') and (e.kind == 'out' and addr(e.args[0]) == self.comp and e.args[1][0] != 'm' or e.name == W + 'operator<<'):
                clear, fmt = False, set()
            if e.kind == 'ios' and e.x and e.x.get('loc') == self.comp or e.kind == 'ios' and e.name in ('oss.operator=', 'oss.swap') and addr(e.args[0]) == self.comp:
                if e.name == 'clear' and (len(e.args) < 2 or e.args[1] == 0):
                    clear = True
                elif e.name == 'copyfmt' and addr(e.args[1])[0][0] == 'A':
                    fmt |= {'flags', 'fill', 'precision', 'width'}
                elif e.name in ('oss.operator=', 'oss.swap') and addr(e.args[1])[0][0] == 'A':
                    clear, fmt = True, {'flags', 'fill', 'precision', 'width'}
                elif e.name in ('flags', 'fill', 'precision', 'width') and len(e.args) > 1 and isinstance(e.args[1], int):
                    fmt.add(e.name)
        if not clear:
            out.append('its error state')
        if len(fmt) < 4 and not {'flags', 'fill', 'precision'} <= fmt:
            out.append('its number format')
        return out

def eqs(p, t):
    """conditions of a path that compare a text with the empty one"""
    out = []
    def walk(x):
        if isinstance(x, tuple):
            if x[:2] == ('B', 'seq') and t in x and ('sl', b'') in x:
                out.append(x)
            for y in x:
                walk(y)
    for e in p.events:
        if e.kind == 'if':
            walk(e.name)
    return out
