"""Containers of known content: a model of std::vector, std::list, std::map, std::multimap, std::set that keeps every
element as an abstract object of its own, for scenarios that start from an empty container.
value of a container object: ('xc', kind, id, ((key, node), ...)); iterators: ('xi', id, position or node)"""
import re
from interp import addr, fresh, Limit
from models import Outcome, sget, cstr, stdthrow, sretargs, split_params

SEQ, ASC = ('vector', 'list'), ('map', 'multimap', 'set', 'multiset')
KIND = re.compile(r'^std::(?:__debug::|__cxx11::)?(vector|list|map|multimap|set|multiset)::([^:]+)$')
ITER = re.compile(r'^(?:std|__gnu_cxx)::(__normal_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|_List_iterator|_List_const_iterator)::([^:]+)$')

class Exact:
    def __init__(self, broken):
        self.broken = broken

    # ------------------------------------------------------------ objects
    def get(self, S, loc):
        v = S.obj.get(loc)
        return v if v is not None and v[0] == 'xc' else None

    def put(self, S, loc, kind, cid, els):
        S.obj[loc] = ('xc', kind, cid, tuple(els))
        S.ext[('xc', cid)] = loc

    def new(self, S, loc, kind, els=()):
        self.put(S, loc, kind, fresh()[1], els)

    def clone(self, S, els):
        out = []
        for k, n in els:
            m = ('XN', fresh()[1])
            self.cp(S, (m, 0), (n, 0))
            out.append((k, m))
        return tuple(out)

    def cp(self, S, d, s, size=None):
        (dr, do), (sr, so) = d, s
        if dr == sr:
            raise self.broken('a container element copied within one object')
        for o, v in list(S.mem.get(sr, {}).items()):
            if isinstance(o, int) and o >= so and (size is None or o < so + size):
                S.mem.setdefault(dr, {})[do + o - so] = v
        for (r, o), v in list(S.obj.items()):
            if r == sr and isinstance(o, int) and o >= so and (size is None or o < so + size):
                if v[0] == 'xc':
                    self.new(S, (dr, do + o - so), v[1], self.clone(S, v[3]))
                else:
                    S.obj[(dr, do + o - so)] = v

    # ------------------------------------------------------------ iterators
    def it(self, I, S, v):
        if isinstance(v, tuple) and v[0] == 'xi':
            return v
        if isinstance(v, tuple) and v[0] == '&':
            w = S.mem.get(addr(v)[0], {}).get(addr(v)[1])
            if w is not None and isinstance(w[1], tuple) and w[1][0] == 'xi':
                return w[1]
        return None

    def of(self, S, it):
        loc = S.ext.get(('xc', it[1]))
        c = self.get(S, loc) if loc is not None else None
        if c is None or c[2] != it[1]:
            raise self.broken('an iterator of a container that is gone')
        return loc, c

    def index(self, c, it):
        if isinstance(it[2], int):
            return it[2]
        for i, (k, n) in enumerate(c[3]):
            if n == it[2]:
                return i
        return len(c[3])

    def at(self, c, i):
        """the iterator of position i"""
        if c[1] == 'vector':
            return ('xi', c[2], i)
        return ('xi', c[2], c[3][i][1] if 0 <= i < len(c[3]) else 'end')

    # ------------------------------------------------------------ the hook
    def hook(self, I, S, ins, cn, name, args):
        m = KIND.match(cn)
        if m:
            return self.container(I, S, ins, m.group(1), m.group(2), name, args)
        m = ITER.match(cn)
        if m:
            return self.iterator(I, S, ins, m.group(2), name, args)
        if cn.startswith('std::reverse_iterator::'):
            return self.reverse(I, S, ins, cn.split('::')[-1], name, args)
        if cn.split('::')[-1] in ('operator==', 'operator!=', 'operator-', 'operator<') and len(args) == 2:
            x, y = self.it(I, S, args[0]), self.it(I, S, args[1])
            if x is None or y is None:
                return None
            op = cn.split('::')[-1]
            if x[1] != y[1]:
                raise self.broken('iterators of different containers compared')
            loc, c = self.of(S, x)
            i, j = self.index(c, x), self.index(c, y)
            return Outcome(S, {'operator==': int(i == j), 'operator!=': int(i != j), 'operator-': i - j, 'operator<': int(i < j)}[op])
        if cn in ('std::next', 'std::prev', 'std::advance', 'std::distance') and args:
            x = self.it(I, S, args[0])
            if x is None:
                return None
            loc, c = self.of(S, x)
            if cn == 'std::distance':
                return Outcome(S, self.index(c, self.it(I, S, args[1])) - self.index(c, x))
            d = args[1] if len(args) > 1 else 1
            if not isinstance(d, int):
                raise self.broken('an unknown distance')
            n = self.at(c, self.index(c, x) + (-d if cn == 'std::prev' else d))
            if cn == 'std::advance':
                I.write(S, args[0], 8, n)
                return Outcome(S, None)
            return Outcome(S, n)
        return None

    def iterator(self, I, S, ins, meth, name, args):
        _, targs, pt = I.prog.canon(name)
        dst, a = sretargs(ins, args)
        if meth in ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_List_iterator', '_List_const_iterator'):
            if len(a) == 2:
                v = self.it(I, S, a[1])
                if v is not None:
                    I.write(S, a[0], 8, v)
                    return Outcome(S, None)
            return None
        v = self.it(I, S, a[0])
        if v is None:
            return None
        loc, c = self.of(S, v)
        i = self.index(c, v)
        if meth == 'operator=':
            I.write(S, a[0], 8, self.it(I, S, a[1]))
            return Outcome(S, a[0])
        if meth in ('operator*', 'operator->'):
            if not 0 <= i < len(c[3]):
                I.emit(S, 'need', 'iterator', (len(c[3]), i), None, None, ins)
                return Outcome(S, ('&', ('XN', fresh()[1]), 0))
            return Outcome(S, ('&', c[3][i][1], 0))
        if meth in ('operator++', 'operator--'):
            n = self.at(c, i + (1 if meth == 'operator++' else -1))
            I.write(S, a[0], 8, n)
            return Outcome(S, a[0] if len(a) == 1 else v)
        if meth in ('operator+', 'operator-') and isinstance(a[1], int):
            return Outcome(S, self.at(c, i + (a[1] if meth == 'operator+' else -a[1])))
        if meth in ('operator+=', 'operator-=') and isinstance(a[1], int):
            I.write(S, a[0], 8, self.at(c, i + (a[1] if meth == 'operator+=' else -a[1])))
            return Outcome(S, a[0])
        if meth == '_M_const_cast':
            return Outcome(S, v)
        if meth == 'operator[]' and isinstance(a[1], int):
            return Outcome(S, ('&', c[3][i + a[1]][1], 0))
        raise self.broken('iterator operation %s' % meth)

    def reverse(self, I, S, ins, meth, name, args):
        dst, a = sretargs(ins, args)
        if meth == 'reverse_iterator' and len(a) == 2:
            v = self.it(I, S, a[1])
            if v is not None:
                I.write(S, a[0], 8, v)
                return Outcome(S, None)
            return None
        v = self.it(I, S, a[0])
        if v is None:
            return None
        loc, c = self.of(S, v)
        i = self.index(c, v)
        def give(x):
            if dst is not None:
                I.write(S, dst, 8, x)
                return Outcome(S, None)
            return Outcome(S, x)
        if meth == 'base':
            return give(v)
        if meth in ('operator*', 'operator->'):
            if not 1 <= i <= len(c[3]):
                I.emit(S, 'need', 'iterator', (len(c[3]), i - 1), None, None, ins)
                return Outcome(S, ('&', ('XN', fresh()[1]), 0))
            return Outcome(S, ('&', c[3][i - 1][1], 0))
        if meth in ('operator++', 'operator--'):
            I.write(S, a[0], 8, self.at(c, i - 1 if meth == 'operator++' else i + 1))
            return Outcome(S, a[0]) if len(a) == 1 else give(v)
        if meth == 'operator=':
            I.write(S, a[0], 8, self.it(I, S, a[1]))
            return Outcome(S, a[0])
        raise self.broken('reverse iterator operation %s' % meth)

    def elem(self, targs, kind):
        """(key type or None, value type)"""
        t = [ps for ps in (split_params(x) for x in targs) if len(ps) > 1 and ps[-1].startswith('std::allocator<')]
        ps = t[0] if t else []
        return (ps[0], ps[1]) if kind in ('map', 'multimap') and len(ps) > 1 else (None, ps[0] if ps else '')

    def simple(self, t):
        return t.endswith('*') or t in ('int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char')

    def key(self, I, S, kt, p, pt):
        if kt.startswith('std::basic_string'):
            t = sget(I, S, p) if 'basic_string' in pt else cstr(I, S, p)
            if t[0] != 'sl':
                if t[0] == 'cat' and all(x[0] == 'sl' for x in t[1]):
                    return b''.join(x[1] for x in t[1])
                return ('?', t)
            return t[1]
        return I.read(S, p, 8) if pt.endswith('&') else p

    def less(self, a, b):
        if isinstance(a, bytes) and isinstance(b, bytes) or isinstance(a, int) and isinstance(b, int):
            return a < b
        raise self.broken('the order of unknown keys')

    def node(self, I, S, kt, k, vt):
        n = ('XN', fresh()[1])
        if kt is not None:
            if kt.startswith('std::basic_string'):
                S.obj[(n, 0)] = ('str', ('sl', k))
            else:
                I.write(S, ('&', n, 0), 8, k)
        return n

    def voff(self, kt):
        return 0 if kt is None else (32 if kt.startswith('std::basic_string') else 8)

    def value(self, I, S, n, off, vt, src, pt):
        """stores the value given as argument src (of parameter type pt)"""
        if self.simple(vt):
            v = I.read(S, src, 8 if vt.endswith('*') or 'long' in vt else 4 if 'int' in vt else 1) if pt.endswith('&') else src
            I.write(S, ('&', n, off), 8 if vt.endswith('*') or 'long' in vt else 4 if 'int' in vt else 1, v)
        elif vt.startswith('std::basic_string') and 'char const*' in pt:
            S.obj[(n, off)] = ('str', cstr(I, S, src))
        else:
            self.cp(S, (n, off), addr(src))

    def container(self, I, S, ins, kind, meth, name, args):
        _, targs, pt = I.prog.canon(name)
        dst, a = sretargs(ins, args)
        if not a or not isinstance(a[0], tuple) or a[0][0] != '&':
            return None
        loc = addr(a[0])
        ps = split_params(pt)
        kt, vt = self.elem(targs, kind)
        if kind in ('set', 'multiset'):
            kt = vt
        R = lambda v=None: Outcome(S, v)
        if meth == kind:
            if len(ps) == 0 or 'allocator' in ps[0] and len(ps) == 1 and not ps[0].startswith('std::' + kind):
                self.new(S, loc, kind)
                return R()
            if re.match(r'std::(__cxx11::)?%s<' % kind, ps[0]):
                s = self.get(S, addr(a[1]))
                if s is None:
                    return None
                if '&&' in ps[0]:
                    self.put(S, loc, kind, s[2], s[3])
                    self.new(S, addr(a[1]), kind)
                else:
                    self.new(S, loc, kind, self.clone(S, s[3]))
                return R()
            if len(ps) >= 2 and self.it(I, S, a[1]) is not None:
                self.new(S, loc, kind)
                return self.insrange(I, S, loc, kind, len(self.get(S, loc)[3]), a[1], a[2])
            raise self.broken('constructor of a %s' % kind)
        c = self.get(S, loc)
        if c is None:
            return None
        els = c[3]
        I.emit(S, 'op', kind + '.' + meth, tuple(a), None, {'rw': 'x', 'n': len(els)}, ins)
        if meth.startswith('~'):
            S.obj.pop(loc)
            return R()
        if meth == 'size':
            return R(len(els))
        if meth == 'empty':
            return R(int(not els))
        if meth in ('begin', 'cbegin'):
            return R(self.at(c, 0))
        if meth in ('end', 'cend'):
            return R(self.at(c, len(els)))
        if meth in ('rbegin', 'crbegin', 'rend', 'crend'):
            # a reverse iterator holds the iterator behind the element it stands for
            v = self.at(c, len(els) if 'begin' in meth else 0)
            if dst is not None:
                I.write(S, dst, 8, v)
                return R()
            return R(v)
        if meth == 'clear':
            self.put(S, loc, kind, c[2], ())
            return R()
        if meth in ('reserve', 'shrink_to_fit'):
            return R()
        if meth == 'swap':
            d = self.get(S, addr(a[1]))
            if d is None:
                raise self.broken('swap with an unknown container')
            self.put(S, loc, kind, d[2], d[3])
            self.put(S, addr(a[1]), kind, c[2], c[3])
            return R()
        if meth == 'operator=':
            d = self.get(S, addr(a[1])) if isinstance(a[1], tuple) and a[1][0] == '&' else None
            if d is None:
                raise self.broken('assignment of an unknown container')
            if '&&' in pt:
                self.put(S, loc, kind, d[2], d[3])
                self.new(S, addr(a[1]), kind)
            else:
                self.new(S, loc, kind, self.clone(S, d[3]))
            return R(a[0])
        if kind in SEQ:
            if meth in ('push_back', 'emplace_back', 'push_front', 'emplace_front') and len(a) == 2:
                n = self.node(I, S, None, None, vt)
                self.value(I, S, n, 0, vt, a[1], ps[0] if ps else vt + '&')
                new = els + ((None, n),) if 'back' in meth else ((None, n),) + els
                self.put(S, loc, kind, c[2], new)
                return R(('&', n, 0) if meth.startswith('emplace') else None)
            if meth in ('pop_back', 'pop_front'):
                self.put(S, loc, kind, c[2], els[:-1] if meth == 'pop_back' else els[1:])
                return R()
            if meth in ('front', 'back') or meth in ('operator[]', 'at') and isinstance(a[1], int):
                i = {'front': 0, 'back': len(els) - 1}.get(meth)
                i = a[1] if i is None else i
                if not 0 <= i < len(els):
                    if meth == 'at':
                        return stdthrow(I, S, ins, '_ZTISt12out_of_range')
                    I.emit(S, 'need', meth, (len(els), i), None, None, ins)
                    return R(('&', ('XN', fresh()[1]), 0))
                return R(('&', els[i][1], 0))
            if meth == 'erase':
                i = self.index(c, self.it(I, S, a[1]))
                j = self.index(c, self.it(I, S, a[2])) if len(a) > 2 else i + 1
                self.put(S, loc, kind, c[2], els[:i] + els[j:])
                return R(self.at(self.get(S, loc), i))
            if meth in ('insert', 'emplace'):
                i = self.index(c, self.it(I, S, a[1]))
                if len(a) == 4 and self.it(I, S, a[2]) is not None:
                    return self.insrange(I, S, loc, kind, i, a[2], a[3])
                if len(a) == 3:
                    n = self.node(I, S, None, None, vt)
                    self.value(I, S, n, 0, vt, a[2], ps[1])
                    self.put(S, loc, kind, c[2], els[:i] + ((None, n),) + els[i:])
                    return R(self.at(self.get(S, loc), i))
            if meth == 'insert' and len(a) == 4 and isinstance(a[2], int) and 0 <= a[2] < 100 and ps[1].startswith('unsigned long'):
                i = self.index(c, self.it(I, S, a[1]))
                new = []
                for _ in range(a[2]):
                    n = self.node(I, S, None, None, vt)
                    self.value(I, S, n, 0, vt, a[3], ps[2])
                    new.append((None, n))
                self.put(S, loc, kind, c[2], els[:i] + tuple(new) + els[i:])
                return R(self.at(self.get(S, loc), i))
            if meth == 'assign' and len(a) == 3 and self.it(I, S, a[1]) is not None:
                self.put(S, loc, kind, c[2], ())
                return self.insrange(I, S, loc, kind, 0, a[1], a[2])
            raise self.broken('%s::%s' % (kind, meth))
        # ordered containers
        single = kind in ('map', 'set')
        cmp = [q for q in (split_params(x) for x in targs) if len(q) > 1 and q[-1].startswith('std::allocator<')]
        cmp = cmp[0][-2] if cmp and len(cmp[0]) == (4 if kind in ('map', 'multimap') else 3) else 'std::less<'
        if cmp.startswith('std::less<'):
            less = self.less
        elif cmp.startswith('std::greater<'):
            less = lambda x, y: self.less(y, x)
        else:
            raise self.broken('a %s ordered by %s' % (kind, cmp))

        def place(k):
            i = 0
            while i < len(els) and not less(k, els[i][0]):
                i += 1
            return i

        def find(k):
            if isinstance(k, tuple) and k[0] == '?':
                raise self.broken('an unknown key')
            for i, (x, n) in enumerate(els):
                if x == k:
                    return i
            return None
        if meth in ('find', 'count', 'contains', 'at', 'operator[]', 'lower_bound', 'upper_bound', 'equal_range') or meth == 'erase' and self.it(I, S, a[1]) is None:
            k = self.key(I, S, kt, a[1], ps[0])
            if isinstance(k, tuple) and k[0] == '?':
                # an unknown key: any of the elements, or none
                if meth not in ('find', 'count', 'contains', 'at'):
                    raise self.broken('an unknown key')
                outs = []
                # the outcome of an earlier search for the same key
                known = S.ext.get(('lookup', k[1]))
                for i in list(range(len(els))) + [None]:
                    if known is not None and known[0] != (els[i][0] if i is not None else None) and (known[0] is None or i is not None or any(e[0] == known[0] for e in els)):
                        continue
                    s = S.fork()
                    s.ext[('lookup', k[1])] = (els[i][0] if i is not None else None,)
                    I.emit(s, 'lookup', meth, (k[1], els[i][0] if i is not None else None), None, None, ins)
                    if meth == 'find':
                        outs.append(Outcome(s, self.at(c, i if i is not None else len(els))))
                    elif meth == 'at':
                        outs.append(Outcome(s, ('&', els[i][1], self.voff(kt))) if i is not None else stdthrow(I, s, ins, '_ZTISt12out_of_range'))
                    else:
                        outs.append(Outcome(s, int(i is not None)))
                return outs
            i = find(k)
            if meth == 'find':
                return R(self.at(c, i if i is not None else len(els)))
            if meth in ('count', 'contains'):
                return R(sum(1 for x, n in els if x == k))
            if meth == 'at':
                return R(('&', els[i][1], self.voff(kt))) if i is not None else stdthrow(I, S, ins, '_ZTISt12out_of_range')
            if meth == 'erase':
                self.put(S, loc, kind, c[2], [e for e in els if e[0] != k])
                return R(sum(1 for x, n in els if x == k))
            if meth == 'operator[]':
                if i is None:
                    n = self.node(I, S, kt, k, vt)
                    o = self.voff(kt)
                    if self.simple(vt):
                        I.write(S, ('&', n, o), 8 if vt.endswith('*') or 'long' in vt else 4 if 'int' in vt else 1, 0)
                    elif vt.startswith('std::basic_string'):
                        S.obj[(n, o)] = ('str', ('sl', b''))
                    elif re.match(r'std::(__cxx11::)?(vector|list|map|set)<', vt):
                        self.new(S, (n, o), re.match(r'std::(?:__cxx11::)?(\w+)<', vt).group(1))
                    else:
                        raise self.broken('a default element of type %s' % vt)
                    p = place(k)
                    self.put(S, loc, kind, c[2], els[:p] + ((k, n),) + els[p:])
                    return R(('&', n, o))
                return R(('&', els[i][1], self.voff(kt)))
            lo = next((j for j, (x, n) in enumerate(els) if not less(x, k)), len(els))
            hi = place(k)
            if meth == 'equal_range':
                return R(('agg', self.at(c, lo), self.at(c, hi)))
            return R(self.at(c, lo if meth == 'lower_bound' else hi))
        if meth == 'erase':
            i = self.index(c, self.it(I, S, a[1]))
            j = self.index(c, self.it(I, S, a[2])) if len(a) > 2 else i + 1
            nxt = self.at(c, j)
            self.put(S, loc, kind, c[2], els[:i] + els[j:])
            return R(nxt)
        if meth in ('insert', 'emplace', 'try_emplace', 'emplace_hint') and kind in ('map', 'multimap'):
            b = a[1:]
            q = list(ps)
            hint = bool(b) and self.it(I, S, b[0]) is not None
            if hint:
                b, q = b[1:], q[1:]
            if len(b) == 1:
                pr = re.match(r'std::pair<(.*)>', q[0])
                if not pr:
                    raise self.broken('%s::%s' % (kind, meth))
                f, s = split_params(pr.group(1))
                r, o = addr(b[0])
                k = self.key(I, S, kt, ('&', r, o) if 'basic_string' in f else I.read(S, b[0], 8), f)
                src = ('&', r, o + (32 if f.startswith('std::basic_string') else 8))
                if s.endswith('&') or s.endswith('&&'):
                    src = I.read(S, src, 8)
                vp = s.rstrip('&') + '&'
            elif len(b) == 2:
                k = self.key(I, S, kt, I.read(S, b[0], 8) if 'basic_string' not in q[0] and 'char const*' in q[0] and q[0].endswith('&') else b[0], q[0])
                src, vp = b[1], q[1]
                if vp.rstrip('&').replace(' const', '').strip() != vt and not (self.simple(vt) and self.simple(vp.rstrip('&').replace(' const', '').strip())):
                    raise self.broken('an element of type %s made from %s' % (vt, vp))
            else:
                raise self.broken('%s::%s' % (kind, meth))
            if isinstance(k, tuple) and k[0] == '?':
                raise self.broken('an unknown key')
            i = find(k)
            if single and i is not None:
                return R(self.at(c, i) if hint else ('agg', self.at(c, i), 0))
            n = self.node(I, S, kt, k, vt)
            self.value(I, S, n, self.voff(kt), vt, src, vp)
            p = place(k)
            self.put(S, loc, kind, c[2], els[:p] + ((k, n),) + els[p:])
            it = self.at(self.get(S, loc), p)
            return R(('agg', it, 1) if single and not hint else it)
        if meth in ('insert', 'emplace') and kind in ('set', 'multiset') and len(a) == 2:
            k = self.key(I, S, kt, a[1], ps[0])
            if isinstance(k, tuple) and k[0] == '?':
                raise self.broken('an unknown key')
            i = find(k)
            if single and i is not None:
                return R(('agg', self.at(c, i), 0))
            n = self.node(I, S, kt, k, vt)
            p = place(k)
            self.put(S, loc, kind, c[2], els[:p] + ((k, n),) + els[p:])
            it = self.at(self.get(S, loc), p)
            return R(('agg', it, 1) if single else it)
        raise self.broken('%s::%s' % (kind, meth))

    def insrange(self, I, S, loc, kind, i, f, l):
        x, y = self.it(I, S, f), self.it(I, S, l)
        if x is None or y is None or x[1] != y[1]:
            raise self.broken('an unknown range')
        sl, s = self.of(S, x)
        new = self.clone(S, s[3][self.index(s, x):self.index(s, y)])
        new = tuple((None, n) for k, n in new) if kind in SEQ else new
        c = self.get(S, loc)
        if kind not in SEQ:
            raise self.broken('a range inserted into a %s' % kind)
        self.put(S, loc, kind, c[2], c[3][:i] + new + c[3][i:])
        return Outcome(S, self.at(self.get(S, loc), i))
