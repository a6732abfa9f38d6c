#!/usr/bin/env python3
"""The public headers."""
import glob, json, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from concurrent.futures import ThreadPoolExecutor
from check import *
import build

FN = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'}

def run(src, opts, out=None):
    cmd = ['clang++'] + build.flags() + list(opts) + ['-w', '-x', 'c++', src] + (['-o', out] if out else [])
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

def layouts(path):
    """(class -> size and members, types in unnamed namespaces, mutable variables and strong definitions) of a unit"""
    node = {}
    types, strong, internal = [], [], []
    for l in open(path):
        if l[0] == '!':
            m = re.match(r'!(\d+) = (?:distinct )?!(\w+)?[({]', l)
            if m:
                node[m.group(1)] = l
        elif l.startswith('define ') or l[0] == '@':
            m = re.match(r'define (.*?)@("?)([^"(]+)\2\(', l) or re.match(r'()@("?)([^"=]+)\2 = ', l)
            if not m:
                continue
            name = m.group(3).strip()
            isf = l.startswith('define ')
            link = set((m.group(1) if isf else re.match(r'@\S+ = ((?:[\w()]+ )*)', l).group(1)).split())
            dbg = re.findall(r'!dbg !(\d+)', l)
            if link & {'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'available_externally', 'private', 'external', 'common'} or name.startswith('llvm.'):
                if not link & {'common'}:
                    continue
            if 'internal' in link:
                if not isf and 'constant' not in link:
                    internal.append((name, dbg))
            else:
                strong.append((name, dbg, isf))
    def field(l, k):
        m = re.search(r'\b%s: ("(?:[^"]*)"|!?[\w:]+)' % k, l)
        return m.group(1).strip('"').lstrip('!') if m else None
    def fileof(l):
        f = field(l, 'file') if l else None
        if f is None or f not in node:
            return ''
        return os.path.join(field(node[f], 'directory') or '', field(node[f], 'filename') or '')
    out, anon = {}, []
    for i, l in node.items():
        if 'DICompositeType' not in l or 'DIFlagFwdDecl' in l or not re.search(r'DW_TAG_(class|structure|union)_type', l):
            continue
        f = fileof(l)
        if not f.startswith(INC):
            continue
        s = field(l, 'scope')
        while s in node:
            if '!DINamespace(' in node[s] and field(node[s], 'name') is None and 'exportSymbols' not in node[s]:
                anon.append((field(l, 'name'), f, field(l, 'line')))
            s = field(node[s], 'scope')
        ident = field(l, 'identifier')
        if ident is None:
            continue
        els = node.get(field(l, 'elements'), '')
        mem = []
        for e in re.findall(r'!(\d+)', els.split('=', 1)[1] if '=' in els else ''):
            x = node.get(e, '')
            if 'DW_TAG_member' in x and 'DIFlagStaticMember' not in x or 'DW_TAG_inheritance' in x:
                mem.append((field(x, 'name') or 'base', int(field(x, 'offset') or 0), field(x, 'baseType') and typename(node, field, field(x, 'baseType'))))
        out[ident] = (field(l, 'size'), tuple(mem), f, field(l, 'line'))
    def place(dbg):
        for d in dbg:
            l = node.get(d, '')
            if 'DIGlobalVariableExpression' in l:
                l = node.get(field(l, 'var'), '')
            yield l, fileof(l), field(l, 'line')
    return out, anon, [(n, f, ln, isf) for n, d, isf in strong for l, f, ln in place(d)], [(n, f, ln, node.get(field(l, 'type'), '')) for n, d in internal for l, f, ln in place(d)]

def typename(node, field, t, depth=0):
    l = node.get(t, '')
    return field(l, 'identifier') or (field(l, 'tag') or '') + (field(l, 'name') or '') + (typename(node, field, field(l, 'baseType'), depth + 1) if field(l, 'baseType') and depth < 6 else '')

INC = os.path.join(build.SRC, 'include') + '/'

def docs(txt):
    dec, i = json.JSONDecoder(), 0
    while True:
        i = txt.find('{', i)
        if i < 0:
            return
        d, i = dec.raw_decode(txt, i)
        yield d

def body(c):
    hs = sorted(os.path.relpath(x, INC) for x in glob.glob(INC + '**/*.h', recursive=True))
    hs = [h for h in hs if not re.search(r'(_vc|_win|-win)\.h$', h)]
    if not hs:
        raise Broken('no public headers')
    d = build.tmpdir()
    def write(n, text):
        p = os.path.join(d, n)
        open(p, 'w').write(text)
        return p
    inc = lambda l: ''.join('#include <%s>\n' % h for h in l)
    IR = ['-S', '-emit-llvm', '-O0', '-g', '-fstandalone-debug', '-fno-eliminate-unused-debug-types', '-femit-all-decls', '-Xclang', '-disable-O0-optnone']
    jobs = {}
    for i, h in enumerate(hs):
        jobs['alone', h] = (write('alone%d.cpp' % i, inc([h, h])), IR)
    # classes the templates of the interface stand for
    inst = ''.join('inline void classes%d() { ::falcon::%s x; }\n' % (i, t) for i, (h, t) in enumerate((('falcon/singleton.h', 'Singleton<int>'), ('falcon/engine/pagedstack.h', 'PagedStack<int>'))) if h in hs)
    every = write('every.cpp', inc(hs) + inst)
    jobs['all', 'together'] = (every, IR)
    jobs['all', 'in reverse order'] = (write('reverse.cpp', inc(hs[::-1]) + inst), IR)
    for o in ('-DNDEBUG', '-DFALCON_MIN_LOG_LEVEL=0', '-DFALCON_MIN_LOG_LEVEL=5', '-UFALCON_ENGINE_EXPORTS', '-D_DEBUG', '-DFALCON_TEST_DONT_DEFINE_TEST'):
        jobs['all', 'with ' + o] = (every, IR + [o])
    with ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(lambda k=k, s=s, o=o: (run(s, o, os.path.join(d, 'u%d.ll' % list(jobs).index(k))), os.path.join(d, 'u%d.ll' % list(jobs).index(k)))) for k, (s, o) in jobs.items()}
        toks = ex.submit(lambda: run(every, ['-E']))
        ast = ex.submit(lambda: run(every, ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=falcon']))
        prog = ex.submit(lambda: c.load())
        res = {k: f.result() for k, f in fs.items()}
        toks, ast = toks.result(), ast.result()
        prog.result()
    # ------------------------------------------------------------ every header on its own
    okall = True
    for (k, h), (r, path) in res.items():
        m = re.search(r'^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stderr, re.M)
        what = 'the header %s does not compile on its own' % h if k == 'alone' else 'the headers do not compile %s' % h
        okall &= c.ob(r.returncode == 0, 'alone' if k == 'alone' else 'together', '%s: %s' % (what, m.group(3) if m else r.stderr[:200]), (m.group(1), m.group(2)) if m else None)
    if not okall:
        return
    # ------------------------------------------------------------ nothing defined twice, nothing different per source file
    ref = None
    n = 0
    for (k, h), (r, path) in sorted(res.items(), key=lambda x: x[0] != ('all', 'together')):
        lay, anon, strong, internal = layouts(path)
        for nm, f, ln in anon:
            c.ob(False, 'anonymous', 'class %s of a public header is another type in every source file' % nm, (f, ln))
        for nm, f, ln, isf in strong:
            c.ob(not f.startswith(INC), 'twice', '%s %s is defined in a public header and in every source file that includes it' % ('the function' if isf else 'the variable', nm), (f, ln))
        for nm, f, ln, t in internal:
            c.ob(not f.startswith(INC) or 'DW_TAG_const_type' in t, 'copies', 'the variable %s of a public header is another one in every source file' % nm, (f, ln))
        c.ob(True, '', '')
        if ref is None:
            ref = lay
            if len(ref) < 10:
                raise Broken('the classes of the headers')
        for ident, (size, mem, f, ln) in lay.items():
            n += 1
            if ident in ref:
                c.ob(ref[ident][:2] == (size, mem), 'layout', 'the class %s is not the same %s %s' % (ident, 'when its header is included alone' if k == 'alone' else 'when the headers are included', '' if k == 'alone' else h), (f, ln))
    # ------------------------------------------------------------ no header hides another
    seen, cur = {}, None
    for l in toks.stdout.split('\n'):
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m:
            cur = m.group(2)
        elif l.strip() and cur:
            seen[cur] = seen.get(cur, 0) + 1
    for i, h in enumerate(hs):
        a = run(os.path.join(d, 'alone%d.cpp' % i), ['-E'])
        own, cur = 0, None
        for l in a.stdout.split('\n'):
            m = re.match(r'# (\d+) "([^"]*)"', l)
            if m:
                cur = m.group(2)
            elif l.strip() and cur == INC + h:
                own += 1
        c.ob(seen.get(INC + h, 0) == own, 'hidden', 'the header %s is not read when the others are included as well' % h, (INC + h, 1))
    # ------------------------------------------------------------ everything declared is defined
    decl = {}
    state = {'file': ''}
    def walk(x, ctx, tmpl, access='public'):
        k = x.get('kind')
        loc = x.get('loc', {})
        for y in (loc, loc.get('expansionLoc', {}), loc.get('spellingLoc', {})):
            if 'file' in y:
                state['file'] = y['file']
            if 'line' in y:
                state['line'] = y['line']
        for y in (x.get('range', {}).get('begin', {}), x.get('range', {}).get('end', {})):
            for z in (y, y.get('expansionLoc', {}), y.get('spellingLoc', {})):
                if 'file' in z:
                    state['file'] = z['file']
                if 'line' in z:
                    state['line'] = z['line']
        pos = (state.get('file', ''), state.get('line', 0))
        if k in FN and not x.get('isImplicit') and not tmpl and access != 'private' and x.get('mangledName'):
            e = decl.setdefault(x['mangledName'], {'def': False, 'name': '::'.join(ctx + [x.get('name', '')]), 'at': pos})
            e['def'] |= any(y.get('kind') in ('CompoundStmt', 'CXXTryStmt') for y in x.get('inner', [])) or bool(x.get('pure')) or bool(x.get('explicitlyDeleted')) or bool(x.get('explicitlyDefaulted'))
        elif k == 'VarDecl' and not tmpl and x.get('storageClass') in ('static', 'extern') and x.get('mangledName') and len(ctx) and not x.get('inline') and not x.get('constexpr') and not ('init' in x and x.get('storageClass') == 'extern'):
            rec = state.get('rec', 0) > 0
            if rec or x.get('storageClass') == 'extern':
                decl.setdefault(x['mangledName'], {'def': False, 'name': '::'.join(ctx + [x.get('name', '')]), 'at': pos})
        named = k in ('NamespaceDecl', 'CXXRecordDecl') and 'name' in x
        if k == 'CXXRecordDecl':
            state['rec'] = state.get('rec', 0) + 1
        acc = 'private' if k == 'CXXRecordDecl' and x.get('tagUsed') == 'class' else 'public'
        for y in x.get('inner', []):
            if y.get('kind') == 'AccessSpecDecl':
                acc = y.get('access', acc)
            if k in FN and y.get('kind') not in FN:
                walk(y, ctx, True, acc)
            else:
                walk(y, ctx + [x['name']] if named else ctx, tmpl or 'Template' in (k or ''), acc)
        if k == 'CXXRecordDecl':
            state['rec'] -= 1
    for x in docs(ast.stdout):
        walk(x, [], False)
    if len(decl) < 50:
        raise Broken('the declarations of the headers')
    glob_ = set(c.P.defs)
    for mod in c.P.mods:
        glob_ |= defined(mod)
    for k, e in sorted(decl.items()):
        c.ob(e['def'] or k in glob_ or re.sub(r'([CD])1E', r'\g<1>2E', k) in glob_, 'undefined', '%s is declared but defined nowhere' % e['name'], e['at'])
    c.extra['headers'] = len(hs)
    c.extra['class_layouts_compared'] = n
    c.extra['declarations'] = len(decl)

def defined(mod):
    out = set()
    for l in open(mod.path):
        if l[0] == '@' or l.startswith('define '):
            m = re.match(r'@("?)([^"=\s]+)\1 = (.*)', l)
            if m and not re.match(r'((?:\w+ )*)external\b|extern_weak', m.group(3)):
                out.add(m.group(2))
    return out

main(Check('C35', 'every public header is compiled alone, twice, with all others in both orders and under the macros it regards; linkage, class layouts, unnamed namespaces and missing definitions are read from the IR, debug information and syntax tree', ['engine', 'fut'], 200), body)
