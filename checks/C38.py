#!/usr/bin/env python3
"""Initialisation: no constructor leaves a scalar field without a value, no function uses a variable before it has one."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from check import *
import build

UNITS = ['engine', 'fut', 'w_stack.cpp', 'w_log.cpp', 'w_locks.cpp', 'w_item.cpp', 'w_single.cpp', 'w_fut.cpp', 'w_init.cpp']

def field(l, k):
    m = re.search(r'\b%s: ("(?:[^"]*)"|!?[\w:|]+)' % k, l)
    return m.group(1).strip('"').lstrip('!') if m else None

def constructors(mod):
    """(name of the function, class, its scalar fields as (offset, size, name), position) of every constructor of a unit"""
    node, defs = {}, []
    for l in open(mod.path):
        if l[0] == '!':
            m = re.match(r'!(\d+) = (?:distinct )?!?(\w+)?', l)
            if m:
                node[m.group(1)] = l
        elif l.startswith('define '):
            m, d = re.search(r'@("?)([^"(]+)\1\(', l), re.search(r'!dbg !(\d+)', l)
            if m and d and re.search(r'C[12]I?\d*\w*E', m.group(2)):
                defs.append((m.group(2), d.group(1), bool(re.match(r'define (dso_local )?(internal|private)', l))))
    def file(l):
        f = node.get(field(l, 'file') or '', '')
        return os.path.join(field(f, 'directory') or '', field(f, 'filename') or '')
    def scalars(t, base, path, depth=0):
        l = node.get(t, '')
        while re.search(r'DW_TAG_(typedef|const_type|volatile_type|atomic_type)', l):
            t = field(l, 'baseType')
            l = node.get(t, '')
        if 'DIBasicType' in l or re.search('DW_TAG_(pointer|reference|rvalue_reference|enumeration|ptr_to_member)_type', l):
            yield base, int(field(l, 'size') or 64), path
        elif re.match(r'atomic<', field(l, 'name') or '') and 'DW_TAG_' in l and int(field(l, 'size') or 64) <= 64:
            yield base, int(field(l, 'size') or 64), path
        elif not file(l).startswith(build.REPO + '/') or depth > 8:
            return
        elif 'DW_TAG_union_type' in l:
            yield base, int(field(l, 'size') or 8), path
        elif re.search('DW_TAG_(class|structure)_type', l):
            els = node.get(field(l, 'elements') or '', '')
            for e in re.findall(r'!(\d+)', els.split('=', 1)[1] if '=' in els else ''):
                x = node.get(e, '')
                if 'DW_TAG_member' in x and 'DIFlagStaticMember' not in x and not (field(x, 'name') or '').startswith('_vptr') or 'DW_TAG_inheritance' in x and 'DIFlagVirtual' not in x:
                    yield from scalars(field(x, 'baseType'), base + int(field(x, 'offset') or 0), path + ([field(x, 'name')] if field(x, 'name') else []), depth + 1)
    for nm, d, intern in defs:
        l = node.get(d, '')
        s = field(l, 'scope')
        if s in node and 'DICompositeType' in node[s] and file(node[s]).startswith(build.REPO + '/'):
            ms = list(scalars(s, 0, []))
            yield nm, field(node[s], 'name'), ms, (file(l) or file(node[s]), int(field(l, 'line') or 0)), intern

def body(c):
    P = c.P
    done, classes, fields = {}, set(), 0
    for mod in P.mods:
        for nm, cn, ms, pos, intern in constructors(mod):
            ns = [n for n in P.defs if n == nm or intern and n.startswith(nm + '$$')]
            if intern:
                ns = [n for n in ns if P.defs[n].mod is mod] if ns and hasattr(P.defs[ns[0]], 'mod') else ns
            for n in ns:
                done.setdefault(n, (cn, ms, pos))
    for n, (cn, ms, pos) in sorted(done.items()):
        if 'C1E' in n and n.replace('C1E', 'C2E') in done:
            continue
        classes.add(cn)
        if not ms:
            continue
        ps, I = c.run(n)
        for p in ps:
            if p.status != 'ret':
                continue
            this = P.fn(n).params()[0][2]
            mem = p.st.mem.get(('P', this), {})
            copied = [(a, b) for dr, a, b, sr, so, ep in p.st.cop if dr == ('P', this) and sr[0] in ('P', 'ld', 'G')]
            objs = {o for (r, o) in p.st.obj if r == ('P', this)}
            for off, size, path in ms:
                fields += 1
                ok = any(isinstance(o, int) and off // 8 <= o < (off + size + 7) // 8 for o in list(mem) + list(objs)) or any(a <= off // 8 < b for a, b in copied)
                c.ob(ok, 'field', 'this constructor of %s does not give the field %s a value' % (cn, '.'.join(path)), pos)
    if len(done) < 20:
        raise Broken('the constructors')
    # ------------------------------------------------------------ local variables
    srcs = build.engine_sources() + build.fut_sources() + [build.witness(u) for u in UNITS if u.startswith('w_')]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for s, r in zip(srcs, ex.map(lambda s: subprocess.run(['clang++'] + build.flags() + ['-fsyntax-only', '-Wno-everything', '-Wuninitialized', '-Wsometimes-uninitialized', '-x', 'c++', s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), srcs)):
            c.ob(r.returncode == 0, 'compile', 'the source does not compile', (s, 1))
            for m in re.finditer(r'^(.*?):(\d+):\d+: warning: (.*?) \[-W\w*-?uninitialized', r.stdout, re.M):
                if m.group(1).startswith(build.REPO + '/'):
                    c.ob(False, 'local', m.group(3), (m.group(1), int(m.group(2))))
    c.extra['constructors'] = len(done)
    c.extra['classes'] = sorted(classes)
    c.extra['field_obligations'] = fields
    c.extra['sources_scanned_for_uninitialised_locals'] = len(srcs)

main(Check('C38', 'definite assignment: the scalar fields of a class (debug information, nested classes flattened) against the memory written on every abstract path of each of its constructors; uninitialised locals by the dataflow of the compiler front end', UNITS, 60), body)
