"""Compiles /repo's current sources (and the witness units of /verif/witness) to LLVM IR."""
import os, re, subprocess, sys, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('FALCON_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'src')

class BuildError(Exception):
    pass

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='falcon-static-')
        atexit.register(shutil.rmtree, _tmp, True)
        genconfig(_tmp)
    return _tmp

def genconfig(d):
    src = os.path.join(SRC, 'include/falcon/config.h.in')
    os.makedirs(os.path.join(d, 'inc/falcon'), exist_ok=True)
    text = open(src).read()
    def cm(m):
        n = m.group(1)
        return '#define %s' % n if n.endswith('SYSTEM_UNIX') or n.endswith('SYSTEM_LINUX') else '/* #undef %s */' % n
    text = re.sub(r'#cmakedefine01\s+(\w+).*', lambda m: '#define %s %d' % (m.group(1), 1 if 'UNIX' in m.group(1) else 0), text)
    text = re.sub(r'#cmakedefine\s+(\w+).*', cm, text)
    text = re.sub(r'@\w+@', '0', text)
    open(os.path.join(d, 'inc/falcon/config.h'), 'w').write(text)

def flags():
    return ['-std=gnu++17', '-pthread', '-DFALCON_ENGINE_EXPORTS', '-I' + os.path.join(SRC, 'include'), '-I' + os.path.join(tmpdir(), 'inc'), '-I' + os.path.join(HERE, 'witness')]

IRFLAGS = ['-S', '-emit-llvm', '-O0', '-g', '-fstandalone-debug', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-flto', '-fwhole-program-vtables', '-w']

def compile_ir(src, tag=None, extra=()):
    out = os.path.join(tmpdir(), (tag or os.path.basename(src)) + '.ll')
    cmd = ['clang++'] + flags() + list(extra) + IRFLAGS + ['-x', 'c++', '-o', out, src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return out

def engine_sources():
    d = os.path.join(SRC, 'engine')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))

def fut_sources():
    d = os.path.join(SRC, 'fut')
    l = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp') and f != 'fut_main.cpp')
    m = os.path.join(d, 'marktime-unix.c++')
    if os.path.exists(m):
        l.append(m)
    return l

def witness(name):
    return os.path.join(HERE, 'witness', name)

def compile_all(jobs):
    """jobs: list of src | (src, tag, extra)"""
    tmpdir()
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(compile_ir, *(j if isinstance(j, tuple) else (j,))) for j in jobs]
        return [f.result() for f in fs]
