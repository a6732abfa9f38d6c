#!/usr/bin/env python3
"""Self-test of the checks: applies textual variants to a scratch copy of the sources and compares the verdict.
usage: run.py [CHECK...]      variants are in variants_*.py: V(check, 'bad'|'same', file, old, new[, file, old, new...])"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FALCON_REPO', '/repo')
ALL = []
def V(checks, want, *edits):
    ALL.append((checks.split(), want, edits))
for f in sorted(glob.glob(os.path.join(HERE, 'variants_*.py'))):
    exec(compile(open(f).read(), f, 'exec'))

def one(v, only):
    checks, want, edits = v
    d = tempfile.mkdtemp(prefix='selftest-')
    try:
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
        for f, old, new in zip(edits[0::3], edits[1::3], edits[2::3]):
            p = os.path.join(d, 'src', f)
            s = open(p).read()
            if s.count(old) < 1:
                return [('??', 'EDIT DOES NOT APPLY %s: %r' % (f, old))]
            open(p, 'w').write(s.replace(old, new, 1))
        out = []
        vd = os.path.join(d, 'verif')
        os.makedirs(vd)
        for n in ('engine', 'checks', 'witness'):
            os.symlink(os.path.join(HERE, '..', n), os.path.join(vd, n))
        for c in checks:
            if only and c not in only:
                continue
            r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'checks', c + '.py')], env=dict(os.environ, FALCON_REPO=d, EVIDENCE_DIR=os.path.join(d, 'ev')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            good = r.returncode == (1 if want == 'bad' else 0)
            out.append((c, ('ok  ' if good else 'MISS' if want == 'bad' else 'FALSE') + ' rc=%d %s ' % (r.returncode, want) + repr(edits[1])[:60] + ' => ' + repr(edits[2])[:80] + ('' if good else '\n' + r.stdout[-1500:] if r.returncode != 0 else '')))
        return out
    finally:
        shutil.rmtree(d)

def main():
    only = set(sys.argv[1:])
    todo = [v for v in ALL if not only or only & set(v[0])]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for rs in ex.map(lambda v: one(v, only), todo):
            for c, m in rs:
                if not m.startswith('ok') or os.environ.get('VERBOSE'):
                    print(c, m)
                bad += not m.startswith('ok')
    print('%d variants, %d unexpected' % (len(todo), bad))
main()
