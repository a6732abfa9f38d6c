"""Common frame of every check: loads the program, collects obligations, reports, writes evidence."""
import json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
import build, ll, interp, models
from interp import truth, assume, lt, eq, neg, lin, add, sub, addr, ptr

class Broken(Exception):
    """the analysis cannot give a verdict (missing anchor, unmodelled construct, limit)"""

class Check:
    def __init__(self, pid, rule, units, floor=1):
        self.pid = pid
        self.rule = rule
        self.unitspec = units
        self.floor = floor
        self.t0 = time.time()
        self.obl = 0
        self.bad = []           # (key, message)
        self.fns = {}           # function -> times inlined/analysed
        self.entries = []
        self.paths = 0
        self.nevents = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.unmodelled = {}
        self.P = None
        self.seen = set()

    # ------------------------------------------------------------ program
    def load(self, jobs=None):
        l = []
        for u in (jobs or self.unitspec):
            if isinstance(u, tuple):
                l.append((build.witness(u[0]),) + u[1:])
            elif u == 'engine':
                l += build.engine_sources()
            elif u == 'fut':
                l += build.fut_sources()
            elif u.startswith('w_'):
                l.append(build.witness(u))
            else:
                l.append(os.path.join(build.SRC, u))
        P = ll.Program([ll.Module(p) for p in build.compile_all(l)])
        self.units = len(l)
        if self.P is None:
            self.P = P
        return P

    def fn(self, q, pred=None, opt=False, P=None):
        """mangled names of the functions with this qualified name"""
        P = P or self.P
        r = [n for n in P.by_canon(q) if n in P.defs and (pred is None or pred(n))]
        if not r and not opt:
            raise Broken('no definition of %s in the analysed units' % q)
        return r

    def fn1(self, q, pred=None, P=None):
        r = self.fn(q, pred, P=P)
        # constructor/destructor variants: the complete-object one
        if len(r) > 1:
            c = [n for n in r if 'C1E' in n or 'D1E' in n] or [n for n in r if 'C2E' in n or 'D2E' in n]
            if len(c) == 1:
                return c[0]
        if len(r) != 1:
            raise Broken('%d definitions of %s' % (len(r), q))
        return r[0]

    def run(self, mangled, args=None, init=None, P=None, expect=None, **opts):
        I = interp.Interp(P or self.P, models, **opts)
        try:
            ps = I.run(mangled, args, init)
        except interp.Limit as e:
            raise Broken('%s: %s' % (mangled, e))
        for p in ps:
            if p.why == 'nofix':
                raise Broken('%s: no fixpoint' % mangled)
        self.entries.append(mangled)
        self.paths += len(ps)
        for k, v in I.inlined.items():
            self.fns[k] = self.fns.get(k, 0) + v
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        for p in ps:
            self.nevents += p.st.ntrace
            p.I = I
        return ps, I

    # ------------------------------------------------------------ verdicts
    def ok(self, n=1):
        self.obl += n

    def ob(self, cond, key, msg, where=None):
        """one obligation"""
        self.obl += 1
        if not cond:
            self.fail(key, msg, where)
        return bool(cond)

    def fail(self, key, msg, where=None):
        if where is not None:
            if hasattr(where, 'loc'):
                where = where.loc
            msg = '%s:%s: %s' % (self.rel(where[0]), where[1], msg)
        if (key, msg) in self.seen:
            return
        self.seen.add((key, msg))
        self.bad.append((key, msg))

    def rel(self, f):
        return f[len(build.REPO) + 1:] if f.startswith(build.REPO + '/') else f

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def at(self, e):
        return '%s:%s' % (self.rel(e.loc[0]), e.loc[1])

    # ------------------------------------------------------------ end
    def finish(self):
        known = []
        kf = os.path.join(HERE, 'known-findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)).get('open', []) if k['property'] == self.pid]
        viol = []
        for key, msg in self.bad:
            m = [k for k in known if k['key'] == key]
            if m:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, msg))
            else:
                viol.append((key, msg))
        if not viol and self.obl < self.floor:
            raise Broken('only %d obligations generated (at least %d expected): the rule matches nothing' % (self.obl, self.floor))
        evd = os.environ.get('EVIDENCE_DIR') or os.path.join(HERE, 'evidence')
        os.makedirs(evd, exist_ok=True)
        cov = {'explanation': self.rule, 'units_compiled': self.units, 'entry_points': len(self.entries), 'functions_analysed': len(self.fns),
               'abstract_paths': self.paths, 'events': self.nevents, 'obligations': self.obl, 'discharged': self.obl - min(self.obl, len(self.bad)),
               'samples': self.samples or [m for k, m in self.bad[:5]] or [self.entries[0] if self.entries else 'n/a'],
               'functions': sorted(k for k in self.fns if 'falcon' in k)[:120]}
        if self.unmodelled:
            cov['opaque_callees'] = self.unmodelled
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if viol:
            rp = os.path.join(evd, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                f.write('property %s\nrule: %s\n\n' % (self.pid, self.rule))
                for k, m in viol:
                    f.write('[%s] %s\n' % (k, m))
            for k, m in viol[:20]:
                print('  [%s] %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: %d obligations on %d abstract paths of %d entry points (%d functions) discharged, %.1fs' %
              (self.pid, self.obl, self.paths, len(self.entries), len(self.fns), time.time() - self.t0))
        return 0

def limits():
    """an analysis that does not end must say so, with what it has found until then"""
    import resource
    def late(*a):
        raise Broken('the analysis did not end in time')
    if os.environ.get('VERIF_TIER') != 'thorough':
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, 780, 20)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = 14 << 30
    if soft == resource.RLIM_INFINITY or soft > want:
        resource.setrlimit(resource.RLIMIT_AS, (want, hard))

def main(chk, body):
    try:
        limits()
        chk.load()
        body(chk)
        rc = chk.finish()
    except Broken as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if chk.bad and not os.environ.get('STRICT'):
            # a violation that was already established stands on its own
            sys.exit(chk.finish())
        print('ANALYSIS BROKEN (%s): %s' % (chk.pid, e))
        rc = 2
    except build.BuildError as e:
        print('ANALYSIS BROKEN (%s): the sources do not compile\n%s' % (chk.pid, e))
        rc = 2
    except MemoryError:
        if chk.bad and not os.environ.get('STRICT'):
            sys.exit(chk.finish())
        print('ANALYSIS BROKEN (%s): the analysis does not fit in memory' % chk.pid)
        rc = 2
    except Exception:
        traceback.print_exc()
        if chk.bad:
            sys.exit(chk.finish())
        print('ANALYSIS BROKEN (%s): internal error' % chk.pid)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
