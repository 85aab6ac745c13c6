"""Check framework: obligations, verdicts, evidence, known findings.

An obligation is one statement about one construct of the analysed source.
Outcomes
  ok         the abstract value computed from the source equals what the
             property demands (on every abstract path that was not refuted)
  violated   the abstract value definitely differs, or the construct
             definitely raises where a value is demanded
  undecided  the analysis lost precision; reported in the evidence and never
             counted as a violation
"""
import ast
import json
import os
import resource
import signal
import sys
import threading
import time
import traceback

import numpy as np

from . import loader
from .loader import AnalysisBroken
from . import ext, stdlib
from .absint import (Interp, AbsRaise, Imprecise, Budget, Top, Alt, Rest,
                     UNINIT, DIV0, Obj, Cls, Func, Bound, Endless, Overrun)
from .sym import Sym

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')
MIN_DISCHARGED = 0.5


class Violation(Exception):
    pass


class Undecided(Exception):
    pass


class Ctx(object):
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.prog = loader.Program()
        self.results = []          # (name, status, where, detail)
        self.analysed = set()
        self.info = {}
        self.assumptions = []
        self.technique = ''
        self.explanation = ''
        self._seen = set()
        self.verbose = bool(os.environ.get('QSA_VERBOSE'))
        self.parallel = False      # queue obligations, decide them in forks
        self.queue = []
        self.stats = {}
        self.only = os.environ.get('QSA_ONLY')

    # ------------------------------------------------------------ interps
    def interp(self, budget=3000000, generic=False, assume=None):
        it = Interp(self.prog, budget=budget)
        ext.install(it)
        stdlib.install(it)
        if generic:
            it.assume_hook = generic_position
        if assume is not None:
            it.assume_hook = assume
        self._interps = getattr(self, '_interps', [])
        self._interps.append(it)
        return it

    # ------------------------------------------------------- obligations
    def ob(self, name, fn, where=''):
        """decide one obligation (or queue it)"""
        base = name
        k = 1
        while name in self._seen:
            k += 1
            name = '%s#%d' % (base, k)
        self._seen.add(name)
        if self.only and self.only not in name:
            return True
        if self.parallel:
            self.queue.append((name, fn, where))
            return True
        return self.decide(name, fn, where)

    def flush(self):
        """decide the queued obligations in forked workers"""
        queue, self.queue = self.queue, []
        n = min(8, os.cpu_count() or 1, max(1, len(queue) // 4))
        if n <= 1:
            for q in queue:
                self.decide(*q)
            return
        import pickle
        procs = []
        sys.stdout.flush()
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    self.results, self.stats = [], {}
                    self._interps = []
                    for i in range(k, len(queue), n):
                        self.decide(*queue[i])
                        self.results[-1] = (i,) + self.results[-1]
                    an = set(self.analysed)
                    for it in self._interps:
                        an |= set(it.analysed)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((self.results, an, self.stats), f)
                    sys.stdout.flush()
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stdout.flush()
                finally:
                    os._exit(rc)
            os.close(w)
            procs.append((pid, r))
        got = []
        broken = False
        for pid, r in procs:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            if os.waitpid(pid, 0)[1] != 0 or not data:
                broken = True
                continue
            res, an, st = pickle.loads(data)
            got.extend(res)
            self.analysed |= an
            for key, v in st.items():
                self.stats[key] = self.stats.get(key, 0) + v
        if broken or len(got) != len(queue):
            raise AnalysisBroken('an analysis worker failed')
        self.results.extend(g[1:] for g in sorted(got))

    # an obligation takes seconds at most; the limits only stop runs of code
    # that was changed so that the analysis grows without bound
    CPU_LIMIT = 240.
    MEM_LIMIT = 5 << 30

    def limits(self):
        def late(sig, frame):
            raise Overrun()
        resource.setrlimit(resource.RLIMIT_AS, (self.MEM_LIMIT,) * 2)
        self.timed = threading.current_thread() is threading.main_thread()
        if self.timed:
            signal.signal(signal.SIGVTALRM, late)
        self.limited = os.getpid()

    def decide(self, name, fn, where=''):
        t = time.time()
        detail = ''
        n0 = len(getattr(self, '_interps', []))
        if getattr(self, 'limited', None) != os.getpid():
            self.limits()
        try:
            if self.timed:
                signal.setitimer(signal.ITIMER_VIRTUAL, self.CPU_LIMIT)
            try:
                r = fn()
            finally:
                if self.timed:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            status = 'ok'
            if r is False:
                status = 'violated'
            elif isinstance(r, str):
                detail = r
        except Violation as e:
            status, detail = 'violated', str(e)
        except Undecided as e:
            status, detail = 'undecided', str(e)
        except AbsRaise as e:
            status, detail = 'violated', 'definitely raises %s: %s%s' % (
                e.etype, e.msg, at_node(e))
        except Endless as e:
            status, detail = 'violated', str(e)
        except Overrun:
            status, detail = 'undecided', 'time limit'
            self.CPU_LIMIT = max(15., self.CPU_LIMIT / 2)
        except MemoryError:
            status, detail = 'undecided', 'memory limit'
            self.CPU_LIMIT = max(15., self.CPU_LIMIT / 2)
        except (Imprecise, Budget) as e:
            status, detail = 'undecided', '%s: %s' % (type(e).__name__, e)
        except RecursionError as e:
            status, detail = 'undecided', 'recursion limit in the analyser'
        except AnalysisBroken:
            raise
        except Exception as e:     # analyser weakness, never an alarm
            status = 'undecided'
            detail = 'analyser: %s: %s' % (type(e).__name__, e)
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, (TypeError, AttributeError)) and \
                    'NoneType' in str(e) and tb and \
                    os.sep + 'checks' + os.sep in tb[-1].filename:
                # the analysed code definitely returned None
                status = 'violated'
                detail = 'None where a value is required (%s)' % tb[-1].line
            if self.verbose:
                traceback.print_exc()
        for it in getattr(self, '_interps', [])[n0:]:
            self.analysed |= set(it.analysed)
        if n0 < len(getattr(self, '_interps', [])):
            del self._interps[n0:]
        self.results.append((name, status, where, detail))
        if self.verbose:
            print('%-9s %-60s %s %s (%.2fs)' % (status, name, where,
                                             detail[:400], time.time() - t))
        return status == 'ok'

    def record(self, name, status, where='', detail=''):
        def f():
            if status == 'violated':
                raise Violation(detail)
            if status == 'undecided':
                raise Undecided(detail)
        return self.ob(name, f, where)

    def where(self, mod, qual):
        """locate a (possibly inherited) function or class: file:line"""
        m = self.prog.modules.get(mod)
        if m is None:
            raise AnalysisBroken('module %s vanished' % mod)
        for q, c, f in loader.walk_functions(m.tree):
            if q == qual:
                return 'src/%s.py:%d %s' % (mod, f.lineno, qual)
        return 'src/%s.py %s' % (mod, qual)

    # ------------------------------------------------------------ report
    def finish(self):
        self.flush()
        for it in getattr(self, '_interps', []):
            self.analysed |= set(it.analysed)
        known = load_known(self.pid)
        viol, kf, und, ok = [], [], [], 0
        for r in self.results:
            if r[1] == 'ok':
                ok += 1
            elif r[1] == 'undecided':
                und.append(r)
            elif r[0] in known:
                kf.append(r)
            else:
                viol.append(r)
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(ev, exist_ok=True)
        samples = [{'obligation': r[0], 'status': r[1], 'where': r[2],
                    'detail': r[3][:300]} for r in self.results]
        cov = {
            'explanation': self.explanation,
            'rule': self.technique,
            'obligations': len(self.results),
            'discharged': ok,
            'undecided': [{'obligation': r[0], 'where': r[2],
                           'why': r[3][:300]} for r in und],
            'functions_analysed': sorted(self.analysed),
            'n_functions_analysed': len(self.analysed),
            'samples': samples[:40],
        }
        cov.update(self.info)
        cov.update(self.stats)
        rec = {'property': self.pid, 'tier': self.tier
               if self.tier in ('quick', 'thorough') else 'quick',
               'seed': self.seed, 'level': 'other', 'coverage': cov,
               'assumptions': self.assumptions,
               'violations': len(viol),
               'wall_s': round(time.time() - self.t0, 3)}
        rp = os.path.join(ev, self.pid + '.violation.txt')
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        for r in kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                self.pid, r[0], known[r[0]]))
        print('%s: %d obligations, %d discharged, %d undecided, %d known, '
              '%d violated, %d functions, %.1fs' % (
                  self.pid, len(self.results), ok, len(und), len(kf),
                  len(viol), len(self.analysed), time.time() - self.t0))
        for r in und:
            print('  undecided %s [%s] %s' % (r[0], r[2], r[3][:160]))
        if viol:
            with open(rp, 'w') as f:
                for r in viol:
                    f.write('obligation: %s\nwhere: %s\ndetail: %s\n\n' % (
                        r[0], r[2], r[3]))
            for r in viol:
                print('  violated %s [%s] %s' % (r[0], r[2], r[3][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        if not self.results:
            raise AnalysisBroken('no obligations')
        if ok + len(kf) < MIN_DISCHARGED * len(self.results):
            raise AnalysisBroken('only %d of %d obligations decided' % (
                ok, len(self.results)))
        return 0


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                parts = line[len('finding:'):].strip().split(None, 2)
                d = dict(p.split('=', 1) for p in parts[:2])
                if d.get('property') == pid:
                    out[d['key']] = parts[2] if len(parts) > 2 else ''
    return out


def at_node(e):
    n = getattr(e, 'node', None)
    if n is not None and hasattr(n, 'lineno'):
        return ' (line %d)' % n.lineno
    return ''


# ---------------------------------------------------------------- helpers
def generic_position(op, a, b, diff):
    """assume distinct symbolic quantities are distinct"""
    if isinstance(op, ast.Eq):
        return False
    if isinstance(op, ast.NotEq):
        return True
    # comparison of a symbolic magnitude with a tiny tolerance
    def tiny(v):
        return v.is_const() and 0 <= float(v.const()) < 1e-6
    if tiny(b) and not a.is_const() and nonneg(a):
        if isinstance(op, (ast.Lt, ast.LtE)):
            return False
        return True
    if tiny(a) and not b.is_const() and nonneg(b):
        if isinstance(op, (ast.Gt, ast.GtE)):
            return False
        return True
    return None


def nonneg(v):
    """an absolute value / norm of a symbolic quantity"""
    s = str(v)
    return s.startswith(('abs(', 'min(', 'sqrt(')) or v.sign() in (0, 1)


def alts(v):
    if isinstance(v, Alt):
        out = []
        for x in v.vals:
            out.extend(alts(x))
        return out
    return [v]


def cmp_val(a, b, tol=1e-9):
    """'eq' | 'ne' | '?' : does abstract value a equal expected value b"""
    if a is DIV0 or a is UNINIT:
        # division by zero; memory that was never written
        return 'ne'
    if isinstance(a, Top) or isinstance(b, Top):
        return '?'
    if isinstance(a, Alt):
        rs = set(cmp_val(x, b, tol) for x in alts(a))
        if len(rs) == 1:
            return rs.pop()
        return '?'
    if isinstance(b, (np.ndarray, list, tuple)) or \
            isinstance(a, (np.ndarray, list, tuple)):
        if isinstance(a, (list, tuple, np.ndarray)) and \
                isinstance(b, (list, tuple, np.ndarray)):
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
                    a.shape != b.shape:
                return 'ne'
            if len(a) != len(b):
                return 'ne' if not any(isinstance(x, Rest) for x in a) \
                    else '?'
            res = 'eq'
            for x, y in zip(a, b):
                r = cmp_val(x, y, tol)
                if r == 'ne':
                    return 'ne'
                if r == '?':
                    res = '?'
            return res
        return 'ne'
    if a is None or b is None:
        return 'eq' if a is b else 'ne'
    try:
        if isinstance(a, Sym) or isinstance(b, Sym):
            return 'eq' if Sym.of(a).equals(Sym.of(b), tol) else 'ne'
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return 'eq' if bool(a) == bool(b) else 'ne'
        if isinstance(a, (int, float, complex, np.number)) and \
                isinstance(b, (int, float, complex, np.number)):
            return 'eq' if abs(a - b) <= tol * max(1.0, abs(b)) else 'ne'
    except Exception:
        return '?'
    if isinstance(a, str) or isinstance(b, str):
        return 'eq' if a == b else 'ne'
    if isinstance(a, Obj) or isinstance(b, Obj):
        return 'eq' if a is b else 'ne'
    return 'eq' if a is b or a == b else '?'


def want(a, b, what='', tol=1e-9):
    r = cmp_val(a, b, tol)
    if r == 'ne':
        raise Violation('%s: source computes %s, required %s' % (
            what, short(a), short(b)))
    if r == '?':
        raise Undecided('%s: %s vs %s' % (what, short(a), short(b)))


def short(v, n=220):
    s = str(v).replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


def main(argv):
    import importlib
    sys.setrecursionlimit(20000)
    pid = argv[0]
    if len(argv) > 1:
        os.environ['VERIF_TIER'] = argv[1]
    try:
        ctx = Ctx(pid)
        mod = importlib.import_module('qsa.checks.' + pid.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except AnalysisBroken as e:
        print('%s: ANALYSIS ERROR: %s' % (pid, e))
        return 2
    return rc
