"""Check driver:  python3-vt -m engine.run PROPERTY [--tier quick|thorough] [--case NAME] [-v]

Compiles the harness together with the repository's current sources to LLVM
IR, executes every case symbolically, discharges the obligations with SMT
solvers, replays every counterexample against a native build of the same
sources, and writes evidence/<PROPERTY>.json."""
import argparse
import ctypes
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 8)
CLANG = '/usr/bin/clang++'
GXX = '/usr/bin/g++'
LINK = '/usr/bin/llvm-link-18' if os.path.exists('/usr/bin/llvm-link-18') else '/usr/lib/llvm-18/bin/llvm-link'
IRFLAGS = ['-std=c++17', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-unroll-loops',
           '-include', os.path.join(VERIF, 'harness/noextern.h'), '-DVP_SYMBOLIC', '-w', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-c']


def incs():
    return ['-I' + os.path.join(REPO, 'lib/include'), '-I' + os.path.join(VERIF, 'harness'),
            '-I' + os.path.join(REPO, 'lib/src')]


class BuildError(Exception):
    pass


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def src_path(s):
    if s.startswith('h:'):
        return os.path.join(VERIF, 'harness', s[2:])
    return os.path.join(REPO, 'lib/src', s)


class Build:
    def __init__(self, cfg, work):
        self.work = work
        self.srcs = ['h:' + cfg['harness']] + cfg.get('sources', [])
        self.cfg = cfg
        self.bc = os.path.join(work, 'all.bc')
        self.native = os.path.join(work, 'replay')
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.defs = ['-D' + d for d in cfg.get('defines', [])]

    def ir(self):
        def one(s):
            o = os.path.join(self.work, re.sub(r'\W', '_', s) + '.bc')
            sh([CLANG] + IRFLAGS + self.defs + incs() + [src_path(s), '-o', o])
            return o
        outs = list(self.pool.map(one, self.srcs))
        sh([LINK, '-o', self.bc] + outs)

    def start_native(self):
        self.nat = self.pool.submit(self._native)

    def _native(self):
        def one(s):
            o = os.path.join(self.work, re.sub(r'\W', '_', s) + '.o')
            if s == 'h:replay.cpp':
                sh([GXX, '-std=c++17', '-O1', '-w', '-c'] + incs() + [src_path(s), '-o', o])
            else:
                sh([GXX] + NATFLAGS + self.defs + incs() + [src_path(s), '-o', o])
            return o
        with cf.ThreadPoolExecutor(NCPU) as p:
            outs = list(p.map(one, self.srcs + ['h:replay.cpp']))
        tmp = self.native + '.tmp'
        sh([GXX, '-fsanitize=address', '-rdynamic', '-o', tmp] + outs + ['-ldl'] + self.cfg.get('libs', []))
        os.rename(tmp, self.native)


def run_native(native, case, inputs, work, timeout=20):
    """-> (kind, detail, output lines)"""
    fd, fn = tempfile.mkstemp('.in', dir=work)
    with os.fdopen(fd, 'w') as f:
        for k, v in inputs.items():
            f.write('%s %s\n' % (k, v))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=1500')
    try:
        p = subprocess.run([native, case, fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=env, text=True, errors='replace')
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'')
        if isinstance(out, bytes):
            out = out.decode(errors='replace')
        return 'hang', 'no result within %d s' % timeout, out.split('\n')
    finally:
        os.unlink(fn)
    lines = p.stdout.split('\n')
    if p.returncode == 3:
        l = [x for x in lines if x.startswith('FAIL ')]
        return 'fail', l[-1][5:] if l else '?', lines
    if p.returncode == 77:
        return 'assume', '', lines
    if p.returncode == 0 and 'END' in lines:
        return 'ok', '', lines
    return 'crash', 'exit %d: %s' % (p.returncode, p.stderr.strip()[:600]), lines


def fmt(v):
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, int):
        return str(v - (1 << 64) if v >= 1 << 63 else v)
    if isinstance(v, Fraction):
        return repr(float(v)) if v.denominator != 1 or abs(v) > 1e15 else '%d' % v.numerator
    return '0'


class CaseWorker:
    """explores one case and discharges its obligations (in its own process)"""

    def __init__(self, prop, case, bc, native, work, opts, sem, stop, tier, seed, verbose, known=(), slots=None):
        self.known = known
        self.slots = slots
        self.prop, self.case = prop, case
        self.bc, self.native, self.work = bc, native, work
        self.opts, self.sem, self.stop = opts, sem, stop
        self.tier, self.seed, self.verbose = tier, seed, verbose
        self.rng = random.Random(seed)

    def log(self, *a):
        if self.verbose:
            print('[%s]' % self.case, *a, file=sys.stderr, flush=True)

    def go(self):
        from . import machine as Mm, solve as S
        from . import realalg as R, cond as K
        self.S, self.R, self.K, self.Mm = S, R, K, Mm
        self.conn = None         # set in a process that took over a part of the paths
        self.kids = []
        self.fresh_part()
        try:
            M = self.M = Mm.Machine(self.bc, self.opts)
        except Exception:
            self.res['errors'].append('internal: ' + traceback.format_exc()[-1500:])
            return self.res
        M.hook = self.hook
        M.halted = self.stop.is_set
        try:
            if self.case not in M.funcs:
                raise Mm.Unsupported('case %s is not defined' % self.case)
            M.run(self.case)
        except Mm.Halt:
            pass
        except Mm.Unsupported as e:
            self.res['errors'].append('unsupported: %s' % e)
        except RecursionError:
            self.res['errors'].append('recursion')
        except Exception:
            self.res['errors'].append('internal: ' + traceback.format_exc()[-1500:])
        try:
            self.finish()
        except Exception:
            self.res['errors'].append('internal: ' + traceback.format_exc()[-1500:])
        res = self.res
        for conn in self.kids:
            try:
                merge(res, conn.recv())
            except EOFError:
                res['errors'].append('worker died')
            conn.close()
        if self.conn is not None:
            self.slots.release()
            self.conn.send(res)
            self.conn.close()
            os._exit(0)
        return res

    def fresh_part(self):
        """counters of the part of the paths this process explores"""
        self.res = dict(case=self.case, paths=0, ended={}, obligations=0, norm=0, discharged=0, unknown=[],
                        violations=[], unreproduced=[], errors=[], functions={}, forks=0, steps=0,
                        branch_queries=0, solver_s=0.0, checks={}, covers=[], validated=0, mismatched=[],
                        samples=[], by_solver={}, explore_s=0.0, nonfinite=0)
        self.t0 = time.time()
        self.tsplit = self.t0
        self.nobl = 0
        self.jobs = []           # (obligation, text, future)
        self.bad = []
        self.tried = {}
        self.pool = None

    def hook(self, work):
        """after every path: hand new obligations to the solvers, look at answers, share the remaining paths"""
        self.submit()
        self.collect(False)
        if self.stop.is_set():
            raise self.Mm.Halt()
        now = time.time()
        if len(work) >= 2 and now - self.tsplit > 2:
            self.tsplit = now
            if self.slots.acquire(block=False):
                self.split(work)

    def split(self, work):
        n = len(work) // 2
        r, w = mp.Pipe(False)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            w.close()
            self.kids.append(r)
            del work[:n]
            return
        r.close()
        die_with_parent()
        self.conn = w
        self.kids = []
        del work[n:]
        M = self.M
        M.paths, M.obls, M.executed = [], [], {}
        M.nfork = M.nbranch_q = M.nsteps = 0
        M.solver_s = 0.0
        self.fresh_part()

    def submit(self):
        M, res = self.M, self.res
        only = self.opts.get('only')
        while self.nobl < len(M.obls):
            o = M.obls[self.nobl]
            M.obls[self.nobl] = None
            self.nobl += 1
            if only and not re.fullmatch(only, o.cid) and o.kind == 'check':
                continue
            res['checks'].setdefault(o.cid, [0, 0])[0] += 1
            res['obligations'] += 1
            if o.how == 'norm':
                res['norm'] += 1
                res['discharged'] += 1
                res['checks'][o.cid][1] += 1
                continue
            pcs, defs, g, rest = o.q
            text = self.script(list(pcs) + list(defs) + ([g] if g is not None else []))
            if self.pool is None:
                self.pool = cf.ThreadPoolExecutor(NCPU)
            self.jobs.append((o, text, self.pool.submit(self.job, text)))

    def job(self, text):
        if self.stop.is_set():
            return 'skipped', '', 0
        budget = self.opts.get('budget', 40 if self.tier == 'quick' else 300)
        with self.sem:
            v, name, secs, out = self.S.solve_text(text, budget, self.seed, workdir=self.work)
        return v, name, secs

    def collect(self, wait):
        res = self.res
        left = []
        for o, text, f in self.jobs:
            if not wait and not f.done():
                left.append((o, text, f))
                continue
            v, name, secs = f.result()
            res['solver_s'] += secs
            if v == 'unsat':
                res['discharged'] += 1
                res['checks'][o.cid][1] += 1
                res['by_solver'][name] = res['by_solver'].get(name, 0) + 1
                if len(res['samples']) < 2 and len(text) < 2500:
                    res['samples'].append(dict(case=self.case, check=o.cid, verdict='unsat', solver=name,
                                               seconds=round(secs, 3), query=text))
            elif v == 'skipped':
                res['skipped'] = res.get('skipped', 0) + 1
            else:
                if self.congruent(o):
                    continue
                self.log('%s %s: %s (%.1fs) %s' % (o.kind, o.cid, v, secs, o.msg))
                if v == 'sat' and not wait and not self.is_known(o.cid) and self.tried.get(o.cid, 0) < 2:
                    self.attempt(o, v)
                    if self.stop.is_set():
                        return
                else:
                    self.bad.append((o, v))
        self.jobs = left

    def attempt(self, o, v):
        self.tried[o.cid] = self.tried.get(o.cid, 0) + 1
        self.counterexample(o, v)
        if any(not x.get('known') for x in self.res['violations']):
            self.stop.set()

    def finish(self):
        res, M = self.res, self.M
        res['explore_s'] = time.time() - self.t0
        self.submit()
        self.log('explored %d paths in %.1fs, %d obligations' % (len(M.paths), res['explore_s'], len(M.obls)))
        res['paths'] = len(M.paths)
        res['forks'] = M.nfork
        res['steps'] = M.nsteps
        res['branch_queries'] = M.nbranch_q
        res['solver_s'] += M.solver_s
        res['functions'] = dict(M.executed)
        cov = set()
        for p in M.paths:
            res['ended'][p.done] = res['ended'].get(p.done, 0) + 1
            for t in p.trace:
                if t[0] == 'cover':
                    cov.add(t[1])
                if t[0] == 'nonfinite':
                    res['nonfinite'] += 1
        res['covers'] = sorted(cov)
        if not self.stop.is_set():
            self.collect(True)
        for o, v in sorted(self.bad, key=lambda x: (x[1] != 'sat', x[0].cid)):
            if self.stop.is_set():
                break
            if self.is_known(o.cid) and any(x['check'] == o.cid and x.get('known') for x in res['violations']):
                continue
            if self.tried.get(o.cid, 0) >= 6:
                if v == 'sat':
                    res['unreproduced'].append((o.cid, o.kind, o.msg, 'not tried'))
                else:
                    res['unknown'].append((o.cid, o.kind, o.msg))
                continue
            self.attempt(o, v)
        if self.pool is not None:
            self.pool.shutdown(wait=False, cancel_futures=True)
        if not self.stop.is_set() and self.conn is None:
            self.validate(M)

    def is_known(self, cid):
        return any(re.fullmatch(k['case'], self.case) and re.fullmatch(k['check'], cid) for k in self.known)

    def script(self, conds, getvals=()):
        with_z = [c.z() for c in conds]
        return self.S.declare_script(with_z, getvals)

    # -------------------------------------------------------- counterexamples
    def input_vars(self, inputs):
        import z3
        out = []
        for nm, k, v in inputs:
            if k == 'r':
                out.append((nm, k, z3.Real(nm)))
            elif k in ('i',):
                out.append((nm, k, v))
            elif k == 'b':
                out.append((nm, k, v))
            else:
                out.append((nm, k, v))
        return out

    def all_defs(self, conds):
        seen, out = set(), []
        todo = [a for c in conds for a in c.atoms()]
        while todo:
            a = todo.pop()
            if a in seen or type(a) is not int:
                continue
            seen.add(a)
            for d in self.M.definitions(a):
                out.append(d)
                todo.extend(d.atoms())
        return out

    def model(self, conds, inputs, extra, secs):
        """-> dict of inputs or None, verdict"""
        import z3
        iv = self.input_vars(inputs)
        zs = [c.z() for c in conds] + extra
        gv = [v for _, k, v in iv if k != 'c']
        txt = self.S.declare_script(zs, gv)
        names = [v.sexpr() for v in gv]
        with self.sem:
            v, name, s, out = self.S.solve_text(txt, secs, self.seed, getvals=names, workdir=self.work)
        self.res['solver_s'] += s
        if v != 'sat':
            return None, v
        vals = self.S.parse_values(out, names) if names else {}
        if vals is None:
            return None, 'nomodel'
        d = {}
        for nm, k, x in iv:
            if k == 'c':
                d[nm] = str(x)
            else:
                y = vals.get(x.sexpr())
                if k == 'i' and type(y) is int and y >> (x.size() - 1):
                    y -= 1 << x.size()
                if y is None and k == 'i':
                    continue
                if y is None:
                    d[nm] = '0'
                else:
                    d[nm] = fmt(y)
        return d, 'sat'

    def congruent(self, o):
        """another try for an obligation over exp, log, ..., with what is known of each pair of applications"""
        pcs, defs, g, rest = o.q
        conds = list(pcs) + list(rest) + ([g] if g is not None else [])
        conds += self.all_defs(conds)
        ax = self.congruence(conds)
        if not ax:
            return False
        text = self.script(conds + ax)
        v, name, secs = self.job(text)
        self.res['solver_s'] += secs
        if os.environ.get('VP_DUMP') and v != 'unsat':
            open('/tmp/dump.smt2', 'w').write(text + '(check-sat)(get-model)')
        if v != 'unsat':
            return False
        self.res['discharged'] += 1
        self.res['checks'][o.cid][1] += 1
        self.res['by_solver'][name] = self.res['by_solver'].get(name, 0) + 1
        return True

    def congruence(self, conds):
        """equal arguments, equal values; exp and log increase"""
        R, K = self.R, self.K
        byfn = {}
        seen, todo = set(), sorted({a for c in conds for a in c.atoms() if type(a) is int})
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            i = R.AT.info[a]
            if isinstance(i, dict) and i.get('args') and i.get('fn') not in (None, 'round'):
                byfn.setdefault((i['fn'], len(i['args'])), []).append((a, i['args']))
                for x in map(R.to_rf, i['args']):
                    todo += R.patoms(x.num)
                    todo += [a for f, _ in x.den for a in R.patoms(R.AT.factors[f])]
        out = []
        pairs = [(R.to_rf(0), R.to_rf(1))]       # on the graph of exp
        for (fn, _), apps in sorted(byfn.items()):
            if fn in ('exp', 'log'):
                for a, x in apps:
                    xy = (R.to_rf(x[0]), R.rf_atom(a))
                    pairs.append(xy if fn == 'exp' else xy[::-1])
                continue
            for k, (a, x) in enumerate(apps):
                for b, y in apps[:k]:
                    same = K.creal(R.padd(R.patom(a), R.pneg(R.patom(b))), '==')
                    for u, v in zip(x, y):
                        same = K.cor(same, K.creal(R.to_rf(R.rsub(R.to_rf(u), R.to_rf(v))).num, '!='))
                    out.append(same)
        for k, (x, u) in enumerate(pairs):
            for y, v in pairs[:k]:
                d, e = R.to_rf(R.rsub(x, y)), R.to_rf(R.rsub(u, v))
                if d.den or e.den:
                    out += [K.cor(K.creal(d.num, '!='), K.creal(e.num, '==')), K.cor(K.creal(d.num, '=='), K.creal(e.num, '!='))]
                else:
                    out += [K.cor(K.creal(d.num, '<='), K.creal(R.pneg(e.num), '<')),
                            K.cor(K.creal(R.pneg(d.num), '<='), K.creal(e.num, '<')),
                            K.cor(K.creal(d.num, '!='), K.creal(e.num, '=='))]
        out = [c for c in out if c is not True][:600]
        return out + self.all_defs(out)

    def uses_uf(self, conds):
        for c in conds:
            for a in c.atoms():
                i = self.R.AT.info[a] if type(a) is int else None
                if isinstance(i, dict) and i.get('fn') not in (None, 'round'):
                    return True
        return False

    def search(self, o):
        """a counterexample over uninterpreted exp, log, ...: the solver's model need not be one for the real
        functions, so look for concrete inputs that make the native run fail"""
        def value():
            r = self.rng.random()
            if r < .25:
                return Fraction(self.rng.randint(-2, 4))
            if r < .5:
                return Fraction(self.rng.randint(1, 40), 10)
            return Fraction(self.rng.randint(-300, 300), 100)
        tend = time.time() + 60
        for _ in range(1500):
            if time.time() > tend or self.stop.is_set():
                return False
            m = {}
            for nm, k, x in self.input_vars(o.inputs):
                m[nm] = fmt(value()) if k == 'r' else str(x) if k == 'c' else str(self.rng.randint(0, 1))
            if self.replay(o, m, quiet=True):
                return True
        return False

    def counterexample(self, o, v):
        import z3
        res = self.res
        pcs, defs, g, rest = o.q
        conds = list(pcs) + list(rest) + ([g] if g is not None else [])
        conds += self.all_defs(conds)
        conds += self.congruence(conds)
        reals = [z3.Real(nm) for nm, k, x in o.inputs if k == 'r']
        unk = v != 'sat'

        def box(b):
            return [z3.And(x <= b, x >= -b) for x in reals]

        def margin(m):
            if g is None or g.kind != 'r':
                return []
            p = self.K.poly_z3(g.a)
            if g.b == '!=':
                return [z3.Or(p >= m, p <= -m)]
            if g.b in ('<', '<='):
                return [p <= -m]
            return []

        def strict():
            # stay off the boundaries of the path
            out = []
            for c in conds:
                if c.kind == 'r' and c.b in ('<', '<='):
                    out.append(self.K.poly_z3(c.a) <= z3.Q(-1, 100))
            return out

        def grid(k):
            # inputs on a coarse grid: short numbers, easy models
            out = []
            for x in self.rng.sample(reals, min(k, len(reals))):
                out.append(x == z3.Q(self.rng.randint(-12, 12), 4))
            return out
        tries = [margin(1) + box(10) + strict(), margin(z3.Q(1, 10)) + box(20), margin(z3.Q(1, 1000)) + box(100), []]
        n = len(reals)
        for k in (n, n - 1, n - 2, n - 3, n // 2, 1, 0):
            if 0 < k <= n:
                for _ in range(6 if unk else 3):
                    tries.append(margin(z3.Q(1, 100)) + grid(k))
        if self.uses_uf(conds):
            tries = [t + box(10) for t in tries]  # exp of more overflows in the replay
        tend = time.time() + self.opts.get('ce_s', 90)
        last = None
        got = None
        for ex in tries:
            if time.time() > tend:
                break
            m, verdict = self.model(conds, o.inputs, ex, 6)
            if m is None:
                last = last or verdict
                continue
            got = m
            r = self.replay(o, m)
            if r:
                return
            last = 'sat'
        if self.uses_uf(conds) and self.search(o):
            return
        if got is None and unk:
            res['unknown'].append((o.cid, o.kind, o.msg))
        else:
            res['unreproduced'].append((o.cid, o.kind, o.msg, got))

    def wait_native(self):
        t0 = time.time()
        while not os.path.exists(self.native):
            if os.path.exists(self.native + '.failed') or time.time() - t0 > 300:
                raise RuntimeError('native build is not available')
            time.sleep(0.2)

    def replay(self, o, m, quiet=False):
        self.wait_native()
        kind, detail, lines = run_native(self.native, self.case, m, self.work,
                                         timeout=self.opts.get('replay_s', 20))
        if not quiet:
            self.log('replay %s: %s %s' % (o.cid, kind, detail[:200]))
        if kind in ('ok', 'assume'):
            return False
        if self.is_known(o.cid) and not (kind == 'fail' and detail.split()[:1] == [o.cid]):
            return False  # the native run stopped elsewhere: not this finding
        known = self.is_known(o.cid) and kind == 'fail' and detail.split()[:1] == [o.cid]
        self.res['violations'].append(dict(case=self.case, check=o.cid, kind=o.kind, msg=o.msg, inputs=m, known=known,
                                           native=kind, detail=detail, where=o.where,
                                           output=[l for l in lines if l][-12:]))
        return True

    # ------------------------------------------------------------- validation
    def validate(self, M):
        """run models of explored paths natively; the same checks must be met"""
        import z3
        want = self.opts.get('validate', 3 if self.tier == 'quick' else 12)
        cands = [p for p in M.paths if p.done in ('ret', 'stop: end')
                 and not any(t[0] in ('check', 'eq', 'le') and self.is_known(t[1]) for t in p.trace)]
        if not cands or not want:
            return
        self.rng.shuffle(cands)
        n = 0
        for p in cands[:want * 2]:
            if n >= want:
                break
            conds = list(p.pc)
            conds += self.all_defs(conds)
            reals = [z3.Real(nm) for nm, k, x in p.inputs if k == 'r']
            m = None
            off = [self.K.poly_z3(c.a) <= z3.Q(-1, 1000) for c in conds if c.kind == 'r' and c.b in ('<', '<=')]
            for ex in ([z3.And(x <= 10, x >= -10) for x in reals] + off, [z3.And(x <= 100, x >= -100) for x in reals]):
                m, v = self.model(conds, p.inputs, ex, 4)
                if m is not None:
                    break
            if m is None:
                continue
            n += 1
            try:
                self.wait_native()
            except RuntimeError:
                return
            kind, detail, lines = run_native(self.native, self.case, m, self.work)
            seq = [(t[0], t[1]) for t in p.trace if t[0] in ('check', 'eq', 'le', 'cover')]
            nat = [tuple(l.split()[:2]) for l in lines if l.split()[:1] and l.split()[0] in ('check', 'eq', 'le', 'cover')]
            if kind == 'ok' and seq == nat:
                self.res['validated'] += 1
            elif self.uses_uf(conds):
                self.res['uf_models'] = self.res.get('uf_models', 0) + 1  # the model interprets exp or log differently
            else:
                self.res['mismatched'].append(dict(kind=kind, detail=detail[:200], inputs=m,
                                                   expected=seq[-6:], native=nat[-6:]))


def merge(a, b):
    """add the result of a process that explored a part of the paths"""
    for k in ('paths', 'obligations', 'norm', 'discharged', 'forks', 'steps', 'branch_queries', 'solver_s', 'nonfinite',
              'validated', 'skipped', 'uf_models'):
        if k in b:
            a[k] = a.get(k, 0) + b[k]
    a['explore_s'] = max(a['explore_s'], b['explore_s'])
    for k in ('ended', 'functions', 'by_solver'):
        for x, n in b[k].items():
            a[k][x] = a[k].get(x, 0) + n
    for x, (m, n) in b['checks'].items():
        c = a['checks'].setdefault(x, [0, 0])
        c[0] += m
        c[1] += n
    a['covers'] = sorted(set(a['covers']) | set(b['covers']))
    for k in ('unknown', 'violations', 'unreproduced', 'errors', 'mismatched', 'samples'):
        a[k] = a[k] + b[k]
    a['parts'] = a.get('parts', 1) + b.get('parts', 1)


def worker(args):
    try:
        w = CaseWorker(*args)
        return w.go()
    except Exception:
        return dict(case=args[1], errors=['internal: ' + traceback.format_exc()[-2000:]], violations=[], unknown=[],
                    unreproduced=[], obligations=0, discharged=0)


def die_with_parent():
    ctypes.CDLL(None).prctl(1, 9)    # PR_SET_PDEATHSIG, SIGKILL


def proc_main(args, conn):
    import warnings
    warnings.simplefilter('ignore')
    os.setpgid(0, 0)
    die_with_parent()
    sys.setrecursionlimit(20000)
    r = worker(args)
    try:
        conn.send(r)
    finally:
        conn.close()


def run_cases(prop, cases, b, work, tier, seed, verbose, tlimit, known=()):
    ctx = mp.get_context('fork')
    sem = ctx.Semaphore(8)
    slots = ctx.Semaphore(8)      # processes that explore paths
    stop = ctx.Event()
    results = []
    pending = list(cases)
    live = []
    t0 = time.time()

    def gone(name, why):
        results.append(dict(case=name, errors=[why], violations=[], unknown=[], unreproduced=[], obligations=0, discharged=0))

    def kill(p):
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.join()

    found = None
    while pending or live:
        while pending and not stop.is_set() and slots.acquire(block=False):
            name, opts = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=proc_main, args=((prop, name, b.bc, b.native, work, opts, sem, stop, tier, seed,
                                                     verbose, known, slots), w))
            p.start()
            w.close()
            live.append((p, r, name, time.time()))
        if stop.is_set():
            pending = []
            found = found or time.time()
        for it in list(live):
            p, r, name, ts = it
            if r.poll(0):
                try:
                    results.append(r.recv())
                except EOFError:
                    gone(name, 'worker died')
                p.join()
                live.remove(it)
                slots.release()
            elif not p.is_alive():
                gone(name, 'worker died (exit %s)' % p.exitcode)
                live.remove(it)
                slots.release()
            elif time.time() - t0 > tlimit:
                kill(p)
                gone(name, 'time limit of the check reached')
                live.remove(it)
            elif found and any(x.get('violations') for x in results) and time.time() - found > 5:
                kill(p)              # a violation is on record: the rest does not matter any more
                live.remove(it)
        if time.time() - t0 > tlimit:
            for c in pending:
                gone(c[0], 'time limit of the check reached')
            pending = []
        time.sleep(0.02)
    return results


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split('\n')[:len(names)]
    except OSError:
        return names


def repo_functions(b, names):
    """names of encoded functions that come from the repository's sources"""
    dem = demangle(names)
    out = set()
    for n in dem:
        if n.startswith(('std::', 'xt::', 'void std::', 'void xt::', '__gnu', 'case_', 'xtl::', 'svector')):
            continue
        if re.match(r'^(auto |bool |void |decltype.* )?(std|xt|xtl|__gnu_cxx|xsimd)::', n):
            continue
        out.add(n[:160])
    return sorted(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--case', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--evidence', default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from .props import PROPS
    cfg = PROPS[a.prop]
    t0 = time.time()
    os.environ['TMPDIR'] = tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix='vp-%s-' % a.prop)
    code = 2
    try:
        code = check(a, cfg, tier, seed, work, t0)
    except BuildError as e:
        print('ERROR build failed:\n' + str(e))
        code = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))['findings'] if k['property'] == prop and k.get('status') != 'fixed']


def check(a, cfg, tier, seed, work, t0):
    b = Build(cfg, work)
    b.start_native()
    b.ir()
    t_build = time.time() - t0
    cases = list(cfg['cases'])
    if tier == 'thorough':
        cases = cases + list(cfg.get('thorough', []))
    norm = []
    for c in cases:
        name, o = c if isinstance(c, tuple) else (c, {})
        opts = dict(cfg.get('opts', {}))
        opts.update(o)
        if tier == 'thorough':
            opts.update(cfg.get('thorough_opts', {}))
        norm.append((name, opts))
    if a.case:
        norm = [c for c in norm if re.fullmatch(a.case, c[0])]
    tlimit = cfg.get('tlimit', 700 if tier == 'quick' else 7000)
    known = load_known(a.prop)
    results = run_cases(a.prop, norm, b, work, tier, seed, a.v, tlimit, known)
    nat_err = None
    try:
        b.nat.result()
    except BuildError as e:
        nat_err = str(e)
    viol, kfs, errors, unknown, unrep = [], [], [], [], []
    for r in results:
        for v in r.get('violations', []):
            k = next((k for k in known if re.fullmatch(k['case'], v['case']) and re.fullmatch(k['check'], v['check'])), None)
            if k and v.get('known'):
                kfs.append((k, v))
            else:
                viol.append(v)
        errors += ['%s: %s' % (r['case'], e) for e in r.get('errors', [])]
        unknown += [(r['case'],) + tuple(u) for u in r.get('unknown', [])]
        unrep += [(r['case'],) + tuple(u) for u in r.get('unreproduced', [])]
    # vacuity: every expected witness must have been reached on a feasible path
    covers = set()
    for r in results:
        covers |= set(r.get('covers', []))
    missing = [] if a.case else [c for c in cfg.get('covers', []) if c not in covers]
    wall = time.time() - t0
    rdir = os.path.join(VERIF, 'replays', a.prop)
    lines = []
    if viol:
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(viol[:5]):
            fn = os.path.join(rdir, 'ce%d.json' % i)
            json.dump(dict(property=a.prop, harness=cfg['harness'], sources=cfg.get('sources', []), **v),
                      open(fn, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (a.prop, fn))
            lines.append('  case %s, check %s: native replay %s %s' % (v['case'], v['check'], v['native'],
                                                                      v['detail'].split('\n')[0]))
            lines.append('  inputs: ' + ', '.join('%s=%s' % kv for kv in list(v['inputs'].items())[:24]))
    seen = set()
    for k, v in kfs:
        if k['id'] not in seen:
            seen.add(k['id'])
            lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    fns = {}
    for r in results:
        for k, n in r.get('functions', {}).items():
            fns[k] = fns.get(k, 0) + n
    samples = []
    for r in results:
        samples += r.get('samples', [])
    samples = samples[:3]
    if not samples:
        samples = [dict(case=r['case'], paths=r.get('paths'), checks=r.get('checks')) for r in results[:3]]
    bys = {}
    for r in results:
        for k, n in r.get('by_solver', {}).items():
            bys[k] = bys.get(k, 0) + n
    ev = dict(
        property=a.prop, tier=tier, seed=seed, level=cfg.get('level', 'model_checking'),
        coverage=dict(
            states=tot('paths') + tot('forks'), transitions=tot('steps'),
            traces_validated_against_impl=tot('validated'),
            samples=samples,
            exhaustive=not (errors or unknown or unrep),
            explanation='symbolic execution of the LLVM IR of the current sources; states = symbolic states (path ends '
                        'and fork points), transitions = IR instructions executed symbolically',
            paths=tot('paths'), path_ends={k: sum(r.get('ended', {}).get(k, 0) for r in results)
                                           for k in {x for r in results for x in r.get('ended', {})}},
            obligations=tot('obligations'), discharged=tot('discharged'),
            discharged_by_normal_form=tot('norm'), discharged_by_solver=bys,
            branch_feasibility_queries=tot('branch_queries'),
            solver_seconds=round(tot('solver_s'), 2),
            bounds=cfg.get('bounds', ''),
            outside=cfg.get('outside', ''),
            cases={r['case']: dict(paths=r.get('paths'), obligations=r.get('obligations'),
                                   discharged=r.get('discharged'), explore_s=round(r.get('explore_s', 0), 2),
                                   checks=r.get('checks', {})) for r in results},
            functions_encoded=repo_functions(b, list(fns)),
            functions_encoded_total=len(fns),
            covers=sorted(covers),
            mismatched_traces=[m for r in results for m in r.get('mismatched', [])][:5],
            unknown=[list(map(str, u)) for u in unknown][:20],
            unreproduced=[list(map(str, u)) for u in unrep][:20],
            errors=errors[:20], build_s=round(t_build, 2)),
        assumptions=cfg.get('assumptions', []) + COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    efn = a.evidence or os.path.join(VERIF, 'evidence', a.prop + '.json')
    if not a.case or a.evidence:
        os.makedirs(os.path.dirname(efn), exist_ok=True)
        json.dump(ev, open(efn, 'w'), indent=1, default=str)
    for l in lines:
        print(l)
    c = ev['coverage']
    print('%s %s: %d cases, %d paths, %d obligations, %d discharged (%d by normal form), %d traces validated '
          '(%d mismatched), %.1fs' % (a.prop, tier, len(results), c['paths'], c['obligations'], c['discharged'],
                                      c['discharged_by_normal_form'], c['traces_validated_against_impl'],
                                      len([m for r in results for m in r.get('mismatched', [])]), ev['wall_s']))
    if a.v:
        for r in results:
            print('  ', r['case'], 'paths', r.get('paths'), r.get('ended'), 'obl', r.get('obligations'), 'disch',
                  r.get('discharged'), 'explore %.1f' % r.get('explore_s', 0), 'covers', r.get('covers'))
            for m in r.get('mismatched', []):
                print('     MISMATCH', m)
    if viol:
        return 1
    for e in errors:
        print('ERROR', e)
    for u in unknown:
        print('UNKNOWN', u)
    for u in unrep:
        print('UNREPRODUCED', u)
    for m in missing:
        print('ERROR vacuity: witness %s was not reached' % m)
    if nat_err:
        print('ERROR native build: ' + nat_err[-1500:])
    if errors or unknown or unrep or missing or nat_err:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'doubles are exact reals (no rounding, overflow or underflow)',
    'clang -O2 lowering of the sources to LLVM IR, the IR semantics in engine/machine.py and the models of libm and '
    'libstdc++ entry points in engine/externs.py are trusted',
    'SMT solvers (z3, cvc5) are trusted',
]

if __name__ == '__main__':
    main()
