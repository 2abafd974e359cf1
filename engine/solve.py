"""Discharging obligations: SMT-LIB text and a solver portfolio."""
import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from . import realalg as R
from . import cond as K
from .cond import Cond

Z3BIN = next((p for p in ('/usr/local/bin/z3-new', '/usr/bin/z3-new') if os.path.exists(p)), 'z3-new')
CVC5BIN = next((p for p in ('/usr/local/bin/cvc5', '/usr/bin/cvc5') if os.path.exists(p)), 'cvc5')


def declare_script(asserts, getvals=()):
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    for v in getvals:
        s.add(z3.Or(v == v, True)) if False else None
    txt = s.to_smt2()
    body = txt.replace('(check-sat)', '')
    # inputs that occur nowhere need declarations of their own
    decl = []
    for v in getvals:
        nm = v.sexpr()
        if not re.search(r'\(declare-fun %s ' % re.escape(nm), body):
            decl.append('(declare-fun %s () %s)' % (nm, v.sort().sexpr()))
    return '\n'.join(decl) + '\n' + body


def run_cmd(cmd, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout + 5, text=True)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t0


def verdict(out):
    for l in out.split('\n'):
        l = l.strip()
        if l in ('sat', 'unsat'):
            return l
        if l.startswith('(error'):
            return 'unknown'
    return 'unknown'


def pure_real(text):
    return 'BitVec' not in text and '() Int)' not in text and 'bv2' not in text and '() Bool)' not in text


class Popen:
    def __init__(self, name, cmd):
        self.name = name
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def race(jobs, timeout):
    """first definite answer of several solver processes"""
    t0 = time.time()
    ps = [Popen(n, c) for n, c in jobs]
    res = ('unknown', None, '')
    live = list(ps)
    try:
        while live and time.time() - t0 < timeout + 3:
            for q in list(live):
                if q.p.poll() is not None:
                    out = q.p.stdout.read()
                    live.remove(q)
                    v = verdict(out)
                    if v != 'unknown':
                        return v, q.name, out
            time.sleep(0.01)
    finally:
        for q in ps:
            if q.p.poll() is None:
                q.p.kill()
            q.p.wait()
            q.p.stdout.close()
    return res


def solve_text(text, budget, seed=1, getvals=None, workdir=None, sat_first=False):
    """-> (verdict, solver name, seconds, output)"""
    t0 = time.time()
    d = workdir or tempfile.gettempdir()
    fd, fn = tempfile.mkstemp('.smt2', dir=d)
    os.close(fd)
    gv = '(get-value (%s))\n' % ' '.join(getvals) if getvals else ''
    files = [fn]
    try:
        with open(fn, 'w') as f:
            f.write('(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n'
                    + text + '(check-sat)\n' + gv)
        quick = min(3, budget)
        out, dt = run_cmd([Z3BIN, '-T:%d' % max(1, int(quick)), 'smt.random_seed=%d' % seed, fn], quick)
        v = verdict(out)
        if v != 'unknown' or budget <= quick:
            return v, 'z3', time.time() - t0, out
        jobs = [('z3', [Z3BIN, '-T:%d' % int(budget), 'smt.random_seed=%d' % (seed + 7), fn])]
        if pure_real(text):
            f2 = fn + '.nl.smt2'
            with open(f2, 'w') as f:
                f.write('(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n'
                        + text + '(check-sat-using qfnra-nlsat)\n' + gv)
            files.append(f2)
            jobs.append(('z3-nlsat', [Z3BIN, '-T:%d' % int(budget), f2]))
            logic = 'QF_NRA'
        else:
            logic = 'ALL'
        f3 = fn + '.c.smt2'
        with open(f3, 'w') as f:
            f.write('(set-logic %s)\n' % logic + text + '(check-sat)\n')
        files.append(f3)
        jobs.append(('cvc5', [CVC5BIN, '--tlimit=%d' % int(budget * 1000)] +
                     (['--solve-bv-as-int=sum'] if False else []) + [f3]))
        v, name, out = race(jobs, budget)
        if v == 'sat' and getvals and name == 'cvc5':
            out2 = ''
            return v, name, time.time() - t0, out2
        return v, name or 'portfolio', time.time() - t0, out
    finally:
        for f in files:
            try:
                os.unlink(f)
            except OSError:
                pass


def parse_num(tok):
    """S-expression value -> Fraction | int | bool | None"""
    s = tok.strip()
    if s == 'true':
        return True
    if s == 'false':
        return False
    if s.startswith('#x'):
        return int(s[2:], 16)
    if s.startswith('#b'):
        return int(s[2:], 2)

    def ev(s):
        s = s.strip()
        if not s.startswith('('):
            s = s.rstrip('?')
            return Fraction(s)
        parts = split_sexpr(s[1:-1])
        if parts[0] == '-' and len(parts) == 2:
            return -ev(parts[1])
        if parts[0] == '/':
            return ev(parts[1]) / ev(parts[2])
        if parts[0] == '-':
            return ev(parts[1]) - ev(parts[2])
        if parts[0] == 'to_real':
            return ev(parts[1])
        raise ValueError(s)
    try:
        return ev(s)
    except (ValueError, ZeroDivisionError, IndexError):
        return None


def split_sexpr(s):
    out, depth, cur, bar = [], 0, '', False
    for ch in s:
        if ch == '|':
            bar = not bar
        if not bar:
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
            elif ch.isspace() and depth == 0:
                if cur:
                    out.append(cur)
                cur = ''
                continue
        cur += ch
    if cur:
        out.append(cur)
    return out


def parse_values(out, names):
    i = out.find('((')
    if i < 0:
        return None
    body = out[i:].strip()
    # balanced prefix
    d = 0
    end = None
    for k, ch in enumerate(body):
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                end = k
                break
    if end is None:
        return None
    r = {}
    for it in split_sexpr(body[1:end]):
        p = split_sexpr(it[1:-1])
        if len(p) == 2:
            r[p[0]] = parse_num(p[1])
    return r
