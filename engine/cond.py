"""Boolean conditions over exact reals (polynomial rel 0) and bit-vectors."""
import z3
from . import realalg as R

NEG, ZERO, POS = 1, 2, 4
OPMASK = {'<': NEG, '<=': NEG | ZERO, '==': ZERO, '!=': NEG | POS}
FLIP = {1: 4, 4: 1, 2: 2, 3: 6, 6: 3, 5: 5, 7: 7, 0: 0}


class Cond:
    __slots__ = ('kind', 'a', 'b', 'key', '_z', '_at')

    def __init__(self, kind, a, b, key):
        self.kind, self.a, self.b, self.key = kind, a, b, key
        self._z = None
        self._at = None

    def neg(self):
        k = self.kind
        if k == 'r':
            op = self.b
            if op == '<':
                return creal(R.pneg(self.a), '<=')
            if op == '<=':
                return creal(R.pneg(self.a), '<')
            return creal(self.a, '!=' if op == '==' else '==')
        if k == 'n':
            return self.a
        return Cond('n', self, None, ('n', self.key))

    def z(self):
        if self._z is None:
            k = self.kind
            if k == 'r':
                p = poly_z3(self.a)
                op = self.b
                z0 = z3.RealVal(0)
                self._z = p < z0 if op == '<' else p <= z0 if op == '<=' else \
                    p == z0 if op == '==' else p != z0
            elif k == 'z':
                self._z = self.a
            elif k == 'n':
                self._z = z3.Not(self.a.z())
            elif k == '&':
                self._z = z3.And(self.a.z(), self.b.z())
            elif k == '|':
                self._z = z3.Or(self.a.z(), self.b.z())
            elif k == '^':
                self._z = z3.Xor(self.a.z(), self.b.z())
        return self._z

    def atoms(self):
        """frozenset of atom ids (ints) and bit-vector variable names (str)"""
        if self._at is None:
            k = self.kind
            if k == 'r':
                s = set(R.patoms(self.a))
            elif k == 'z':
                s = z3vars(self.a)
            elif k == 'n':
                s = self.a.atoms()
            else:
                s = self.a.atoms() | self.b.atoms()
            self._at = frozenset(s)
        return self._at

    def __repr__(self):
        if self.kind == 'r':
            return '%s %s 0' % (R.poly_str(self.a), self.b)
        if self.kind == 'z':
            return str(self.a)
        if self.kind == 'n':
            return '!(%r)' % self.a
        return '(%r %s %r)' % (self.a, self.kind, self.b)


def creal(p, op):
    """polynomial p op 0 -> Cond or bool"""
    if R.pisconst(p):
        c = p.get(0, 0)
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    c = R.pcontent(p)
    if op in ('==', '!=') and p[max(p)] < 0:
        c = -c
    if c != 1:
        p = {m: v // c for m, v in p.items()}
    return Cond('r', p, op, ('r', op, R.pkey(p)))


_keep = []


def cbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    _keep.append(e)
    return Cond('z', e, None, ('z', e.get_id()))


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a.key == b.key:
        return a
    return Cond('&', a, b, ('&', a.key, b.key))


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a.key == b.key:
        return a
    return Cond('|', a, b, ('|', a.key, b.key))


def cnot(a):
    if a is True:
        return False
    if a is False:
        return True
    return a.neg()


def cxor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return cnot(b)
    if b is True:
        return cnot(a)
    return Cond('^', a, b, ('^', a.key, b.key))


_zcache = {}
_zvars = {}


def z3vars(e):
    r = _zvars.get(e.get_id())
    if r is not None:
        return r[1]
    s = set()
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(x.decl().name())
        else:
            todo.extend(x.children())
    _zvars[e.get_id()] = (e, s)
    return s


def atom_z3(i):
    AT = R.AT
    k = AT.info[i].get('z') if isinstance(AT.info[i], dict) else None
    if k is not None:
        return k
    v = z3.Real(AT.names[i])
    return v


def poly_z3(p):
    k = R.pkey(p)
    r = _zcache.get(k)
    if r is not None:
        return r
    terms = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(z3.RealVal(c))
        for a, e in R.mono_exps(m):
            v = atom_z3(a)
            fs.extend([v] * e)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        r = z3.RealVal(0)
    elif len(terms) == 1:
        r = terms[0]
    else:
        r = z3.Sum(terms)
    _zcache[k] = r
    return r


def reset():
    _zcache.clear()
    _zvars.clear()
    del _keep[:]
