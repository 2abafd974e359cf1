"""Symbolic executor for LLVM IR.

Functions are translated lazily into lists of closures; a path's state is
explicit (frames, memory objects, path condition), so a fork copies it.
  double            -> Fraction | RF (exact real) | float inf/nan
  iN (N>1)          -> int (unsigned) | z3 bit-vector
  i1                -> 0/1 | Cond
  pointer           -> int  (object id << 32 | offset)
"""
import ctypes
import struct
import sys
import time
from fractions import Fraction
from math import isqrt, inf, nan, isnan, isinf
import z3
from . import llvmc as C
from . import realalg as R
from .realalg import RF
from . import cond as K
from . import narrow as N
from .cond import Cond, creal, cbool, NEG, ZERO, POS, OPMASK, FLIP

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Throw(Exception):
    """a C++ exception in flight"""
    def __init__(self, ptr, type):
        self.ptr, self.type = ptr, type


class Stop(Exception):
    """the path ends (assume false / violation recorded)"""


class Halt(Exception):
    """exploration is no longer needed"""


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


# ------------------------------------------------------------------- types
class Types:
    def __init__(self, dl):
        self.dl = dl
        self.cache = {}

    def get(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._make(t)
            self.cache[t] = r
        return r

    def _make(self, t):
        k = C.GetTypeKind(t)
        if k == C.TINT:
            w = C.GetIntWidth(t)
            return ('i', w, C.StoreSize(self.dl, t))
        if k == C.TDOUBLE:
            return ('d', 64, 8)
        if k == C.TFLOAT:
            return ('f', 32, 4)
        if k == C.TPTR:
            return ('p', 64, 8)
        if k == C.TVOID:
            return ('v', 0, 0)
        if k == C.TFP80:
            return ('x', 80, 16)
        if k == C.TARRAY:
            et = self.get(C.GetElementType(t))
            n = C.GetArrayLength(t)
            es = C.ABISize(self.dl, C.GetElementType(t))
            return ('agg', [(i * es, et) for i in range(n)] if n < 100000 else None, C.ABISize(self.dl, t))
        if k == C.TVEC:
            et = self.get(C.GetElementType(t))
            n = C.GetVectorSize(t)
            es = et[2]
            return ('agg', [(i * es, et) for i in range(n)], C.ABISize(self.dl, t), 'vec')
        if k == C.TSTRUCT:
            n = C.CountStructElts(t)
            return ('agg', [(C.OffsetOfElement(self.dl, t, i), self.get(C.StructGetType(t, i)))
                            for i in range(n)], C.ABISize(self.dl, t))
        return ('other', k, 0)


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('size', 'cells', 'bg', 'alive', 'owner', 'kind', 'name')

    def __init__(self, size, owner, kind, name='', bg=None):
        self.size = size
        self.cells = {}
        self.bg = bg
        self.alive = True
        self.owner = owner
        self.kind = kind
        self.name = name

    def copy(self, owner):
        o = Obj(self.size, owner, self.kind, self.name, self.bg)
        o.cells = dict(self.cells)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('regs', 'fn', 'code', 'pc', 'blk', 'allocs')

    def copy(self):
        f = Frame()
        f.regs = list(self.regs)
        f.fn = self.fn
        f.code = self.code
        f.pc = self.pc
        f.blk = self.blk
        f.allocs = list(self.allocs)
        return f


_tok = [0]


def token():
    _tok[0] += 1
    return _tok[0]


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owner = token()
        self.nobj = 0
        self.pc = []            # list of Cond (path condition)
        self.signs = {}         # canonical poly key -> mask
        self.decided = {}       # cond key -> bool
        self.tries = {}         # concretization attempts
        self.count = {}         # input name occurrences
        self.inputs = []        # (name, kind, value)
        self.trace = []
        self.steps = 0
        self.steps0 = 0
        self.done = None
        self.nuninit = 0
        self.lastmodel = None
        self.nforks = 0
        self.extra = {}

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.owner = token()
        s.owner = token()
        s.nobj = self.nobj
        s.pc = list(self.pc)
        s.signs = dict(self.signs)
        s.decided = dict(self.decided)
        s.tries = {k: list(v) for k, v in self.tries.items()}
        s.count = dict(self.count)
        s.inputs = list(self.inputs)
        s.trace = list(self.trace)
        s.steps = s.steps0 = self.steps
        s.nuninit = self.nuninit
        s.nforks = self.nforks
        s.extra = dict(self.extra)
        return s

    def alloc(self, size, kind, name='', bg=None):
        self.nobj += 1
        i = self.nobj
        self.mem[i] = Obj(size, self.owner, kind, name, bg)
        return i << 32

    def wobj(self, i):
        o = self.mem[i]
        if o.owner != self.owner:
            o = o.copy(self.owner)
            self.mem[i] = o
        return o


def is_real(v):
    t = type(v)
    return t is Fraction or t is RF or t is float


def dbits(v):
    """concrete double -> bits"""
    if type(v) is float:
        f = v
    elif type(v) is Fraction:
        f = v.numerator / v.denominator
    else:
        raise Unsupported('bit pattern of a symbolic double')
    return struct.unpack('<Q', struct.pack('<d', f))[0]


def fbits(v):
    if type(v) is RF:
        raise Unsupported('bit pattern of a symbolic float')
    return struct.unpack('<I', struct.pack('<f', float(v)))[0]


def from_dbits(b):
    f = struct.unpack('<d', struct.pack('<Q', b))[0]
    if isnan(f) or isinf(f):
        return f
    return R.simplest(f)


def from_fbits(b):
    f = struct.unpack('<f', struct.pack('<I', b))[0]
    if isnan(f) or isinf(f):
        return f
    return Fraction(f)


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    K._keep.append(e)
    return e


def bv(x, w):
    if type(x) is int:
        return z3.BitVecVal(x, w)
    if isinstance(x, Cond):
        return z3.If(x.z(), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if is_real(x):
        return z3.BitVecVal(dbits(x), w)
    return x


def sx(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def cstr(st, p):
    o = st.mem[p >> 32]
    off = p & 0xffffffff
    r = []
    while True:
        c = Machine.byte_at(o, off)
        if type(c) is not int or c == 0:
            break
        r.append(chr(c))
        off += 1
    return ''.join(r)


class Machine:
    def __init__(self, path, opts=None):
        self.mod = C.load(path)
        self.dl = C.GetModuleDataLayout(self.mod)
        self.T = Types(self.dl)
        self.opts = dict(step_limit=4000000, max_paths=4000, branch_ms=400)
        self.patience = 20
        self.opts.update(opts or {})
        self.funcs = {}
        self.faddr = {}
        self.fbyaddr = {}
        self.tr = {}
        self.globals = {}
        self.gaddr = {}
        self.executed = {}       # function name -> times entered
        self.nfork = 0
        self.nbranch_q = 0
        self.solver_s = 0.0
        self.nsteps = 0
        self.obls = []           # obligations
        self.oblkeys = set()
        self.paths = []
        self.bounded = []
        self._feas = {}
        self.covers = {}
        self.hook = None         # called after every path
        self.halted = None
        from . import externs
        self.externs = externs
        f = C.GetFirstFunction(self.mod)
        n = 0
        while f:
            nm = C.vname(f)
            self.funcs[nm] = f
            n += 1
            self.faddr[nm] = (0x7fff0000 << 32) | (n * 16)
            self.fbyaddr[self.faddr[nm]] = nm
            f = C.GetNextFunction(f)
        self.base = State()
        self.base_init()

    # ------------------------------------------------------------ globals
    def base_init(self):
        st = self.base
        g = C.GetFirstGlobal(self.mod)
        todo = []
        while g:
            nm = C.vname(g)
            t = self.T.get(C.GlobalGetValueType(g))
            decl = C.IsDeclaration(g)
            size = t[2] if t[0] != 'other' else 0
            if decl:
                size = max(size, 4096)
            a = st.alloc(size, 'global', nm, bg=0 if decl else None)
            self.gaddr[g] = a
            self.globals[nm] = a
            if not decl:
                todo.append((g, a, t))
            g = C.GetNextGlobal(g)
        self.aliases = {}
        g = C.GetFirstGlobalAlias(self.mod)
        while g:
            self.aliases[C.vname(g)] = C.AliasGetAliasee(g)
            g = C.GetNextGlobalAlias(g)
        for g, a, t in todo:
            nm = C.vname(g)
            if nm.startswith('llvm.'):
                continue
            init = C.GetInitializer(g)
            self.init_global(st, a, t, init)
        # constructors
        if 'llvm.global_ctors' in self.globals:
            g = C.GetFirstGlobal(self.mod)
            while g and C.vname(g) != 'llvm.global_ctors':
                g = C.GetNextGlobal(g)
            init = C.GetInitializer(g)
            n = C.GetArrayLength(C.TypeOf(init))
            fs = []
            for i in range(n):
                e = C.GetAggElt(init, i)
                pr = C.ConstIntZ(C.GetAggElt(e, 0))
                fn = C.GetAggElt(e, 1)
                fs.append((pr, i, C.vname(fn)))
            for pr, i, fn in sorted(fs):
                self.call_concrete(st, fn)

    def call_concrete(self, st, fn):
        self.push(st, fn, [])
        self.run_path(st, single=True)
        if st.done != 'ret':
            raise Unsupported('global constructor %s: %s' % (fn, st.done))
        st.done = None

    def init_global(self, st, a, t, v):
        o = st.wobj(a >> 32)
        vk = C.VK[C.GetValueKind(v)]
        if vk == 'ConstantAggregateZero' or C.IsNull(v):
            o.bg = 0
            return
        self.init_at(o, a & 0xffffffff, t, v)

    def init_at(self, o, off, t, v):
        vk = C.VK[C.GetValueKind(v)]
        if vk in ('UndefValue', 'PoisonValue'):
            return
        if t[0] == 'agg':
            if vk == 'ConstantAggregateZero':
                self.zero_fill(o, off, t[2])
                return
            if vk in ('ConstantDataArray', 'ConstantDataVector'):
                for i, (eo, et) in enumerate(t[1]):
                    self.init_at(o, off + eo, et, C.GetElementAsConstant(v, i))
                return
            # padding reads as zero
            for i, (eo, et) in enumerate(t[1]):
                self.init_at(o, off + eo, et, C.GetAggElt(v, i))
            return
        o.cells[off] = (t[2], self.const(v))

    @staticmethod
    def zero_fill(o, off, n):
        if off == 0 and n >= o.size:
            o.cells.clear()
            o.bg = 0
            return
        while n >= 8:
            o.cells[off] = (8, 0)
            off += 8
            n -= 8
        while n:
            o.cells[off] = (1, 0)
            off += 1
            n -= 1

    # ------------------------------------------------------------ constants
    def const(self, v):
        vk = C.VK[C.GetValueKind(v)]
        if vk == 'ConstantInt':
            w = C.GetIntWidth(C.TypeOf(v))
            if w > 64:
                s = C.vprint(v)
                return int(s.split()[-1]) & ((1 << w) - 1)
            return C.ConstIntZ(v) & ((1 << w) - 1)
        if vk == 'ConstantFP':
            lossy = ctypes.c_int()
            d = C.ConstRealGetDouble(v, ctypes.byref(lossy))
            k = C.GetTypeKind(C.TypeOf(v))
            if isnan(d) or isinf(d):
                return d
            if k == C.TFLOAT:
                return Fraction(d)
            return R.simplest(d)
        if vk == 'ConstantPointerNull':
            return 0
        if vk in ('UndefValue', 'PoisonValue'):
            return self.zero(self.T.get(C.TypeOf(v)))
        if vk == 'ConstantAggregateZero':
            return self.zero(self.T.get(C.TypeOf(v)))
        if vk in ('ConstantDataArray', 'ConstantDataVector'):
            t = self.T.get(C.TypeOf(v))
            return tuple(self.const(C.GetElementAsConstant(v, i)) for i in range(len(t[1])))
        if vk in ('ConstantStruct', 'ConstantArray', 'ConstantVector'):
            t = self.T.get(C.TypeOf(v))
            return tuple(self.const(C.GetAggElt(v, i)) for i in range(len(t[1])))
        if vk == 'Function':
            return self.faddr[C.vname(v)]
        if vk == 'GlobalVariable':
            return self.gaddr[v]
        if vk == 'GlobalAlias':
            return self.const(C.AliasGetAliasee(v))
        if vk == 'ConstantExpr':
            op = C.OPC.get(C.GetConstOpcode(v))
            n = C.GetNumOperands(v)
            if op == 'gep':
                a = self.const(C.GetOperand(v, 0))
                steps = self.gep_steps(v, n)
                for kind, x, y in steps:
                    if kind == 'k':
                        a += x
                    else:
                        idx = self.const(C.GetOperand(v, x))
                        w = self.T.get(C.TypeOf(C.GetOperand(v, x)))[1]
                        a += sx(idx, w) * y
                return a & M64
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(C.GetOperand(v, 0))
            if op in ('add', 'sub', 'and', 'mul', 'xor', 'shl'):
                w = self.T.get(C.TypeOf(v))[1]
                x, y = self.const(C.GetOperand(v, 0)), self.const(C.GetOperand(v, 1))
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'and': lambda: x & y,
                     'mul': lambda: x * y, 'xor': lambda: x ^ y, 'shl': lambda: x << y}[op]()
                return r & ((1 << w) - 1)
            if op == 'trunc':
                w = self.T.get(C.TypeOf(v))[1]
                return self.const(C.GetOperand(v, 0)) & ((1 << w) - 1)
            if op == 'icmp':
                x, y = self.const(C.GetOperand(v, 0)), self.const(C.GetOperand(v, 1))
                p = C.GetICmp(v)
                return int(ICMP[p](x, y, 64))
            raise Unsupported('constant expression %s' % C.vprint(v)[:200])
        raise Unsupported('constant %s: %s' % (vk, C.vprint(v)[:200]))

    def zero(self, t):
        k = t[0]
        if k in ('i', 'p'):
            return 0
        if k in ('d', 'f', 'x'):
            return Fraction(0)
        if k == 'agg':
            return tuple(self.zero(e) for _, e in t[1])
        return 0

    def gep_steps(self, v, n):
        """[('k', const) | ('x', operand index, scale)]"""
        t = C.GetGEPSource(v)
        out = []
        k = 0
        for i in range(1, n):
            op = C.GetOperand(v, i)
            vk = C.VK[C.GetValueKind(op)]
            if i == 1:
                es = C.ABISize(self.dl, t)
            else:
                tk = C.GetTypeKind(t)
                if tk == C.TSTRUCT:
                    idx = C.ConstIntZ(op)
                    k += C.OffsetOfElement(self.dl, t, idx)
                    t = C.StructGetType(t, idx)
                    continue
                t = C.GetElementType(t)
                es = C.ABISize(self.dl, t)
            if vk == 'ConstantInt':
                w = C.GetIntWidth(C.TypeOf(op))
                k += sx(C.ConstIntZ(op), w) * es
            else:
                out.append(('x', i, es))
        if k:
            out.append(('k', k, 0))
        return out

    # ------------------------------------------------------------- memory
    def resolve(self, st, addr, size, what):
        if type(addr) is not int:
            addr = self.conc_int(st, addr, 64)
        i = addr >> 32
        off = addr & 0xffffffff
        o = st.mem.get(i)
        if o is None:
            raise Violation('memory', '%s through %s pointer' % (
                what, 'a null' if addr < 4096 else 'an invalid'))
        if not o.alive:
            raise Violation('memory', '%s after the object was freed (%s)' % (what, o.kind))
        if off + size > o.size:
            raise Violation('memory', '%s of %d bytes at offset %d of a %d-byte %s object' % (
                what, size, sx(off, 32), o.size, o.kind))
        return i, off, o

    def load(self, st, addr, t):
        size = t[2]
        i, off, o = self.resolve(st, addr, size, 'read')
        return self.load_o(st, o, off, t)

    def load_o(self, st, o, off, t):
        k = t[0]
        if k == 'agg':
            return tuple(self.load_o(st, o, off + eo, et) for eo, et in t[1])
        size = t[2]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
        elif c is None and size > 1 and o.bg is None and not self.overlaps(o, off, size):
            return self.uninit(st, t)
        else:
            v = self.assemble(st, o, off, size, t)
            if v is None:
                return self.uninit(st, t)
        if k == 'd':
            if type(v) is int:
                return from_dbits(v)
            if is_real(v):
                return v
            raise Unsupported('double read of a symbolic integer')
        if k == 'f':
            if type(v) is int:
                return from_fbits(v)
            if is_real(v):
                return v
            raise Unsupported('float read of a symbolic integer')
        if k == 'i':
            w = t[1]
            if type(v) is int:
                if w < size * 8:
                    return v & ((1 << w) - 1)
                return v
            if is_real(v):
                if type(v) is not RF and size == 4:
                    return fbits(v)
                return v        # punned, copied as a whole
            if isinstance(v, Cond):
                return v if w == 1 else simp(bv(v, w))
            if w < v.size():
                q = N.trunc(v, v.size(), w) if w > 1 else None
                if q is not None:
                    return q
                v = simp(z3.Extract(w - 1, 0, v))
                if w == 1 and type(v) is not int:
                    return cbool(v == 1)
            return v
        if k == 'x':
            return v
        return v                # pointer

    @staticmethod
    def overlaps(o, off, size):
        cells = o.cells
        for x in range(off - 15, off + size):
            c = cells.get(x)
            if c is not None and x + c[0] > off:
                return True
        return False

    @staticmethod
    def byte_at(o, x):
        cells = o.cells
        for y in range(x, x - 16, -1):
            c = cells.get(y)
            if c is not None:
                if y + c[0] > x:
                    v = c[1]
                    k = x - y
                    if is_real(v):
                        v = fbits(v) if c[0] == 4 else dbits(v)
                    if type(v) is int:
                        return (v >> (8 * k)) & 255
                    if isinstance(v, Cond):
                        v = bv(v, 8)
                    if v.size() < 8 * c[0]:
                        v = z3.ZeroExt(8 * c[0] - v.size(), v)
                    return simp(z3.Extract(8 * k + 7, 8 * k, v))
                return o.bg
        return o.bg

    def assemble(self, st, o, off, size, t):
        bs = [self.byte_at(o, off + i) for i in range(size)]
        if all(b is None for b in bs):
            return None
        bs = [0 if b is None else b for b in bs]
        if all(type(b) is int for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= b << (8 * i)
            return r
        e = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if size > 1 else bs[0]
        return simp(e)

    def uninit(self, st, t):
        st.nuninit += 1
        k = t[0]
        nm = 'uninit_%d' % st.nuninit
        if k in ('d', 'f'):
            return R.rf_atom(R.AT.named(nm, 'fresh', {}))
        if k == 'i' and t[1] > 1:
            return z3.BitVec(nm, t[1])
        if k == 'i':
            return cbool(z3.Bool(nm))
        return 0xdead << 48

    def store(self, st, addr, t, v):
        size = t[2]
        i, off, o = self.resolve(st, addr, size, 'write')
        if o.owner != st.owner:
            o = st.wobj(i)
        self.store_o(o, off, t, v)

    def store_o(self, o, off, t, v):
        if t[0] == 'agg':
            for (eo, et), x in zip(t[1], v):
                self.store_o(o, off + eo, et, x)
            return
        size = t[2]
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear_range(o, off, size)
        if t[0] == 'i' and t[1] < size * 8 and type(v) is not int and not isinstance(v, Cond):
            v = simp(z3.ZeroExt(size * 8 - t[1], v))
        o.cells[off] = (size, v)

    def clear_range(self, o, off, size):
        cells = o.cells
        end = off + size
        rng = range(off - 15, end) if size <= 4096 or len(cells) > size else None
        hit = []
        if rng is not None:
            for x in rng:
                c = cells.get(x)
                if c is not None and x + c[0] > off:
                    hit.append((x, c))
        else:
            hit = [(x, c) for x, c in cells.items() if x < end and x + c[0] > off]
        for x, c in hit:
            if x < off or x + c[0] > end:
                bs = [(y, self.byte_at(o, y)) for y in range(x, x + c[0]) if y < off or y >= end]
                del cells[x]
                for y, b in bs:
                    cells[y] = (1, b)
            else:
                del cells[x]

    def memcpy(self, st, dst, src, n):
        n = self.conc_int(st, n, 64)
        if n == 0:
            return
        si, so, s = self.resolve(st, src, n, 'read')
        di, do, d = self.resolve(st, dst, n, 'write')
        end = so + n
        items = []
        cells = s.cells
        if len(cells) < 2 * n:
            cand = [(x, c) for x, c in cells.items() if x < end and x + c[0] > so]
        else:
            cand = [(x, cells[x]) for x in range(so - 15, end) if x in cells and x + cells[x][0] > so]
        covered = 0
        for x, c in cand:
            if x >= so and x + c[0] <= end:
                items.append((x, c))
                covered += c[0]
            else:
                for y in range(max(x, so), min(x + c[0], end)):
                    items.append((y, (1, self.byte_at(s, y))))
                    covered += 1
        bg = s.bg
        if d.owner != st.owner:
            d = st.wobj(di)
        if do == 0 and n >= d.size:
            d.cells.clear()
            d.bg = bg
        else:
            self.clear_range(d, do, n)
            if bg is not None and covered < n:
                cov = set()
                for x, c in items:
                    cov.update(range(x, x + c[0]))
                for y in range(so, end):
                    if y not in cov:
                        items.append((y, (1, bg)))
        dc = d.cells
        for x, c in items:
            dc[x - so + do] = c

    def memset(self, st, dst, val, n):
        n = self.conc_int(st, n, 64)
        if n == 0:
            return
        di, do, d = self.resolve(st, dst, n, 'write')
        d = st.wobj(di)
        if do == 0 and n >= d.size and type(val) is int:
            d.cells.clear()
            d.bg = val & 255
            return
        self.clear_range(d, do, n)
        if val == 0 and type(val) is int:
            self.zero_fill(d, do, n)
        else:
            for i in range(n):
                d.cells[do + i] = (1, val & 255 if type(val) is int else val)

    # ------------------------------------------------------ path conditions
    def sign(self, st, p):
        """mask of possible signs of polynomial p, from known facts only"""
        if R.pisconst(p):
            c = p.get(0, 0)
            return NEG if c < 0 else POS if c > 0 else ZERO
        c = R.pcontent(p)
        flip = p[max(p)] < 0
        if flip:
            c = -c
        q = p if c == 1 else {m: v // c for m, v in p.items()}
        m = st.signs.get(R.pkey(q))
        if m is None:
            m = 7
        if m in (1, 2, 4):
            return FLIP[m] if flip else m
        m &= self.mono_sign(st, q)
        return FLIP[m] if flip else m

    def atom_sign(self, st, a):
        m = st.signs.get(((1 << (R.SH * a), 1),), 7)
        k = R.AT.kind[a]
        if k == 'sqrt':
            m &= ZERO | POS
        elif k == 'pos':
            m &= POS
        return m

    def mono_sign(self, st, p):
        """sign from per-monomial signs"""
        if len(p) > 400:
            return 7
        tot = 0
        cache = {}
        strict = False
        for m, c in p.items():
            s = POS if c > 0 else NEG
            for a, e in R.mono_exps(m):
                x = cache.get(a)
                if x is None:
                    x = self.atom_sign(st, a)
                    cache[a] = x
                if e % 2 == 0:
                    x = (x & ZERO) | (POS if x & (NEG | POS) else 0)
                # product of masks
                r = 0
                if s & POS:
                    r |= x
                if s & NEG:
                    r |= FLIP[x]
                if (s | x) & ZERO:
                    r |= ZERO
                s = r
            if not (s & ZERO):
                strict = True
            tot |= s
            if tot & NEG and tot & POS:
                return 7
        if strict:
            tot &= ~ZERO
        return tot

    def cmp0(self, st, x, op):
        """x op 0 for a rational function -> bool | Cond"""
        if type(x) is Fraction:
            return {'<': x < 0, '<=': x <= 0, '==': x == 0, '!=': x != 0,
                    '>': x > 0, '>=': x >= 0}[op]
        if op == '>':
            x, op = R.rneg(x), '<'
        elif op == '>=':
            x, op = R.rneg(x), '<='
        num = x.num
        if op in ('<', '<='):
            for f, e in x.den:
                if e & 1:
                    s = self.sign(st, R.AT.factors[f])
                    if s == POS:
                        continue
                    if s == NEG:
                        num = R.pneg(num)
                    else:
                        num = R.pmul(num, R.AT.factors[f])
        num = self.strip(st, num, op)
        lg = self.log2cmp(st, num, op)
        if lg is not None:
            return lg
        m = self.sign(st, num)
        om = OPMASK[op]
        if not (m & ~om):
            return True
        if not (m & om):
            return False
        return creal(num, op)

    def strip(self, st, p, op):
        """drop factors whose sign is known and nonzero"""
        if not p or R.pisconst(p):
            return p
        g = R.mono_gcd(p)
        if g:
            for a, e in R.mono_exps(g):
                s = self.atom_sign(st, a)
                if s & ZERO:
                    if e > 2:
                        k = (e - 1) // 2 * 2 if op in ('<', '<=') else e - 1
                        p = {m - (k << (R.SH * a)): c for m, c in p.items()}
                    continue
                p = {m - (e << (R.SH * a)): c for m, c in p.items()}
                if e & 1 and s == NEG:
                    p = R.pneg(p)
                elif e & 1 and s != POS:
                    p = {m + (1 << (R.SH * a)): c for m, c in p.items()}
        if len(p) < 600:
            for f in range(len(R.AT.factors)):
                D = R.AT.factors[f]
                if len(D) < 2 or len(D) > len(p):
                    continue
                s = self.sign(st, D)
                if s not in (NEG, POS, NEG | POS):
                    continue
                while True:
                    q = R.pdivexact(p, D)
                    if q is None:
                        break
                    if s == NEG:
                        q = R.pneg(q)
                    elif s != POS:
                        if op not in ('==', '!='):
                            # keep one odd power, drop squares
                            q2 = R.pdivexact(q, D)
                            if q2 is None:
                                break
                            q = q2
                    p = q
                    if R.pisconst(p):
                        return p
        return p

    def log2cmp(self, st, p, op):
        """c1*L + c0 op 0 with L = log2(z): compare z with 2^k when exact"""
        if len(p) > 2:
            return None
        nz = [m for m in p if m]
        if len(nz) != 1:
            return None
        m = nz[0]
        ex = R.mono_exps(m)
        if len(ex) != 1 or ex[0][1] != 1:
            return None
        a = ex[0][0]
        info = R.AT.info[a]
        if not isinstance(info, dict) or info.get('fn') not in ('log2',):
            return None
        c1, c0 = p[m], p.get(0, 0)
        k = Fraction(-c0, c1)
        if k.denominator != 1:
            return None
        z = R.rsub(info['arg'], Fraction(2) ** k.numerator)
        if c1 < 0:
            z = R.rneg(z)
        return self.cmp0(st, z, op)

    def fact(self, st, c):
        """assume Cond c on this path"""
        st.decided[c.key] = True
        st.pc.append(c)
        st.lastmodel = None
        self.learn(st, c)

    def learn(self, st, c):
        if c.kind == 'r':
            p = c.a
            if p[max(p)] < 0:
                q, fl = R.pneg(p), True
            else:
                q, fl = p, False
            m = OPMASK[c.b]
            if fl:
                m = FLIP[m]
            k = R.pkey(q)
            st.signs[k] = st.signs.get(k, 7) & m
            # x - c form: nothing more; product of atoms > 0 : keep simple
        elif c.kind == '&':
            self.learn(st, c.a)
            self.learn(st, c.b)
        elif c.kind == 'n' and c.a.kind == '|':
            for x in (c.a.a.neg(), c.a.b.neg()):
                if x is not True and x is not False:
                    self.learn(st, x)

    def definitions(self, a):
        """defining constraints of an atom: list of Cond"""
        info = R.AT.info[a]
        if not isinstance(info, dict):
            return ()
        d = info.get('defs')
        return d if d is not None else ()

    def slice(self, st, seed):
        """constraints of the path connected to the atoms in seed"""
        T = set()
        todo = list(seed)
        defs = []
        pcs = st.pc
        used = [False] * len(pcs)
        index = {}
        for i, c in enumerate(pcs):
            for a in c.atoms():
                index.setdefault(a, []).append(i)
        out = []
        while todo:
            a = todo.pop()
            if a in T:
                continue
            T.add(a)
            if type(a) is int:
                for d in self.definitions(a):
                    defs.append(d)
                    todo.extend(d.atoms())
                info = R.AT.info[a]
                if isinstance(info, dict) and 'vars' in info:
                    todo.extend(info['vars'])
            for i in index.get(a, ()):
                if not used[i]:
                    used[i] = True
                    todo.extend(pcs[i].atoms())
        for i, u in enumerate(used):
            if u:
                out.append(pcs[i])
        return out, defs, T

    def ask(self, st, c, ms=None, model=False):
        """is path & c satisfiable?  True/False/None(unknown)"""
        pcs, defs, T = self.slice(st, c.atoms())
        key = (c.key, frozenset(x.key for x in pcs))
        r = self._feas.get(key, 0)
        if r != 0 and not model:
            return r
        if self.halted is not None and self.halted():
            raise Halt()
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', ms or self.opts['branch_ms'])
        for x in pcs:
            s.add(x.z())
        for x in defs:
            s.add(x.z())
        s.add(c.z())
        try:
            res = s.check()
        except z3.Z3Exception:
            res = z3.unknown
        self.nbranch_q += 1
        self.solver_s += time.time() - t0
        r = True if res == z3.sat else False if res == z3.unsat else None
        if r is None and not ms and not model and self.patience > 0:
            # an undecided branch costs far more later than some patience now
            self.patience -= 1
            return self.ask(st, c, 8 * self.opts['branch_ms'])
        self._feas[key] = r
        if model:
            return r, (s.model() if r else None)
        return r

    def decide(self, st, c):
        if c is True or c is False:
            return c
        d = st.decided.get(c.key)
        if d is not None:
            return d
        n = c.neg()
        if n is True or n is False:
            return not n
        d = st.decided.get(n.key)
        if d is not None:
            return not d
        if c.kind == 'r':
            m = self.sign(st, c.a)
            om = OPMASK[c.b]
            if not (m & ~om):
                return True
            if not (m & om):
                return False
        a = self.ask(st, c)
        if a is False:
            self.fact(st, n)
            st.decided[c.key] = False
            return False
        b = self.ask(st, n)
        if b is False:
            self.fact(st, c)
            return True
        raise Fork(c)

    def truth(self, st, v):
        if type(v) is int:
            return v != 0
        if v is True or v is False:
            return v
        if isinstance(v, Cond):
            return self.decide(st, v)
        return self.decide(st, cbool(v != 0))

    def conc_int(self, st, e, w):
        """concretize a symbolic integer by forking over its feasible values"""
        if type(e) is int:
            return e
        if isinstance(e, Cond):
            return 1 if self.decide(st, e) else 0
        if is_real(e):
            return dbits(e)
        key = ('ci', e.get_id())
        K._keep.append(e)
        tr = st.tries.setdefault(key, [])
        for v in tr:
            c = self.icmp_z(32, ICMPZ[32], e, v, w)
            d = c if c is True or c is False else st.decided.get(c.key)
            if d:
                return v
        seed = Cond('z', e == e, None, None)
        s = z3.Solver()
        s.set('timeout', 5000)
        pcs, defs, T = self.slice(st, K.z3vars(e))
        for x in pcs + defs:
            s.add(x.z())
        for v in tr:
            s.add(e != v)
        t0 = time.time()
        r = s.check()
        self.nbranch_q += 1
        self.solver_s += time.time() - t0
        if r == z3.unsat:
            raise Stop('infeasible')
        if r != z3.sat:
            raise Unsupported('cannot concretize an integer: solver gave up')
        v = s.model().eval(e, model_completion=True).as_long()
        tr.append(v)
        if len(tr) > 600:
            raise Unsupported('too many values for a symbolic integer')
        c = self.icmp_z(32, ICMPZ[32], e, v, w)
        if self.decide(st, c):
            return v
        return self.conc_int(st, e, w)

    def conc_floor(self, st, x, mode):
        """integer part of a symbolic real by forking over feasible values"""
        if type(x) is Fraction:
            return {'floor': lambda: x.numerator // x.denominator,
                    'ceil': lambda: -((-x.numerator) // x.denominator),
                    'trunc': lambda: abs(x.numerator) // x.denominator * (1 if x >= 0 else -1)}[mode]()
        if type(x) is float:
            raise Violation('arith', 'conversion of a non-finite value to an integer')
        if mode == 'trunc':
            mode = 'floor' if self.decide_c(st, self.cmp0(st, x, '>=')) else 'ceil'
        key = ('cf', mode, x.cd, R.pkey(x.num), x.den)
        tr = st.tries.setdefault(key, [])

        def cnd(k):
            if mode == 'floor':
                lo = self.cmp0(st, R.rsub(x, Fraction(k)), '>=')
                hi = self.cmp0(st, R.rsub(x, Fraction(k + 1)), '<')
            else:
                lo = self.cmp0(st, R.rsub(x, Fraction(k - 1)), '>')
                hi = self.cmp0(st, R.rsub(x, Fraction(k)), '<=')
            return K.cand(lo, hi)
        for k in tr:
            c = cnd(k)
            if c is True or (c is not False and st.decided.get(c.key)):
                return k
        k = self.guess_floor(st, x, mode, tr, cnd)
        if k is None:
            raise Stop('infeasible')
        tr.append(k)
        if len(tr) > 200:
            raise Unsupported('too many integer parts for a symbolic real')
        c = cnd(k)
        if self.decide_c(st, c):
            return k
        return self.conc_floor(st, x, mode)

    def guess_floor(self, st, x, mode, tr, cnd):
        neg = []
        for k in tr:
            c = cnd(k)
            if c is False:
                continue
            neg.append(c.neg())
        # log2 atoms have no interpretation: search candidates by value of arg
        ats = R.patoms(x.num)
        lg = [a for a in ats if isinstance(R.AT.info[a], dict) and R.AT.info[a].get('fn') == 'log2']
        if lg:
            import itertools
            for d in itertools.count():
                if d > 80:
                    return None
                for k in ((d, -d) if d else (0,)):
                    if k in tr:
                        continue
                    c = cnd(k)
                    if c is False:
                        continue
                    if c is True:
                        return k
                    if self.ask(st, c) is not False:
                        return k
        pcs, defs, T = self.slice(st, set(ats) | {a for f, e in x.den for a in R.patoms(R.AT.factors[f])})
        s = z3.Solver()
        s.set('timeout', 5000)
        for y in pcs + defs + neg:
            s.add(y.z())
        t0 = time.time()
        r = s.check()
        self.nbranch_q += 1
        self.solver_s += time.time() - t0
        if r == z3.unsat:
            return None
        if r != z3.sat:
            raise Unsupported('cannot concretize a real: solver gave up')
        m = s.model()
        xe = self.rf_z3(x)
        v = m.eval(xe, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        if mode == 'floor':
            return f.numerator // f.denominator
        return -((-f.numerator) // f.denominator)

    @staticmethod
    def rf_z3(x):
        if type(x) is Fraction:
            return z3.Q(x.numerator, x.denominator)
        n = K.poly_z3(x.num)
        d = z3.RealVal(x.cd)
        for f, e in x.den:
            for _ in range(e):
                d = d * K.poly_z3(R.AT.factors[f])
        return n / d

    def decide_c(self, st, c):
        if c is True or c is False:
            return c
        return self.decide(st, c)

    # ------------------------------------------------------------- doubles
    def fcmp(self, st, a, b, op):
        """ordered comparison a op b -> bool|Cond, None when unordered"""
        if type(a) is float or type(b) is float:
            if type(a) is float and isnan(a) or type(b) is float and isnan(b):
                return None
            fa = a if type(a) is float else 0.0
            fb = b if type(b) is float else 0.0
            return {'<': fa < fb, '<=': fa <= fb, '==': fa == fb, '!=': fa != fb,
                    '>': fa > fb, '>=': fa >= fb}[op]
        if type(a) is Fraction and type(b) is Fraction:
            return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b,
                    '>': a > b, '>=': a >= b}[op]
        return self.cmp0(st, R.rsub(a, b), op)

    def fadd(self, st, a, b):
        if type(a) is float or type(b) is float:
            if type(a) is float and type(b) is float:
                return a + b
            return a if type(a) is float else b
        return R.radd(a, b)

    def fneg(self, st, a):
        if type(a) is float:
            return -a
        return R.rneg(a)

    def fsub(self, st, a, b):
        return self.fadd(st, a, self.fneg(st, b))

    def fsign(self, st, a):
        """-1, 0, 1 (forks)"""
        if type(a) is float:
            return 1 if a > 0 else -1
        if type(a) is Fraction:
            return (a > 0) - (a < 0)
        if self.decide_c(st, self.cmp0(st, a, '>')):
            return 1
        if self.decide_c(st, self.cmp0(st, a, '==')):
            return 0
        return -1

    def fmul(self, st, a, b):
        if type(a) is float or type(b) is float:
            if type(a) is float and isnan(a) or type(b) is float and isnan(b):
                return nan
            s = self.fsign(st, a) * self.fsign(st, b)
            return nan if s == 0 else inf * s
        return R.rmul(a, b)

    def fdiv(self, st, a, b):
        if type(a) is float or type(b) is float:
            if type(a) is float and isnan(a) or type(b) is float and isnan(b):
                return nan
            if type(a) is float and type(b) is float:
                return nan
            if type(b) is float:
                return Fraction(0)
            s = self.fsign(st, b)
            return inf * self.fsign(st, a) * (s if s else 1)
        if type(b) is Fraction:
            if b:
                return R.rmul(a, 1 / b)
            z = True
        else:
            z = self.decide_c(st, self.cmp0(st, b, '=='))
        if z:
            s = self.fsign(st, a)
            st.trace.append(('nonfinite', 'division by zero'))
            return nan if s == 0 else inf * s
        return R.rdiv(a, b)

    def sqrt(self, st, x):
        if type(x) is float:
            return x if x > 0 else nan
        if type(x) is Fraction:
            if x < 0:
                st.trace.append(('nonfinite', 'square root of a negative number'))
                return nan
            n, d = isqrt(x.numerator), isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            x = RF(R.pconst(x.numerator), x.denominator)
        elif self.decide_c(st, self.cmp0(st, x, '<')):
            st.trace.append(('nonfinite', 'square root of a negative number'))
            return nan
        elif self.decide_c(st, self.cmp0(st, x, '==')):
            return Fraction(0)
        # x = N / (cd * den')^2
        num = R.pscale(x.num, x.cd)
        out = []
        for f, e in x.den:
            if e & 1:
                num = R.pmul(num, R.AT.factors[f])
            out.append((f, (e + 1) // 2))
        c = R.pcontent(num)
        sq = 1
        # square part of the content (small primes are enough)
        p = 2
        cc = c
        while p * p <= cc and p < 2000:
            while cc % (p * p) == 0:
                cc //= p * p
                sq *= p
            while cc % p == 0:
                cc //= p
            p += 1
        r = isqrt(cc)
        if r * r == cc:
            sq *= r
        num = {m: v // (sq * sq) for m, v in num.items()}
        pre = R.pconst(sq)
        if not R.pisconst(num):
            g = R.mono_gcd(num)
            if g:
                for a, e in R.mono_exps(g):
                    h = e // 2
                    if h:
                        s = self.atom_abs(st, R.patom(a)) if h & 1 else 1
                        num = {m - ((2 * h) << (R.SH * a)): v for m, v in num.items()}
                        pre = R.pmul(pre, R.pscale({h << (R.SH * a): 1}, s))
            for f in range(len(R.AT.factors)):
                D = R.AT.factors[f]
                if len(D) < 2 or len(D) > len(num):
                    continue
                while True:
                    q = R.pdivexact(num, D)
                    q = R.pdivexact(q, D) if q is not None and len(D) <= len(q) else None
                    if q is None:
                        break
                    num = q
                    pre = R.pmul(pre, R.pscale(D, self.atom_abs(st, D)))
        root = psqrt(num)
        if root is not None:
            s = self.atom_abs(st, root)
            res = R.pmul(pre, R.pscale(root, s))
        else:
            a = self.sqrt_atom(num)
            res = R.pmul(pre, R.patom(a))
            # known positive when the radicand is
            st.signs[((1 << (R.SH * a), 1),)] = POS
        r = R.norm(res, x.cd, tuple(out))
        # sign of the denominators
        neg = False
        for f, e in out:
            if e & 1:
                D = R.AT.factors[f]
                if self.atom_abs(st, D) < 0:
                    neg = not neg
        return R.rneg(r) if neg else r

    def atom_abs(self, st, p):
        """+1/-1: sign of polynomial p (forks when unknown)"""
        m = self.sign(st, p)
        if not (m & NEG):
            return 1
        if not (m & POS):
            return -1
        return -1 if self.decide_c(st, self.cmp0(st, RF(p), '<')) else 1

    @staticmethod
    def sqrt_atom(num):
        AT = R.AT
        k = ('sqrt', R.pkey(num))
        a = AT.index.get(k)
        if a is None:
            a = AT.named(k, 'sqrt', {})
            AT.names[a] = 'sqrt_%d' % a
            AT.info[a] = {'fn': 'sqrt', 'rad': num}
            AT.sq[a] = num
            AT.sqmask |= 0xFE << (R.SH * a)
            s2 = {2 << (R.SH * a): 1}
            AT.info[a]['defs'] = [creal_raw(R.padd(s2, R.pneg(num)), '=='),
                                  creal_raw(R.pneg(R.patom(a)), '<=')]
        return a

    def uf(self, st, fn, args, pos=False):
        """application of an uninterpreted real function"""
        AT = R.AT
        k = ('uf', fn) + tuple((x.cd, R.pkey(x.num), x.den) if type(x) is RF else x for x in args)
        a = AT.index.get(k)
        if a is None:
            a = AT.named(k, 'pos' if pos else 'uf', {})
            AT.names[a] = '%s_%d' % (fn, a)
            AT.info[a] = {'fn': fn, 'arg': args[0], 'args': args, 'defs': []}
            if pos:
                AT.info[a]['defs'] = [creal_raw(R.pneg(R.patom(a)), '<')]
        return R.rf_atom(a)

    def fresh(self, name, defs=None, kind='fresh'):
        AT = R.AT
        a = AT.new('%s_%d' % (name, len(AT.names)), kind, {'defs': []})
        return a

    # ---------------------------------------------------------- obligations
    def obligation(self, st, cid, kind, goal, msg=''):
        """record: path & goal must be unsatisfiable (goal = negated property,
        or None: the path itself must be infeasible)"""
        if goal is False:
            self.obls.append(Obl(cid, kind, 'norm', None, msg, None, None))
            return
        where = self.where(st)
        if goal is None or goal is True:
            pcs, defs, T = self.slice(st, {a for c in st.pc for a in c.atoms()})
            g = None
        else:
            pcs, defs, T = self.slice(st, goal.atoms())
            g = goal
        key = (cid, kind, g.key if g else None, frozenset(x.key for x in pcs))
        if key in self.oblkeys:
            return
        self.oblkeys.add(key)
        # constraints of the whole path are kept for the model of a replay
        rest = [c for c in st.pc if c not in pcs]
        self.obls.append(Obl(cid, kind, 'solver', (pcs, defs, g, rest), msg, list(st.inputs), where))

    def where(self, st):
        return [f.fn.name for f in st.frames]

    # ------------------------------------------------------------ execution
    def push(self, st, name, args):
        fn = self.tr.get(name)
        if fn is None:
            fn = Fn(self, name)
            self.tr[name] = fn
        self.executed[name] = self.executed.get(name, 0) + 1
        f = Frame()
        f.fn = fn
        f.regs = list(fn.proto)
        for i, a in enumerate(args):
            if i < fn.nargs:
                f.regs[i] = a
        for i, sz in fn.byval:
            p = st.alloc(sz, 'stack', 'byval')
            self.memcpy(st, p, args[i], sz)
            f.regs[i] = p
        f.code = fn.blocks[0]
        f.pc = 0
        f.blk = 0
        f.allocs = [f.regs[i] >> 32 for i, _ in fn.byval]
        st.frames.append(f)
        if len(st.frames) > 400:
            raise Violation('nonterm', 'recursion deeper than 400 frames')

    def run(self, entry, args=()):
        """explore every path of entry from the base state"""
        st = self.base.clone()
        st.steps = 0
        self.push(st, entry, list(args))
        work = [st]
        npaths = 0
        t_end = time.time() + self.opts.get('explore_s', 1e9)
        while work:
            st = work.pop()
            other = self.run_path(st, work=work)
            npaths += 1
            self.paths.append(PathInfo(st))
            st.mem = None
            st.frames = []
            if self.hook is not None:
                self.hook(work)
            if npaths > self.opts['max_paths']:
                raise Unsupported('more than %d paths in %s' % (self.opts['max_paths'], entry))
            if time.time() > t_end:
                raise Unsupported('exploration of %s exceeded %d s after %d paths' % (
                    entry, self.opts['explore_s'], npaths))
        return npaths

    def run_path(self, st, work=None, single=False):
        limit = self.opts['step_limit']
        frames = st.frames
        while st.done is None:
            fr = frames[-1]
            code = fr.code
            try:
                while True:
                    if code[fr.pc](st, fr) is None:
                        fr.pc += 1
                    else:
                        if st.done is not None:
                            break
                        fr = frames[-1]
                        code = fr.code
                        if st.steps > limit:
                            raise Violation('nonterm', 'more than %d instructions executed' % limit)
            except Fork as f:
                if work is None:
                    raise Unsupported('fork in a concrete run')
                c = f.cond
                o = st.clone()
                self.nfork += 1
                st.nforks += 1
                o.nforks += 1
                n = c.neg()
                self.fact(o, n)
                o.decided[c.key] = False
                self.fact(st, c)
                work.append(o)
            except Stop as e:
                st.done = 'stop: %s' % e
            except Throw as t:
                try:
                    self.unwind(st, t)
                except Violation as v:
                    st.done = 'violation: %s' % v.kind
                    self.obligation(st, self.cur_check(st, v), v.kind, None, v.msg)
            except Violation as v:
                st.done = 'violation: %s' % v.kind
                self.obligation(st, self.cur_check(st, v), v.kind, None, v.msg)
        self.nsteps += st.steps - st.steps0

    # ----------------------------------------------------------- exceptions
    def typeids(self):
        """type name -> selector value, and its bases"""
        if self._tids is None:
            names = sorted(set(n for n in self.globals if n.startswith('_ZTI')) | set(STDEXC))
            self._tids = {n: i + 1 for i, n in enumerate(names)}
            self._bases = dict(STDEXC)
            g = C.GetFirstGlobal(self.mod)
            while g:
                n = C.vname(g)
                if n.startswith('_ZTI') and not C.IsDeclaration(g):
                    init = C.GetInitializer(g)
                    k = C.GetNumOperands(init)
                    # {vtable, name}, {vtable, name, base} or {vtable, name, flags, count, base, offset, ...}
                    ops = [2] if k == 3 else list(range(4, k, 2))
                    self._bases[n] = tuple(C.vname(C.GetOperand(init, o)) for o in ops)
                g = C.GetNextGlobal(g)
            self._gname = {a: n for n, a in self.globals.items()}
        return self._tids

    _tids = None

    def derives(self, t, h):
        return t == h or any(self.derives(b, h) for b in self._bases.get(t, ()))

    def unwind(self, st, t):
        """pass control to the landing pad of the innermost frame that deals with the exception"""
        tids = self.typeids()

        def handler(fr):
            pad = fr.fn.pads.get(fr.code[fr.pc])
            if pad is None:
                return None
            edge, clauses, cleanup = pad
            for c in clauses:
                if c is None or self.derives(t.type, c):
                    return edge, tids[c] if c else 0
            return (edge, None) if cleanup else None
        hs = [(k, handler(fr)) for k, fr in enumerate(st.frames)]
        if all(h is None or h[1] is None for _, h in hs):
            raise Violation('throw', 'uncaught exception in ' + ' < '.join(reversed(self.where(st)[-3:])))
        k, h = [x for x in hs if x[1] is not None][-1]
        while len(st.frames) > k + 1:
            for a in st.frames.pop().allocs:
                del st.mem[a]
        st.extra['exc'] = (t.ptr, h[1] or 0)
        st.extra['exctype', t.ptr] = t.type
        fr = st.frames[-1]
        h[0](st, fr)

    def cur_check(self, st, v):
        return 'no-%s' % v.kind


# the library's exception classes and their bases
STDEXC = {'_ZTISt9exception': ()}
for _n, _b in (('9bad_alloc', '9exception'), ('8bad_cast', '9exception'), ('10bad_typeid', '9exception'),
               ('13bad_exception', '9exception'), ('20bad_array_new_length', '9bad_alloc'),
               ('11logic_error', '9exception'), ('13runtime_error', '9exception'), ('12out_of_range', '11logic_error'),
               ('16invalid_argument', '11logic_error'), ('12length_error', '11logic_error'), ('12domain_error', '11logic_error'),
               ('11range_error', '13runtime_error'), ('14overflow_error', '13runtime_error'), ('15underflow_error', '13runtime_error'),
               ('19bad_optional_access', '9exception'), ('18bad_variant_access', '9exception'), ('17bad_function_call', '9exception')):
    STDEXC['_ZTISt' + _n] = ('_ZTISt' + _b,)


class PathInfo:
    def __init__(self, st):
        self.pc = st.pc
        self.done = st.done
        self.inputs = st.inputs
        self.trace = st.trace
        self.steps = st.steps
        self.nuninit = st.nuninit


class Obl:
    __slots__ = ('cid', 'kind', 'how', 'q', 'msg', 'inputs', 'where', 'res', 'secs', 'model', 'case')

    def __init__(self, cid, kind, how, q, msg, inputs, where):
        self.cid, self.kind, self.how, self.q, self.msg = cid, kind, how, q, msg
        self.inputs, self.where = inputs, where
        self.res = None
        self.secs = 0.0
        self.model = None
        self.case = None


def creal_raw(p, op):
    c = creal(p, op)
    if c is True or c is False:
        return Cond('z', z3.BoolVal(c), None, ('k', c))
    return c


def psqrt(p):
    """integer polynomial square root, or None"""
    if not p:
        return {}
    if R.pisconst(p):
        c = p[0]
        r = isqrt(c) if c >= 0 else 0
        return {0: r} if r * r == c else None
    if len(p) > 300:
        return None
    lead = max(p)
    c = p[lead]
    if c < 0:
        return None
    r = isqrt(c)
    if r * r != c:
        return None
    m = 0
    for a, e in R.mono_exps(lead):
        if e & 1:
            return None
        m |= (e // 2) << (R.SH * a)
    root = {m: r}
    rem = dict(p)
    rem = R.padd(rem, R.pneg(R.pmul_raw(root, root)))
    n = 0
    while rem:
        n += 1
        if n > 40:
            return None
        l = max(rem)
        # divide by 2*lead(root)
        x, y = l, m
        while y:
            if (x & R.MASK) < (y & R.MASK):
                return None
            x >>= R.SH
            y >>= R.SH
        if rem[l] % (2 * r):
            return None
        t = {l - m: rem[l] // (2 * r)}
        if max(t) >= m:
            return None
        # rem -= t*(2 root + t)
        d = R.pmul_raw(t, R.padd(R.pscale(root, 2), t))
        rem = R.padd(rem, R.pneg(d))
        root = R.padd(root, t)
        if rem and max(rem) >= l:
            return None
    return root


# ------------------------------------------------------------- int helpers
def _s(f):
    return lambda a, b, w: f(sx(a, w), sx(b, w))


ICMP = {32: lambda a, b, w: a == b, 33: lambda a, b, w: a != b,
        34: lambda a, b, w: a > b, 35: lambda a, b, w: a >= b,
        36: lambda a, b, w: a < b, 37: lambda a, b, w: a <= b,
        38: _s(lambda a, b: a > b), 39: _s(lambda a, b: a >= b),
        40: _s(lambda a, b: a < b), 41: _s(lambda a, b: a <= b)}
ICMPZ = {32: lambda a, b: a == b, 33: lambda a, b: a != b,
         34: z3.UGT, 35: z3.UGE, 36: z3.ULT, 37: z3.ULE,
         38: lambda a, b: a > b, 39: lambda a, b: a >= b,
         40: lambda a, b: a < b, 41: lambda a, b: a <= b}
FOPS = {1: '==', 2: '>', 3: '>=', 4: '<', 5: '<=', 6: '!='}


def sdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Fn:
    """translated function"""

    def __init__(self, M, name):
        self.M = M
        self.name = name
        f = M.funcs[name]
        self.ids = {}
        self.consts = []
        self.constix = {}
        self.nargs = C.CountParams(f)
        self.byval = []
        n = 0
        for i in range(self.nargs):
            p = C.GetParam(f, i)
            self.ids[p] = n
            n += 1
            at = C.GetAttrAtIndex(f, i + 1, C.BYVAL)
            if at:
                self.byval.append((i, C.ABISize(M.dl, C.GetTypeAttr(at))))
        bbs = []
        bb = C.GetFirstBB(f)
        while bb:
            bbs.append(bb)
            bb = C.GetNextBB(bb)
        self.bbix = {b: i for i, b in enumerate(bbs)}
        insts = []
        for b in bbs:
            l = []
            i = C.GetFirstInst(b)
            while i:
                l.append(i)
                if C.GetTypeKind(C.TypeOf(i)) != C.TVOID:
                    self.ids[i] = n
                    n += 1
                i = C.GetNextInst(i)
            insts.append(l)
        self.nregs = n
        self.pool = []
        self.pads = {}          # invoke -> landing pad
        self.phis = []
        # phi tables: block -> {pred: [(dst, src)]}
        for b, l in zip(bbs, insts):
            tab = {}
            for i in l:
                if C.OPC.get(C.GetOpcode(i)) != 'phi':
                    break
                for k in range(C.CountIncoming(i)):
                    pred = self.bbix[C.GetIncomingBlock(i, k)]
                    d = tab.setdefault(pred, {})
                    d[self.ids[i]] = C.GetIncomingValue(i, k)
            self.phis.append(tab)
        self.phis = [{p: [(d, self.op(v)) for d, v in x.items()] for p, x in tab.items()}
                     for tab in self.phis]
        self.blocks = []
        for bi, l in enumerate(insts):
            code = []
            for i in l:
                op = C.OPC.get(C.GetOpcode(i))
                if op == 'phi':
                    continue
                code.append(self.trans(op, i, bi))
            self.blocks.append(code)
        self.proto = [None] * self.nregs + self.pool
        # edges
        self.size = sum(len(b) for b in self.blocks)

    def op(self, v):
        """register index of an operand (constants live behind the registers)"""
        r = self.ids.get(v)
        if r is not None:
            return r
        r = self.constix.get(v)
        if r is None:
            vk = C.VK[C.GetValueKind(v)]
            if vk in ('MetadataAsValue', 'BasicBlock', 'InlineAsm'):
                c = None
            else:
                c = self.M.const(v)
            r = self.nregs + len(self.pool)
            self.pool.append(c)
            self.constix[v] = r
        return r

    # ---- edges
    def edge(self, frm, to):
        copies = self.phis[to].get(frm, ())
        n = None
        fn = self
        if not copies:
            def go(st, fr):
                fr.code = code = fn.blocks[to]
                fr.pc = 0
                fr.blk = to
                st.steps += len(code)
                return True
        elif len(copies) == 1:
            (d, s), = copies

            def go(st, fr):
                r = fr.regs
                r[d] = r[s]
                fr.code = code = fn.blocks[to]
                fr.pc = 0
                fr.blk = to
                st.steps += len(code)
                return True
        else:
            ds = [d for d, _ in copies]
            ss = [s for _, s in copies]

            def go(st, fr):
                r = fr.regs
                vals = [r[s] for s in ss]
                for d, v in zip(ds, vals):
                    r[d] = v
                fr.code = code = fn.blocks[to]
                fr.pc = 0
                fr.blk = to
                st.steps += len(code)
                return True
        return go

    def trans(self, op, i, bi):
        M = self.M
        m = getattr(self, 't_' + op, None) if op else None
        if m is None:
            txt = C.vprint(i)

            def bad(st, fr):
                raise Unsupported('instruction ' + txt[:200])
            return bad
        return m(i, bi)

    # ---- terminators
    def t_ret(self, i, bi):
        n = C.GetNumOperands(i)
        s = self.op(C.GetOperand(i, 0)) if n else None

        def ret(st, fr):
            v = fr.regs[s] if s is not None else None
            for a in fr.allocs:
                del st.mem[a]
            st.frames.pop()
            if not st.frames:
                st.done = 'ret'
                return True
            c = st.frames[-1]
            c.fn.resume_call(st, c, v)
            return True
        return ret

    def resume_call(self, st, fr, v):
        d, nxt = self.callinfo[(fr.blk, fr.pc)]
        if d is not None:
            fr.regs[d] = v
        if nxt is None:
            fr.pc += 1
        else:
            nxt(st, fr)

    def t_br(self, i, bi):
        M = self.M
        if not C.IsConditional(i):
            return self.edge(bi, self.bbix[C.GetSuccessor(i, 0)])
        c = self.op(C.GetCondition(i))
        t = self.edge(bi, self.bbix[C.GetSuccessor(i, 0)])
        e = self.edge(bi, self.bbix[C.GetSuccessor(i, 1)])

        def br(st, fr):
            v = fr.regs[c]
            if type(v) is int:
                return t(st, fr) if v else e(st, fr)
            return t(st, fr) if M.truth(st, v) else e(st, fr)
        return br

    def t_switch(self, i, bi):
        M = self.M
        n = C.GetNumOperands(i)
        v = self.op(C.GetOperand(i, 0))
        w = M.T.get(C.TypeOf(C.GetOperand(i, 0)))[1]
        dflt = self.edge(bi, self.bbix[C.GetSuccessor(i, 0)])
        tab = {}
        for k in range(2, n, 2):
            val = M.const(C.GetOperand(i, k))
            tab[val] = self.edge(bi, self.bbix[C.GetSuccessor(i, k // 2)])

        def sw(st, fr):
            x = fr.regs[v]
            if type(x) is not int:
                for val in tab:
                    if M.truth(st, cbool(bv(x, w) == val)):
                        return tab[val](st, fr)
                return dflt(st, fr)
            g = tab.get(x)
            return g(st, fr) if g is not None else dflt(st, fr)
        return sw

    def t_unreachable(self, i, bi):
        def un(st, fr):
            raise Violation('unreachable', 'unreachable code reached in %s' % fr.fn.name)
        return un

    def t_resume(self, i, bi):
        s = self.op(C.GetOperand(i, 0))

        def rs(st, fr):
            p = fr.regs[s][0]
            raise Throw(p, st.extra['exctype', p])
        return rs

    def t_landingpad(self, i, bi):
        d = self.ids[i]

        def lp(st, fr):
            fr.regs[d] = st.extra['exc']
        return lp

    # ---- calls
    callinfo = None

    def t_call(self, i, bi, inv=False):
        M = self.M
        if self.callinfo is None:
            self.callinfo = {}
        callee = C.GetCalledValue(i)
        na = C.GetNumArgOperands(i)
        args = [self.op(C.GetOperand(i, k)) for k in range(na)]
        dst = self.ids.get(i)
        nxt = self.edge(bi, self.bbix[C.GetNormalDest(i)]) if inv else None
        vk = C.VK[C.GetValueKind(callee)]
        info = (dst, nxt)
        fn = self
        if vk == 'GlobalAlias':
            callee = C.AliasGetAliasee(callee)
            vk = C.VK[C.GetValueKind(callee)]
        if vk == 'InlineAsm':
            def asm(st, fr):
                if nxt:
                    return nxt(st, fr)
                return None
            return asm
        if vk == 'Function':
            name = C.vname(callee)
            target = M.externs.lookup(M, name)
            if target is None and C.IsDeclaration(callee):
                def undef(st, fr):
                    raise Unsupported('external function ' + name)
                return undef
            if target is None:
                def call(st, fr):
                    r = fr.regs
                    fn.callinfo[(fr.blk, fr.pc)] = info
                    M.push(st, name, [r[a] for a in args])
                    st.steps += 1
                    return True
                return call
            if target is M.externs.nop and dst is None and nxt is None:
                return lambda st, fr: None

            def ext(st, fr):
                r = fr.regs
                v = target(M, st, [r[a] for a in args])
                if st.done is not None:
                    return True
                if dst is not None:
                    r[dst] = v
                if nxt is not None:
                    return nxt(st, fr)
            return ext
        cv = self.op(callee)

        def icall(st, fr):
            r = fr.regs
            p = r[cv]
            if type(p) is not int:
                p = M.conc_int(st, p, 64)
            name = M.fbyaddr.get(p)
            if name is None:
                raise Violation('memory', 'call through an invalid function pointer')
            target = M.externs.lookup(M, name)
            a = [r[x] for x in args]
            if target is not None:
                v = target(M, st, a)
                if dst is not None:
                    r[dst] = v
                if nxt is not None:
                    return nxt(st, fr)
                return None
            fn.callinfo[(fr.blk, fr.pc)] = info
            M.push(st, name, a)
            return True
        return icall

    def t_invoke(self, i, bi):
        go = self.t_call(i, bi, True)
        bb = C.GetUnwindDest(i)
        lp = C.GetFirstInst(bb)
        while C.OPC.get(C.GetOpcode(lp)) == 'phi':
            lp = C.GetNextInst(lp)
        clauses = []
        for k in range(C.GetNumClauses(lp)):
            c = C.GetClause(lp, k)
            if C.GetTypeKind(C.TypeOf(c)) == C.TARRAY:      # filter: nothing may pass
                c = None
            elif C.IsNull(c):
                c = None
            else:
                c = C.vname(c)
            clauses.append(c)
        self.pads[go] = (self.edge(bi, self.bbix[bb]), clauses, bool(C.IsCleanup(lp)))
        return go

    # ---- memory
    def t_alloca(self, i, bi):
        M = self.M
        d = self.ids[i]
        size = C.ABISize(M.dl, C.GetAllocatedType(i))
        n = self.op(C.GetOperand(i, 0))

        def alloca(st, fr):
            k = fr.regs[n]
            if type(k) is not int:
                k = M.conc_int(st, k, 64)
            p = st.alloc(size * k, 'stack', fr.fn.name)
            fr.allocs.append(p >> 32)
            fr.regs[d] = p
        return alloca

    def t_load(self, i, bi):
        M = self.M
        d = self.ids[i]
        t = M.T.get(C.TypeOf(i))
        p = self.op(C.GetOperand(i, 0))
        k = t[0]
        size = t[2]
        slow = M.load
        if k == 'd' or k == 'p' or (k == 'i' and t[1] in (8, 16, 32, 64)):
            isd = k == 'd'

            def load(st, fr):
                a = fr.regs[p]
                if type(a) is int:
                    o = st.mem.get(a >> 32)
                    if o is not None and o.alive:
                        off = a & 0xffffffff
                        c = o.cells.get(off)
                        if c is not None and c[0] == size:
                            v = c[1]
                            tv = type(v)
                            if isd:
                                if tv is RF or tv is Fraction:
                                    fr.regs[d] = v
                                    return
                            elif tv is int:
                                fr.regs[d] = v
                                return
                fr.regs[d] = slow(st, a, t)
            return load

        def load2(st, fr):
            fr.regs[d] = slow(st, fr.regs[p], t)
        return load2

    def t_store(self, i, bi):
        M = self.M
        v = self.op(C.GetOperand(i, 0))
        t = M.T.get(C.TypeOf(C.GetOperand(i, 0)))
        p = self.op(C.GetOperand(i, 1))
        size = t[2]
        slow = M.store
        if t[0] in ('d', 'p') or (t[0] == 'i' and t[1] in (8, 16, 32, 64)):
            def store(st, fr):
                r = fr.regs
                a = r[p]
                if type(a) is int:
                    o = st.mem.get(a >> 32)
                    if o is not None and o.alive and o.owner == st.owner:
                        off = a & 0xffffffff
                        c = o.cells.get(off)
                        if c is not None and c[0] == size:
                            o.cells[off] = (size, r[v])
                            return
                slow(st, a, t, r[v])
            return store

        def store2(st, fr):
            slow(st, fr.regs[p], t, fr.regs[v])
        return store2

    def t_gep(self, i, bi):
        M = self.M
        d = self.ids[i]
        n = C.GetNumOperands(i)
        b = self.op(C.GetOperand(i, 0))
        steps = M.gep_steps(i, n)
        k = sum(x for kd, x, _ in steps if kd == 'k')
        xs = [(self.op(C.GetOperand(i, x)), sc, M.T.get(C.TypeOf(C.GetOperand(i, x)))[1])
              for kd, x, sc in steps if kd == 'x']
        if M.T.get(C.TypeOf(i))[0] == 'agg':
            def vg(st, fr):
                raise Unsupported('vector getelementptr')
            return vg
        if not xs:
            def g0(st, fr):
                a = fr.regs[b]
                if type(a) is int:
                    fr.regs[d] = (a + k) & M64
                else:
                    fr.regs[d] = simp(a + k)
            return g0

        def gx(st, fr):
            r = fr.regs
            a = r[b]
            off = k
            for x, sc, w in xs:
                v = r[x]
                if type(v) is not int:
                    v = M.conc_int(st, v, w)
                if v >> (w - 1):
                    v -= 1 << w
                off += v * sc
            if type(a) is not int:
                a = M.conc_int(st, a, 64)
            r[d] = (a + off) & M64
        return gx

    # ---- integer arithmetic
    def ibin(self, i, f, zf, name):
        M = self.M
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))
        t = M.T.get(C.TypeOf(i))
        if t[0] == 'agg':
            et = t[1][0][1]
            w = et[1]
            mask = (1 << w) - 1

            def vec(st, fr):
                r = fr.regs
                if not all(type(x) is int for x in r[a]) or not all(type(x) is int for x in r[b]):
                    raise Unsupported('vector arithmetic on symbolic integers')
                r[d] = tuple(f(x, y, w) & mask for x, y in zip(r[a], r[b]))
            return vec
        w = t[1]
        mask = (1 << w) - 1

        def go(st, fr):
            r = fr.regs
            x, y = r[a], r[b]
            if type(x) is int and type(y) is int:
                r[d] = f(x, y, w) & mask
                return
            r[d] = M.isym(st, name, x, y, w, zf)
        return go

    def t_add(self, i, bi):
        return self.ibin(i, lambda x, y, w: x + y, lambda x, y: x + y, 'add')

    def t_sub(self, i, bi):
        return self.ibin(i, lambda x, y, w: x - y, lambda x, y: x - y, 'sub')

    def t_mul(self, i, bi):
        return self.ibin(i, lambda x, y, w: x * y, lambda x, y: x * y, 'mul')

    def t_and(self, i, bi):
        return self.ibin(i, lambda x, y, w: x & y, lambda x, y: x & y, 'and')

    def t_or(self, i, bi):
        return self.ibin(i, lambda x, y, w: x | y, lambda x, y: x | y, 'or')

    def t_xor(self, i, bi):
        return self.ibin(i, lambda x, y, w: x ^ y, lambda x, y: x ^ y, 'xor')

    def t_shl(self, i, bi):
        return self.ibin(i, lambda x, y, w: x << y if y < w else 0, lambda x, y: x << y, 'shl')

    def t_lshr(self, i, bi):
        return self.ibin(i, lambda x, y, w: x >> y if y < w else 0, z3.LShR, 'lshr')

    def t_ashr(self, i, bi):
        return self.ibin(i, lambda x, y, w: sx(x, w) >> min(y, w - 1), lambda x, y: x >> y, 'ashr')

    def idiv(self, i, f, zf, name):
        M = self.M
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))
        w = M.T.get(C.TypeOf(i))[1]
        mask = (1 << w) - 1

        def go(st, fr):
            r = fr.regs
            x, y = r[a], r[b]
            if type(y) is int:
                if y == 0:
                    raise Violation('arith', 'integer division by zero')
            elif M.truth(st, M.icmp_z(32, ICMPZ[32], y, 0, w)):
                raise Violation('arith', 'integer division by zero')
            if type(x) is int and type(y) is int:
                r[d] = f(x, y, w) & mask
                return
            v = N.binop(name, x, y, w)
            r[d] = simp(zf(bv(x, w), bv(y, w))) if v is None else v
        return go

    def t_udiv(self, i, bi):
        return self.idiv(i, lambda x, y, w: x // y, z3.UDiv, 'udiv')

    def t_urem(self, i, bi):
        return self.idiv(i, lambda x, y, w: x % y, z3.URem, 'urem')

    def t_sdiv(self, i, bi):
        return self.idiv(i, lambda x, y, w: sdiv(sx(x, w), sx(y, w)), lambda x, y: x / y, 'sdiv')

    def t_srem(self, i, bi):
        return self.idiv(i, lambda x, y, w: sx(x, w) - sx(y, w) * sdiv(sx(x, w), sx(y, w)),
                         z3.SRem, 'srem')

    def t_icmp(self, i, bi):
        M = self.M
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))
        p = C.GetICmp(i)
        t = M.T.get(C.TypeOf(C.GetOperand(i, 0)))
        if t[0] == 'agg':
            et = t[1][0][1]

            def vec(st, fr):
                r = fr.regs
                r[d] = tuple(int(ICMP[p](x, y, et[1])) for x, y in zip(r[a], r[b]))
            return vec
        w = t[1]
        f = ICMP[p]
        zf = ICMPZ[p]

        def go(st, fr):
            r = fr.regs
            x, y = r[a], r[b]
            if type(x) is int and type(y) is int:
                r[d] = 1 if f(x, y, w) else 0
                return
            if is_real(x) or is_real(y):
                r[d] = M.pun_icmp(st, p, x, y)
                return
            if w == 1:
                cx = x if isinstance(x, Cond) else bool(x)
                cy = y if isinstance(y, Cond) else bool(y)
                if p == 33:
                    v = K.cxor(cx, cy)
                elif p == 32:
                    v = K.cnot(K.cxor(cx, cy))
                else:
                    raise Unsupported('ordering of booleans')
            else:
                v = M.icmp_z(p, zf, x, y, w)
            r[d] = (1 if v else 0) if v is True or v is False else v
        return go

    # ---- floating point
    def fbin(self, i, f):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))
        if self.M.T.get(C.TypeOf(i))[0] == 'agg':
            def vec(st, fr):
                r = fr.regs
                r[d] = tuple(f(st, x, y) for x, y in zip(r[a], r[b]))
            return vec

        def go(st, fr):
            r = fr.regs
            r[d] = f(st, r[a], r[b])
        return go

    def t_fadd(self, i, bi):
        return self.fbin(i, self.M.fadd)

    def t_fsub(self, i, bi):
        return self.fbin(i, self.M.fsub)

    def t_fmul(self, i, bi):
        return self.fbin(i, self.M.fmul)

    def t_fdiv(self, i, bi):
        return self.fbin(i, self.M.fdiv)

    def t_frem(self, i, bi):
        M = self.M
        return self.fbin(i, lambda st, x, y: M.externs.fmod_(M, st, x, y))

    def t_fneg(self, i, bi):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        M = self.M
        if M.T.get(C.TypeOf(i))[0] == 'agg':
            def vec(st, fr):
                fr.regs[d] = tuple(M.fneg(st, x) for x in fr.regs[a])
            return vec

        def go(st, fr):
            fr.regs[d] = M.fneg(st, fr.regs[a])
        return go

    def t_fcmp(self, i, bi):
        M = self.M
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))
        p = C.GetFCmp(i)

        def one(st, x, y):
            if p in (7, 8):        # ord, uno
                un = any(type(z) is float and isnan(z) for z in (x, y))
                return int(un == (p == 8))
            if p in (0, 15):
                return int(p == 15)
            unord = p >= 9
            op = FOPS[p & 7]
            v = M.fcmp(st, x, y, op)
            if v is None:
                return int(unord)
            if v is True or v is False:
                return int(v)
            return v
        if M.T.get(C.TypeOf(i))[0] == 'agg':
            def vec(st, fr):
                r = fr.regs
                r[d] = tuple(one(st, x, y) for x, y in zip(r[a], r[b]))
            return vec

        def go(st, fr):
            r = fr.regs
            r[d] = one(st, r[a], r[b])
        return go

    # ---- casts
    def cast(self, i, f):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        t = self.M.T.get(C.TypeOf(i))
        s = self.M.T.get(C.TypeOf(C.GetOperand(i, 0)))
        if t[0] == 'agg' and s[0] == 'agg' and len(t[1]) == len(s[1]):
            et, es = t[1][0][1], s[1][0][1]

            def vec(st, fr):
                fr.regs[d] = tuple(f(st, x, es, et) for x in fr.regs[a])
            return vec

        def go(st, fr):
            fr.regs[d] = f(st, fr.regs[a], s, t)
        return go

    def t_trunc(self, i, bi):
        def f(st, x, s, t):
            w = t[1]
            if is_real(x):
                x = dbits(x)
            if type(x) is int:
                return x & ((1 << w) - 1)
            v = N.trunc(x, s[1], w)
            if v is not None:
                return v
            v = simp(z3.Extract(w - 1, 0, x))
            if w == 1 and type(v) is not int:
                c = cbool(v == 1)
                return int(c) if c is True or c is False else c
            return v
        return self.cast(i, f)

    def t_zext(self, i, bi):
        M = self.M

        def f(st, x, s, t):
            if type(x) is int:
                return x
            if isinstance(x, Cond):
                if x.kind == 'z':
                    return simp(z3.If(x.z(), z3.BitVecVal(1, t[1]), z3.BitVecVal(0, t[1])))
                return 1 if M.decide(st, x) else 0
            if is_real(x):
                raise Unsupported('zext of a double')
            v = N.zext(x, s[1], t[1])
            return simp(z3.ZeroExt(t[1] - s[1], x)) if v is None else v
        return self.cast(i, f)

    def t_sext(self, i, bi):
        M = self.M

        def f(st, x, s, t):
            if type(x) is int:
                return sx(x, s[1]) & ((1 << t[1]) - 1)
            if isinstance(x, Cond):
                m1 = (1 << t[1]) - 1
                if x.kind == 'z':
                    return simp(z3.If(x.z(), z3.BitVecVal(m1, t[1]), z3.BitVecVal(0, t[1])))
                return m1 if M.decide(st, x) else 0
            v = N.sext(x, s[1], t[1])
            return simp(z3.SignExt(t[1] - s[1], x)) if v is None else v
        return self.cast(i, f)

    def t_bitcast(self, i, bi):
        M = self.M

        def f(st, x, s, t):
            if s[0] == 'd' and t[0] == 'i' or s[0] == 'f' and t[0] == 'i':
                if type(x) is RF:
                    return x
                return dbits(x) if s[0] == 'd' else fbits(x)
            if t[0] == 'd' and s[0] == 'i':
                return from_dbits(x) if type(x) is int else x
            if t[0] == 'f' and s[0] == 'i':
                return from_fbits(x) if type(x) is int else x
            if s[0] == 'agg' and t[0] == 'agg' or s[0] == 'agg' or t[0] == 'agg':
                raise Unsupported('vector bitcast')
            return x
        return self.cast(i, f)

    def t_ptrtoint(self, i, bi):
        def f(st, x, s, t):
            if type(x) is int:
                return x & ((1 << t[1]) - 1)
            return x
        return self.cast(i, f)

    def t_inttoptr(self, i, bi):
        return self.cast(i, lambda st, x, s, t: x)

    def t_addrspacecast(self, i, bi):
        return self.cast(i, lambda st, x, s, t: x)

    def t_freeze(self, i, bi):
        return self.cast(i, lambda st, x, s, t: x)

    def t_fpext(self, i, bi):
        return self.cast(i, lambda st, x, s, t: x)

    def t_fptrunc(self, i, bi):
        M = self.M

        def f(st, x, s, t):
            if t[0] != 'f' or type(x) is float:
                return x
            if type(x) is Fraction:
                return Fraction(struct.unpack('<f', struct.pack('<f', float(x)))[0])
            return M.externs.round_float(M, st, x)
        return self.cast(i, f)

    def t_sitofp(self, i, bi):
        M = self.M

        def f(st, x, s, t):
            if type(x) is int:
                return Fraction(sx(x, s[1]))
            return M.int_to_real(st, x, s[1], True)
        return self.cast(i, f)

    def t_uitofp(self, i, bi):
        M = self.M

        def f(st, x, s, t):
            if type(x) is int:
                return Fraction(x)
            return M.int_to_real(st, x, s[1], False)
        return self.cast(i, f)

    def t_fptosi(self, i, bi):
        M = self.M

        def f(st, x, s, t):
            return M.conc_floor(st, x, 'trunc') & ((1 << t[1]) - 1)
        return self.cast(i, f)

    t_fptoui = t_fptosi

    # ---- others
    def t_select(self, i, bi):
        M = self.M
        d = self.ids[i]
        c = self.op(C.GetOperand(i, 0))
        a = self.op(C.GetOperand(i, 1))
        b = self.op(C.GetOperand(i, 2))
        t = M.T.get(C.TypeOf(i))
        isb = t[0] == 'i' and t[1] == 1
        isi = t[0] == 'i' and t[1] > 1
        w = t[1] if t[0] == 'i' else 0

        def sel(st, fr):
            r = fr.regs
            v = r[c]
            if type(v) is int:
                r[d] = r[a] if v else r[b]
                return
            if type(v) is tuple:
                r[d] = tuple(x if M.truth(st, cc) else y for cc, x, y in zip(v, r[a], r[b]))
                return
            if isb:
                x = r[a] if isinstance(r[a], Cond) else bool(r[a])
                y = r[b] if isinstance(r[b], Cond) else bool(r[b])
                if y is False:
                    q = K.cand(v, x)
                elif x is True:
                    q = K.cor(v, y)
                elif x is False:
                    q = K.cand(K.cnot(v), y)
                elif y is True:
                    q = K.cor(K.cnot(v), x)
                else:
                    q = x if M.decide(st, v) else y
                r[d] = int(q) if q is True or q is False else q
                return
            if isi and v.kind == 'z' and not is_real(r[a]) and not is_real(r[b]):
                q = N.ite(v.z(), r[a], r[b], w)
                r[d] = simp(z3.If(v.z(), bv(r[a], w), bv(r[b], w))) if q is None else q
                return
            r[d] = r[a] if M.decide(st, v) else r[b]
        return sel

    def t_extractvalue(self, i, bi):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        n = C.GetNumIndices(i)
        ix = C.GetIndices(i)
        ix = [ix[k] for k in range(n)]

        def ev(st, fr):
            v = fr.regs[a]
            for k in ix:
                v = v[k]
            fr.regs[d] = v
        return ev

    def t_insertvalue(self, i, bi):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))
        n = C.GetNumIndices(i)
        ix = C.GetIndices(i)
        ix = [ix[k] for k in range(n)]

        def ins(v, ix, x):
            if not ix:
                return x
            v = list(v)
            v[ix[0]] = ins(v[ix[0]], ix[1:], x)
            return tuple(v)

        def iv(st, fr):
            fr.regs[d] = ins(fr.regs[a], ix, fr.regs[b])
        return iv

    def t_extractelement(self, i, bi):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))

        def ee(st, fr):
            fr.regs[d] = fr.regs[a][fr.regs[b]]
        return ee

    def t_insertelement(self, i, bi):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        x = self.op(C.GetOperand(i, 1))
        b = self.op(C.GetOperand(i, 2))

        def ie(st, fr):
            v = list(fr.regs[a])
            v[fr.regs[b]] = fr.regs[x]
            fr.regs[d] = tuple(v)
        return ie

    def t_shufflevector(self, i, bi):
        d = self.ids[i]
        a = self.op(C.GetOperand(i, 0))
        b = self.op(C.GetOperand(i, 1))
        m = [C.GetMaskValue(i, k) for k in range(C.GetNumMask(i))]

        def sv(st, fr):
            v = tuple(fr.regs[a]) + tuple(fr.regs[b])
            fr.regs[d] = tuple(v[k] if k >= 0 else v[0] for k in m)
        return sv

    def t_fence(self, i, bi):
        return lambda st, fr: None

    def t_atomicrmw(self, i, bi):
        M = self.M
        d = self.ids.get(i)
        p = self.op(C.GetOperand(i, 0))
        v = self.op(C.GetOperand(i, 1))
        t = M.T.get(C.TypeOf(i))
        op = C.GetAtomicRMWBinOp(i)
        w = t[1]
        mask = (1 << w) - 1

        def rmw(st, fr):
            old = M.load(st, fr.regs[p], t)
            x = fr.regs[v]
            if op == 0:
                new = x
            elif op == 1:
                new = (old + x) & mask
            elif op == 2:
                new = (old - x) & mask
            else:
                raise Unsupported('atomicrmw')
            M.store(st, fr.regs[p], t, new)
            if d is not None:
                fr.regs[d] = old
        return rmw


def _isym(self, st, name, x, y, w, zf):
    if w == 1:
        cx = x if isinstance(x, Cond) else bool(x)
        cy = y if isinstance(y, Cond) else bool(y)
        v = {'and': K.cand, 'or': K.cor, 'xor': K.cxor}.get(name)
        if v is None:
            raise Unsupported('i1 ' + name)
        v = v(cx, cy)
        return int(v) if v is True or v is False else v
    if is_real(x) or is_real(y):
        # sign-bit tricks on a punned double
        if is_real(y):
            x, y = y, x
        if type(x) is not RF:
            x = dbits(x)
            return simp(zf(bv(x, w), bv(y, w))) if type(y) is not int else \
                (x & y if name == 'and' else x ^ y if name == 'xor' else x | y)
        if name == 'and' and y == (1 << 63) - 1:
            return self.externs.fabs(self, st, [x])
        if name == 'xor' and y == 1 << 63:
            return self.fneg(st, x)
        raise Unsupported('bit operation on a symbolic double')
    v = N.binop(name, x, y, w)
    if v is not None:
        return v
    return simp(zf(bv(x, w), bv(y, w)))


def _icmp_z(self, p, zf, x, y, w):
    v = N.compare(p, x, y, w)
    if v is None:
        v = zf(bv(x, w), bv(y, w))
    return v if v is True or v is False else cbool(v)


def _pun_icmp(self, st, p, x, y):
    if is_real(x) and is_real(y) and p in (32, 33):
        v = self.fcmp(st, x, y, '==' if p == 32 else '!=')
        return int(v) if v in (True, False) else v
    if is_real(x) and type(y) is int:
        if p == 40 and y == 0:                   # < 0: sign bit
            v = self.fcmp(st, x, Fraction(0), '<')
        elif p == 38 and y == M64:               # > -1
            v = self.fcmp(st, x, Fraction(0), '>=')
        elif p in (32, 33) and y == 0:
            v = self.fcmp(st, x, Fraction(0), '==' if p == 32 else '!=')
        else:
            if type(x) is RF:
                raise Unsupported('integer comparison of a symbolic double')
            return int(ICMP[p](dbits(x), y, 64))
        return int(v) if v is True or v is False else v
    raise Unsupported('integer comparison of a double')


def _int_to_real(self, st, x, w, signed):
    if isinstance(x, Cond):
        return Fraction(1) if self.decide(st, x) else Fraction(0)
    if is_real(x):
        return Fraction(sx(dbits(x), 64))
    AT = R.AT
    k = ('int', x.get_id(), signed)
    a = AT.index.get(k)
    if a is None:
        K._keep.append(x)
        a = AT.named(k, 'int', {})
        AT.names[a] = 'int_%d' % a
        AT.info[a] = {'z': z3.ToReal(N.to_int(x, w, signed)), 'vars': K.z3vars(x), 'defs': []}
    return R.rf_atom(a)


Machine.isym = _isym
Machine.icmp_z = _icmp_z
Machine.pun_icmp = _pun_icmp
Machine.int_to_real = _int_to_real
Machine.unsup = staticmethod(lambda m: Unsupported(m))
