"""Symbolic executor for the clang AST of /repo's functions: generates the verification conditions.

Every statement of the real source is executed on symbolic state; loops are summarised by inferred and then *checked*
closed forms (loops.py), library calls by the contracts in lib.py, and project functions either by their contract
(when one is installed for the run) or by executing their body.

Semantics used: doubles are real numbers; integers are mathematical integers, unsigned values are kept unreduced and
re-interpreted (proved non-negative, or wrapped by 2^64) wherever they are observed (comparison, division, conversion
to floating point, index)."""
import itertools
import re
import struct
from fractions import Fraction
from . import term as tm
from . import prove as pv
from . import front
from .front import qtype, where, params, body, inits
from .term import T, I, R, add, sub, mul, div, eq, lt, le, nott, andd, orr, ite, is_c, cval, TRUE, FALSE


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------------------ values
class P:
    """an object (or scalar variable) at a path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'P%r' % (self.path,)


class E:
    """an array element"""
    __slots__ = ('path', 'idx')

    def __init__(self, path, idx):
        self.path, self.idx = path, idx

    def __repr__(self):
        return 'E%r%r' % (self.path, self.idx)


class Row:
    """one inner vector of a vector of vectors"""
    __slots__ = ('path', 'idx')

    def __init__(self, path, idx):
        self.path, self.idx = path, idx


class CxPart:
    __slots__ = ('lv', 'k')

    def __init__(self, lv, k):
        self.lv, self.k = lv, k


class Ptr:
    __slots__ = ('path', 'off')

    def __init__(self, path, off=None):
        self.path, self.off = path, off if off is not None else I(0)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.path == self.path and o.off is self.off

    def __hash__(self):
        return hash((self.path, self.off))

    def __repr__(self):
        return 'Ptr%r+%r' % (self.path, self.off)


class Null:
    def __eq__(self, o):
        return isinstance(o, Null)

    def __hash__(self):
        return 7


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = tm.toreal(re), tm.toreal(im)

    def __eq__(self, o):
        return isinstance(o, Cx) and o.re is self.re and o.im is self.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return 'Cx(%r,%r)' % (self.re, self.im)


class Fn:
    def __init__(self, name, node=None):
        self.name, self.node = name, node


class Lam:
    def __init__(self, node, env, frame, this):
        self.node, self.env, self.frame, self.this = node, env, frame, this


class Bytes:
    """result of malloc before its cast"""

    def __init__(self, n, how):
        self.n, self.how = n, how


class Manip:
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Trace:
    """sequence of observable events; base is a symbol for what came before (inside a loop body)"""
    __slots__ = ('base', 'items')

    def __init__(self, base=None, items=()):
        self.base, self.items = base, tuple(items)

    def __eq__(self, o):
        return isinstance(o, Trace) and o.base == self.base and o.items == self.items

    def __hash__(self):
        return hash((self.base, self.items))

    def plus(self, *xs):
        return Trace(self.base, self.items + tuple(xs))

    def __repr__(self):
        return 'Trace(%r, %r)' % (self.base, self.items)


def trace_subst(items, m):
    out = []
    for x in items:
        out.append(item_subst(x, m))
    return tuple(out)


def item_subst(x, m):
    if isinstance(x, T):
        return tm.subst(x, m)
    if isinstance(x, Trace):
        return Trace(x.base, trace_subst(x.items, m))
    if isinstance(x, tuple):
        return tuple(item_subst(y, m) for y in x)
    if isinstance(x, Cx):
        return Cx(tm.subst(x.re, m), tm.subst(x.im, m))
    return x


# ------------------------------------------------------------------------------------------------ state
class St:
    __slots__ = ('mem', 'br', 'facts', '_ctx')

    def __init__(self, mem=None, br=(), facts=()):
        self.mem = mem if mem is not None else {}
        self.br = br
        self.facts = facts
        self._ctx = None

    def fork(self):
        s = St(dict(self.mem), self.br, self.facts)
        s._ctx = self._ctx
        return s

    def ctx(self):
        if self._ctx is None:
            self._ctx = getctx(self.facts + self.br)
        return self._ctx

    def assume(self, *fs):
        fs = tuple(f for f in fs if f is not TRUE)
        if fs:
            self.facts = self.facts + fs
            self._ctx = None

    def branch(self, c):
        if c is not TRUE:
            self.br = self.br + (c,)
            self._ctx = None

    def take(self, o):
        self.mem, self.br, self.facts, self._ctx = o.mem, o.br, o.facts, o._ctx


_ctxs = {}


def getctx(facts):
    c = _ctxs.get(facts)
    if c is None:
        c = _ctxs[facts] = pv.Ctx(facts)
    return c


class Flow:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Ob:
    """a proof obligation"""
    __slots__ = ('kind', 'goal', 'facts', 'where', 'fn', 'detail')

    def __init__(self, kind, goal, facts, where, fn, detail=''):
        self.kind, self.goal, self.facts, self.where, self.fn, self.detail = kind, goal, facts, where, fn, detail

    def name(self):
        return '%s @ %s (%s)%s' % (self.kind, self.where, self.fn, (': ' + self.detail) if self.detail else '')


class Acc:
    """logged access for race checking"""
    __slots__ = ('rw', 'path', 'idx', 'facts', 'where')

    def __init__(self, rw, path, idx, facts, where):
        self.rw, self.path, self.idx, self.facts, self.where = rw, path, idx, facts, where


# ------------------------------------------------------------------------------------------------ types
def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for s in ('const ', 'volatile ', 'struct ', 'class ', 'enum '):
            if t.startswith(s):
                t = t[len(s):].strip()
                ch = True
        for s in ('&&', '&', ' const'):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


UNSIGNED64 = {'unsigned long', 'size_t', 'std::size_t', 'unsigned long long', 'uint64_t', 'uintptr_t', 'size_type'}
UNSIGNED32 = {'unsigned int', 'uint32_t', 'unsigned'}
UNSIGNED_SMALL = {'unsigned short', 'unsigned char', 'uint16_t', 'uint8_t'}
SIGNED = {'int', 'long', 'long long', 'short', 'ptrdiff_t', 'std::ptrdiff_t', 'int64_t', 'int32_t', 'ssize_t', 'char',
          'signed char', 'openmode', 'std::ios_base::openmode', 'fftw_r2r_kind'}
FLOAT = {'double', 'float', 'long double'}


SINGLE = {'float', 'const float', '_Float16', 'const _Float16', 'std::complex<float>', 'const std::complex<float>'}
SMALL = {'unsigned short', 'unsigned char', 'short', 'signed char', 'uint8_t', 'uint16_t', 'int8_t', 'int16_t', '__uint8_t', '__uint16_t', '__int8_t', '__int16_t'}


def small_range(t):
    t = strip(t).replace('std::', '').strip('_')
    b = 16 if '16' in t or 'short' in t else 8
    u = t.startswith('u')
    return (0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def single(v):
    """rounding to single precision"""
    if is_c(v):
        f = Fraction(cval(v))
        try:
            if Fraction(struct.unpack('f', struct.pack('f', float(f)))[0]) == f:
                return v
        except OverflowError:
            pass
    if v.op == 'app' and v.a[0] == 'single':
        return v
    return tm.app('single', v)


def is_uns(t):
    t = strip(t)
    return t in UNSIGNED64 or t in UNSIGNED32 or t in UNSIGNED_SMALL


def bits(t):
    t = strip(t)
    if t in UNSIGNED32:
        return 32
    if t in UNSIGNED_SMALL:
        return 16
    return 64


def is_int(t):
    t = strip(t)
    return t in UNSIGNED64 or t in UNSIGNED32 or t in UNSIGNED_SMALL or t in SIGNED or t in ('shtns_type', 'shtns_norm')


def is_float(t):
    return strip(t) in FLOAT


def is_bool(t):
    return strip(t) in ('bool', '_Bool')


def is_string(t):
    t = strip(t)
    return t in ('std::string', 'string') or t.startswith('std::basic_string<')


def is_cplx(t):
    t = strip(t)
    return t.startswith('std::complex<') or t in ('cplx', 'complex<double>', 'complex')


def vec_elem(t):
    """element type of a vector type or None"""
    t = strip(t)
    for p in ('std::vector<', 'vector<'):
        if t.startswith(p) and t.endswith('>'):
            s = t[len(p):-1]
            d = 0
            for i, ch in enumerate(s):
                if ch == '<':
                    d += 1
                elif ch == '>':
                    d -= 1
                elif ch == ',' and d == 0:
                    s = s[:i]
                    break
            return s.strip()
    if t.startswith('std::array<') or t.startswith('array<'):
        return t[t.index('<') + 1:].split(',')[0].strip()
    return None


def arr_type(t):
    """(element type, length) of a fixed-length array type, or None"""
    t = strip(t)
    m = re.match(r'^(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$', t)
    if m:
        return m.group(1) + m.group(3), int(m.group(2))
    m = re.match(r'^(?:std::)?array<(.*),\s*(\d+)(?:UL|ul|u|U)*\s*>$', t)
    if m:
        return m.group(1).strip(), int(m.group(2))
    return None


def size_of(t):
    """bytes of a value of the type (None: not known)"""
    a = arr_type(t)
    if a is not None:
        k = size_of(a[0])
        return None if k is None else k * a[1]
    if is_cplx(t):
        return 16
    t = strip(t)
    if t == 'double' or bits(t) == 64 and is_int(t) and t not in ('int', 'short', 'char'):
        return 8
    return {'int': 4, 'unsigned int': 4, 'float': 4, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2}.get(t)


def is_ptr(t):
    t = strip(t)
    return t.endswith('*') or t in ('fftw_plan', 'shtns_cfg')


def ekind(t):
    t = strip(t)
    if t in SINGLE and is_cplx(t) or 'Float16' in t:
        raise Unsupported('single precision elements')
    if is_cplx(t):
        return 'C'
    if is_float(t):
        return 'R'
    if is_int(t):
        return 'I'
    if is_bool(t):
        return 'I'
    if is_string(t):
        return 'S'
    v = vec_elem(t)
    if v is not None:
        k = ekind(v)
        if isinstance(k, tuple):
            raise Unsupported('vector nesting deeper than two: ' + t)
        return ('N', k)
    if is_ptr(t):
        return 'I'
    raise Unsupported('vector element type ' + t)


def comps(k):
    if isinstance(k, tuple):
        k = k[1]
    return ('#re', '#im') if k == 'C' else ('#d',)


def zero_of(k):
    if isinstance(k, tuple):
        k = k[1]
    if k == 'C':
        return Cx(R(0), R(0))
    if k == 'I':
        return I(0)
    if k == 'S':
        return tm.string('')
    return R(0)


STREAMS = {'std::ofstream', 'std::ifstream', 'std::stringstream', 'std::istringstream', 'std::ostringstream',
           'std::ostream', 'std::istream', 'ofstream', 'ifstream', 'stringstream', 'ostream', 'istream', 'std::iostream'}


WRAP = {64: I(2 ** 64), 32: I(2 ** 32), 16: I(2 ** 16)}


class Exec:
    def __init__(self, prog, contracts=None, omp=False, log=False):
        self.prog = prog
        self.contracts = contracts or {}
        self.obs = []
        self.logging = []
        self.log_on = log
        self.dry = 0
        self.raw = 0
        self.frame_ctr = itertools.count(1)
        self.tmp_ctr = itertools.count(1)
        self.stack = []          # call stack of (qual, frame)
        self.envs = []           # environments: declkey -> lvalue or Lam
        self.thiss = []
        self.functions = {}      # functions executed (qual -> where)
        self.uns = set()         # locals of unsigned type
        self.modelled = set()    # contracts used
        self.libs = set()        # library contracts used
        self.dtors = True
        self.loopM = {}
        self.loop_notes = []
        self.globals = {}
        self.races = []
        self.par_depth = 0
        self.region = None      # what existed before the parallel region being executed
        self.region_sums = set()
        self.guarded = set()
        self.seq_defs = {}
        self.exits = []
        from . import lib, loops
        self.lib = lib
        self.loops = loops

    # ---------------------------------------------------------------- bookkeeping
    def fn(self):
        return self.stack[-1][0] if self.stack else '?'

    def oblig(self, kind, goal, st, node, detail=''):
        if goal is TRUE:
            if not self.dry:
                self.obs.append(Ob(kind, TRUE, (), where(node) if isinstance(node, dict) else str(node), self.fn(), detail))
            return
        if not self.dry:
            self.obs.append(Ob(kind, goal, st.facts + st.br, where(node) if isinstance(node, dict) else str(node), self.fn(), detail))

    def access(self, rw, path, idx, st, node):
        if self.log_on and not self.dry:
            self.logging.append(Acc(rw, path, idx, st.facts + st.br, where(node) if isinstance(node, dict) else ''))

    def newtmp(self):
        return ('t', next(self.tmp_ctr))

    # ---------------------------------------------------------------- integers
    def observe(self, v, typ, st):
        """the value an unsigned expression really has"""
        if v.s != 'I' or self.raw or not is_uns(typ):
            return v
        if is_c(v):
            return v if cval(v) >= 0 else add(v, WRAP[bits(typ)])
        if pv.atom_nonneg(v):
            return v
        if pv.prove(le(I(0), v), st.ctx(), z3ok=False):
            return v
        if pv.prove(lt(v, I(0)), st.ctx(), z3ok=False):
            return add(v, WRAP[bits(typ)])
        if pv.prove(le(I(0), v), st.ctx()):
            return v
        return ite(lt(v, I(0)), add(v, WRAP[bits(typ)]), v)

    # ---------------------------------------------------------------- memory
    def load(self, lv, st, node=None, typ=None):
        if isinstance(lv, P):
            v = st.mem.get(lv.path)
            if v is None:
                raise Unsupported('read of an uninitialised or unknown object %r at %s' % (lv.path, where(node) if node else ''))
            return v
        if isinstance(lv, E):
            return self.elem_read(lv.path, lv.idx, st, node)
        if isinstance(lv, CxPart):
            c = self.load(lv.lv, st, node)
            return c.re if lv.k == 0 else c.im
        return lv

    def storev(self, lv, v, st, node=None):
        if isinstance(lv, P):
            st.mem[lv.path] = v
            if self.log_on and not self.dry:
                self.access('w', lv.path, (), st, node)
            return
        if isinstance(lv, E):
            self.elem_write(lv.path, lv.idx, v, st, node)
            return
        if isinstance(lv, CxPart):
            c = self.load(lv.lv, st, node)
            c = Cx(v, c.im) if lv.k == 0 else Cx(c.re, v)
            self.storev(lv.lv, c, st, node)
            return
        if isinstance(lv, Row):
            self.row_assign(lv, v, st, node)
            return
        raise Unsupported('store to %r' % (lv,))

    def size_of(self, path, st):
        n = st.mem.get(path + ('#n',))
        if n is None:
            raise Unsupported('size of unknown array %r' % (path,))
        return n

    def check_bounds(self, path, idx, st, node):
        if not self.dry:
            n = self.size_of(path, st)
            g = andd(le(I(0), idx[0]), lt(idx[0], n))
            if len(idx) == 2:
                g = andd(g, le(I(0), idx[1]), lt(idx[1], st.mem[path + ('#in',)]))
            self.oblig('bounds', g, st, node, pname(path))
            al = st.mem.get(path + ('#alive',))
            if al is not None:
                self.oblig('use-of-freed-memory', al, st, node, pname(path))

    def elem_read(self, path, idx, st, node, check=True):
        if check:
            self.check_bounds(path, idx, st, node)
        self.access('r', path, idx, st, node)
        m = st.mem
        if path + ('#re',) in m:
            return Cx(self.rd(m[path + ('#re',)], idx, st), self.rd(m[path + ('#im',)], idx, st))
        d = m.get(path + ('#d',))
        if d is None:
            raise Unsupported('element of unknown array %r' % (path,))
        return self.rd(d, idx, st)

    def rd(self, A, idx, st):
        t = tm.sel(A, idx)
        if t.op == 'sel' and t.a[0].op != 'av':
            return pv.resolve(t, st.ctx())
        return t

    def elem_write(self, path, idx, v, st, node):
        self.check_bounds(path, idx, st, node)
        self.access('w', path, idx, st, node)
        m = st.mem
        if path + ('#re',) in m:
            if isinstance(v, T):
                v = Cx(v, R(0))
            m[path + ('#re',)] = tm.store(m[path + ('#re',)], idx, v.re)
            m[path + ('#im',)] = tm.store(m[path + ('#im',)], idx, v.im)
            return
        if not isinstance(v, T):
            raise Unsupported('array element of type %s' % type(v).__name__)
        d = m[path + ('#d',)]
        if tm.esort(d) == 'R':
            v = tm.toreal(v)
        elif tm.esort(d) == 'I' and v.s == 'B':
            v = ite(v, I(1), I(0))
        m[path + ('#d',)] = tm.store(d, idx, v)

    def row_assign(self, row, src, st, node):
        """_x[i] = vector"""
        path, (i,) = row.path, row.idx
        self.check_bounds(path, (i, I(0)), st, node)
        ins = st.mem[path + ('#in',)]
        if isinstance(src, list):
            if not pv.prove(eq(I(len(src)), ins), st.ctx()):
                raise Unsupported('row assignment changes the inner size')
            for j, v in enumerate(src):
                self.elem_write(path, (i, I(j)), v, st, node)
            return
        n = self.size_of(src.path, st) if isinstance(src, P) else st.mem[src.path + ('#in',)]
        if n is not ins and not pv.prove(eq(n, ins), st.ctx()):
            raise Unsupported('row assignment changes the inner size')
        cs = '#re', '#im'
        if path + ('#re',) not in st.mem:
            cs = ('#d',)
        for c in cs:
            if is_c(ins) and cval(ins) <= 16:
                for j in range(int(cval(ins))):
                    jj = I(j)
                    v = self.rd(st.mem[src.path + (c,)], (jj,) if isinstance(src, P) else src.idx + (jj,), st)
                    st.mem[path + (c,)] = tm.store(st.mem[path + (c,)], (i, jj), v)
                    self.access('w', path, (i, jj), st, node)
            else:
                j = tm.fresh('j')
                v = self.rd(st.mem[src.path + (c,)], (j,) if isinstance(src, P) else src.idx + (j,), st)
                st.mem[path + (c,)] = tm.fam(st.mem[path + (c,)], (j,), ((I(0), ins),), (i, j), v)
                self.access('w', path, None, st, node)

    def vec_new(self, path, kind, n, init, st, inner=None):
        """a vector of n elements equal to init"""
        st.mem[path + ('#n',)] = n
        if isinstance(kind, tuple):
            st.mem[path + ('#in',)] = inner if inner is not None else I(0)
        cs = comps(kind)
        vals = (init.re, init.im) if isinstance(init, Cx) else (init,)
        if len(cs) == 2 and len(vals) == 1:
            vals = (tm.toreal(vals[0]), R(0))
        k = kind[1] if isinstance(kind, tuple) else kind
        for c, v in zip(cs, vals):
            if k in ('R', 'C'):
                v = tm.toreal(v)
            elif k == 'I' and v.s == 'B':
                v = ite(v, I(1), I(0))
            st.mem[path + (c,)] = tm.aconst(v)

    def copy_obj(self, src, dst, st, node=None):
        """copy the object at path src to path dst"""
        if src == dst:
            return
        n = len(src)
        sub_ = [(k, v) for k, v in st.mem.items() if k[:n] == src]
        for k in [k for k in st.mem if k[:len(dst)] == dst and len(dst) > 0]:
            del st.mem[k]
        for k, v in sub_:
            st.mem[dst + k[n:]] = v
        if any(k[-1] in ('#d', '#re') for k, v in sub_):
            for k, v in sub_:
                if k[-1] in ('#d', '#re'):
                    self.access('r', k[:-1], None, st, node)
                    self.access('w', dst + k[n:-1], None, st, node)

    def row_to_vec(self, row, dst, st, node):
        path, (i,) = row.path, row.idx
        self.check_bounds(path, (i, I(0)), st, node)
        ins = st.mem[path + ('#in',)]
        st.mem[dst + ('#n',)] = ins
        for c in (('#re', '#im') if path + ('#re',) in st.mem else ('#d',)):
            A = st.mem[path + (c,)]
            if is_c(ins) and cval(ins) <= 16:
                B = tm.aconst(tm.num(0, 'R') if tm.esort(A) == 'R' else (I(0) if tm.esort(A) == 'I' else tm.string('')))
                for j in range(int(cval(ins))):
                    B = tm.store(B, (I(j),), self.rd(A, (i, I(j)), st))
                    self.access('r', path, (i, I(j)), st, node)
            else:
                j = tm.fresh('j')
                B = tm.fam(tm.aconst(R(0)), (j,), ((I(0), ins),), (j,), self.rd(A, (i, j), st))
                self.access('r', path, None, st, node)
            st.mem[dst + (c,)] = B

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st):
        """value of an expression (scalars, Cx, Ptr, P for class objects)"""
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (k, where(n)))
        t = n.get('type')
        if t and (t.get('desugaredQualType') or t['qualType']) in SINGLE and k not in ('FloatingLiteral', 'ImplicitCastExpr'):
            v = m(n, st)
            if isinstance(v, T) and v.s == 'R':
                return single(v)
            if isinstance(v, Cx):
                raise Unsupported('single precision at ' + where(n))
            return v
        return m(n, st)

    def rv(self, n, st):
        """like ev, but an lvalue is loaded when its type is scalar"""
        v = self.ev(n, st)
        return self.as_value(v, st, n)

    def as_value(self, v, st, n=None):
        if isinstance(v, (E, CxPart)):
            return self.load(v, st, n)
        if isinstance(v, P):
            x = st.mem.get(v.path)
            if x is not None:
                return x
        return v

    def kids(self, n):
        return [c for c in n.get('inner', []) if c and c.get('kind')]

    def passthru(self, n, st):
        return self.ev(self.kids(n)[0], st)

    e_ParenExpr = e_ExprWithCleanups = e_ConstantExpr = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = passthru

    def e_MaterializeTemporaryExpr(self, n, st):
        v = self.ev(self.kids(n)[0], st)
        if isinstance(v, (T, Cx, Ptr)):
            p = self.newtmp()
            st.mem[p] = v
            return P(p)
        return v

    def e_IntegerLiteral(self, n, st):
        return I(int(n['value']))

    def e_FloatingLiteral(self, n, st):
        import math
        v = float(n['value'])
        if qtype(n) in SINGLE:
            return R(Fraction(struct.unpack('f', struct.pack('f', v))[0]))
        if v == math.pi:
            return tm.PI          # the double nearest to pi stands for pi
        return R(Fraction(repr(v)))      # the shortest decimal that denotes the same double

    def e_CXXBoolLiteralExpr(self, n, st):
        return TRUE if n['value'] else FALSE

    def e_CharacterLiteral(self, n, st):
        return tm.string(chr(n['value'])) if False else I(n['value'])

    def e_StringLiteral(self, n, st):
        import json
        try:
            return tm.string(json.loads(n['value']))
        except Exception:
            return tm.string(n['value'].strip('"'))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return Null()

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n, st):
        return Ptr(self.thiss[-1])

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') != 'sizeof':
            raise Unsupported('%s at %s' % (n.get('name'), where(n)))
        t = (n.get('argType') or {}).get('qualType') or qtype(self.kids(n)[0])
        t2 = (n.get('argType') or {}).get('desugaredQualType') or t
        k = size_of(t) or size_of(t2)
        if k is not None:
            return I(k)
        raise Unsupported('sizeof ' + t)

    def e_ImplicitValueInitExpr(self, n, st):
        return self.default_value(qtype(n), st)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def default_value(self, t, st):
        if is_int(t):
            return I(0)
        if is_float(t):
            return R(0)
        if is_bool(t):
            return FALSE
        if is_cplx(t):
            return Cx(R(0), R(0))
        if is_string(t):
            return tm.string('')
        if is_ptr(t):
            return Null()
        raise Unsupported('default value of ' + t)

    def e_DeclRefExpr(self, n, st):
        r = n['referencedDecl']
        k = r['kind']
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.prog.ref(n, r['id'])
            return Fn(r.get('name'), d or r)
        if k == 'EnumConstantDecl':
            return self.enum_value(n, r)
        if k not in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            raise Unsupported('reference to %s' % k)
        key = (n['_tu'], r['id'])
        for env in reversed(self.envs[-1]):
            if key in env:
                return env[key]
        return self.global_var(n, r, st)

    def enum_value(self, n, r):
        name = r['name']
        vals = {'sht_gauss': 0, 'sht_auto': 1, 'sht_orthonormal': 0, 'sht_fourpi': 256, 'sht_schmidt': 512,
                'FFTW_REDFT00': 3, 'FFTW_REDFT01': 4, 'FFTW_REDFT10': 5, 'FFTW_REDFT11': 6, 'FFTW_RODFT00': 7,
                'FFTW_R2HC': 0, 'FFTW_HC2R': 1, 'FFTW_DHT': 2}
        if name in vals:
            return I(vals[name])
        d = self.prog.ref(n, r['id'])
        if d is not None:
            if '_enum' in d:
                return I(d['_enum'])
            for c in self.kids(d):
                v = c.get('value')
                if v is not None:
                    return I(int(v))
        raise Unsupported('enumerator ' + name)

    def global_var(self, n, r, st):
        name = r.get('name')
        if name in ('cout', 'cerr', 'clog'):
            return P(('std', name))
        if name in ('app', 'out', 'in', 'trunc', 'ate', 'binary'):
            return I({'app': 1, 'out': 2, 'in': 4, 'trunc': 8, 'ate': 16, 'binary': 32}[name])
        if name == 'npos':
            return self.lib.NPOS
        d = self.prog.ref(n, r['id'])
        if d is None:
            raise Unsupported('unknown variable %s' % name)
        q = d.get('_qual') or name
        if d.get('_mut') in self.prog.changeable():
            return self.mutable_var(d, st)
        path = ('g', q if d.get('storageClass') != 'static' else (n['_tu'], q))
        if path not in self.globals:
            self.globals[path] = d
            qt = d['type']['qualType']
            if not (qt.startswith('const ') or 'constexpr' in d):
                self.check_global_const(d, q)
            # global objects are initialised once from their initialiser
            s0 = St({}, (), ())
            self.envs.append([{}])
            self.thiss.append(None)
            self.stack.append(('<init of %s>' % q, 0))
            self.dry += 1
            try:
                self.init_var(d, path, s0)
            finally:
                self.dry -= 1
                self.stack.pop()
                self.thiss.pop()
                self.envs.pop()
            self.globals[path] = {k: v for k, v in s0.mem.items() if k[:len(path)] == path}
        if not any(k[:len(path)] == path for k in st.mem):
            st.mem.update(self.globals[path])
        return P(path)

    def materialise(self, st):
        """changeable static storage exists from the start and holds whatever earlier calls left there"""
        for m, d in self.prog.changeable().items():
            path, t = ('g', 'static', m), qtype(d)
            e = vec_elem(t)
            if d.get('tls'):
                continue
            if e is not None:
                if vec_elem(e) is not None:
                    continue
                st.mem[path + ('#n',)] = tm.var('static!%s.n' % m)
                st.assume(tm.le(I(0), tm.var('static!%s.n' % m)))
                for c in comps(ekind(e)):
                    st.mem[path + (c,)] = tm.avar('static!%s%s' % (m, c), 'R' if ekind(e) in 'RC' else ekind(e))
            elif t in ('double', 'float'):
                st.mem[path] = tm.var('static!' + m, 'R')
            elif t == 'bool':
                st.mem[path] = tm.var('static!' + m, 'B')
            elif is_uns(t) or t in ('int', 'long', 'long long'):
                st.mem[path] = tm.var('static!' + m)
                if is_uns(t):
                    self.uns.add(path)
                    st.assume(tm.le(I(0), st.mem[path]))

    def thread_var(self, d, st):
        """a function's own per-thread storage: it holds whatever an earlier call on this thread left there"""
        path, t = ('l', self.stack[-1][1], d['id'], d.get('name')), qtype(d)
        for k in [k for k in st.mem if k[:4] == path]:
            del st.mem[k]
        e = vec_elem(t)
        if e is not None and vec_elem(e) is None:
            st.mem[path + ('#n',)] = nn = tm.fresh('tls.n')
            st.assume(tm.le(I(0), nn))
            for c in comps(ekind(e)):
                st.mem[path + (c,)] = tm.afresh('tls', 'R' if ekind(e) in 'RC' else ekind(e))
        elif t in ('double', 'float'):
            st.mem[path] = tm.fresh('tls', 'R')
        elif t == 'bool':
            st.mem[path] = tm.fresh('tls', 'B')
        elif is_uns(t) or t in ('int', 'long', 'long long'):
            st.mem[path] = v = tm.fresh('tls')
            if is_uns(t):
                self.uns.add(path)
                st.assume(tm.le(I(0), v))
        else:
            raise Unsupported('per-thread storage %s of type %s' % (d.get('name'), t))
        return P(path)

    def mutable_var(self, d, st):
        path = ('g', 'static', d['_mut'])
        if not any(k[:3] == path for k in st.mem):
            raise Unsupported('static storage %s of type %s' % (d.get('name'), qtype(d)))
        return P(path)

    def check_global_const(self, d, q):
        """a non-const global is treated as constant only when nothing in the program assigns to it"""
        # mutated globals are handled as ordinary state; within one verified call they start from their initialiser
        self.loop_notes.append('global %s starts from its initialiser' % q)

    def e_MemberExpr(self, n, st):
        base = self.kids(n)[0]
        name = n.get('name')
        b = self.ev(base, st)
        d = self.prog.ref(n, n.get('referencedMemberDecl'))
        if d is not None and d.get('kind') == 'VarDecl':
            return self.global_var(n, {'name': name, 'id': n['referencedMemberDecl']}, st)
        if isinstance(b, Ptr) or (isinstance(b, P) and n.get('isArrow')):
            if isinstance(b, P):
                b = st.mem[b.path]
            if not isinstance(b, Ptr):
                raise Unsupported('-> on %r' % (b,))
            p = b.path
        elif isinstance(b, P):
            p = b.path
        else:
            raise Unsupported('member of %r at %s' % (b, where(n)))
        fp = p + (name,)
        fk = st.mem.get(fp)
        if d is not None and d.get('kind') == 'FieldDecl' and strip2ref(d['type']['qualType']):
            # reference member
            if isinstance(fk, (P, E, Row)):
                return fk
        if p[:1] == ('shtns',) or st.mem.get(p + ('#shtns',)) is not None:
            return self.lib.shtns_field(self, p, name, st, n)
        return P(fp)

    def e_ArraySubscriptExpr(self, n, st):
        a, b = self.kids(n)
        av = self.rv(a, st)
        iv = self.rv(b, st)
        if isinstance(iv, Ptr):
            av, iv = iv, av
        iv = self.observe(iv, qtype(b), st)
        if isinstance(av, Ptr):
            return self.ptr_elem(av, iv, st, n)
        if isinstance(av, P):
            return E(av.path, (iv,))
        raise Unsupported('subscript of %r at %s' % (av, where(n)))

    def ptr_elem(self, ptr, iv, st, n):
        i = add(ptr.off, iv)
        if isinstance(ptr.path, Row):
            return E(ptr.path.path, ptr.path.idx + (i,))
        if ptr.path + ('#n',) not in st.mem:
            if is_c(i) and cval(i) == 0:
                return P(ptr.path)
            raise Unsupported('pointer arithmetic on a scalar')
        return E(ptr.path, (i,))

    # ---- casts
    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        c = self.kids(n)[0]
        if ck == 'LValueToRValue':
            v = self.ev(c, st)
            return self.load(v, st, n)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion',
                  'UserDefinedConversion', 'BuiltinFnToFnPtr', 'Dependent'):
            return self.ev(c, st)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(c, st)
            if isinstance(v, P):
                return Ptr(v.path)
            if isinstance(v, E):
                return Ptr(Row(v.path, v.idx), I(0))
            return v
        if ck == 'NullToPointer':
            return Null()
        return self.convert(self.rv(c, st), qtype(c), qtype(n), ck, st, n)

    def convert(self, v, src, dst, ck, st, n):
        if ck == 'IntegralToFloating':
            if v.s == 'B':
                return tm.toreal(v)
            v = tm.toreal(self.observe(v, src, st))
            return single(v) if strip(dst) in SINGLE else v
        if ck == 'FloatingToIntegral' and strip(dst) not in SMALL:
            return tm.toint(v)
        if ck == 'FloatingCast':
            return single(v) if strip(dst) in SINGLE and isinstance(v, T) else v
        if ck in ('IntegralCast', 'FloatingToIntegral') and strip(dst) in SMALL:
            if v.s == 'B':
                return ite(v, I(1), I(0))
            v = self.observe(v, src, st) if v.s == 'I' else tm.toint(v)
            return self.small(v, dst, st, n)
        if ck == 'IntegralCast':
            if v.s == 'B':
                return ite(v, I(1), I(0))
            if is_uns(src) and bits(src) < 64:
                return self.observe(v, src, st)
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            if v.s == 'B':
                return v
            return tm.ne(v, tm.num(0, v.s))
        if ck == 'PointerToBoolean':
            return FALSE if isinstance(v, Null) else self.ptr_nonnull(v, st)
        if ck == 'BitCast':
            return v
        if ck == 'ToVoid':
            return None
        if ck in ('NoOp', 'LValueToRValue', 'ConstructorConversion', 'UserDefinedConversion'):
            return v
        raise Unsupported('cast %s at %s' % (ck, where(n)))

    def small(self, v, t, st, n):
        """a value kept in a type of fewer bits than int: it has to fit"""
        lo, hi = small_range(t)
        if is_c(v) and lo <= cval(v) <= hi:
            return v
        self.oblig('value fits its type', andd(le(I(lo), v), le(v, I(hi))), st, n, strip(t))
        return v

    def ptr_nonnull(self, v, st):
        if isinstance(v, Null):
            return FALSE
        return TRUE

    def explicit_cast(self, n, st):
        ck = n.get('castKind')
        c = self.kids(n)[0]
        dst = qtype(n)
        if ck == 'ConstructorConversion' or ck == 'UserDefinedConversion':
            return self.ev(c, st)
        if ck == 'NoOp':
            v = self.ev(c, st)
            return self.as_value(v, st, n) if n.get('valueCategory') == 'prvalue' else v
        if ck == 'BitCast':
            v = self.rv(c, st)
            if isinstance(v, Bytes):
                return self.lib.alloc(self, v, dst, st, n)
            return v
        if ck in ('LValueToRValue',):
            return self.load(self.ev(c, st), st, n)
        if ck == 'ToVoid':
            self.ev(c, st)
            return None
        return self.convert(self.rv(c, st), qtype(c), dst, ck, st, n)

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = explicit_cast
    e_CXXConstCastExpr = explicit_cast

    def e_InitListExpr(self, n, st):
        ks = self.kids(n)
        t = qtype(n)
        if (is_int(t) or is_float(t) or is_bool(t) or is_ptr(t)) and len(ks) == 1:
            return self.rv(ks[0], st)
        if arr_type(t) is not None or self.class_name(strip(t)) is not None and n.get('_agg', True) and vec_elem(t) is None:
            if len(ks) == 1 and strip(qtype(ks[0])) == strip(t):
                return self.ev(ks[0], st)
            p = self.newtmp()
            self.init_list(n, t, p, st)
            return P(p)
        if len(ks) == 0:
            return self.default_value(t, st)
        if len(ks) == 1 and strip(qtype(ks[0])) == strip(t):
            return self.ev(ks[0], st)
        raise Unsupported('initialiser list of type %s at %s' % (t, where(n)))

    # ---- operators
    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        c = self.kids(n)[0]
        t = qtype(c)
        if op in ('++', '--'):
            lv = self.ev(c, st)
            v = self.load(lv, st, n)
            d = 1 if op == '++' else -1
            if isinstance(v, Ptr):
                nv = Ptr(v.path, add(v.off, I(d)))
            else:
                nv = add(v, tm.num(d, v.s))
            if strip(t) in SMALL:
                nv = self.small(nv, t, st, n)
            elif strip(t) in SINGLE:
                nv = single(nv)
            self.storev(lv, nv, st, n)
            return v if n.get('isPostfix') else lv
        if op == '&':
            lv = self.ev(c, st)
            if isinstance(lv, P):
                return Ptr(lv.path)
            if isinstance(lv, E):
                if len(lv.idx) == 1:
                    return Ptr(lv.path, lv.idx[0])
                return Ptr(Row(lv.path, lv.idx[:1]), lv.idx[1])
            if isinstance(lv, Fn):
                return lv
            raise Unsupported('address of %r' % (lv,))
        if op == '*':
            v = self.rv(c, st)
            if isinstance(v, Ptr):
                if not isinstance(v.path, Row) and v.off is I(0) and v.path + ('#n',) in st.mem and vec_elem(qtype(n)) is not None \
                        and v.path + ('#in',) not in st.mem:
                    return P(v.path)
                return self.ptr_elem(v, I(0), st, n)
            raise Unsupported('dereference of %r' % (v,))
        v = self.rv(c, st)
        if op == '-':
            if isinstance(v, Cx):
                return Cx(-v.re, -v.im)
            if v.s == 'B':
                v = ite(v, I(1), I(0))
            return mul(tm.num(-1, v.s), v)
        if op == '+':
            return v
        if op == '!':
            return nott(self.boolean(v, st))
        raise Unsupported('unary %s at %s' % (op, where(n)))

    def boolean(self, v, st):
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, Ptr):
            return TRUE
        if v.s == 'B':
            return v
        return tm.ne(v, tm.num(0, v.s))

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = self.kids(n)
        if op == ',':
            self.ev(a, st)
            return self.ev(b, st)
        if op == '=':
            v = self.rv(b, st)
            lv = self.ev(a, st)
            v = self.tostore(v, qtype(a), st)
            self.storev(lv, v, st, n)
            return lv
        if op in ('&&', '||'):
            x = self.boolean(self.rv(a, st), st)
            if (op == '&&' and x is FALSE) or (op == '||' and x is TRUE):
                return x
            s2 = st.fork()
            s2.branch(x if op == '&&' else nott(x))
            y = self.boolean(self.rv(b, s2), s2)
            if s2.mem is not st.mem and changed(st.mem, s2.mem):
                s1 = st.fork()
                s1.branch(nott(x) if op == '&&' else x)
                m = merge([s1, s2], self)
                st.take(m)
            return andd(x, y) if op == '&&' else orr(x, y)
        x, y = self.rv(a, st), self.rv(b, st)
        return self.binop(op, x, y, qtype(a), qtype(b), st, n)

    def tostore(self, v, t, st):
        if isinstance(v, T):
            if is_float(t):
                return tm.toreal(v)
            if is_int(t) and v.s == 'B':
                return ite(v, I(1), I(0))
            if is_bool(t) and v.s != 'B':
                return tm.ne(v, tm.num(0, v.s))
        return v

    def binop(self, op, x, y, ta, tb, st, n):
        if isinstance(x, (Ptr, Null)) or isinstance(y, (Ptr, Null)):
            return self.ptr_op(op, x, y, st, n)
        if isinstance(x, Cx) or isinstance(y, Cx):
            return cx_op(op, x, y)
        if not isinstance(x, T) or not isinstance(y, T):
            raise Unsupported('operands of %s at %s' % (op, where(n)))
        if x.s == 'B' and op not in ('==', '!=', '^', '&', '|'):
            x = ite(x, I(1), I(0))
        if y.s == 'B' and op not in ('==', '!=', '^', '&', '|'):
            y = ite(y, I(1), I(0))
        if op == '+':
            return add(x, y)
        if op == '-':
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op == '/':
            if x.s == 'I' and y.s == 'I':
                x, y = self.observe(x, ta, st), self.observe(y, tb, st)
                self.oblig('division-by-zero', tm.ne(y, I(0)), st, n)
                if not is_uns(ta):
                    if not (pv.prove(le(I(0), x), st.ctx()) and pv.prove(lt(I(0), y), st.ctx())):
                        raise Unsupported('signed integer division at ' + where(n))
                return self.divmod(x, y, st)[0]
            return div(x, y)
        if op == '%':
            x, y = self.observe(x, ta, st), self.observe(y, tb, st)
            self.oblig('division-by-zero', tm.ne(y, I(0)), st, n)
            if not is_uns(ta):
                if not (pv.prove(le(I(0), x), st.ctx()) and pv.prove(lt(I(0), y), st.ctx())):
                    raise Unsupported('signed remainder at ' + where(n))
            return self.divmod(x, y, st)[1]
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if x.s == 'I':
                x = self.observe(x, ta, st)
            if y.s == 'I':
                y = self.observe(y, tb, st)
            if x.s == 'R' or y.s == 'R':
                px = tm.int_poly(x) if x.s == 'R' else x
                py = tm.int_poly(y) if y.s == 'R' else y
                if px is not None and py is not None:
                    x, y = px, py
            return {'<': lt, '>': tm.gt, '<=': le, '>=': tm.ge, '==': eq, '!=': tm.ne}[op](x, y)
        if op in ('|', '&', '^', '<<', '>>'):
            if x.s == 'B' and y.s == 'B':
                return {'|': orr, '&': andd, '^': lambda p, q: nott(eq(p, q))}[op](x, y)
            if is_c(x) and is_c(y):
                p, q = int(cval(x)), int(cval(y))
                return I({'|': p | q, '&': p & q, '^': p ^ q, '<<': p << q, '>>': p >> q}[op])
            if op == '<<' and is_c(y):
                return mul(x, I(2 ** int(cval(y))))
            if op == '>>' and is_c(y):
                return tm.idiv(self.observe(x, ta, st), I(2 ** int(cval(y))))
            if op == '&' and is_c(y) and cval(y) == 1:
                return tm.imod(self.observe(x, ta, st), I(2))
        raise Unsupported('operator %s at %s' % (op, where(n)))

    def ptr_op(self, op, x, y, st, n):
        if op in ('==', '!='):
            if isinstance(x, Null) or isinstance(y, Null):
                p = y if isinstance(x, Null) else x
                r = FALSE if isinstance(p, Ptr) else (TRUE if isinstance(p, Null) else None)
                if isinstance(p, Bytes):
                    r = FALSE
                if r is None:
                    raise Unsupported('pointer comparison')
                return r if op == '==' else nott(r)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and same_ptr(x, y):
                r = eq(x.off, y.off)
                return r if op == '==' else nott(r)
        if isinstance(x, Ptr) and isinstance(y, T):
            return Ptr(x.path, add(x.off, y) if op == '+' else sub(x.off, y))
        if isinstance(y, Ptr) and isinstance(x, T) and op == '+':
            return Ptr(y.path, add(y.off, x))
        if isinstance(x, Ptr) and isinstance(y, Ptr) and same_ptr(x, y):
            if op == '-':
                return sub(x.off, y.off)
            if op in ('<', '>', '<=', '>='):
                return {'<': lt, '>': tm.gt, '<=': le, '>=': tm.ge}[op](x.off, y.off)
        raise Unsupported('pointer operation %s at %s' % (op, where(n)))

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = self.kids(n)
        y = self.rv(b, st)
        lv = self.ev(a, st)
        x = self.load(lv, st, n)
        ta = qtype(a)
        comp = (n.get('computeLHSType') or {}).get('qualType', ta)
        if isinstance(x, T) and is_float(comp) and x.s == 'I':
            x = tm.toreal(self.observe(x, ta, st))
        v = self.binop(op, x, y, ta, qtype(b), st, n)
        if isinstance(v, T):
            if is_int(ta) and v.s == 'R':
                v = tm.toint(v)
            v = self.tostore(v, ta, st)
            if strip(ta) in SMALL:
                v = self.small(v, ta, st, n)
            elif strip(ta) in SINGLE:
                v = single(v)
        self.storev(lv, v, st, n)
        return lv

    def e_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        cv = self.boolean(self.rv(c, st), st)
        if cv is TRUE:
            return self.ev(a, st)
        if cv is FALSE:
            return self.ev(b, st)
        s1, s2 = st.fork(), st.fork()
        s1.branch(cv)
        s2.branch(nott(cv))
        x, y = self.rv(a, s1), self.rv(b, s2)
        if changed(st.mem, s1.mem) or changed(st.mem, s2.mem):
            if isinstance(x, P) or isinstance(y, P):
                if not (isinstance(x, P) and isinstance(y, P)):
                    raise Unsupported('conditional of objects at ' + where(n))
                p = self.newtmp()
                self.copy_obj(x.path, p, s1, n)
                self.copy_obj(y.path, p, s2, n)
                st.take(merge([s1, s2], self))
                return P(p)
            m = merge([s1, s2], self, vals=[x, y])
            st.take(m[0])
            return m[1]
        return merge_val(cv, x, y)

    # ---- calls
    def e_CallExpr(self, n, st):
        ks = self.kids(n)
        f = self.ev(ks[0], st)
        if isinstance(f, Lam):
            return self.call_lambda(f, ks[1:], st, n)
        if isinstance(f, P):
            v = st.mem.get(f.path)
            if isinstance(v, Lam):
                return self.call_lambda(v, ks[1:], st, n)
        if not isinstance(f, Fn):
            raise Unsupported('call of %r' % (f,))
        return self.call_named(f, ks[1:], st, n)

    def call_named(self, f, args, st, n):
        d = f.node
        m = d.get('mangledName')
        fd = self.proj(m)
        if fd is None and d.get('_m') in self.prog.funcs:
            fd = self.prog.funcs[d['_m']]
        if fd is not None and fd['_qual'].startswith('std::'):
            fd = None       # the stub headers give some templates a body only so that they compile
        if fd is not None:
            return self.call(fd, None, args, st, n)
        return self.lib.call(self, f.name, args, st, n)

    def e_CXXMemberCallExpr(self, n, st):
        ks = self.kids(n)
        me = ks[0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = self.kids(me)[0]
        if me['kind'] == 'BinaryOperator' and me.get('opcode') in ('.*', '->*'):
            obj = self.ev(self.kids(me)[0], st)
            if me['opcode'] == '->*':
                obj = self.rv(self.kids(me)[0], st)
                obj = P(obj.path) if isinstance(obj, Ptr) and is_c(obj.off) and cval(obj.off) == 0 else None
            f = self.rv(self.kids(me)[1], st)
            fd = self.proj(f.node.get('mangledName')) if isinstance(f, Fn) else None
            if fd is None or fd.get('virtual') or not isinstance(obj, P):
                raise Unsupported('call through a pointer to member at ' + where(n))
            return self.call(fd, obj.path, ks[1:], st, n)
        name = me.get('name')
        d = self.prog.ref(me, me.get('referencedMemberDecl'))
        obj = self.ev(self.kids(me)[0], st)
        if me.get('isArrow'):
            if isinstance(obj, P):
                obj = st.mem[obj.path]
            if isinstance(obj, Ptr):
                obj = self.ptr_elem(obj, I(0), st, n) if obj.path + ('#n',) in st.mem and not is_vec_ptr(self.kids(me)[0]) else P(obj.path)
        m = d.get('mangledName') if d is not None else None
        fd = self.proj(m)
        if fd is not None:
            if not isinstance(obj, P):
                raise Unsupported('method on %r' % (obj,))
            return self.call(fd, obj.path, ks[1:], st, n)
        return self.lib.method(self, obj, qtype(self.kids(me)[0]), name, ks[1:], st, n)

    def e_CXXOperatorCallExpr(self, n, st):
        ks = self.kids(n)
        f = ks[0]
        while f['kind'] != 'DeclRefExpr':
            f = self.kids(f)[0]
        name = f['referencedDecl']['name']
        d = self.prog.ref(f, f['referencedDecl']['id'])
        m = d.get('mangledName') if d is not None else None
        if name == 'operator()':
            v = self.ev(ks[1], st)
            if isinstance(v, P) and isinstance(st.mem.get(v.path), Lam):
                v = st.mem[v.path]
            if isinstance(v, Lam):
                return self.call_lambda(v, ks[2:], st, n)
        fd = self.proj(m)
        if fd is not None:
            if d.get('kind') == 'CXXMethodDecl':
                o = self.ev(ks[1], st)
                return self.call(fd, o.path, ks[2:], st, n)
            return self.call(fd, None, ks[1:], st, n)
        return self.lib.operator(self, name, ks[1:], st, n)

    def e_CXXConstructExpr(self, n, st):
        return self.construct(n, st, None)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXDefaultArgExpr(self, n, st):
        raise Unsupported('default argument at ' + where(n))

    def e_CXXDefaultInitExpr(self, n, st):
        raise Unsupported('default member initialiser out of place')

    def e_LambdaExpr(self, n, st):
        return Lam(n, self.envs[-1], None, self.thiss[-1])

    def e_CXXStdInitializerListExpr(self, n, st):
        k = self.kids(n)[0]
        while k['kind'] in ('MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ImplicitCastExpr'):
            k = self.kids(k)[0]
        if k['kind'] != 'InitListExpr':
            raise Unsupported('initializer_list')
        return [self.rv(c, st) for c in self.kids(k)]

    def call_lambda(self, lam, args, st, n):
        # find the call operator
        op = None
        for c in self.kids(lam.node):
            if c['kind'] == 'CXXRecordDecl':
                for m in c.get('inner', []):
                    if m and m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()' and body(m):
                        op = m
        if op is None:
            raise Unsupported('lambda at ' + where(n))
        ps = params(op)
        env = {}
        fr = next(self.frame_ctr)
        for p, a in zip(ps, args):
            self.bind_param(p, a, env, fr, st)
        byval = {}
        self.envs.append(lam.env + [env])
        self.thiss.append(lam.this)
        self.stack.append((self.fn() + '::lambda', fr))
        try:
            flows = self.block(body(op), st)
            return self.finish_call(flows, st, fr, n)
        finally:
            self.stack.pop()
            self.thiss.pop()
            self.envs.pop()

    def bind_param(self, p, a, env, fr, st):
        t = p['type'].get('qualType', '')
        dt = qtype(p)
        path = ('l', fr, p['id'], p.get('name'))
        isref = t.rstrip().endswith('&') or dt.rstrip().endswith('&')
        if isinstance(a, dict):
            if a['kind'] == 'CXXDefaultArgExpr':
                ini = [c for c in p.get('inner', []) if c and c.get('kind')]
                if not ini:
                    d = None
                    raise Unsupported('default argument of ' + str(p.get('name')))
                a = ini[-1]
            if isref:
                v = self.ev(a, st)
            else:
                v = self.rv(a, st)
        else:
            v = a
        if isref:
            if isinstance(v, (T, Cx, Ptr)):
                st.mem[path] = self.tostore(v, dt, st)
                v = P(path)
            env[(p['_tu'], p['id'])] = v
            return
        if isinstance(v, P):
            if vec_elem(dt) is not None or not isinstance(st.mem.get(v.path), (T, Cx, Ptr)):
                self.copy_obj(v.path, path, st, p)
                env[(p['_tu'], p['id'])] = P(path)
                return
            v = st.mem[v.path]
        if isinstance(v, Row):
            self.row_to_vec(v, path, st, p)
            env[(p['_tu'], p['id'])] = P(path)
            return
        if isinstance(v, (Lam, Fn)):
            env[(p['_tu'], p['id'])] = v
            return
        if is_uns(dt):
            self.uns.add(path)
        st.mem[path] = self.tostore(v, dt, st) if isinstance(v, T) else v
        env[(p['_tu'], p['id'])] = P(path)

    def proj(self, m):
        fd = self.prog.funcs.get(m)
        if fd is not None and fd['_qual'].startswith('std::'):
            return None
        return fd

    def call(self, fd, this, args, st, n):
        """call of a function whose body is in the program"""
        q = fd['_qual']
        c = self.contracts.get(q)
        if c is not None:
            vals = [self.arg(a, st) for a in args]
            self.modelled.add(q)
            r = c(self, fd, this, vals, st, n)
            if r is not NotImplemented:
                return r
        return self.inline(fd, this, args, st, n)

    def arg(self, a, st):
        if isinstance(a, dict):
            v = self.ev(a, st)
            return v
        return a

    def inline(self, fd, this, args, st, n):
        q = fd['_qual']
        if len(self.stack) > 30 or sum(1 for s in self.stack if s[0] == q) > 3:
            raise Unsupported('recursion in ' + q)
        self.functions[q] = where(fd)
        ps = params(fd)
        env = {}
        fr = next(self.frame_ctr)
        args = list(args)
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
                if isinstance(a, dict) and a['kind'] == 'CXXDefaultArgExpr':
                    a = self.default_arg(fd, i)
                self.bind_param(p, a, env, fr, st)
            else:
                self.bind_param(p, self.default_arg(fd, i), env, fr, st)
        self.envs.append([env])
        self.thiss.append(this)
        self.stack.append((q, fr))
        try:
            if fd['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(fd, this, st)
            flows = self.block(body(fd), st)
            return self.finish_call(flows, st, fr, n)
        finally:
            self.stack.pop()
            self.thiss.pop()
            self.envs.pop()

    def default_arg(self, fd, i):
        for f in [fd] + [self.prog.decl.get((fd['_tu'], fd.get('previousDecl')))]:
            if f is None:
                continue
            p = params(f)[i]
            ini = [c for c in p.get('inner', []) if c and c.get('kind')]
            if ini:
                return ini[-1]
        raise Unsupported('default argument of ' + fd['_qual'])

    def finish_call(self, flows, st, fr, n):
        rets = []
        for f in flows:
            if f.kind in ('n', 'ret'):
                rets.append(f)
            elif f.kind == 'exit':
                self.exits.append(f)
            else:
                raise Unsupported('stray %s' % f.kind)
        if not rets:
            st.branch(FALSE)
            return None
        # move by-value class results out of the frame
        vals = []
        out = None
        for f in rets:
            v = f.val
            if isinstance(v, P) and v.path[0] in ('l', 't') and not f.kind == 'n' and getattr(self, '_retref', None) is None:
                if out is None:
                    out = self.newtmp()
                x = f.st.mem.get(v.path)
                if isinstance(x, (T, Cx, Ptr)):
                    f.st.mem[out] = x
                else:
                    self.copy_obj(v.path, out, f.st, n)
                v = P(out)
            vals.append(v)
        if len(rets) == 1:
            st.take(rets[0].st)
            r = vals[0]
        else:
            if all(isinstance(v, P) and v.path == out for v in vals):
                st.take(merge([f.st for f in rets], self))
                r = P(out)
            elif all(v is None for v in vals):
                st.take(merge([f.st for f in rets], self))
                r = None
            else:
                m, r = merge([f.st for f in rets], self, vals=[self.as_value(v, f.st) for v, f in zip(vals, rets)])
                st.take(m)
        for k in [k for k in st.mem if k[0] == 'l' and k[1] == fr]:
            del st.mem[k]
        return r

    # ---------------------------------------------------------------- construction
    def construct(self, n, st, dst):
        """CXXConstructExpr, into path dst when given.  Returns the value (scalar-like) or P(path)"""
        t = qtype(n)
        args = [c for c in self.kids(n)]
        if is_string(t):
            vals = [self.rv(a, st) for a in args if a['kind'] != 'CXXDefaultArgExpr']
            v = self.lib.string_ctor(self, vals, st, n)
            if dst is not None:
                st.mem[dst] = v
                return P(dst)
            return v
        if is_cplx(t):
            vals = [self.rv(a, st) for a in args if a['kind'] != 'CXXDefaultArgExpr']
            if len(vals) == 1 and isinstance(vals[0], Cx):
                v = vals[0]
            elif len(vals) == 0:
                v = Cx(R(0), R(0))
            else:
                v = Cx(tm.toreal(vals[0]), tm.toreal(vals[1]) if len(vals) > 1 else R(0))
            if dst is not None:
                st.mem[dst] = v
                return P(dst)
            return v
        if vec_elem(t) is not None:
            p = dst if dst is not None else self.newtmp()
            self.lib.vec_ctor(self, p, ekind(vec_elem(t)), args, st, n)
            return P(p)
        cls = strip(t)
        if cls in STREAMS:
            p = dst if dst is not None else self.newtmp()
            self.lib.stream_ctor(self, p, cls, args, st, n)
            return P(p)
        q = self.class_name(cls)
        if q is None or front.short(q).startswith('kv_'):
            if len(args) == 1:
                v = self.ev(args[0], st)
                if isinstance(v, Manip):
                    return v
                if isinstance(v, (T, Lam, Ptr)):
                    return v
                if isinstance(v, P) and dst is None:
                    return v
                if isinstance(v, P):
                    self.copy_obj(v.path, dst, st, n)
                    return P(dst)
            raise Unsupported('construction of %s at %s' % (t, where(n)))
        p = dst if dst is not None else self.newtmp()
        ct = (n.get('ctorType') or {}).get('qualType', '')
        fds = [self.prog.funcs[m] for m in self.prog.byname.get(q + '::' + front.short(q), [])]
        if len(args) == 1 and n.get('elidable') or (len(args) == 1 and (('const %s &' % q) in ct or ('%s &&' % q) in ct)):
            cand = [f for f in fds if f['type']['qualType'] == ct]
            if not cand:
                v = self.ev(args[0], st)
                if isinstance(v, P):
                    if dst is None:
                        return v
                    self.copy_obj(v.path, dst, st, n)
                    return P(dst)
        cand = [f for f in fds if f['type']['qualType'] == ct]
        if not cand:
            cand = [f for f in fds if len(params(f)) == len(args)]
        if len(cand) != 1:
            if not args:
                self.default_fields(q, p, st)
                return P(p)
            raise Unsupported('constructor of %s at %s' % (q, where(n)))
        fd = cand[0]
        c = self.contracts.get(fd['_qual'])
        if c is not None:
            vals = [self.arg(a, st) for a in args]
            self.modelled.add(fd['_qual'])
            r = c(self, fd, p, vals, st, n)
            if r is not NotImplemented:
                st.mem[p + ('#class',)] = q
                return P(p)
        self.inline(fd, p, args, st, n)
        st.mem[p + ('#class',)] = q
        return P(p)

    def divmod(self, x, y, st):
        """quotient and remainder; B*q + r with 0 <= r < B is taken apart"""
        py = tm.ip_of(y)
        if not is_c(y) and len(py) == 1:
            (my, cy), = py.items()
            dy = dict(my)
            q, r = {}, {}
            for m, c in tm.ip_of(x).items():
                d = dict(m)
                k = c / cy
                if k.denominator == 1 and all(d.get(z, 0) >= e for z, e in dy.items()):
                    mm = tuple((z, d[z] - dy.get(z, 0)) for z, _ in m if d[z] > dy.get(z, 0))
                    q[mm] = q.get(mm, 0) + k
                else:
                    r[m] = c
            if q:
                q, r = tm.ip_mk(q), tm.ip_mk(r)
                cx = st.ctx()
                if pv.prove(le(I(0), r), cx) and pv.prove(lt(r, y), cx):
                    return q, r
        return tm.idiv(x, y), tm.imod(x, y)

    def class_name(self, cls):
        if cls in self.prog.classes:
            return cls
        for q in self.prog.classes:
            if short2(q) == short2(cls) and not q.startswith('std'):
                return q
        return None

    def fields(self, q):
        c = self.prog.classes[q]
        return [f for f in c.get('inner', []) if f and f.get('kind') == 'FieldDecl']

    def default_fields(self, q, path, st):
        for f in self.fields(q):
            ini = [c for c in f.get('inner', []) if c and c.get('kind')]
            fp = path + (f['name'],)
            if f.get('hasInClassInitializer') and ini:
                self.init_expr(ini[-1], qtype(f), fp, st)
            elif arr_type(qtype(f)) is not None:
                self.lib.c_array(self, fp, qtype(f), None, st, f)
            elif vec_elem(qtype(f)) is not None:
                self.lib.vec_ctor(self, fp, ekind(vec_elem(qtype(f))), [], st, f)
            elif is_string(qtype(f)):
                st.mem[fp] = tm.string('')
            elif is_cplx(qtype(f)):
                st.mem[fp] = Cx(R(0), R(0))

    def ctor_inits(self, fd, this, st):
        q = fd.get('_class')
        done = set()
        ini = {}
        for c in inits(fd):
            nm = (c.get('anyInit') or {}).get('name')
            if nm is None:
                if c.get('delegatingInit') or c.get('baseInit'):
                    ks = self.kids(c)
                    self.construct(ks[0], st, this)
                    return
                raise Unsupported('constructor initialiser at ' + where(fd))
            ini[nm] = c
        # members are initialised in declaration order
        for f in self.fields(q):
            nm = f['name']
            fp = this + (nm,)
            c = ini.get(nm)
            t = qtype(f)
            if c is not None:
                e = self.kids(c)[0]
                if e['kind'] == 'CXXDefaultInitExpr':
                    e = [x for x in f.get('inner', []) if x and x.get('kind')][-1]
                if strip2ref(f['type']['qualType']):
                    st.mem[fp] = self.ev(e, st)
                    continue
                self.init_expr(e, t, fp, st)
            else:
                # not initialised: scalars are left undefined, classes default-constructed
                if arr_type(t) is not None:
                    self.lib.c_array(self, fp, t, None, st, f)
                elif vec_elem(t) is not None:
                    self.lib.vec_ctor(self, fp, ekind(vec_elem(t)), [], st, f)
                elif is_string(t):
                    st.mem[fp] = tm.string('')

    def init_expr(self, e, t, path, st):
        """initialise the object of type t at path from expression e"""
        k = e
        while k['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or \
                (k['kind'] == 'ImplicitCastExpr' and k.get('castKind') in ('NoOp', 'ConstructorConversion')) or \
                (k['kind'] in ('CXXFunctionalCastExpr',) and k.get('castKind') in ('NoOp', 'ConstructorConversion')) or \
                (k['kind'] == 'InitListExpr' and len(self.kids(k)) == 1 and self.kids(k)[0]['kind'] in ('CXXConstructExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr')):
            k = self.kids(k)[0]
        if k['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            a = self.kids(k)
            if k.get('elidable') and len(a) == 1:
                return self.init_expr(a[0], t, path, st)
            v = self.construct(k, st, path)
            if isinstance(v, (T, Cx, Ptr, Lam)):
                st.mem[path] = v
            elif isinstance(v, P) and v.path != path:
                self.copy_obj(v.path, path, st, e)
            return
        if k['kind'] == 'InitListExpr' and (arr_type(t) is not None or vec_elem(t) is None and self.class_name(strip(t))) and \
                not (len(self.kids(k)) == 1 and strip(qtype(self.kids(k)[0])) == strip(t)):
            self.init_list(k, t, path, st)
            return
        v = self.ev(k, st)
        if vec_elem(t) is not None or (isinstance(v, P) and not isinstance(st.mem.get(v.path), (T, Cx, Ptr, Trace))):
            if isinstance(v, P):
                self.copy_obj(v.path, path, st, e)
                return
            if isinstance(v, Row):
                self.row_to_vec(v, path, st, e)
                return
            raise Unsupported('initialisation of %s from %r' % (t, v))
        v = self.as_value(v, st, e)
        st.mem[path] = self.tostore(v, t, st) if isinstance(v, T) else v

    def init_list(self, n, t, path, st):
        """aggregate initialisation: elements in order, the rest zero (arrays) or default (classes)"""
        ks = self.kids(n)
        a = arr_type(t)
        if a is not None:
            if len(ks) == 1 and ks[0]['kind'] == 'InitListExpr' and arr_type(a[0]) is None and \
                    not (is_float(qtype(ks[0])) or is_int(qtype(ks[0])) or is_cplx(qtype(ks[0]))):
                ks = self.kids(ks[0])
            in_ = arr_type(a[0])
            k = ekind(in_[0]) if in_ else ekind(a[0])
            kind = ('N', k) if in_ else k
            if in_ and arr_type(in_[0]):
                raise Unsupported('array nesting deeper than two at ' + where(n))
            self.vec_new(path, kind, I(a[1]), zero_of(k), st, inner=I(in_[1]) if in_ else None)
            vals = []
            for i, x in enumerate(ks):
                if not in_:
                    vals.append(((I(i),), x))
                elif x['kind'] == 'InitListExpr':
                    ys = self.kids(x)
                    if len(ys) == 1 and ys[0]['kind'] == 'InitListExpr':
                        ys = self.kids(ys[0])
                    vals += [((I(i), I(j)), y) for j, y in enumerate(ys)]
                else:
                    raise Unsupported('initialiser of an array row at ' + where(n))
            for idx, x in vals:
                v = self.rv(x, st)
                if k == 'C':
                    v = v if isinstance(v, Cx) else Cx(tm.toreal(v), R(0))
                    for c, w in (('#re', v.re), ('#im', v.im)):
                        st.mem[path + (c,)] = tm.store(st.mem[path + (c,)], idx, w)
                else:
                    if k == 'R':
                        v = tm.toreal(v)
                    elif isinstance(v, T) and v.s == 'B':
                        v = ite(v, I(1), I(0))
                    st.mem[path + ('#d',)] = tm.store(st.mem[path + ('#d',)], idx, v)
            return
        q = self.class_name(strip(t))
        if q is None:
            raise Unsupported('initialiser list of type %s at %s' % (t, where(n)))
        self.default_fields(q, path, st)
        for f, x in zip(self.fields(q), ks):
            if x['kind'] == 'CXXDefaultInitExpr':
                continue
            if x['kind'] == 'ImplicitValueInitExpr' and arr_type(qtype(f)) is None:
                st.mem[path + (f['name'],)] = self.default_value(qtype(f), st)
                continue
            self.init_expr(x, qtype(f), path + (f['name'],), st)
        st.mem[path + ('#class',)] = q

    def init_var(self, d, path, st):
        ini = [c for c in d.get('inner', []) if c and c.get('kind') and not c['kind'].endswith('Attr')]
        t = qtype(d)
        if ini and not (arr_type(t) is not None and ini[-1]['kind'] == 'CXXConstructExpr' and not self.kids(ini[-1])):
            self.init_expr(ini[-1], t, path, st)
        elif arr_type(t) is not None:
            self.lib.c_array(self, path, t, None, st, d)
        elif vec_elem(t) is not None:
            self.lib.vec_ctor(self, path, ekind(vec_elem(t)), [], st, d)
        elif is_string(t):
            st.mem[path] = tm.string('')
        elif t.rstrip().endswith(']') or '[' in t:
            self.lib.c_array(self, path, t, None, st, d)

    # ---------------------------------------------------------------- statements
    def block(self, n, st):
        """CompoundStmt: returns the list of flows"""
        return self.stmts(self.kids(n), st)

    def stmts(self, ss, st, run=None):
        env = {}
        self.envs[-1].append(env)
        out = []
        locs = []
        self.scopes = getattr(self, 'scopes', [])
        self.scopes.append(locs)
        cur = st
        try:
            for s in ss:
                if cur is None:
                    break
                fl = (run or self.stmt)(s, cur)
                normal = [f for f in fl if f.kind == 'n']
                out.extend(f for f in fl if f.kind != 'n')
                if not normal:
                    cur = None
                elif len(normal) == 1:
                    cur = normal[0].st
                else:
                    cur = merge([f.st for f in normal], self)
                if cur is not None and FALSE in cur.br:
                    out.append(Flow('dead', cur))
                    cur = None
            if cur is not None:
                out.append(Flow('n', cur))
            out = [f for f in out if f.kind != 'dead']
            if locs:
                for f in out:
                    if f.kind != 'exit':
                        self.destroy(locs, f)
            return out
        finally:
            self.scopes.pop()
            self.envs[-1].pop()

    def destroy(self, locs, f):
        keep = f.val.path if isinstance(f.val, P) else None
        for q, path in reversed(locs):
            if keep is not None and keep == path:
                continue
            if q == '#ofstream':
                self.lib.stream_close(self, path, f.st)
            elif path + ('#class',) in f.st.mem:
                self.destroy_obj(q, path, f.st)

    def destroy_obj(self, q, path, st):
        for m in self.prog.byname.get(q + '::~' + front.short(q), []):
            fd = self.prog.funcs[m]
            c = self.contracts.get(fd['_qual'])
            if c is not None:
                c(self, fd, path, [], st, fd)
            else:
                self.inline(fd, path, [], st, fd)
        for f in reversed(self.fields(q)):
            c2 = self.class_name(strip(qtype(f))) if vec_elem(qtype(f)) is None else None
            if c2 is not None and path + (f['name'], '#class') in st.mem:
                self.destroy_obj(c2, path + (f['name'],), st)
        st.mem.pop(path + ('#class',), None)

    def stmt(self, n, st):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k == 'ExprWithCleanups':
            self.ev(n, st)
            return [Flow('n', st)]
        raise Unsupported('statement %s at %s' % (k, where(n)))

    def s_CompoundStmt(self, n, st):
        return self.block(n, st)

    def s_NullStmt(self, n, st):
        return [Flow('n', st)]

    def s_AttributedStmt(self, n, st):
        return self.stmt(self.kids(n)[-1], st)

    def s_DeclStmt(self, n, st):
        for d in self.kids(n):
            if d['kind'] == 'VarDecl':
                self.decl_var(d, st)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EmptyDecl', 'EnumDecl'):
                pass
            else:
                raise Unsupported('declaration %s' % d['kind'])
        return [Flow('n', st)]

    def decl_var(self, d, st):
        key = (d['_tu'], d['id'])
        t = d['type'].get('qualType', '')
        dt = qtype(d)
        env = self.envs[-1][-1]
        if d.get('tls') and d.get('_mut') in self.prog.changeable():
            env[key] = self.thread_var(d, st)
            return
        if d.get('storageClass') == 'static':
            ini = [c for c in d.get('inner', []) if c and c.get('kind')]
            if d.get('_mut') in self.prog.changeable():
                env[key] = self.mutable_var(d, st)
                return
        if strip2ref(t) or strip2ref(dt):
            ini = [c for c in d.get('inner', []) if c and c.get('kind')]
            v = self.ev(ini[-1], st)
            if isinstance(v, (T, Cx, Ptr)):
                p = ('l', self.stack[-1][1], d['id'], d.get('name'))
                st.mem[p] = v
                v = P(p)
            env[key] = v
            return
        path = ('l', self.stack[-1][1], d['id'], d.get('name'))
        for k in [k for k in st.mem if k[:4] == path]:
            del st.mem[k]
        ini = [c for c in d.get('inner', []) if c and c.get('kind') and not c['kind'].endswith('Attr')]
        if ini and skip_casts(ini[-1])['kind'] == 'LambdaExpr':
            env[key] = self.ev(skip_casts(ini[-1]), st)
            return
        if is_uns(dt):
            self.uns.add(path)
        self.init_var(d, path, st)
        v = st.mem.get(path)
        if isinstance(v, Lam):
            env[key] = v
            return
        q = st.mem.get(path + ('#class',))
        if q:
            self.scopes[-1].append((q, path))
        elif st.mem.get(path + ('#stream',)) == 'ofstream':
            self.scopes[-1].append(('#ofstream', path))
        env[key] = P(path)

    def s_ReturnStmt(self, n, st):
        ks = self.kids(n)
        v = None
        if ks:
            v = self.ev(ks[0], st)
            if isinstance(v, Row):
                p = self.newtmp()
                self.row_to_vec(v, p, st, n)
                v = P(p)
            elif isinstance(v, (E, CxPart)) :
                # returned by value (loads) unless the function returns a reference
                v = v if n_is_lvalue(ks[0]) else self.load(v, st, n)
        return [Flow('ret', st, v)]

    def s_IfStmt(self, n, st):
        ks = [c for c in n.get('inner', []) if c]
        env = {}
        self.envs[-1].append(env)
        try:
            i = 0
            if n.get('hasInit'):
                self.stmt(ks[0], st)
                i = 1
            if n.get('hasVar'):
                self.stmt(ks[i], st)
                i += 1
            c = self.boolean(self.rv(ks[i], st), st)
            then = ks[i + 1]
            els = ks[i + 2] if n.get('hasElse') else None
            if not self.dry or True:
                c = quick(c, st)
            if c is TRUE:
                return self.stmt(then, st)
            if c is FALSE:
                return self.stmt(els, st) if els is not None else [Flow('n', st)]
            s1, s2 = st.fork(), st.fork()
            s1.branch(c)
            s2.branch(nott(c))
            f1 = self.stmt(then, s1)
            f2 = self.stmt(els, s2) if els is not None else [Flow('n', s2)]
        finally:
            self.envs[-1].pop()
        return self.join(f1 + f2)

    def join(self, flows):
        normal = [f for f in flows if f.kind == 'n']
        rest = [f for f in flows if f.kind != 'n']
        if len(normal) > 1:
            return [Flow('n', merge([f.st for f in normal], self))] + rest
        return normal + rest

    def s_SwitchStmt(self, n, st):
        ks = self.kids(n)
        v = self.rv(ks[-2], st)
        bodyn = ks[-1]
        groups = []      # (labels, stmts)
        cur = None

        def label(c):
            labels = []
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                kk = self.kids(c)
                if c['kind'] == 'CaseStmt':
                    labels.append(self.rv(kk[0], st))
                    c = kk[-1]
                else:
                    labels.append(None)
                    c = kk[-1]
            return labels, c
        for c in self.kids(bodyn):
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                ls, s = label(c)
                groups.append([ls, [s]])
            else:
                groups[-1][1].append(c)
        alls = [l for g in groups for l in g[0] if l is not None]
        flows = []
        hasdef = any(None in g[0] for g in groups)
        for gi, g in enumerate(groups):
            conds = []
            for l in g[0]:
                conds.append(andd(*[nott(tm.eq_leaves(v, x)) for x in alls]) if l is None else eq(v, l))
            c = quick(orr(*conds), st)
            if c is FALSE:
                continue
            s = st.fork()
            s.branch(c)
            ss = [x for h in groups[gi:] for x in h[1]]
            for f in self.stmts(ss, s):
                flows.append(Flow('n', f.st) if f.kind == 'brk' else f)
            if c is TRUE:
                return self.join(flows)
        if not hasdef:
            c = quick(andd(*[nott(tm.eq_leaves(v, x)) for x in alls]), st)
            if c is not FALSE and not pv.prove(nott(c), st.ctx()):
                s = st.fork()
                s.branch(c)
                flows.append(Flow('n', s))
        return self.join(flows)

    def s_BreakStmt(self, n, st):
        return [Flow('brk', st)]

    def s_ContinueStmt(self, n, st):
        return [Flow('cont', st)]

    def s_ForStmt(self, n, st):
        init, var, cond, inc, bd = (n['inner'] + [None] * 5)[:5]
        env = {}
        self.envs[-1].append(env)
        try:
            if init and init.get('kind'):
                self.stmt(init, st)
            r = self.loops.flat_loop(self, n, st, None)
            if r is not None:
                return r
            return self.loops.loop(self, n, st,
                                   (lambda s: self.boolean(self.rv(cond, s), s)) if cond and cond.get('kind') else (lambda s: TRUE),
                                   lambda s: self.stmt(bd, s),
                                   (lambda s: self.ev(inc, s)) if inc and inc.get('kind') else (lambda s: None))
        finally:
            self.envs[-1].pop()

    def s_WhileStmt(self, n, st):
        ks = self.kids(n)
        cond, bd = ks[-2], ks[-1]
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        return self.loops.loop(self, n, st, lambda s: self.boolean(self.rv(cond, s), s), lambda s: self.stmt(bd, s),
                               lambda s: None)

    def s_DoStmt(self, n, st):
        bd, cond = self.kids(n)
        fl = self.stmt(bd, st)
        out = []
        normal = []
        for f in fl:
            if f.kind in ('n', 'cont'):
                normal.append(Flow('n', f.st))
            elif f.kind == 'brk':
                out.append(Flow('n', f.st))
            else:
                out.append(f)
        if normal:
            s = merge([f.st for f in normal], self) if len(normal) > 1 else normal[0].st
            out += self.loops.loop(self, n, s, lambda q: self.boolean(self.rv(cond, q), q), lambda q: self.stmt(bd, q),
                                   lambda q: None)
        return self.join(out)

    def s_CXXForRangeStmt(self, n, st):
        inner = [c for c in n['inner']]
        rng = None
        for c in inner:
            if c and c.get('kind') == 'DeclStmt':
                rng = self.kids(c)[0]
                break
        bd = inner[-1]
        lv = self.kids(inner[-2])[0]
        e = [c for c in rng.get('inner', []) if c and c.get('kind')][-1]
        o = self.ev(e, st)
        ctr = ('l', self.stack[-1][1], n['id'], '__i')
        st.mem[ctr] = I(0)
        isref = strip2ref(lv['type']['qualType'])
        if isinstance(o, list):
            del st.mem[ctr]
            out, cur = [], st
            for x in o:
                env = {}
                self.envs[-1].append(env)
                try:
                    p = ('l', self.stack[-1][1], lv['id'], lv.get('name'))
                    for k in [k for k in cur.mem if k[:4] == p]:
                        del cur.mem[k]
                    if isinstance(x, P) and not isref and x.path + ('#n',) not in cur.mem and cur.mem.get(x.path + ('#class',)) is None:
                        x = self.load(x, cur, n)
                    if isinstance(x, (T, Cx, Ptr)):
                        if isinstance(x, T) and x.s == 'I' and strip(qtype(lv)) == 'double':
                            x = tm.toreal(x)
                        cur.mem[p] = x
                        if is_uns(qtype(lv)):
                            self.uns.add(p)
                        env[(lv['_tu'], lv['id'])] = P(p)
                    elif isinstance(x, P) and isref:
                        env[(lv['_tu'], lv['id'])] = x
                    elif isinstance(x, P):
                        self.copy_obj(x.path, p, cur, n)
                        env[(lv['_tu'], lv['id'])] = P(p)
                    else:
                        raise Unsupported('range-for over an initializer list at ' + where(n))
                    fl = self.stmt(bd, cur)
                finally:
                    self.envs[-1].pop()
                go = [f for f in fl if f.kind in ('n', 'cont')]
                out += [Flow('n', f.st) if f.kind == 'brk' else f for f in fl if f.kind not in ('n', 'cont')]
                if not go:
                    return self.join(out)
                cur = merge([f.st for f in go], self) if len(go) > 1 else go[0].st
            return self.join(out + [Flow('n', cur)])

        def size(s):
            if isinstance(o, Row):
                return s.mem[o.path + ('#in',)]
            return self.size_of(o.path, s)

        def elem(i, s):
            if isinstance(o, Row):
                return E(o.path, o.idx + (i,))
            if o.path + ('#in',) in s.mem:
                return Row(o.path, (i,))
            return E(o.path, (i,))

        def bodyf(s):
            env = {}
            self.envs[-1].append(env)
            try:
                i = s.mem[ctr]
                v = elem(i, s)
                if isref:
                    env[(lv['_tu'], lv['id'])] = v
                else:
                    p = ('l', self.stack[-1][1], lv['id'], lv.get('name'))
                    if isinstance(v, Row):
                        self.row_to_vec(v, p, s, n)
                    else:
                        s.mem[p] = self.load(v, s, n)
                    env[(lv['_tu'], lv['id'])] = P(p)
                return self.stmt(bd, s)
            finally:
                self.envs[-1].pop()

        def incf(s):
            s.mem[ctr] = add(s.mem[ctr], I(1))
        return self.loops.loop(self, n, st, lambda s: lt(s.mem[ctr], size(s)), bodyf, incf)

    # ---- OpenMP
    def omp_text(self, n):
        r = n.get('range', {}).get('begin', {})
        f, l = r.get('file'), r.get('line')
        try:
            lines = open(f).read().split('\n')
            s = lines[l - 1]
            while s.rstrip().endswith('\\'):
                l += 1
                s = s.rstrip()[:-1] + ' ' + lines[l - 1]
            return s
        except Exception:
            return ''

    def omp_clauses(self, n):
        import re
        s = self.omp_text(n)
        out = {'reduction': {}, 'private': set(), 'first': set(), 'collapse': 1, 'nowait': 'nowait' in s, 'text': s.strip()}
        for op, vs in re.findall(r'reduction\s*\(\s*([^:()]+?)\s*:\s*([^)]*)\)', s):
            for v in vs.split(','):
                out['reduction'][v.strip()] = op
        for kind, vs in re.findall(r'\b(private|firstprivate|lastprivate)\s*\(([^)]*)\)', s):
            for v in vs.split(','):
                out['private'].add(v.strip())
                if kind == 'firstprivate':
                    out['first'].add(v.strip())
        m = re.search(r'collapse\s*\(\s*(\d+)', s)
        if m:
            out['collapse'] = int(m.group(1))
        return out

    def omp_body(self, n):
        c = [k for k in self.kids(n) if k['kind'] == 'CapturedStmt']
        if not c:
            return [k for k in self.kids(n) if k['kind'].endswith('Stmt') or k['kind'].endswith('Directive') or k['kind'].endswith('Expr') or k['kind'].endswith('Operator')][0]
        c = c[0]
        d = [k for k in self.kids(c) if k['kind'] == 'CapturedDecl'][0]
        return [k for k in self.kids(d) if k['kind'].endswith('Stmt') or k['kind'].endswith('Directive')][0]

    def s_OMPParallelForDirective(self, n, st):
        cl = self.omp_clauses(n)
        b = self.omp_body(n)
        return self.loops.omp_for(self, n, b, cl, st)

    s_OMPForDirective = s_OMPParallelForSimdDirective = s_OMPForSimdDirective = s_OMPParallelForDirective

    def s_OMPSimdDirective(self, n, st):
        cl = self.omp_clauses(n)
        return self.loops.omp_for(self, n, self.omp_body(n), cl, st)

    def s_OMPParallelSectionsDirective(self, n, st):
        b = self.omp_body(n)
        return self.loops.omp_sections(self, n, b, st)

    s_OMPSectionsDirective = s_OMPParallelSectionsDirective

    def s_OMPSectionDirective(self, n, st):
        return self.stmt(self.omp_body(n), st)

    def s_OMPParallelDirective(self, n, st):
        b = self.omp_body(n)
        return self.loops.omp_parallel(self, n, b, st)

    def s_OMPCriticalDirective(self, n, st):
        if n['id'] not in self.guarded:
            raise Unsupported('guarded statement at ' + where(n))
        return self.stmt(self.omp_body(n), st)

    s_OMPAtomicDirective = s_OMPCriticalDirective

    # ---------------------------------------------------------------- driving
    def new_object(self, qual, path, args, st, nparams=None):
        """run the real constructor of class qual with symbolic argument values"""
        fds = [f for f in self.prog.find(qual + '::' + front.short(qual)) if len(params(f)) == (nparams if nparams is not None else len(args))]
        if len(fds) != 1:
            raise front.FrontError('constructor of %s with %d parameters: %d definitions' % (qual, len(args), len(fds)))
        self.inline(fds[0], path, args, st, fds[0])
        st.mem[path + ('#class',)] = qual
        return P(path)

    def run(self, fd, this, args, st):
        """execute one function with given argument values (contracts apply to its callees only)"""
        return self.inline(fd, this, args, st, fd)


def short2(q):
    """class name without its namespaces, with its template arguments"""
    h, lt_, t = q.partition('<')
    return h.split('::')[-1] + lt_ + t


def strip2ref(t):
    return t.rstrip().endswith('&')


def n_is_lvalue(n):
    return n.get('valueCategory') == 'lvalue'


def is_vec_ptr(n):
    t = strip(qtype(n))
    return t.endswith('*') and vec_elem(t[:-1].strip()) is not None or not t.endswith('*')


def skip_casts(n):
    while n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr') or \
            (n['kind'] == 'CXXConstructExpr' and n.get('elidable')):
        ks = [c for c in n.get('inner', []) if c and c.get('kind')]
        if not ks:
            return n
        n = ks[0]
    return n


def same_ptr(x, y):
    if isinstance(x.path, Row) or isinstance(y.path, Row):
        return isinstance(x.path, Row) and isinstance(y.path, Row) and x.path.path == y.path.path and x.path.idx == y.path.idx
    return x.path == y.path


def pname(path):
    out = []
    for x in path:
        if isinstance(x, str) and x not in ('l', 't', 'h', 'g', 'obj', 'a'):
            out.append(x)
    return '.'.join(out[-2:])


def quick(c, st):
    if c is TRUE or c is FALSE:
        return c
    if pv.prove(c, st.ctx(), z3ok=False):
        return TRUE
    if pv.prove(nott(c), st.ctx(), z3ok=False):
        return FALSE
    return c


def cx_op(op, x, y):
    if isinstance(x, T):
        x = Cx(x, R(0))
    if isinstance(y, T):
        y = Cx(y, R(0))
    if op == '+':
        return Cx(x.re + y.re, x.im + y.im)
    if op == '-':
        return Cx(x.re - y.re, x.im - y.im)
    if op == '*':
        return Cx(x.re * y.re - x.im * y.im, x.re * y.im + x.im * y.re)
    if op == '/':
        d = y.re * y.re + y.im * y.im
        return Cx((x.re * y.re + x.im * y.im) / d, (x.im * y.re - x.re * y.im) / d)
    if op == '==':
        return andd(eq(x.re, y.re), eq(x.im, y.im))
    if op == '!=':
        return nott(andd(eq(x.re, y.re), eq(x.im, y.im)))
    raise Unsupported('complex operator ' + op)


def changed(m1, m2):
    for k, v in m1.items():
        w = m2.get(k)
        if w is not v and not (w == v if not isinstance(v, T) else False):
            return True
    return False


def merge_val(c, x, y):
    if x is y:
        return x
    if isinstance(x, T) and isinstance(y, T):
        if x.s == 'A':
            return tm.aite(c, x, y)
        if x.s == 'B' and y.s in 'IR':
            x = ite(x, tm.num(1, y.s), tm.num(0, y.s))
        if y.s == 'B' and x.s in 'IR':
            y = ite(y, tm.num(1, x.s), tm.num(0, x.s))
        return ite(c, x, y)
    if isinstance(x, Cx) or isinstance(y, Cx):
        if isinstance(x, T):
            x = Cx(x, R(0))
        if isinstance(y, T):
            y = Cx(y, R(0))
        if isinstance(x, Cx) and isinstance(y, Cx):
            return Cx(ite(c, x.re, y.re), ite(c, x.im, y.im))
    if isinstance(x, Trace) and isinstance(y, Trace):
        if x == y:
            return x
        if x.base != y.base:
            raise Unsupported('merging unrelated output traces')
        k = 0
        while k < len(x.items) and k < len(y.items) and x.items[k] == y.items[k]:
            k += 1
        return Trace(x.base, x.items[:k] + (('ite', c, Trace(None, x.items[k:]), Trace(None, y.items[k:])),))
    if isinstance(x, Ptr) and isinstance(y, Ptr) and same_ptr(x, y):
        return Ptr(x.path, ite(c, x.off, y.off))
    if x == y:
        return x
    return Undef()


class Undef:
    """a value that differs between joined paths and has no term (reading it is unsupported)"""
    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 11


def merge(states, ex, vals=None):
    """join states that split from a common ancestor"""
    n = min(len(s.br) for s in states)
    k = 0
    while k < n and all(s.br[k] is states[0].br[k] for s in states):
        k += 1
    conds = [andd(*s.br[k:]) for s in states]
    acc = states[-1].mem
    accv = vals[-1] if vals else None
    for s, c, i in reversed(list(zip(states[:-1], conds[:-1], range(len(states) - 1)))):
        out = {}
        for key, v in s.mem.items():
            if key in acc:
                w = acc[key]
                out[key] = v if v is w else merge_val(c, v, w)
            elif key[0] == 'h':
                out[key] = merge_val(c, v, FALSE) if key[-1] == '#alive' else v
        for key, w in acc.items():
            if key not in s.mem and key[0] == 'h':
                out[key] = merge_val(c, FALSE, w) if key[-1] == '#alive' else w
        acc = out
        if vals is not None:
            accv = merge_val(c, vals[i], accv)
    common = states[0].facts
    if not all(s.facts is common for s in states):
        sets = [set(s.facts) for s in states[1:]]
        keep = tuple(f for f in states[0].facts if all(f in q for q in sets))
    else:
        keep = common
    res = St(acc, states[0].br[:k], keep)
    d = orr(*conds)
    if not complementary(conds):
        res.branch(d)
    if vals is not None:
        return res, accv
    return res


def complementary(conds):
    if len(conds) == 2 and (conds[0] is nott(conds[1])):
        return True
    return orr(*conds) is TRUE
