"""Contracts of the library functions the code calls (C++ standard library, FFTW, SHTns).

These are the assumed contracts (the trusted base, besides the front end and the prover); every one used by a run is
recorded in Exec.libs and reported in the evidence."""
import functools
import re
from fractions import Fraction
from . import term as tm
from . import prove as pv
from .term import T, I, R, add, sub, mul, div, eq, lt, le, nott, andd, orr, ite, is_c, cval, TRUE, FALSE
from .front import qtype, where
from .exec import (Unsupported, P, E, Row, Ptr, Null, Cx, CxPart, Fn, Lam, Bytes, Manip, Trace, Undef, strip, is_int, is_float,
                   is_string, is_cplx, is_uns, vec_elem, arr_type, ekind, comps, zero_of, STREAMS, cx_op, is_ptr)

SINK = (('std', 'cout'), ('std', 'cerr'), ('std', 'clog'))


# ------------------------------------------------------------------------------------------------ strings
def scat(*xs):
    parts = []
    for x in xs:
        for y in (x.a[1:] if (x.op == 'app' and x.a[0] == 'cat') else (x,)):
            if is_c(y) and parts and is_c(parts[-1]):
                parts[-1] = tm.string(cval(parts[-1]) + cval(y))
            elif is_c(y) and cval(y) == '':
                continue
            else:
                parts.append(y)
    if not parts:
        return tm.string('')
    if len(parts) == 1:
        return parts[0]
    return tm.app('cat', *parts, s='S')


def itos(v):
    if is_c(v):
        return tm.string(str(int(cval(v))))
    return tm.app('itos', v, s='S')


def tostr(v, st):
    if isinstance(v, T):
        if v.s == 'S':
            return v
        if v.s == 'I':
            if is_c(v):
                return tm.string(chr(int(cval(v))))
    if isinstance(v, Ptr) and v.off is I(0):
        A = st.mem.get(v.path + ('#d',))
        if A is not None and A.op == 'farr' and A.a[0] == 'chars':
            return A.a[1][0]
    raise Unsupported('string from %r' % (v,))


def string_ctor(ex, vals, st, n):
    if not vals:
        return tm.string('')
    if len(vals) == 1:
        return tostr(vals[0], st)
    raise Unsupported('string constructor at ' + where(n))


# ------------------------------------------------------------------------------------------------ vectors
def moved_from(a, src, dst, st):
    """a vector whose contents were moved to another one is left empty"""
    if isinstance(a, dict) and a.get('valueCategory') == 'xvalue' and src[0] != 't' and src != dst and src + ('#n',) in st.mem:
        st.mem[src + ('#n',)] = I(0)


def vec_ctor(ex, path, kind, args, st, n):
    for k in [k for k in st.mem if k[:len(path)] == path]:
        del st.mem[k]
    args = [a for a in args if not (isinstance(a, dict) and a['kind'] == 'CXXDefaultArgExpr')]
    if not args:
        ex.vec_new(path, kind, I(0), zero_of(kind), st, inner=I(0) if isinstance(kind, tuple) else None)
        return
    v0 = ex.ev(args[0], st)
    if isinstance(v0, list):
        es = kind
        cs = comps(kind)
        if isinstance(kind, tuple):
            raise Unsupported('nested initialiser list')
        ex.vec_new(path, kind, I(len(v0)), zero_of(kind), st)
        for i, x in enumerate(v0):
            if kind == 'R':
                x = tm.toreal(x)
            if kind == 'C':
                if isinstance(x, T):
                    x = Cx(x, R(0))
                st.mem[path + ('#re',)] = tm.store(st.mem[path + ('#re',)], (I(i),), x.re)
                st.mem[path + ('#im',)] = tm.store(st.mem[path + ('#im',)], (I(i),), x.im)
            else:
                st.mem[path + ('#d',)] = tm.store(st.mem[path + ('#d',)], (I(i),), x)
        return
    if isinstance(v0, Row):
        ex.row_to_vec(v0, path, st, n)
        return
    if isinstance(v0, P) and v0.path + ('#n',) in st.mem:
        ex.copy_obj(v0.path, path, st, n)
        moved_from(args[0], v0.path, path, st)
        return
    v0 = ex.as_value(v0, st, n)
    if isinstance(v0, Ptr):
        v1 = ex.rv(args[1], st)
        cnt = sub(v1.off, v0.off)
        ex.vec_new(path, kind, cnt, zero_of(kind), st)
        copy_range(ex, v0, cnt, Ptr(path), st, n)
        return
    if isinstance(v0, T):
        cnt = ex.observe(v0, qtype(args[0]), st)
        init = zero_of(kind)
        inner = None
        if len(args) > 1:
            init, inner = init_value(ex, args[1], kind, st, n)
        ex.vec_new(path, kind, cnt, init, st, inner=inner)
        return
    raise Unsupported('vector constructor at ' + where(n))


def init_value(ex, a, kind, st, n):
    """fill value of a vector; for nested vectors the (constant) contents and size of the prototype row"""
    v = ex.ev(a, st)
    if isinstance(kind, tuple):
        if isinstance(v, P) and v.path + ('#n',) in st.mem:
            d = st.mem.get(v.path + ('#d',))
            if d is not None and d.op == 'acst':
                return d.a[0], st.mem[v.path + ('#n',)]
            if d is None and st.mem[v.path + ('#re',)].op == 'acst':
                return Cx(st.mem[v.path + ('#re',)].a[0], st.mem[v.path + ('#im',)].a[0]), st.mem[v.path + ('#n',)]
        raise Unsupported('fill value of a nested vector at ' + where(n))
    v = ex.as_value(v, st, n)
    if isinstance(v, T) and v.s == 'I' and kind in ('R', 'C'):
        v = tm.toreal(ex.observe(v, qtype(a), st))
    return v, None


def arr_comps(path, st):
    return ('#re', '#im') if path + ('#re',) in st.mem else ('#d',)


def copy_range(ex, src, cnt, dst, st, n):
    i = tm.fresh('i')
    if is_c(cnt) and cval(cnt) == 0:
        return
    if isinstance(src.path, Row) or isinstance(dst.path, Row):
        raise Unsupported('range copy of nested rows')
    if not ex.dry:
        for p, rw in ((src, 'r'), (dst, 'w')):
            ex.oblig('bounds', orr(le(cnt, I(0)), andd(le(I(0), p.off), le(add(p.off, cnt), ex.size_of(p.path, st)))), st, n, 'range')
    ex.access('r', src.path, None, st, n)
    ex.access('w', dst.path, None, st, n)
    vals = []
    cx = st.fork()
    cx.assume(le(I(0), i), lt(i, cnt))
    for c in arr_comps(src.path, st):
        vals.append(ex.rd(st.mem[src.path + (c,)], (add(src.off, i),), cx))
    cs = arr_comps(dst.path, st)
    if len(cs) == 2 and len(vals) == 1:
        vals = [tm.toreal(vals[0]), R(0)]
    if len(cs) != len(vals):
        raise Unsupported('range copy between element types at ' + where(n))
    for c, v in zip(cs, vals):
        if tm.esort(st.mem[dst.path + (c,)]) == 'R':
            v = tm.toreal(v)
        st.mem[dst.path + (c,)] = tm.fam(st.mem[dst.path + (c,)], (i,), ((I(0), cnt),), (add(dst.off, i),), v)


def fill_range(ex, dst, cnt, v, st, n):
    i = tm.fresh('i')
    if not ex.dry:
        ex.oblig('bounds', orr(le(cnt, I(0)), andd(le(I(0), dst.off), le(add(dst.off, cnt), ex.size_of(dst.path, st)))), st, n, 'range')
    ex.access('w', dst.path, None, st, n)
    vals = (v.re, v.im) if isinstance(v, Cx) else (v,)
    cs = arr_comps(dst.path, st)
    if len(cs) == 2 and len(vals) == 1:
        vals = (tm.toreal(v), R(0))
    for c, x in zip(cs, vals):
        if tm.esort(st.mem[dst.path + (c,)]) == 'R':
            x = tm.toreal(x)
        st.mem[dst.path + (c,)] = tm.fam(st.mem[dst.path + (c,)], (i,), ((I(0), cnt),), (add(dst.off, i),), x)


def vec_method(ex, o, t, name, args, st, n):
    path = o.path
    if isinstance(o, Row):
        if name == 'size':
            return st.mem[path + ('#in',)]
        if name in ('at',):
            i = ex.observe(ex.rv(args[0], st), qtype(args[0]), st)
            return E(path, o.idx + (i,))
        if name in ('data', 'begin', 'cbegin'):
            return Ptr(o)
        if name in ('end', 'cend'):
            return Ptr(o, st.mem[path + ('#in',)])
        if name == 'front':
            return E(path, o.idx + (I(0),))
        if name == 'back':
            return E(path, o.idx + (sub(st.mem[path + ('#in',)], I(1)),))
        raise Unsupported('method %s of an inner vector' % name)
    nested = path + ('#in',) in st.mem
    sz = ex.size_of(path, st)
    if name in ('size',):
        return sz
    if name == 'empty':
        return eq(sz, I(0))
    if name in ('data', 'begin', 'cbegin'):
        return Ptr(path)
    if name in ('end', 'cend'):
        return Ptr(path, sz)
    if name in ('front', 'back', 'at'):
        i = I(0) if name == 'front' else (sub(sz, I(1)) if name == 'back' else ex.observe(ex.rv(args[0], st), qtype(args[0]), st))
        return Row(path, (i,)) if nested else E(path, (i,))
    if name in ('reserve', 'shrink_to_fit'):
        if args:
            ex.rv(args[0], st)
        return None
    if name == 'capacity':
        raise Unsupported('capacity')
    if name == 'clear':
        st.mem[path + ('#n',)] = I(0)
        return None
    if name in ('push_back', 'emplace_back'):
        v = ex.ev(args[0], st)
        st.mem[path + ('#n',)] = add(sz, I(1))
        if isinstance(v, P) and v.path + ('#n',) in st.mem:
            if not nested:
                raise Unsupported('push_back')
            if is_c(sz) and cval(sz) == 0:
                st.mem[path + ('#in',)] = st.mem[v.path + ('#n',)]
            ex.row_assign(Row(path, (sz,)), v, st, n)
            return None
        v = ex.as_value(v, st, n)
        if isinstance(v, T) and v.s == 'I' and tm.esort(st.mem[path + (arr_comps(path, st)[0],)]) == 'R':
            v = tm.toreal(ex.observe(v, qtype(args[0]), st))
        ex.elem_write(path, (sz,), v, st, n)
        return None
    if name == 'pop_back':
        ex.oblig('bounds', lt(I(0), sz), st, n, 'pop_back')
        st.mem[path + ('#n',)] = sub(sz, I(1))
        return None
    if name in ('resize', 'assign'):
        a0 = ex.ev(args[0], st)
        a0 = ex.as_value(a0, st, n)
        kind = kind_of(path, st)
        if isinstance(a0, Ptr):
            a1 = ex.rv(args[1], st)
            cnt = sub(a1.off, a0.off)
            ex.vec_new(path, kind, cnt, zero_of(kind), st)
            copy_range(ex, a0, cnt, Ptr(path), st, n)
            return None
        cnt = ex.observe(a0, qtype(args[0]), st)
        init, inner = (zero_of(kind), None)
        if len(args) > 1:
            init, inner = init_value(ex, args[1], kind, st, n)
        ex.access('w', path, None, st, n)
        if name == 'assign' or (is_c(sz) and cval(sz) == 0):
            ex.vec_new(path, kind, cnt, init, st, inner=inner)
            return None
        if sz is cnt or pv.prove(eq(sz, cnt), st.ctx()):
            return None
        if nested:
            raise Unsupported('resize of a non-empty nested vector')
        st.mem[path + ('#n',)] = cnt
        i = tm.fresh('i')
        vals = (init.re, init.im) if isinstance(init, Cx) else (init,)
        for c, v in zip(arr_comps(path, st), vals):
            if tm.esort(st.mem[path + (c,)]) == 'R':
                v = tm.toreal(v)
            st.mem[path + (c,)] = tm.fam(st.mem[path + (c,)], (i,), ((sz, cnt),), (i,), v)
        return None
    if name == 'swap':
        o2 = ex.ev(args[0], st)
        swap_obj(ex, path, o2.path, st)
        return None
    raise Unsupported('vector method %s at %s' % (name, where(n)))


def swap_obj(ex, p, q, st):
    t = ex.newtmp()
    ex.copy_obj(p, t, st)
    ex.copy_obj(q, p, st)
    ex.copy_obj(t, q, st)


def kind_of(path, st):
    if path + ('#re',) in st.mem:
        k = 'C'
    else:
        k = tm.esort(st.mem[path + ('#d',)])
    return ('N', k) if path + ('#in',) in st.mem else k


# ------------------------------------------------------------------------------------------------ streams
def stream_ctor(ex, path, cls, args, st, n):
    args = [a for a in args if not (isinstance(a, dict) and a['kind'] == 'CXXDefaultArgExpr')]
    cls = cls.replace('std::', '')
    st.mem[path + ('#stream',)] = cls
    st.mem[path + ('#prec',)] = I(6)
    if cls in ('ofstream', 'ostringstream'):
        st.mem[path + ('#trace',)] = Trace(None, ())
        st.mem[path + ('#open',)] = FALSE
        if cls == 'ofstream' and args:
            open_out(ex, path, args, st, n)
        return
    if cls == 'ifstream':
        st.mem[path + ('#pos',)] = I(0)
        if args:
            nm = tostr(ex.rv(args[0], st), st)
            st.mem[path + ('#file',)] = nm
            st.mem[path + ('#good',)] = tm.app('readable', nm, s='B')
        return
    if cls in ('stringstream', 'istringstream'):
        s = tostr(ex.rv(args[0], st), st) if args else tm.string('')
        st.mem[path + ('#rest',)] = s
        st.mem[path + ('#k',)] = I(0)
        return
    raise Unsupported('stream ' + cls)


def open_out(ex, path, args, st, n):
    nm = tostr(ex.rv(args[0], st), st)
    mode = ex.rv(args[1], st) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else I(2)
    st.mem[path + ('#name',)] = nm
    st.mem[path + ('#mode',)] = mode
    st.mem[path + ('#open',)] = tm.app('canopen', nm, s='B')
    st.mem[path + ('#trace',)] = Trace(None, ())


def stream_close(ex, path, st):
    if st.mem.get(path + ('#stream',)) != 'ofstream' or path + ('#name',) not in st.mem:
        return
    ev = ('file', st.mem[path + ('#name',)], st.mem[path + ('#mode',)], st.mem[path + ('#open',)], st.mem[path + ('#trace',)])
    fs = st.mem.get(('fs',), Trace(None, ()))
    st.mem[('fs',)] = fs.plus(ev)
    del st.mem[path + ('#name',)]
    st.mem[path + ('#open',)] = FALSE


def emit(st, ev):
    fs = st.mem.get(('fs',), Trace(None, ()))
    st.mem[('fs',)] = fs.plus(ev)


def put(ex, path, v, st, n, typ):
    if isinstance(v, Manip):
        if v.kind == 'prec':
            st.mem[path + ('#prec',)] = v.val
        elif v.kind == 'endl':
            tr(st, path, ('str', tm.string('\n')))
        elif v.kind in ('setw', 'flush', 'fixedoff'):
            if v.kind == 'setw':
                tr(st, path, ('width', v.val))
        else:
            tr(st, path, ('manip', v.kind))
        return
    if isinstance(v, T):
        if v.s == 'S':
            for y in (v.a[1:] if (v.op == 'app' and v.a[0] == 'cat' and 'numstr' in [z.a[0] for z in v.a[1:] if z.op == 'app']) else (v,)):
                if y.op == 'app' and y.a[0] == 'numstr':
                    tr(st, path, ('num', y.a[1], y.a[2]))
                else:
                    tr(st, path, ('str', y))
            return
        if v.s == 'B':
            v = ite(v, I(1), I(0))
        if v.s == 'I':
            v = ex.observe(v, typ, st)
            if strip(typ) == 'char':
                tr(st, path, ('str', tostr(v, st)))
            else:
                tr(st, path, ('str', itos(v)))
            return
        tr(st, path, ('num', v, st.mem[path + ('#prec',)]))
        return
    raise Unsupported('output of %r' % (v,))


def tr(st, path, ev):
    t = st.mem[path + ('#trace',)]
    st.mem[path + ('#trace',)] = t.plus(ev)


def stream_method(ex, o, name, args, st, n):
    path = o.path
    if path in SINK:
        for a in args:
            ex.rv(a, st)
        return o
    cls = st.mem.get(path + ('#stream',))
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    if cls == 'ofstream':
        if name == 'open':
            open_out(ex, path, args, st, n)
            return None
        if name == 'is_open':
            return st.mem[path + ('#open',)]
        if name in ('good', 'operator bool'):
            return st.mem[path + ('#open',)]
        if name in ('fail', 'operator!'):
            return nott(st.mem[path + ('#open',)])
        if name == 'close':
            stream_close(ex, path, st)
            return None
        if name == 'flush':
            return o
        if name == 'precision':
            old = st.mem[path + ('#prec',)]
            if args:
                st.mem[path + ('#prec',)] = ex.rv(args[0], st)
            return old
        if name == 'put':
            tr(st, path, ('str', tostr(ex.rv(args[0], st), st)))
            return o
    if name == 'str' and not args and cls in ('ostringstream', 'stringstream'):
        t = st.mem.get(path + ('#trace',))
        if t is None:
            return st.mem[path + ('#rest',)]
        return written(t, n)
    if name == 'str' and len(args) == 1 and cls == 'ostringstream' and written(st.mem[path + ('#trace',)], n) is not None:
        s = tostr(ex.rv(args[0], st), st)
        if not (is_c(s) and cval(s) == ''):
            raise Unsupported('stream method str at ' + where(n))
        st.mem[path + ('#trace',)] = Trace(None, ())
        return None
    if cls == 'ifstream':
        if name == 'close':
            return None
        if name in ('good', 'is_open') or (name in ('operator bool', 'fail', 'operator!')):
            g = st.mem[path + ('#good',)]
            if isinstance(g, Undef):
                if name == 'is_open':
                    return tm.app('readable', st.mem[path + ('#file',)], s='B')
                raise Unsupported('stream state after reading')
            return nott(g) if name in ('fail', 'operator!') else g
        if name == 'open':
            nm = tostr(ex.rv(args[0], st), st)
            st.mem[path + ('#file',)] = nm
            st.mem[path + ('#pos',)] = I(0)
            st.mem[path + ('#good',)] = tm.app('readable', nm, s='B')
            return None
        if name == 'eof':
            raise Unsupported('eof')
    raise Unsupported('stream method %s at %s' % (name, where(n)))


def unread(path, st, n):
    if path + ('#trace',) in st.mem:
        st.mem[path + ('#rest',)] = written(st.mem.pop(path + ('#trace',)), n)


def written(t, n):
    """the text written to a string stream"""
    out = []
    for ev in t.items if t.base is None else (('?',),):
        if ev[0] == 'str':
            out.append(ev[1])
        elif ev[0] == 'num':
            out.append(tm.app('numstr', ev[1], ev[2], s='S'))
        else:
            raise Unsupported('text of a string stream at ' + where(n))
    return scat(*out)


def stream_status(ex, o, st):
    """operator bool of a stream after an extraction"""
    g = st.mem.get(o.path + ('#ok',))
    if g is None:
        return stream_method(ex, o, 'operator bool', [], st, {})
    return g


def getline(ex, args, st, n):
    s = ex.ev(args[0], st)
    dst = ex.ev(args[1], st)
    path = s.path
    cls = st.mem.get(path + ('#stream',))
    delim = ex.rv(args[2], st) if len(args) > 2 else I(10)
    if cls == 'ifstream':
        if not (is_c(delim) and cval(delim) == 10):
            raise Unsupported('getline of a file with a delimiter')
        f, pos = st.mem[path + ('#file',)], st.mem[path + ('#pos',)]
        b = lt(pos, tm.app('nlines', f, s='I'))
        old = ex.load(dst, st, n)
        ex.storev(dst, ite(b, tm.app('line', f, pos, s='S'), tm.string('')), st, n)
        st.mem[path + ('#pos',)] = ite(b, add(pos, I(1)), pos)
        st.mem[path + ('#good',)] = Undef()
        st.mem[path + ('#ok',)] = b
        return s
    if cls in ('stringstream', 'istringstream'):
        unread(path, st, n)
        rest, k = st.mem[path + ('#rest',)], st.mem[path + ('#k',)]
        if not (is_c(k) and cval(k) == 0):
            rest = tm.app('restk', rest, k, s='S')
        d = tm.string(chr(int(cval(delim))))
        ex.storev(dst, tm.app('upto', rest, d, s='S'), st, n)
        st.mem[path + ('#rest',)] = tm.app('after', rest, d, s='S')
        st.mem[path + ('#k',)] = I(0)
        st.mem[path + ('#ok',)] = tm.app('nonempty', rest, s='B')
        return s
    raise Unsupported('getline')


def extract(ex, s, dst, typ, st, n):
    path = s.path
    cls = st.mem.get(path + ('#stream',))
    if cls not in ('stringstream', 'istringstream'):
        raise Unsupported('extraction from %s' % cls)
    unread(path, st, n)
    rest, k = st.mem[path + ('#rest',)], st.mem[path + ('#k',)]
    if is_string(typ):
        b = lt(k, tm.app('ntok', rest, s='I'))
        v = tm.app('tok', rest, k, s='S')
        old = ex.load(dst, st, n)
        ex.storev(dst, ite(b, v, old), st, n)
    elif is_float(typ):
        b = lt(k, tm.app('ntok', rest, tm.string('float'), s='I'))
        v = tm.app('stod', tm.app('tok', rest, k, s='S'), s='R')
        ex.storev(dst, ite(b, v, R(0)), st, n)
    elif is_int(typ):
        b = lt(k, tm.app('ntok', rest, tm.string('int'), s='I'))
        v = tm.app('stoi', tm.app('tok', rest, k, s='S'), s='I')
        ex.storev(dst, ite(b, v, I(0)), st, n)
    else:
        raise Unsupported('extraction of ' + typ)
    st.mem[path + ('#k',)] = ite(b, add(k, I(1)), k)
    st.mem[path + ('#ok',)] = b
    return s


# ------------------------------------------------------------------------------------------------ methods, operators
def method(ex, o, t, name, args, st, n):
    if isinstance(o, Ptr) and name in ('operator bool',):
        return TRUE
    if isinstance(o, Lam) and name == 'operator()':
        return ex.call_lambda(o, args, st, n)
    if isinstance(o, (E, T)) or (isinstance(o, P) and isinstance(st.mem.get(o.path), (T, Cx))) or isinstance(o, Cx):
        v = ex.as_value(o, st, n)
        if isinstance(v, Cx):
            if name in ('real', 'imag'):
                if args:
                    ex.storev(CxPart(o, 0 if name == 'real' else 1), ex.rv(args[0], st), st, n)
                    return None
                return v.re if name == 'real' else v.im
            if name.startswith('operator'):
                return assign_op(ex, name, o, args[0], st, n)
        if isinstance(v, T) and v.s == 'S':
            return string_method(ex, o, v, name, args, st, n)
    if isinstance(o, Row) or (isinstance(o, P) and o.path + ('#n',) in st.mem):
        if name.startswith('operator'):
            return operator(ex, name, [o] + args, st, n)
        return vec_method(ex, o, t, name, args, st, n)
    if isinstance(o, P) and (o.path in SINK or o.path + ('#stream',) in st.mem):
        if name in ('operator bool', 'operator!') and o.path + ('#ok',) in st.mem and \
                st.mem.get(o.path + ('#stream',)) in ('ifstream', 'stringstream', 'istringstream'):
            b = stream_status(ex, o, st)
            return b if name == 'operator bool' else nott(b)
        if name.startswith('operator<<') or name.startswith('operator>>'):
            return operator(ex, name, [o] + args, st, n)
        return stream_method(ex, o, name, args, st, n)
    raise Unsupported('method %s of %r at %s' % (name, o, where(n)))


def string_method(ex, o, v, name, args, st, n):
    if name == 'c_str':
        return v
    if name in ('append', 'operator+=', 'push_back'):
        ex.storev(o, scat(v, tostr(ex.rv(args[0], st), st)), st, n)
        return o
    if name == 'empty':
        return eq(v, tm.string(''))
    if name == 'compare' and len(args) == 1:
        return ite(eq(v, tostr(ex.rv(args[0], st), st)), I(0), I(1))
    if name in ('operator=',):
        ex.storev(o, tostr(ex.rv(args[0], st), st), st, n)
        return o
    if name == 'clear':
        ex.storev(o, tm.string(''), st, n)
        return None
    if name in ('size', 'length'):
        return I(len(cval(v))) if is_c(v) else tm.app('strlen', v, s='I')
    if name == 'find' and (len(args) == 1 or isinstance(args[1], dict) and args[1]['kind'] == 'CXXDefaultArgExpr'):
        d = tostr(ex.rv(args[0], st), st)
        if is_c(d) and cval(d):
            return I(cval(v).find(cval(d)) % 2 ** 64) if is_c(v) else tm.app('find', v, d, s='I')
    if name == 'substr':
        xs = [ex.rv(a, st) for a in args if not (isinstance(a, dict) and a['kind'] == 'CXXDefaultArgExpr')]
        r = substr(v, xs, st)
        if r is not None:
            return r
    raise Unsupported('string method %s at %s' % (name, where(n)))


NPOS = I(2 ** 64 - 1)


def substr(v, xs, st):
    """parts of a text before and after the first place where a separator is found"""
    if not xs or xs == [I(0)]:
        return v
    one = lambda f: f.op == 'app' and f.a[0] == 'find' and f.a[1] is v and len(cval(f.a[2])) == 1
    if len(xs) == 2 and xs[0] is I(0) and one(xs[1]):
        return tm.app('upto', v, xs[1].a[2], s='S')
    f = sub(xs[0], I(1))
    if len(xs) == 1 and one(f):
        c = eq(f, NPOS)
        if pv.prove(nott(c), st.ctx(), z3ok=False):
            return tm.app('after', v, f.a[2], s='S')
        return ite(c, v, tm.app('after', v, f.a[2], s='S'))     # (npos plus one is zero)
    return None


def assign_op(ex, name, lv, arg, st, n):
    y = ex.rv(arg, st) if isinstance(arg, dict) else arg
    op = name[len('operator'):-1]
    if op == '':
        ex.storev(lv, y if isinstance(y, Cx) else Cx(y, R(0)), st, n)
        return lv
    x = ex.as_value(lv, st, n)
    ex.storev(lv, cx_op(op, x, y), st, n)
    return lv


def operator(ex, name, args, st, n):
    """overloaded operators of library classes; args are AST nodes or values"""
    g = lambda a: ex.ev(a, st) if isinstance(a, dict) else a
    ty = lambda a: qtype(a) if isinstance(a, dict) else ''
    op = name[len('operator'):]
    if op == '<<':
        s = g(args[0])
        if isinstance(s, P) and s.path in SINK:
            try:
                ex.rv(args[1], st)
            except Unsupported:
                pass
            return s
        if isinstance(s, P) and st.mem.get(s.path + ('#stream',)) == 'stringstream' and s.path + ('#trace',) not in st.mem:
            r0 = st.mem.get(s.path + ('#rest',))
            if isinstance(r0, T) and is_c(r0) and cval(r0) == '':
                st.mem[s.path + ('#trace',)] = Trace(None, ())
                st.mem[s.path + ('#rest',)] = Undef()
        if isinstance(s, P) and st.mem.get(s.path + ('#stream',)) in ('ofstream', 'ostringstream') or \
                isinstance(s, P) and s.path + ('#trace',) in st.mem:
            v = g(args[1])
            v = ex.as_value(v, st, n)
            if isinstance(v, Fn):
                v = Manip(v.name)
            put(ex, s.path, v, st, n, ty(args[1]))
            return s
        raise Unsupported('<< at ' + where(n))
    if op == '>>':
        s = g(args[0])
        return extract(ex, s, g(args[1]), ty(args[1]), st, n)
    if op in ('bool', ' bool'):
        return stream_status(ex, g(args[0]), st)
    a0 = g(args[0])
    if op == '[]':
        i = ex.observe(ex.rv(args[1], st), ty(args[1]), st)
        if isinstance(a0, Row):
            return E(a0.path, a0.idx + (i,))
        if isinstance(a0, P) and a0.path + ('#in',) in st.mem:
            return Row(a0.path, (i,))
        if isinstance(a0, P) and a0.path + ('#n',) in st.mem:
            return E(a0.path, (i,))
        raise Unsupported('[] on %r at %s' % (a0, where(n)))
    if op == '=':
        v = g(args[1])
        if isinstance(a0, P) and a0.path + ('#n',) in st.mem:
            if isinstance(v, Row):
                ex.row_to_vec(v, a0.path, st, n)
                return a0
            if isinstance(v, list):
                ex.oblig('unsupported', FALSE, st, n)
            if isinstance(v, P):
                ex.copy_obj(v.path, a0.path, st, n)
                moved_from(args[1], v.path, a0.path, st)
                return a0
        if isinstance(a0, Row):
            ex.row_assign(a0, v, st, n)
            return a0
        v = ex.as_value(v, st, n)
        if isinstance(v, (T, Cx)):
            old = ex.as_value(a0, st, n) if not isinstance(a0, P) else st.mem.get(a0.path)
            if isinstance(old, Cx) and isinstance(v, T):
                v = Cx(v, R(0))
            if isinstance(old, T) and old.s == 'S':
                v = tostr(v, st)
            ex.storev(a0, v, st, n)
            return a0
        if isinstance(v, P) and isinstance(a0, P):
            ex.copy_obj(v.path, a0.path, st, n)
            return a0
        raise Unsupported('assignment at ' + where(n))
    if op in ('+=', '-=', '*=', '/='):
        x = ex.as_value(a0, st, n)
        y = ex.as_value(g(args[1]), st, n)
        if isinstance(x, T) and x.s == 'S':
            ex.storev(a0, scat(x, tostr(y, st)), st, n)
            return a0
        if isinstance(y, T) and y.s == 'I':
            y = tm.toreal(ex.observe(y, ty(args[1]), st))
        ex.storev(a0, cx_op(op[0], x, y), st, n)
        return a0
    if op in ('+', '-', '*', '/', '==', '!=', '<'):
        x = ex.as_value(a0, st, n)
        if len(args) == 1:
            return Cx(-x.re, -x.im) if isinstance(x, Cx) else mul(tm.num(-1, x.s), x)
        y = ex.as_value(g(args[1]), st, n)
        if (isinstance(x, T) and x.s == 'S') or (isinstance(y, T) and y.s == 'S'):
            if op == '+':
                return scat(tostr(x, st), tostr(y, st))
            if op == '==':
                return eq(tostr(x, st), tostr(y, st))
            if op == '!=':
                return nott(eq(tostr(x, st), tostr(y, st)))
        if isinstance(x, Cx) or isinstance(y, Cx):
            return cx_op(op, x, y)
    if op == '!':
        return nott(stream_status(ex, a0, st))
    raise Unsupported('%s at %s' % (name, where(n)))


# ------------------------------------------------------------------------------------------------ functions
def mathfn(name, xs):
    if name in ('cos', 'sin', 'exp', 'sqrt'):
        return getattr(tm, name)(tm.toreal(xs[0]))
    if name in ('fabs', 'abs'):
        return tm.absr(xs[0] if name == 'abs' else tm.toreal(xs[0]))
    if name == 'pow':
        return tm.powr(xs[0], xs[1])
    if name == 'log10':
        return div(tm.app('log', tm.toreal(xs[0])), tm.app('log', R(10)))
    if name == 'hypot':
        x, y = tm.toreal(xs[0]), tm.toreal(xs[1])
        return tm.sqrt(add(mul(x, x), mul(y, y)))
    if name in ('fmin', 'fmax'):
        x, y = tm.toreal(xs[0]), tm.toreal(xs[1])
        return ite(lt(y, x), y, x) if name == 'fmin' else ite(lt(x, y), y, x)
    if name == 'copysign':
        x, y = tm.absr(tm.toreal(xs[0])), tm.toreal(xs[1])
        return ite(lt(y, R(0)), mul(R(-1), x), x)
    if name == 'fma':
        x, y, z = [tm.toreal(q) for q in xs]
        return add(mul(x, y), z)
    if name == 'ldexp' and is_c(xs[1]):
        return mul(tm.toreal(xs[0]), R(Fraction(2) ** int(cval(xs[1]))))
    if name == 'exp2':
        return tm.app('pow', R(2), tm.toreal(xs[0]))
    if name == 'log' and is_c(xs[0]) and cval(xs[0]) == 1:
        return R(0)
    return tm.app(name, *[tm.toreal(x) for x in xs])


MATH = {'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log10', 'log2', 'sqrt', 'fabs', 'floor', 'ceil',
        'round', 'trunc', 'cbrt', 'sinh', 'cosh', 'tanh', 'exp2', 'expm1', 'log1p', 'pow', 'atan2', 'hypot', 'fmod',
        'fmax', 'fmin', 'abs', 'fma', 'ldexp', 'lround', 'copysign'}


def call(ex, name, args, st, n):
    args = [a for a in args if not (isinstance(a, dict) and a['kind'] == 'CXXDefaultArgExpr')]
    if name in MATH:
        xs = [ex.rv(a, st) for a in args]
        if any(isinstance(x, Cx) for x in xs):
            if name == 'abs':
                return tm.sqrt(xs[0].re * xs[0].re + xs[0].im * xs[0].im)
            raise Unsupported('complex ' + name)
        xs = [ex.observe(x, qtype(a), st) if x.s == 'I' else x for x, a in zip(xs, args)]
        return mathfn(name, xs)
    f = globals().get('f_' + name)
    if f is not None:
        return f(ex, args, st, n)
    raise Unsupported('library function %s at %s' % (name, where(n)))


def f_kv_assert(ex, args, st, n):
    b = ex.boolean(ex.rv(args[0], st), st)
    ex.oblig('assert', b, st, n)
    st.assume(b)
    return None


def f_min(ex, args, st, n, mx=False):
    if len(args) == 1:
        vs = ex.ev(args[0], st)
        r = vs[0]
        for v in vs[1:]:
            r = (ite(lt(r, v), v, r) if mx else ite(lt(v, r), v, r))
        return r
    x, y = ex.rv(args[0], st), ex.rv(args[1], st)
    x, y = ex.observe(x, qtype(args[0]), st), ex.observe(y, qtype(args[1]), st)
    if x is y:
        return x
    c = lt(x, y) if mx else lt(y, x)
    if pv.prove(c, st.ctx(), z3ok=False):
        return y
    if pv.prove(nott(c), st.ctx(), z3ok=False):
        return x
    return ite(c, y, x)


def f_max(ex, args, st, n):
    return f_min(ex, args, st, n, True)


def f_real(ex, args, st, n):
    return ex.rv(args[0], st).re


def f_imag(ex, args, st, n):
    return ex.rv(args[0], st).im


def f_norm(ex, args, st, n):
    v = ex.rv(args[0], st)
    return v.re * v.re + v.im * v.im


def f_conj(ex, args, st, n):
    v = ex.rv(args[0], st)
    return Cx(v.re, -v.im)


def f_move(ex, args, st, n):
    return ex.ev(args[0], st)


f_forward = f_move


def f_swap(ex, args, st, n):
    x, y = ex.ev(args[0], st), ex.ev(args[1], st)
    if isinstance(x, P) and isinstance(y, P) and not isinstance(st.mem.get(x.path), (T, Cx)):
        swap_obj(ex, x.path, y.path, st)
        return None
    a, b = ex.as_value(x, st, n), ex.as_value(y, st, n)
    ex.storev(x, b, st, n)
    ex.storev(y, a, st, n)


def f_to_string(ex, args, st, n):
    v = ex.rv(args[0], st)
    if v.s == 'R':
        return tm.app('dtos', v, s='S')
    return itos(ex.observe(v, qtype(args[0]), st))


def f_stoi(ex, args, st, n):
    return tm.app('stoi', tostr(ex.rv(args[0], st), st), s='I')


f_stol = f_stoul = f_stoull = f_stoll = f_stoi


def f_stod(ex, args, st, n):
    return tm.app('stod', tostr(ex.rv(args[0], st), st), s='R')


def f_stof(ex, args, st, n):
    return tm.app('single', tm.app('stod', tostr(ex.rv(args[0], st), st), s='R'))


def f_stol(ex, args, st, n):
    if len([a for a in args if a['kind'] != 'CXXDefaultArgExpr']) != 1:
        raise Unsupported('stol with a base')
    return tm.app('stoi', tostr(ex.rv(args[0], st), st), s='I')


f_stoll = f_stoul = f_stoull = f_stol


f_atof = f_stod
f_atoi = f_stoi


def f_getline(ex, args, st, n):
    return getline(ex, args, st, n)


def f_endl(ex, args, st, n):
    return ex.ev(args[0], st)


def f_setprecision(ex, args, st, n):
    return Manip('prec', ex.rv(args[0], st))


def f_setw(ex, args, st, n):
    return Manip('setw', ex.rv(args[0], st))


def f_quick_exit(ex, args, st, n):
    code = ex.rv(args[0], st) if args else I(134)
    if not ex.dry:
        ex.exits.append(['exit', code, st.fork()])
    st.branch(FALSE)
    return None


f_exit = f__Exit = f_abort = f_quick_exit


def f_copy(ex, args, st, n):
    a, b, o = [ex.rv(x, st) for x in args]
    copy_range(ex, a, sub(b.off, a.off), o, st, n)
    return Ptr(o.path, add(o.off, sub(b.off, a.off)))


def f_copy_n(ex, args, st, n):
    a, k, o = [ex.rv(x, st) for x in args]
    copy_range(ex, a, k, o, st, n)
    return Ptr(o.path, add(o.off, k))


def f_fill(ex, args, st, n):
    a, b, v = [ex.rv(x, st) for x in args]
    fill_range(ex, a, sub(b.off, a.off), v, st, n)


def bytes_of(ex, p, b, st, n):
    """number of whole elements in b bytes at p"""
    if not isinstance(p, Ptr) or isinstance(p.path, Row):
        raise Unsupported('raw memory access at ' + where(n))
    if p.path + ('#re',) in st.mem:
        size = 16
    elif p.path + ('#d',) in st.mem and tm.esort(st.mem[p.path + ('#d',)]) == 'R':
        size = 8
    else:
        raise Unsupported('raw memory access to elements that are not doubles at ' + where(n))
    q = tm.ip_of(b)
    if any((c / size).denominator != 1 for c in q.values()):
        raise Unsupported('raw memory access to part of an element at ' + where(n))
    return tm.ip_mk({m: c / size for m, c in q.items()})


def f_memcpy(ex, args, st, n, overlap=False):
    d, s = ex.rv(args[0], st), ex.rv(args[1], st)
    b = ex.observe(ex.rv(args[2], st), qtype(args[2]), st)
    k = bytes_of(ex, d, b, st, n)
    if bytes_of(ex, s, b, st, n) is not k:
        raise Unsupported('memcpy between different element types')
    if not overlap and d.path == s.path and not ex.dry:
        ex.oblig('overlap', orr(le(k, I(0)), le(add(s.off, k), d.off), le(add(d.off, k), s.off)), st, n, 'memcpy between overlapping ranges')
    copy_range(ex, s, k, d, st, n)
    return d


def f_snprintf(ex, args, st, n):
    """formatted text into a character array; the array then holds the whole text, which has to fit"""
    d = ex.rv(args[0], st)
    cap = ex.observe(ex.rv(args[1], st), qtype(args[1]), st)
    fmt = ex.rv(args[2], st)
    if not (isinstance(d, Ptr) and d.off is I(0) and d.path + ('#d',) in st.mem and isinstance(fmt, T) and is_c(fmt)):
        raise Unsupported('form of snprintf at ' + where(n))
    rest = list(args[3:])
    out, length = [], I(0)
    for piece in re.split(r'(%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?[a-zA-Z%])', cval(fmt)):
        if not piece.startswith('%'):
            out.append(tm.string(piece))
            length = add(length, I(len(piece)))
        elif piece == '%%':
            out.append(tm.string('%'))
            length = add(length, I(1))
        elif piece == '%s':
            x = tostr(ex.rv(rest.pop(0), st), st)
            out.append(x)
            length = add(length, text_length(x))
        elif re.match(r'%(l|ll|z|j)?[diu]$', piece):
            a = rest.pop(0)
            x = itos(ex.observe(ex.rv(a, st), qtype(a), st))
            out.append(x)
            w = {'int': 11, 'unsigned int': 10, 'short': 6, 'unsigned short': 5}.get(strip(qtype(a)), 20)
            length = add(length, I(w) if not is_c(x) else text_length(x))
        else:
            raise Unsupported('snprintf with %s at %s' % (piece, where(n)))
    if rest:
        raise Unsupported('snprintf with more arguments than its format at ' + where(n))
    ln = st.mem.get(d.path + ('#n',))
    if ln is not None:
        ex.oblig('bounds', le(cap, ln), st, n, 'snprintf is given no more than the size of the array')
    ex.oblig('bounds', lt(length, cap), st, n, 'the text fits the character array it is written to')
    st.mem[d.path + ('#d',)] = tm.farr('chars', (scat(*out),), (), 'I')
    return length


def text_length(x):
    if x.op == 'app' and x.a[0] == 'cat':
        return functools.reduce(add, [text_length(y) for y in x.a[1:]])
    if is_c(x):
        return I(len(cval(x)))
    if x.op == 'app' and x.a[0] == 'itos':
        return I(20)                # at most
    return tm.app('strlen', x, s='I')


def f_memmove(ex, args, st, n):
    return f_memcpy(ex, args, st, n, True)


def f_memset(ex, args, st, n):
    d, v = ex.rv(args[0], st), ex.rv(args[1], st)
    if v is not I(0):
        raise Unsupported('memset to a byte other than zero')
    fill_range(ex, d, bytes_of(ex, d, ex.observe(ex.rv(args[2], st), qtype(args[2]), st), st, n), R(0), st, n)
    return d


def f_clamp(ex, args, st, n):
    x, lo, hi = [ex.rv(a, st) for a in args]
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))


def f_begin(ex, args, st, n):
    return container(ex, args, st, n, 'begin')


def f_end(ex, args, st, n):
    return container(ex, args, st, n, 'end')


f_cbegin, f_cend = f_begin, f_end


def container(ex, args, st, n, name):
    o = ex.ev(args[0], st)
    if isinstance(o, P) and o.path + ('#n',) in st.mem:
        return vec_method(ex, o, qtype(args[0]), name, [], st, n)
    raise Unsupported('%s() of %r' % (name, o))


def f_distance(ex, args, st, n):
    a, b = [ex.rv(x, st) for x in args]
    return sub(b.off, a.off)


def f_next(ex, args, st, n):
    p = ex.rv(args[0], st)
    return Ptr(p.path, add(p.off, ex.rv(args[1], st) if len(args) > 1 else I(1)))


def f_copysign(ex, args, st, n):
    raise Unsupported('copysign')


def f_max_element(ex, args, st, n, mx=True):
    """the returned iterator can only be dereferenced: it points to a copy of the extreme value"""
    if len(args) != 2:
        raise Unsupported('extreme element by a comparison')
    a, b = [ex.rv(x, st) for x in args]
    cnt = sub(b.off, a.off)
    if not ex.dry:
        ex.oblig('bounds', lt(I(0), cnt), st, n, 'extreme element of an empty range')
    path = ex.newtmp()
    acc = path + ('acc',)
    x0 = ex.load(ex.ptr_elem(a, I(0), st, n), st, n)
    st.mem[acc] = x0

    def bodyf(i, s):
        x = ex.load(ex.ptr_elem(a, i, s, n), s, n)
        c = lt(s.mem[acc], x) if mx else lt(x, s.mem[acc])
        s.mem[acc] = ite(c, x, s.mem[acc])
    ex.loops.counted(ex, st, n, cnt, bodyf)
    v = st.mem[acc]
    ex.vec_new(path, v.s, I(1), v, st)
    return Ptr(path, I(0))


def f_min_element(ex, args, st, n):
    return f_max_element(ex, args, st, n, False)


def f_fill_n(ex, args, st, n):
    a, k, v = [ex.rv(x, st) for x in args]
    fill_range(ex, a, k, v, st, n)


def f_transform(ex, args, st, n):
    vs = [ex.rv(x, st) for x in args]
    f = vs[-1]
    srcs = [vs[0]] + ([vs[2]] if len(vs) == 5 else [])
    out = vs[-2]
    cnt = sub(vs[1].off, vs[0].off)

    def bodyf(i, s):
        v = apply(ex, f, [ex.ptr_elem(p, i, s, n) for p in srcs], s, n)
        ex.storev(ex.ptr_elem(out, i, s, n), v, s, n)
    ex.loops.counted(ex, st, n, cnt, bodyf)
    return Ptr(out.path, add(out.off, cnt))


def apply(ex, f, args, st, n):
    if isinstance(f, Lam):
        r = ex.call_lambda(f, args, st, n)
    elif isinstance(f, Fn):
        r = ex.call_named(f, args, st, n)
    else:
        raise Unsupported('callable %r' % (f,))
    return ex.as_value(r, st, n)


def f_for_each(ex, args, st, n):
    a, b, f = [ex.rv(x, st) for x in args]
    cnt = sub(b.off, a.off)
    ex.loops.counted(ex, st, n, cnt, lambda i, s: apply(ex, f, [ex.ptr_elem(a, i, s, n)], s, n))


def same_kind(init, v, n):
    """the accumulator has the type of the initial value: an integer one would truncate every partial sum"""
    if isinstance(init, T) and init.s == 'I' and not (isinstance(v, T) and v.s == 'I'):
        raise Unsupported('integer accumulator over real elements at ' + where(n))


def f_accumulate(ex, args, st, n):
    vs = [ex.rv(x, st) for x in args]
    a, b, init = vs[:3]
    cnt = sub(b.off, a.off)
    acc = ex.newtmp()
    st.mem[acc] = init

    def bodyf(i, s):
        v = ex.load(ex.ptr_elem(a, i, s, n), s, n)
        same_kind(init, v, n)
        if len(vs) > 3:
            s.mem[acc] = apply(ex, vs[3], [s.mem[acc], v], s, n)
        else:
            s.mem[acc] = add(s.mem[acc], v)
    ex.loops.counted(ex, st, n, cnt, bodyf)
    return st.mem[acc]


def f_inner_product(ex, args, st, n):
    vs = [ex.rv(x, st) for x in args]
    a, b, c, init = vs[:4]
    cnt = sub(b.off, a.off)
    acc = ex.newtmp()
    st.mem[acc] = init

    def bodyf(i, s):
        same_kind(init, ex.load(ex.ptr_elem(a, i, s, n), s, n), n)
        s.mem[acc] = add(s.mem[acc], mul(ex.load(ex.ptr_elem(a, i, s, n), s, n), ex.load(ex.ptr_elem(c, i, s, n), s, n)))
    ex.loops.counted(ex, st, n, cnt, bodyf)
    return st.mem[acc]


def c_array(ex, path, t, init, st, n):
    a = arr_type(t)
    if a is None:
        raise Unsupported('array type ' + t)
    in_ = arr_type(a[0])
    if in_ and arr_type(in_[0]):
        raise Unsupported('array nesting deeper than two')
    k = ekind(in_[0]) if in_ else ekind(a[0])
    ex.vec_new(path, ('N', k) if in_ else k, I(a[1]), zero_of(k), st, inner=I(in_[1]) if in_ else None)
    for c in comps(k):
        st.mem[path + (c,)] = tm.afresh('uninit', 'R' if k in ('R', 'C') else k)


# ------------------------------------------------------------------------------------------------ heap
def f_fftw_malloc(ex, args, st, n):
    ex.libs.add('fftw_malloc/fftw_free: returns a fresh non-null block of the requested size; free ends its life')
    v = ex.rv(args[0], st)
    return Bytes(ex.observe(v, qtype(args[0]), st), 'fftw')


def f_malloc(ex, args, st, n):
    v = ex.rv(args[0], st)
    return Bytes(ex.observe(v, qtype(args[0]), st), 'libc')


def f_fftw_alloc_real(ex, args, st, n):
    v = ex.observe(ex.rv(args[0], st), qtype(args[0]), st)
    return new_block(ex, v, 'R', 'fftw', st)


def alloc(ex, b, dst, st, n):
    elem = strip(dst)
    if not elem.endswith('*'):
        raise Unsupported('cast of allocated memory to ' + dst)
    elem = elem[:-1].strip()
    k = ekind(elem)
    size = {'R': 8, 'C': 16, 'I': 8}[k]
    p = tm.ip_of(b.n)
    if any((c / size).denominator != 1 for c in p.values()):
        ex.oblig('allocation-size', FALSE, st, n, '%s bytes for elements of %d bytes' % (b.n, size))
        cnt = tm.idiv(b.n, I(size))
    else:
        cnt = tm.ip_mk({m: c / size for m, c in p.items()})
    return new_block(ex, cnt, k, b.how, st)


def new_block(ex, cnt, k, how, st):
    path = ('h', next(ex.tmp_ctr), how)
    st.mem[path + ('#n',)] = cnt
    st.mem[path + ('#alive',)] = TRUE
    for c in comps(k):
        st.mem[path + (c,)] = tm.afresh('uninit', 'R' if k in ('R', 'C') else k)
    return Ptr(path)


def free_block(ex, args, st, n, how):
    v = ex.rv(args[0], st)
    if isinstance(v, Null):
        return None
    if not isinstance(v, Ptr) or isinstance(v.path, Row) or v.path[0] != 'h':
        ex.oblig('free-of-non-heap', FALSE, st, n)
        return None
    ex.oblig('double-free', andd(st.mem.get(v.path + ('#alive',), FALSE), eq(v.off, I(0))), st, n, 'freed exactly once')
    if v.path[2] != how:
        ex.oblig('mismatched-free', FALSE, st, n, '%s block freed by %s' % (v.path[2], how))
    st.mem[v.path + ('#alive',)] = FALSE
    return None


def f_fftw_free(ex, args, st, n):
    return free_block(ex, args, st, n, 'fftw')


def f_free(ex, args, st, n):
    return free_block(ex, args, st, n, 'libc')


# ------------------------------------------------------------------------------------------------ array arguments
def canon(ex, path, comp, vs, ranges, idx, st, off=None):
    """argument of an array-valued contract: the cells read, as a self-contained family"""
    A = st.mem[path + (comp,)]
    cx = st.fork()
    cx.assume(*pv.rng_facts(vs, ranges))
    ri = idx if off is None else tuple(add(off, x) for x in idx)
    v = ex.rd(A, ri, cx)
    if v.op == 'sel' and v.a[0] is A and A.op == 'av' and (off is None or (is_c(off) and cval(off) == 0)):
        return (A, vs, ranges, idx)
    return (tm.fam(tm.aconst(R(0) if tm.esort(A) == 'R' else I(0)), vs, ranges, idx, v), vs, ranges, idx)


def cells1(n):
    i = tm.fresh('c')
    return (i,), ((I(0), n),), (i,)


def need(ex, ptr, cnt, st, n, what, rw='r'):
    if not isinstance(ptr, Ptr) or isinstance(ptr.path, Row):
        raise Unsupported('array argument %r' % (ptr,))
    ex.access(rw, ptr.path, None, st, n)
    if ex.dry:
        return
    ex.oblig('bounds', andd(le(I(0), ptr.off), le(add(ptr.off, cnt), ex.size_of(ptr.path, st))), st, n, what)
    al = st.mem.get(ptr.path + ('#alive',))
    if al is not None:
        ex.oblig('use-of-freed-memory', al, st, n, what)


def set_all(ex, ptr, comp, cnt, A, st):
    """cells ptr[0..cnt) of the block become A[0..cnt)"""
    if is_c(ptr.off) and cval(ptr.off) == 0 and ex.size_of(ptr.path, st) is cnt:
        st.mem[ptr.path + (comp,)] = A
        return
    i = tm.fresh('c')
    st.mem[ptr.path + (comp,)] = tm.fam(st.mem[ptr.path + (comp,)], (i,), ((I(0), cnt),), (add(ptr.off, i),), tm.sel(A, (i,)))


# ------------------------------------------------------------------------------------------------ FFTW
REDFT00 = 3


def f_fftw_plan_r2r_1d(ex, args, st, n):
    ex.libs.add('fftw_plan_r2r_1d: returns a usable plan for n>=2 (never null); measuring planners overwrite their arrays')
    cnt, a, b, kind, flags = [ex.rv(x, st) for x in args]
    path = ('plan', next(ex.tmp_ctr))
    need(ex, a, cnt, st, n, 'plan input')
    need(ex, b, cnt, st, n, 'plan output', 'w')
    if not ex.dry:
        ex.oblig('fftw-precondition', le(I(2), cnt), st, n, 'REDFT00 needs n>=2')
    st.mem[path + ('#alive',)] = TRUE
    st.mem[path + ('#pn',)] = cnt
    st.mem[path + ('#kind',)] = kind
    st.mem[path + ('#flags',)] = flags
    st.mem[path + ('#inplace',)] = TRUE if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b else FALSE
    fl = int(cval(flags)) if is_c(flags) else 0
    if not fl & 64:
        for p in (a, b):
            st.mem[p.path + ('#d',)] = tm.afresh('planned')
    if ex.par_depth:
        ex.oblig('race', FALSE, st, n, 'FFTW planner called in a parallel region')
    return Ptr(path)


def f_fftw_execute_r2r(ex, args, st, n):
    ex.libs.add('fftw_execute_r2r with FFTW_REDFT00 computes out[k] = in[0] + (-1)^k in[n-1] + 2 sum_{0<j<n-1} in[j] cos(pi j k/(n-1)), input preserved unless FFTW_DESTROY_INPUT, thread-safe')
    p, a, b = [ex.rv(x, st) for x in args]
    if not isinstance(p, Ptr) or p.path[0] != 'plan':
        raise Unsupported('fftw plan %r' % (p,))
    m = st.mem
    cnt, kind = m[p.path + ('#pn',)], m[p.path + ('#kind',)]
    if not ex.dry:
        ex.oblig('plan-valid', m[p.path + ('#alive',)], st, n, 'transform executed through a live plan')
        same = isinstance(a, Ptr) and isinstance(b, Ptr) and a.path == b.path
        ex.oblig('fftw-precondition', eq(m[p.path + ('#inplace',)], TRUE if same else FALSE), st, n, 'in-place/out-of-place as planned')
    need(ex, a, cnt, st, n, 'transform input')
    need(ex, b, cnt, st, n, 'transform output', 'w')
    k = int(cval(kind)) if is_c(kind) else -1
    arg = canon(ex, a.path, '#d', *cells1(cnt), st=st, off=a.off)
    A = tm.farr('r2r%d' % k, (cnt,), (arg,))
    fl = m[p.path + ('#flags',)]
    if not is_c(fl) or int(cval(fl)) & 1:
        m[a.path + ('#d',)] = tm.afresh('destroyed')
    set_all(ex, b, '#d', cnt, A, st)
    return None


def f_fftw_destroy_plan(ex, args, st, n):
    ex.libs.add('fftw_destroy_plan ends the life of exactly that plan')
    p = ex.rv(args[0], st)
    if not isinstance(p, Ptr) or p.path[0] != 'plan':
        raise Unsupported('fftw plan %r' % (p,))
    ex.oblig('plan-valid', st.mem[p.path + ('#alive',)], st, n, 'plan destroyed exactly once')
    st.mem[p.path + ('#alive',)] = FALSE
    return None


def f_fftw_cleanup(ex, args, st, n):
    ex.libs.add('fftw_cleanup invalidates every existing plan')
    for k in list(st.mem):
        if k[0] == 'plan' and k[-1] == '#alive':
            st.mem[k] = FALSE
    st.mem[('plan-cleanup',)] = TRUE
    return None


# ------------------------------------------------------------------------------------------------ SHTns
def f_shtns_verbose(ex, args, st, n):
    return None


def f_shtns_use_threads(ex, args, st, n):
    return I(1)


def f_shtns_create(ex, args, st, n):
    ex.libs.add('shtns_create(lmax,mmax,1,orthonormal) returns a configuration retaining 0<=m<=min(l,mmax), l<=lmax (both included)')
    l, m, mres, norm = [ex.rv(a, st) for a in args]
    path = ('shtns', next(ex.tmp_ctr))
    st.mem[path + ('#shtns',)] = TRUE
    st.mem[path + ('#alive',)] = TRUE
    st.mem[path + ('lmax',)] = l
    st.mem[path + ('mmax',)] = m
    st.mem[path + ('mres',)] = mres
    st.mem[path + ('#norm',)] = norm
    return Ptr(path)


def f_shtns_set_grid(ex, args, st, n):
    ex.libs.add('shtns_set_grid(..,nlat,nphi) allocates nlat*nphi spatial points, theta nodes are the Gauss nodes, layout as requested by the flags')
    s, flags, eps, nlat, nphi = [ex.rv(a, st) for a in args]
    p = s.path
    st.mem[p + ('#flags',)] = flags
    st.mem[p + ('#eps',)] = eps
    st.mem[p + ('nlat',)] = nlat
    st.mem[p + ('nphi',)] = nphi
    st.mem[p + ('nspat',)] = mul(nlat, nphi)
    st.mem[p + ('nlm',)] = tm.app('nlm', st.mem[p + ('lmax',)], st.mem[p + ('mmax',)], s='I')
    st.mem[p + ('ct', '#n')] = nlat
    st.mem[p + ('ct', '#d')] = tm.farr('gauss_ct', (nlat,), ())
    st.mem[p + ('st', '#n')] = nlat
    st.mem[p + ('st', '#d')] = tm.farr('gauss_st', (nlat,), ())
    return mul(nlat, nphi)


def f_shtns_destroy(ex, args, st, n):
    ex.libs.add('shtns_destroy ends the life of exactly that configuration')
    s = ex.rv(args[0], st)
    ex.oblig('plan-valid', st.mem[s.path + ('#alive',)], st, n, 'SHTns configuration destroyed exactly once')
    st.mem[s.path + ('#alive',)] = FALSE
    return None


def f_shtns_reset(ex, args, st, n):
    for k in list(st.mem):
        if k[0] == 'shtns' and k[-1] == '#alive':
            st.mem[k] = FALSE


def shtns_field(ex, p, name, st, n):
    if name in ('ct', 'st'):
        q = ex.newtmp()
        st.mem[q] = Ptr(p + (name,))
        return P(q)
    if p + (name,) not in st.mem:
        raise Unsupported('shtns field ' + name)
    return P(p + (name,))


def cfg(ex, st, s, n):
    if not isinstance(s, Ptr) or s.path[0] != 'shtns':
        raise Unsupported('shtns configuration %r' % (s,))
    p = s.path
    m = st.mem
    if p + ('nspat',) not in m:
        ex.oblig('plan-valid', FALSE, st, n, 'SHTns grid set before use')
        raise Unsupported('shtns grid not set')
    if not ex.dry:
        ex.oblig('plan-valid', m[p + ('#alive',)], st, n, 'SHTns configuration alive')
    scal = (m[p + ('lmax',)], m[p + ('mmax',)], m[p + ('mres',)], m[p + ('#norm',)], m[p + ('#flags',)], m[p + ('#eps',)],
            m[p + ('nlat',)], m[p + ('nphi',)])
    return p, scal, m[p + ('lmax',)], m[p + ('mmax',)], m[p + ('nspat',)], m[p + ('nlm',)]


def f_kv_NSPAT_ALLOC(ex, args, st, n):
    s = ex.rv(args[0], st)
    return cfg(ex, st, s, n)[4]


def f_kv_LM(ex, args, st, n):
    ex.libs.add('LM(shtns,l,m) is a one-to-one map from retained (l,m) to 0..nlm-1')
    s, l, m = [ex.rv(a, st) for a in args]
    l, m = ex.observe(l, qtype(args[1]), st), ex.observe(m, qtype(args[2]), st)
    p, scal, lmax, mmax, nspat, nlm = cfg(ex, st, s, n)
    g = andd(le(I(0), m), le(m, l), le(l, lmax), le(m, mmax))
    if not ex.dry:
        ex.oblig('shtns-precondition', g, st, n, 'LM(l,m) of a retained harmonic')
    t = tm.app('LM', l, m, s='I')
    st.assume(lt(t, nlm))
    return t


def lm_cells(lmax, mmax):
    l, m = tm.fresh('l'), tm.fresh('m')
    return (l, m), ((I(0), add(lmax, I(1))), (I(0), add(ite(lt(l, mmax), l, mmax), I(1)))), (tm.app('LM', l, m, s='I'),)


def clm_cells(lmax):
    l, m = tm.fresh('l'), tm.fresh('m')
    return (l, m), ((I(0), add(lmax, I(1))), (sub(I(0), l), add(l, I(1)))), (add(mul(l, add(l, I(1))), m),)


def clobber(ex, ptr, st):
    for c in arr_comps(ptr.path, st):
        st.mem[ptr.path + (c,)] = tm.afresh('clobbered')


def f_spat_to_SH(ex, args, st, n):
    ex.libs.add('spat_to_SH: the orthonormal spherical-harmonic coefficients (index LM(l,m)) of the spatial data; may overwrite its input')
    s, a, q = [ex.rv(x, st) for x in args]
    p, scal, lmax, mmax, nspat, nlm = cfg(ex, st, s, n)
    need(ex, a, nspat, st, n, 'spatial data')
    need(ex, q, nlm, st, n, 'harmonic data', 'w')
    arg = canon(ex, a.path, '#d', *cells1(nspat), st=st, off=a.off)
    clobber(ex, a, st)
    for c, nm in (('#re', 'SHre'), ('#im', 'SHim')):
        set_all(ex, q, c, nlm, tm.farr(nm, scal, (arg,)), st)


def f_SH_to_spat(ex, args, st, n):
    ex.libs.add('SH_to_spat: the real field with the given retained coefficients; may overwrite its input')
    s, q, a = [ex.rv(x, st) for x in args]
    p, scal, lmax, mmax, nspat, nlm = cfg(ex, st, s, n)
    need(ex, q, nlm, st, n, 'harmonic data')
    need(ex, a, nspat, st, n, 'spatial data', 'w')
    if not (is_c(q.off) and cval(q.off) == 0):
        raise Unsupported('offset harmonic data')
    ag = [canon(ex, q.path, c, *lm_cells(lmax, mmax), st=st) for c in ('#re', '#im')]
    clobber(ex, q, st)
    set_all(ex, a, '#d', nspat, tm.farr('spat', scal, tuple(ag)), st)


def f_spat_cplx_to_SH(ex, args, st, n):
    ex.libs.add('spat_cplx_to_SH / SH_to_spat_cplx: complex transforms with coefficient (l,m) at l(l+1)+m, |m|<=l<=lmax; may overwrite their input')
    s, z, q = [ex.rv(x, st) for x in args]
    p, scal, lmax, mmax, nspat, nlm = cfg(ex, st, s, n)
    tot = mul(add(lmax, I(1)), add(lmax, I(1)))
    need(ex, z, nspat, st, n, 'spatial data')
    need(ex, q, tot, st, n, 'harmonic data', 'w')
    ag = tuple(canon(ex, z.path, c, *cells1(nspat), st=st, off=z.off) for c in ('#re', '#im'))
    clobber(ex, z, st)
    for c, nm in (('#re', 'cSHre'), ('#im', 'cSHim')):
        set_all(ex, q, c, tot, tm.farr(nm, scal, ag), st)


def f_SH_to_spat_cplx(ex, args, st, n):
    s, q, z = [ex.rv(x, st) for x in args]
    p, scal, lmax, mmax, nspat, nlm = cfg(ex, st, s, n)
    tot = mul(add(lmax, I(1)), add(lmax, I(1)))
    need(ex, q, tot, st, n, 'harmonic data')
    need(ex, z, nspat, st, n, 'spatial data', 'w')
    if not (is_c(q.off) and cval(q.off) == 0):
        raise Unsupported('offset harmonic data')
    ag = tuple(canon(ex, q.path, c, *clm_cells(lmax), st=st) for c in ('#re', '#im'))
    clobber(ex, q, st)
    for c, nm in (('#re', 'cspat_re'), ('#im', 'cspat_im')):
        set_all(ex, z, c, nspat, tm.farr(nm, scal, ag), st)
