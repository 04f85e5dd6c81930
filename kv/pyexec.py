"""Symbolic execution of the launcher's Python (the ast of /repo/sim_class.py itself, read on every run).

Numbers are z3 terms (reals and integers, no rounding); text is a sequence of parts; file writes, directories, copies,
environment and commands are recorded as an effect trace.  Conditions that are not decided by the facts fork the path.
Everything outside the subset raises Unsupported."""
import ast
import os
import z3

REPO = os.environ.get('KV_REPO', '/repo')


class Unsupported(Exception):
    pass


class Txt:
    """text: a tuple of parts: str literals, ('str', value) conversions, ('rep', list, var, parts), opaque atoms"""
    __slots__ = ('p',)

    def __init__(self, *parts):
        out = []
        for q in parts:
            if q == '':
                continue
            if isinstance(q, tuple) and q and q[0] == 'join' and out and isinstance(out[-1], str) and out[-1].endswith(q[1]):
                # sep + sep.join(list) is sep + element for every element (lists are not empty)
                _, sep, seq, e, ps = q
                out[-1] = out[-1][:-len(sep)]
                if not out[-1]:
                    out.pop()
                q = ('rep', seq, ((None, None, e, (sep,) + ps),))
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            else:
                out.append(q)
        self.p = tuple(out)

    def __add__(self, o):
        return Txt(*(self.p + o.p))

    def lit(self):
        return ''.join(self.p) if all(isinstance(q, str) for q in self.p) else None

    def __repr__(self):
        return ' + '.join(repr(q) if isinstance(q, str) else '<%s>' % (q,) if not isinstance(q, tuple) else '<%s>' % ' '.join(str(z) for z in q[:2]) for q in self.p) or "''"

    def __eq__(self, o):
        return isinstance(o, Txt) and len(self.p) == len(o.p) and all(same(a, b) for a, b in zip(self.p, o.p))

    def __hash__(self):
        return hash(len(self.p))


def same(a, b):
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Any_:
    """a value nothing is known about except its kind ('list', 'number', 'text', 'none', ...)"""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.items, self.words = {}, None       # of a list of words: the words, and how many there are when known

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class Self_:
    pass


class Attrs:
    """the attribute dictionary of the object, as an arbitrary mapping"""


class File:
    def __init__(self, name):
        self.name = name


class Mod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, name, this=None):
        self.name, self.this = name, this


class State:
    def __init__(self, attrs, facts=()):
        self.attrs, self.env, self.facts, self.fx = dict(attrs), {}, list(facts), []
        self.files = {}
        self.obs = []           # (name, goal, facts): domain conditions

    def fork(self):
        s = State(self.attrs, self.facts)
        s.env, s.fx, s.files, s.obs = dict(self.env), list(self.fx), dict(self.files), list(self.obs)
        return s


class Ret(Exception):
    pass


def num(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(repr(v)) if v == v and abs(v) != float('inf') else None
        if f is None:
            raise Unsupported('number %r' % v)
        return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported('number expected, got %r' % (v,))


def real(v):
    v = num(v)
    return z3.ToReal(v) if z3.is_int(v) else v


def pair(a, b):
    a, b = num(a), num(b)
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return real(a), real(b)


class PyExec:
    def __init__(self, path=None, cls='Sim'):
        self.src = open(path or os.path.join(REPO, 'sim_class.py')).read()
        tree = ast.parse(self.src)
        self.cls = None
        self.funcs = {}
        self.names = {}
        for n in tree.body:
            if isinstance(n, ast.ClassDef) and n.name == cls:
                self.cls = n
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name] = Mod(a.name)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = Fn('%s.%s' % (n.module, a.name))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
                self.names[n.targets[0].id] = self.const(n.value.value)
        if self.cls is None:
            raise Unsupported('class %s not found' % cls)
        self.meth = {f.name: f for f in self.cls.body if isinstance(f, ast.FunctionDef)}
        self.consts = {}
        for f in self.cls.body:
            if isinstance(f, ast.Assign) and isinstance(f.targets[0], ast.Name) and isinstance(f.value, ast.Constant):
                self.consts[f.targets[0].id] = self.const(f.value.value)
        self.executed = set()
        self.ctr = 0
        self.stubs = {}          # method name -> contract

    @staticmethod
    def const(v):
        return Txt(v) if isinstance(v, str) else v

    # ------------------------------------------------------------------ driver
    def call(self, name, args, st):
        """all paths of self.name(*args): list of (state, value)"""
        f = self.meth[name] if name in self.meth else self.funcs[name]
        return self.function(f, ([Self_()] if name in self.meth else []) + list(args), {}, st)

    def function(self, f, args, kw, st, depth=[0]):
        self.executed.add('%s (sim_class.py:%d)' % (f.name, f.lineno))
        if depth[0] > 20:
            raise Unsupported('recursion')
        a = f.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported('signature of ' + f.name)
        if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
            args = args[1:]
        elif f.decorator_list:
            raise Unsupported('decorator on ' + f.name)
        env = {}
        pn = [x.arg for x in a.args]
        for n_, v in zip(pn, args):
            env[n_] = v
        env.update(kw)
        for n_, d in zip(pn[len(pn) - len(a.defaults):], a.defaults):
            if n_ not in env:
                env[n_] = self.ev(d, st)[0][1]
        if set(env) != set(pn):
            raise Unsupported('arguments of ' + f.name)
        old = st.env
        st.env = env
        depth[0] += 1
        try:
            out = []
            for s, kind, v in self.block(f.body, st):
                s.env = old
                out.append((s, v))
            return out
        finally:
            depth[0] -= 1

    def block(self, ss, st):
        live = [st]
        done = []
        for s in ss:
            nxt = []
            for q in live:
                for s2, kind, v in self.stmt(s, q):
                    if kind == 'n':
                        nxt.append(s2)
                    else:
                        done.append((s2, kind, v))
            live = nxt
            if len(live) + len(done) > 200:
                raise Unsupported('too many paths')
        return done + [(q, 'n', None) for q in live]

    def feasible(self, facts):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*facts)
        return s.check() != z3.unsat

    def branch(self, c, st):
        """list of (state, truth)"""
        if isinstance(c, z3.BoolRef):
            c = z3.simplify(c)
            if z3.is_true(c) or z3.is_false(c):
                return [(st, z3.is_true(c))]
            out = []
            for b in (True, False):
                f = c if b else z3.Not(c)
                if self.feasible(st.facts + [f]):
                    s = st.fork()
                    s.facts.append(f)
                    out.append((s, b))
            return out
        if isinstance(c, z3.ArithRef):
            return self.branch(c != 0, st)
        if isinstance(c, Txt):
            l = c.lit()
            if l is None and not any(isinstance(q, str) for q in c.p):
                raise Unsupported('truth of text')
            return [(st, l != '')]
        if isinstance(c, Any_):
            if c.kind in ('none', 'list'):      # (lists of settings are not empty)
                return [(st, c.kind == 'list')]
            if c.kind in ('number', 'text', 'bool'):
                return self.branch(self.unknown(), st)
            raise Unsupported('truth of %r' % c)
        return [(st, bool(c))]

    def unknown(self):
        self.ctr += 1
        return z3.Bool('aux%d' % self.ctr)


    # ------------------------------------------------------------------ statements
    def stmt(self, n, st):
        k = type(n).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (k, n.lineno))
        return m(n, st)

    def s_Pass(self, n, st):
        return [(st, 'n', None)]

    s_Import = s_ImportFrom = s_Pass

    def s_Continue(self, n, st):
        return [(st, 'continue', None)]

    def s_FunctionDef(self, n, st):
        st.env[n.name] = Fn('closure', (n, st.env))
        return [(st, 'n', None)]

    def s_Try(self, n, st):
        out = []
        for s, kind, v in self.block(n.body, st):
            if kind == 'exc' and n.handlers:
                raise Unsupported('exception handler')
            live = [(s, kind, v)] if kind != 'n' else self.block(n.orelse, s)
            for s2, k2, v2 in live:
                for s3, k3, v3 in self.block(n.finalbody, s2):
                    out.append((s3, k2, v2) if k3 == 'n' else (s3, k3, v3))
        return out

    def closure(self, fn, args, kw, st):
        n, env = fn.this
        a = n.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or getattr(n, 'decorator_list', []) or len(args) != len(a.args) or kw:
            raise Unsupported('signature of a local function')
        old = st.env
        st.env = dict(env if env is not None else {}, **{x: y for x, y in old.items() if x in env or x == '#entry'})
        for x, v in zip(a.args, args):
            st.env[x.arg] = v
        out = []
        for s, v in ([(s, v) for s, kind, v in self.block(n.body, st)] if isinstance(n, ast.FunctionDef) else self.ev(n.body, st)):
            s.env = dict(old)
            out.append((s, v))
        return out

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, 'n', None)]
        return [(s, 'n', None) for s, v in self.ev(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, 'ret', None)]
        return [(s, 'ret', v) for s, v in self.ev(n.value, st)]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            for t in n.targets:
                self.assign(t, v, s)
            out.append((s, 'n', None))
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, 'n', None)]
        out = []
        for s, v in self.ev(n.value, st):
            self.assign(n.target, v, s)
            out.append((s, 'n', None))
        return out

    def s_AugAssign(self, n, st):
        e = ast.BinOp(left=ast.copy_location(self.load(n.target), n), op=n.op, right=n.value)
        ast.copy_location(e, n)
        out = []
        for s, v in self.ev(e, st):
            self.assign(n.target, v, s)
            out.append((s, 'n', None))
        return out

    @staticmethod
    def load(t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        raise Unsupported('target')

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            if len(b) != 1 or not isinstance(b[0][1], Self_):
                raise Unsupported('assignment to attribute')
            st.attrs[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Any_) and v.kind == 'textlist' and not any(isinstance(e, ast.Starred) for e in t.elts):
                if v.words != len(t.elts):
                    raise Unsupported('unpacking of %r' % (v,))
                v = [self.item(v, i) for i in range(len(t.elts))]
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts) or any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('unpacking')
            for a, b in zip(t.elts, v):
                self.assign(a, b, st)
        elif isinstance(t, ast.Subscript):
            (s, b), = self.ev(t.value, st)
            (s, i), = self.ev(t.slice, st)
            if isinstance(b, Mod) and b.name == 'os.environ':
                st.fx.append(('env', i, v))
            else:
                raise Unsupported('item assignment')
        else:
            raise Unsupported('target')

    def s_If(self, n, st):
        out = []
        for s, c in self.ev(n.test, st):
            for s2, b in self.branch(c, s):
                out += self.block(n.body if b else n.orelse, s2)
        return out

    def s_Raise(self, n, st):
        st.fx.append(('raise',))
        return [(st, 'exc', None)]

    def s_With(self, n, st):
        live = [st]
        for it in n.items:
            nxt = []
            for s in live:
                for s2, v in self.ev(it.context_expr, s):
                    if not isinstance(v, File):
                        raise Unsupported('with')
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, s2)
                    nxt.append(s2)
            live = nxt
        out = []
        for s in live:
            out += self.block(n.body, s)
        return out

    def s_For(self, n, st):
        if n.orelse:
            raise Unsupported('for-else')
        out = []
        for s, seq in self.ev(n.iter, st):
            if isinstance(seq, (list, tuple)):
                live = [s]
                for x in seq:
                    nxt = []
                    for q in live:
                        self.assign(n.target, x, q)
                        for s2, kind, v in self.block(n.body, q):
                            if kind not in ('n', 'continue'):
                                raise Unsupported('return inside a loop')
                            nxt.append(s2)
                    live = nxt
                out += [(q, 'n', None) for q in live]
            else:
                out.append((self.summary(n, s, seq), 'n', None))
        return out

    def summary(self, n, st, seq):
        """a loop over an arbitrary collection that only appends text: the appended text, element by element"""
        if isinstance(seq, Any_) and seq.kind == 'list':
            self.ctr += 1
            e = Any_('elem', 'number')
            cases = [(None, e, e)]
        elif isinstance(seq, (Attrs, tuple)) or (isinstance(seq, Any_) and seq.kind == 'items'):
            cases = []
            for kd in ('number', 'text', 'none', 'bool', 'list'):
                cases.append((kd, None, None))
        else:
            raise Unsupported('loop over %r' % (seq,))
        res = []
        marks = {}
        for kd, e, _ in cases:
            s = st.fork()
            for v, x in list(s.env.items()):
                if isinstance(x, Txt):
                    marks[v] = Txt(('mark', v))
                    s.env[v] = marks[v]
            for f, x in list(s.files.items()):
                s.files[f] = Txt(('mark', f))
            nm = Any_('name', 'text')
            val = Any_('value', kd) if kd else None
            if kd:
                s.env['#entry'] = (nm, val)
            item = e if kd is None else (nm if isinstance(seq, Attrs) else (nm, val))
            self.assign(n.target, item, s)
            r = self.block(n.body, s)
            if any(o not in ('n', 'continue') for _, o, *_ in r):
                raise Unsupported('loop body that leaves the loop')
            # one case per path: what is appended has to be right on each of them
            for q, *_ in r:
                if len(q.fx) != len(st.fx) or any(q.attrs.get(a) is not b for a, b in st.attrs.items()):
                    raise Unsupported('loop body with other effects')
                d = {}
                for where, new, old in [(('env', v), q.env.get(v), marks[v]) for v in marks] + [(('file', f), q.files.get(f), Txt(('mark', f))) for f in s.files]:
                    if not isinstance(new, Txt) or not new.p:
                        d[where] = None         # a scratch variable: not meaningful after the loop
                    elif same(new.p[0], old.p[0]) and not any(isinstance(z, tuple) and z[0] == 'mark' for z in new.p[1:]):
                        d[where] = new.p[1:]
                    else:
                        d[where] = None
                res.append((kd, nm, val if kd else e, d))
        s = st
        for where in res[0][3]:
            ds = [d[where] for kd, nm, val, d in res]
            if any(x is None for x in ds):
                if where[0] == 'file':
                    raise Unsupported('file content is not appended')
                s.env.pop(where[1], None)
                continue
            if all(x == () for x in ds):
                continue
            part = ('rep', seq if not isinstance(seq, Attrs) else 'attributes', tuple((kd, nm, val, d[where]) for kd, nm, val, d in res))
            if where[0] == 'file':
                s.files[where[1]] = s.files[where[1]] + Txt(part)
            else:
                s.env[where[1]] = s.env[where[1]] + Txt(part)
        return s

    # ------------------------------------------------------------------ expressions: list of (state, value)
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (type(n).__name__, getattr(n, 'lineno', 0)))
        return m(n, st)

    def evs(self, ns, st):
        live = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in live:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            live = nxt
        return live

    def e_Constant(self, n, st):
        return [(st, self.const(n.value))]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st, st.env[n.id])]
        if n.id in self.names:
            return [(st, self.names[n.id])]
        if n.id in self.funcs:
            return [(st, Fn('user.' + n.id))]
        return [(st, Fn('builtin.' + n.id))]

    def e_Attribute(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            if isinstance(b, Self_):
                if n.attr in s.attrs:
                    v = s.attrs[n.attr]
                elif n.attr in self.meth:
                    v = Fn('self.' + n.attr)
                elif n.attr in self.consts:
                    v = self.consts[n.attr]
                elif n.attr == '__dict__':
                    v = Attrs()
                else:
                    raise Unsupported('attribute %s is not set' % n.attr)
                out.append((s, v))
            elif isinstance(b, Mod):
                q = b.name + '.' + n.attr
                if b.name == 'os.environ':
                    out.append((s, Fn('.' + n.attr, b)))
                    continue
                out.append((s, Mod(q) if q in ('os.environ', 'os.path') else self.modconst(q)))
            elif isinstance(b, (Txt, File, Attrs, Any_, list, dict)):
                out.append((s, Fn('.' + n.attr, b)))
            else:
                raise Unsupported('attribute of %r' % (b,))
        return out

    def modconst(self, q):
        if q == 'os.sep':
            return Txt('/')
        return Fn(q)

    def e_Tuple(self, n, st):
        return [(s, tuple(v)) for s, v in self.evs(n.elts, st)]

    def e_List(self, n, st):
        return [(s, list(v)) for s, v in self.evs(n.elts, st)]

    def e_JoinedStr(self, n, st):
        live = [(st, Txt())]
        for p in n.values:
            nxt = []
            for s, t in live:
                if isinstance(p, ast.Constant):
                    nxt.append((s, t + Txt(p.value)))
                else:
                    spec = ''
                    if p.format_spec is not None:
                        q = self.ev(p.format_spec, s)
                        spec = q[0][1].lit()
                    for s2, v in self.ev(p.value, s):
                        nxt.append((s2, t + self.fmt(v, spec, {-1: '', 115: '', 114: '!r'}.get(p.conversion, '?'))))
            live = nxt
        return live

    def e_IfExp(self, n, st):
        out = []
        for s, c in self.ev(n.test, st):
            for s2, b in self.branch(c, s):
                out += self.ev(n.body if b else n.orelse, s2)
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        live, out = [(st, None)], []
        for i, e in enumerate(n.values):
            nxt = []
            for s, _ in live:
                for s2, v in self.ev(e, s):
                    for s3, b in self.branch(v, s2):
                        if b != isand or i == len(n.values) - 1:
                            out.append((s3, b))
                        else:
                            nxt.append((s3, b))
            live = nxt
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                for s2, b in self.branch(v, s):
                    out.append((s2, not b))
            elif isinstance(n.op, ast.USub):
                out.append((s, -v if isinstance(v, (int, float)) else -num(v)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                raise Unsupported('unary operator')
        return out

    def e_BinOp(self, n, st):
        out = []
        for s, (a, b) in self.evs([n.left, n.right], st):
            out.append((s, self.binop(n.op, a, b, s, n)))
        return out

    def fresh(self, s, sort='R'):
        self.ctr += 1
        return z3.Real('aux%d' % self.ctr) if sort == 'R' else z3.Int('aux%d' % self.ctr)

    def need(self, s, name, goal, n):
        s.obs.append(('%s at sim_class.py:%s' % (name, getattr(n, 'lineno', '?')), goal, list(s.facts)))
        s.facts.append(goal)

    def binop(self, op, a, b, s, n):
        istx = lambda v: isinstance(v, Txt) or (isinstance(v, Any_) and v.kind == 'text')
        if istx(a) or istx(b):
            if isinstance(op, ast.Add) and isinstance(a, (Txt, Any_)) and isinstance(b, (Txt, Any_)):
                return self.totxt(a) + self.totxt(b)
            if isinstance(op, ast.Mod) and isinstance(a, Txt):
                return self.percent(a, b if isinstance(b, tuple) else (b,))
            raise Unsupported('operator on text')
        if isinstance(op, ast.Add) and isinstance(a, list) and a and isinstance(b, tuple) and len(b) == 4 and b[0] == 'gen':
            return ('cat', a, b)
        if isinstance(a, list) and isinstance(b, list) and isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Pow):
            return self.pow(a, b, s, n)
        if isinstance(op, ast.Div):
            x, y = real(a), real(b)
            self.need(s, 'division by zero', y != 0, n)
            return x / y
        x, y = pair(a, b)
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            self.need(s, 'division by zero', y != 0, n)
            q = self.fresh(s, 'I')
            w = real(x) / real(y)
            s.facts += [z3.ToReal(q) <= w, w < z3.ToReal(q) + 1]
            if isinstance(op, ast.FloorDiv):
                return q if z3.is_int(x) else z3.ToReal(q)
            return x - y * (q if z3.is_int(x) else z3.ToReal(q))
        raise Unsupported('operator')

    def pow(self, a, b, s, n):
        bv = z3.simplify(num(b))
        if z3.is_int_value(bv) or (z3.is_rational_value(bv) and bv.denominator_as_long() == 1):
            e = bv.as_long() if z3.is_int_value(bv) else bv.numerator_as_long()
            x = num(a)
            if abs(e) > 12:
                raise Unsupported('power')
            if e < 0:
                self.need(s, 'division by zero', x != 0, n)
                x = real(x)
            r = None
            for _ in range(abs(e)):
                r = x if r is None else r * x
            if r is None:
                return z3.IntVal(1)
            return 1 / r if e < 0 else r
        if z3.is_rational_value(bv) and bv.denominator_as_long() == 2:
            p = bv.numerator_as_long()
            y = self.root(real(a), s, n)
            return self.pow(y, p, s, n)
        raise Unsupported('power %s' % bv)

    def root(self, x, s, n):
        self.need(s, 'root of a negative number', x >= 0, n)
        y = self.fresh(s)
        s.facts += [y >= 0, y * y == x]
        return y

    def e_Compare(self, n, st):
        out = []
        for s, vs in self.evs([n.left] + list(n.comparators), st):
            r = True
            for op, a, b in zip(n.ops, vs, vs[1:]):
                c = self.compare(op, a, b)
                if r is True:
                    r = c
                elif c is not True:
                    if not isinstance(r, z3.BoolRef) and not r:
                        break
                    r = z3.And(r, c) if isinstance(c, (z3.BoolRef, bool)) else c
            out.append((s, r))
        return out

    def compare(self, op, a, b):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple)):
                rs = [self.compare(ast.Eq(), a, x) for x in b]
                if all(isinstance(r, bool) for r in rs):
                    return any(rs) != neg
            raise Unsupported('in')
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
                if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                    c = (a if isinstance(a, z3.BoolRef) else z3.BoolVal(a)) == b
                    return z3.Not(c) if neg else c
            if a is None or b is None:
                if isinstance(a, Any_) or isinstance(b, Any_):
                    o = a if b is None else b
                    if o.kind == 'none?':
                        raise Unsupported('unknown None-ness')
                    return (o.kind == 'none') != neg
                return (a is b) != neg
            if isinstance(a, Kind) or isinstance(b, Kind):
                if isinstance(a, Kind) and isinstance(b, Fn):
                    return a.of(b.name) != neg
                if isinstance(b, Kind) and isinstance(a, Fn):
                    return b.of(a.name) != neg
                raise Unsupported('type comparison')
            if isinstance(a, Txt) and isinstance(b, Txt):
                if a.lit() is not None and b.lit() is not None:
                    return (a.lit() == b.lit()) != neg
                raise Unsupported('comparison of unknown text')
            if isinstance(a, Any_) or isinstance(b, Any_):
                o, w = (a, b) if isinstance(a, Any_) else (b, a)
                if o is not w and o.name == 'value' and isinstance(w, (Txt, bool, int, float, z3.ArithRef)):
                    k = 'text' if isinstance(w, Txt) else 'bool' if isinstance(w, bool) else 'number'
                    if o.kind == k or {o.kind, k} == {'bool', 'number'}:
                        return self.unknown()
                    return neg
                raise Unsupported('comparison of unknown value')
            if isinstance(a, bool) and isinstance(b, bool):
                return (a == b) != neg
            x, y = pair(a, b)
            return x != y if neg else x == y
        x, y = pair(a, b)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def e_Subscript(self, n, st):
        out = []
        for s, (b, i) in self.evs([n.value, n.slice], st):
            if isinstance(b, Attrs):
                e = s.env.get('#entry')
                if e is not None and i is e[0]:
                    out.append((s, e[1]))
                    continue
                raise Unsupported('attribute by name')
            if isinstance(b, (list, tuple)) and isinstance(i, int):
                out.append((s, b[i]))
                continue
            if isinstance(b, Any_) and b.kind in ('textlist',) and isinstance(i, int):
                if b.words is not None and not -b.words <= i < b.words:
                    raise Unsupported('item %d of %r' % (i, b))
                out.append((s, self.item(b, i % b.words if b.words else i)))
                continue
            if isinstance(b, dict) and self.key(i) in b:
                out.append((s, b[self.key(i)]))
                continue
            raise Unsupported('subscript')
        return out

    def item(self, v, i):
        if i not in v.items:
            v.items[i] = Any_('%s[%d]' % (v.name, i), 'text')
        return v.items[i]

    @staticmethod
    def key(k):
        k = k.lit() if isinstance(k, Txt) else k
        if not isinstance(k, (str, int)):
            raise Unsupported('key of a dictionary')
        return k

    def e_Dict(self, n, st):
        if any(k is None for k in n.keys):
            raise Unsupported('dictionary display')
        out = []
        for s, vs in self.evs(list(n.keys) + list(n.values), st):
            m = len(n.keys)
            out.append((s, {self.key(k): v for k, v in zip(vs[:m], vs[m:])}))
        return out

    def e_Lambda(self, n, st):
        return [(st, Fn('closure', (n, st.env)))]

    def e_GeneratorExp(self, n, st):
        g = n.generators[0]
        if len(n.generators) != 1 or g.ifs or g.is_async:
            raise Unsupported('comprehension')
        out = []
        for s, seq in self.ev(g.iter, st):
            old = dict(s.env)
            if isinstance(seq, Any_) and seq.kind == 'list':
                e = Any_('elem', 'number')
                q = s.fork()
                self.assign(g.target, e, q)
                r = self.ev(n.elt, q)
                if len(r) != 1 or len(r[0][0].fx) != len(s.fx):
                    raise Unsupported('comprehension with several paths')
                out.append((s, ('gen', seq, e, r[0][1])))
            elif isinstance(seq, Attrs) or (isinstance(seq, Any_) and seq.kind == 'items'):
                cases = []
                for kd in ('number', 'text', 'none', 'bool', 'list'):
                    q = s.fork()
                    nm, val = Any_('name', 'text'), Any_('value', kd)
                    q.env['#entry'] = (nm, val)
                    self.assign(g.target, nm if isinstance(seq, Attrs) else (nm, val), q)
                    r = self.ev(n.elt, q)
                    if len(r) != 1 or len(r[0][0].fx) != len(s.fx):
                        raise Unsupported('comprehension with several paths')
                    cases.append((kd, nm, val, r[0][1]))
                out.append((s, ('rep', 'attributes' if isinstance(seq, Attrs) else seq, tuple(cases))))
            elif isinstance(seq, (list, tuple)):
                live = [(s, [])]
                for x in seq:
                    nxt = []
                    for q, acc in live:
                        self.assign(g.target, x, q)
                        nxt += [(q2, acc + [v]) for q2, v in self.ev(n.elt, q)]
                    live = nxt
                for q, acc in live:
                    for v in list(q.env):
                        if v not in old:
                            del q.env[v]
                        else:
                            q.env[v] = old[v]
                out += live
            else:
                raise Unsupported('comprehension over %r' % (seq,))
        return out

    e_ListComp = e_GeneratorExp

    def e_Call(self, n, st):
        if any(isinstance(a, (ast.Starred,)) for a in n.args) or any(k.arg is None for k in n.keywords):
            raise Unsupported('call form at line %d' % n.lineno)
        out = []
        for s, vs in self.evs([n.func] + list(n.args) + [k.value for k in n.keywords], st):
            f, args = vs[0], vs[1:1 + len(n.args)]
            kw = {k.arg: v for k, v in zip(n.keywords, vs[1 + len(n.args):])}
            if not isinstance(f, Fn):
                raise Unsupported('call of %r' % (f,))
            if f.name == 'closure':
                out += self.closure(f, args, kw, s)
                continue
            if f.name == 'builtin.map' and len(args) == 2 and isinstance(args[0], Fn) and not kw:
                out += self.mapped(args[0], args[1], s, n)
                continue
            if f.name.startswith('self.'):
                m = f.name[5:]
                if m in self.stubs:
                    out += self.stubs[m](args, kw, s)
                else:
                    out += self.function(self.meth[m], [Self_()] + args, kw, s)
            elif f.name.startswith('user.'):
                out += self.function(self.funcs[f.name[5:]], args, kw, s)
            else:
                out += self.lib(f, args, kw, s, n)
        return out

    def apply(self, f, args, s, n):
        if f.name == 'closure':
            return self.closure(f, args, {}, s)
        if f.name.startswith('self.'):
            return self.function(self.meth[f.name[5:]], [Self_()] + args, {}, s)
        if f.name.startswith('user.'):
            return self.function(self.funcs[f.name[5:]], args, {}, s)
        return self.lib(f, args, {}, s, n)

    def mapped(self, f, seq, s, n):
        if isinstance(seq, Any_) and seq.kind == 'list':
            e = Any_('elem', 'number')
            r = self.apply(f, [e], s.fork(), n)
            if len(r) != 1 or len(r[0][0].fx) != len(s.fx):
                raise Unsupported('map with several paths')
            return [(s, ('gen', seq, e, r[0][1]))]
        if isinstance(seq, (list, tuple)) and not (isinstance(seq, tuple) and seq[:1] == ('gen',)):
            live = [(s, [])]
            for x in seq:
                live = [(q2, acc + [v]) for q, acc in live for q2, v in self.apply(f, [x], q, n)]
            return live
        raise Unsupported('map over %r' % (seq,))

    # ------------------------------------------------------------------ library
    def totxt(self, v):
        if isinstance(v, Txt):
            return v
        if isinstance(v, Any_) and v.kind == 'text':
            return Txt(v)
        if isinstance(v, bool) or v is None:
            return Txt(str(v))
        if isinstance(v, Any_):
            return Txt(('str', v))
        if isinstance(v, int):
            return Txt(str(v))
        if isinstance(v, (z3.ExprRef, float)):
            return Txt(('str', v))
        raise Unsupported('text of %r' % (v,))

    def fmt(self, v, spec, conv=''):
        if conv == '!r' and isinstance(v, (z3.ArithRef, float, int)):
            conv = ''
        if conv == '!r' and isinstance(v, Any_) and v.kind in ('number', 'bool', 'none'):
            conv = ''
        if spec in ('', 's') and conv == '':
            return self.totxt(v)
        return Txt(('fmt', v, spec, conv))

    def format(self, t, args, kw):
        import string
        l = t.lit()
        if l is None:
            raise Unsupported('format string')
        out, auto = Txt(), 0
        for lit, field, spec, conv in string.Formatter().parse(l):
            out = out + Txt(lit)
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported('format field')
            out = out + self.fmt(v, spec or '', '!' + conv if conv else '')
        return out

    def percent(self, t, args):
        import re
        l = t.lit()
        if l is None:
            raise Unsupported('format string')
        out, i, pos = Txt(), 0, 0
        for m in re.finditer(r'%([-+ #0]*[\d.]*)([a-zA-Z%])', l):
            out = out + Txt(l[pos:m.start()])
            pos = m.end()
            if m.group(2) == '%':
                out = out + Txt('%')
                continue
            out = out + (self.totxt(args[i]) if m.group(2) == 's' and not m.group(1) else Txt(('fmt', args[i], m.group(0), '%')))
            i += 1
        return out + Txt(l[pos:])

    def toint(self, v, s):
        v = num(v)
        if z3.is_int(v):
            return v
        k = self.fresh(s, 'I')
        r = z3.ToReal(k)
        s.facts.append(z3.If(v >= 0, z3.And(r <= v, v < r + 1), z3.And(v <= r, r - 1 < v)))
        return k

    def floor(self, v, s, up=False):
        v = num(v)
        if z3.is_int(v):
            return v
        k = self.fresh(s, 'I')
        r = z3.ToReal(k)
        s.facts += [v <= r, r - 1 < v] if up else [r <= v, v < r + 1]
        return k

    def round(self, v, s):
        """to the nearest integer, a half to the even one"""
        v = num(v)
        if z3.is_int(v):
            return v
        k = self.fresh(s, 'I')
        r = z3.ToReal(k)
        h = z3.RealVal('1/2')
        s.facts += [r - h <= v, v <= r + h, z3.Implies(z3.Or(v == r - h, v == r + h), k % 2 == 0)]
        return k

    def lib(self, f, a, kw, s, n):
        q = f.name.replace('builtin.', '')
        one = lambda v: [(s, v)]
        if q.startswith('.'):
            m, o = q[1:], f.this
            if isinstance(o, Txt):
                if m == 'format':
                    return one(self.format(o, a, kw))
                if m == 'join' and len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 4 and a[0][0] == 'gen':
                    if o.lit() is None:
                        raise Unsupported('join')
                    return one(Txt(('join', o.lit(), a[0][1], a[0][2], self.totxt(a[0][3]).p)))
                if m == 'join' and len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 3 and a[0][0] == 'cat':
                    if o.lit() is None:
                        raise Unsupported('join')
                    t = Txt()
                    for i, x in enumerate(a[0][1]):
                        t = t + (o if i else Txt()) + self.totxt(x)
                    g = a[0][2]
                    return one(t + Txt(('rep', g[1], ((None, None, g[2], (o.lit(),) + self.totxt(g[3]).p),))))
                if m == 'join' and len(a) == 1 and isinstance(a[0], (list, tuple)):
                    t = Txt()
                    for i, x in enumerate(a[0]):
                        t = t + (o if i else Txt()) + self.totxt(x)
                    return one(t)
            if isinstance(o, File) and m == 'write':
                s.files[o.name] = s.files[o.name] + self.totxt(a[0])
                return one(None)
            if isinstance(o, File) and m in ('close', 'flush'):
                return one(None)
            if isinstance(o, File) and m == 'writelines':
                if isinstance(a[0], (list, tuple)) and not (isinstance(a[0], tuple) and a[0][:1] in (('gen',), ('rep',))):
                    for x in a[0]:
                        s.files[o.name] = s.files[o.name] + self.totxt(x)
                    return one(None)
                if isinstance(a[0], tuple) and a[0][0] == 'rep':
                    s.files[o.name] = s.files[o.name] + Txt(('rep', a[0][1], tuple((kd, nm, v, self.totxt(x).p) for kd, nm, v, x in a[0][2])))
                    return one(None)
            if isinstance(o, Mod) and o.name == 'os.environ' and m == 'update' and len(a) <= 1:
                for k_, v in list((a[0] if a else {}).items()) + list(kw.items()):
                    s.fx.append(('env', Txt(k_), v))
                return one(None)
            if isinstance(o, dict) and m in ('items', 'keys', 'values', 'get'):
                if m == 'get':
                    return one(o.get(self.key(a[0]), a[1] if len(a) > 1 else None))
                return one([(Txt(x) if isinstance(x, str) else x, y) for x, y in o.items()] if m == 'items' else [Txt(x) if isinstance(x, str) else x for x in o] if m == 'keys' else list(o.values()))
            if isinstance(o, Attrs) and m == 'items':
                return one(Any_('attribute items', 'items'))
            if isinstance(o, Attrs) and m == 'keys':
                return one(Attrs())
            if isinstance(o, Any_) and o.kind in ('text', 'textlist'):
                r = Any_('%s.%s(%s)' % (o.name, m, ','.join(map(repr, a))), 'textlist' if m == 'split' else 'text')
                if m == 'split' and o.name == 'time' and not a:
                    r.words = 5         # weekday month day hh:mm:ss year
                return one(r)
            raise Unsupported('method %s of %r' % (m, o))
        if q == 'str' and len(a) == 1:
            return one(self.totxt(a[0]))
        if q in ('float', 'numpy.float64'):
            return one(real(a[0]))
        if q == 'int' and len(a) == 1:
            return one(self.toint(a[0], s))
        if q == 'bool' and isinstance(a[0], (bool, z3.BoolRef)):
            return one(a[0])
        if q in ('max', 'min'):
            xs = list(a[0]) if len(a) == 1 else a
            r = num(xs[0])
            for x in xs[1:]:
                r, y = pair(r, x)
                r = z3.If(y > r, y, r) if q == 'max' else z3.If(y < r, y, r)
            return one(r)
        if q == 'abs' or q == 'math.fabs':
            x = num(a[0])
            return one(z3.If(x < 0, -x, x))
        if q in ('pow', 'math.pow'):
            return one(self.pow(a[0], a[1], s, n))
        if q == 'math.sqrt':
            return one(self.root(real(a[0]), s, n))
        if q == 'math.floor':
            return one(self.floor(a[0], s))
        if q == 'math.ceil':
            return one(self.floor(a[0], s, True))
        if q == 'round' and len(a) == 1:
            return one(self.round(a[0], s))
        if q == 'math.trunc':
            return one(self.toint(a[0], s))
        if q == 'getattr' and len(a) in (2, 3) and isinstance(a[0], Self_):
            e = s.env.get('#entry')
            if e is not None and a[1] is e[0]:
                return one(e[1])
            if isinstance(a[1], Txt) and a[1].lit() in s.attrs:
                return one(s.attrs[a[1].lit()])
            raise Unsupported('getattr')
        if q == 'os.chmod' and len(a) == 2:
            m = num(a[1])
            s.fx.append(('chmod', self.totxt(a[0]), m.as_long() if z3.is_int_value(m) else None))
            return one(None)
        if q in ('vars',) and isinstance(a[0], Self_):
            return one(Attrs())
        if q == 'list' and len(a) == 1 and isinstance(a[0], (Attrs, list)):
            return one(a[0])
        if q == 'type' and len(a) == 1:
            return one(Kind(a[0]))
        if q == 'isinstance':
            ks = a[1] if isinstance(a[1], tuple) else (a[1],)
            return one(any(Kind(a[0]).of(k.name) for k in ks))
        if q == 'open':
            nm = self.totxt(a[0])
            mode = a[1].lit() if len(a) > 1 else (kw['mode'].lit() if 'mode' in kw else 'r')
            if mode not in ('w', 'wt', 'a'):
                raise Unsupported('open mode')
            key = repr(nm)
            s.fx.append(('open', nm, mode))
            if mode != 'a' or key not in s.files:
                s.files[key] = Txt() if mode != 'a' else Txt(('old content',))
            return one(File(key))
        if q == 'len' and isinstance(a[0], (list, tuple)):
            return one(len(a[0]))
        if q == 'print':
            return one(None)
        if q in ('os.makedirs', 'os.chdir', 'os.mkdir'):
            s.fx.append((q.split('.')[1].replace('mkdirs', 'mkdir'), self.totxt(a[0])))
            return one(None)
        if q in ('shutil.copyfile', 'shutil.copy', 'shutil.copy2'):
            s.fx.append(('copy', self.totxt(a[0]), self.totxt(a[1])))
            return one(None)
        if q in ('subprocess.call', 'subprocess.run', 'subprocess.check_call', 'os.system'):
            if q == 'os.system' and not kw or kw.get('shell') is True and set(kw) <= {'shell', 'cwd', 'check'}:
                s.fx.append(('command', self.totxt(a[0])) + ((self.totxt(kw['cwd']),) if kw.get('cwd') is not None else ()))
                return one(num(0) if q != 'subprocess.run' else Any_('result of a command', 'result'))
            raise Unsupported('form of ' + q)
        if q in ('os.getcwd',):
            return one(Any_('cwd', 'text'))
        if q == 'os.path.join':
            t = self.totxt(a[0])
            for x in a[1:]:
                x = self.totxt(x)
                h = x.p[0] if x.p else ''
                if isinstance(h, str) and h.startswith('/'):
                    t = x           # an absolute component drops what comes before it
                    continue
                if isinstance(h, Any_) and h.name in ('output_stem', 'output_dir_setting', 'home_dir', 'out_stem'):
                    raise Unsupported('joining a path that may be absolute')
                e = t.p[-1] if t.p else ''
                t = t + (Txt() if isinstance(e, str) and e.endswith('/') else Txt('/')) + x
            return one(t)
        if q == 'time.asctime':
            return one(Any_('time', 'text'))
        raise Unsupported('call of %s at line %d' % (q, n.lineno))


class Kind:
    def __init__(self, v):
        self.v = v

    def of(self, name):
        name = name.replace('builtin.', '')
        v = self.v
        if isinstance(v, Any_):
            k = v.kind
            if k == 'number' and name in ('int', 'float'):
                raise Unsupported('int or float')
            return {'list': 'list', 'text': 'str', 'bool': 'bool', 'number': 'number', 'none': 'NoneType'}.get(k) == name
        t = {Txt: 'str', bool: 'bool', int: 'int', float: 'float', list: 'list', tuple: 'tuple', type(None): 'NoneType'}.get(type(v))
        if t is None:
            if isinstance(v, z3.ArithRef):
                return name == ('int' if z3.is_int(v) else 'float')
            raise Unsupported('type of %r' % (v,))
        return t == name
