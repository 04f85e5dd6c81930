"""Shared machinery for the property specifications: running the real code symbolically, contracts of the modules a
caller is checked against, and recording obligations."""
import time
import traceback
from . import front, prove as pv, term as tm, exec as X
from .term import T, I, R, var, avar, le, lt, eq, andd, implies, app, sel, TRUE
from .exec import Exec, St, P, Unsupported

CONFIGS = [(True, True), (True, False), (False, True), (False, False)]     # USE_CHEB, SHTNS_CONTIGUOUS_LONGITUDES


def cfg_name(c):
    return ('cheb' if c[0] else 'fd') + ('-contig' if c[1] else '-native')


class Run:
    """one symbolic run of real code"""

    def __init__(self, cheb, contig, contracts=None, omp=False, log=False):
        self.prog = front.program(cheb, contig)
        self.cfg = (cheb, contig)
        self.ex = Exec(self.prog, contracts or {}, omp=omp, log=log)
        self.st = St()
        self.ex.materialise(self.st)

    def assume(self, *f):
        self.st.assume(*f)

    def vec(self, name, n, kind='R', data=None):
        p = ('a', name)
        m = self.st.mem
        m[p + ('#n',)] = n
        if kind == 'C':
            m[p + ('#re',)] = avar(name + '.re')
            m[p + ('#im',)] = avar(name + '.im')
        else:
            m[p + ('#d',)] = data if data is not None else avar(name, kind)
        return P(p)

    def obj(self, cls, args, name='o', nparams=None):
        o = self.ex.new_object(cls, ('obj', name), list(args), self.st, nparams)
        self.st.mem[('obj', name, '#args')] = tuple(args)
        return o

    def call(self, qual, this, args, nparams=None, sig=None):
        fd = self.prog.one(qual, nparams if nparams is not None else len(args), sig)
        return self.ex.run(fd, this.path if isinstance(this, P) else this, list(args), self.st)

    def arr(self, p, comp='#d'):
        return self.st.mem[p.path + (comp,)]

    def at(self, p, *idx, comp='#d'):
        return sel(self.arr(p, comp), tuple(idx))

    def ctx(self, *facts):
        return self.st.ctx().add(*facts)

    def snapshot(self):
        return dict(self.st.mem)


def changed_keys(m0, m1):
    """persistent storage (objects, parameters, globals) that differs"""
    out = []
    for k, v in m1.items():
        if k[0] in ('obj', 'a', 'g') and k[-1] != '#class':
            w = m0.get(k)
            if w is None:
                if k[0] == 'g' and k[1] != 'static':
                    continue        # a constant of the program, first looked at here
                out.append(k)
            elif w is not v and not (not isinstance(v, T) and w == v):
                out.append(k)
    for k in m0:
        if k[0] in ('obj', 'a', 'g') and k not in m1:
            out.append(k)
    return out
