"""C22: the evolution driver."""
from .common import *
from . import eom
from .eom import params_obj
from .. import lib, loops, traces
from ..exec import Trace, Ptr, Row
from ..contracts import _vec, size_pre, _args, n_grid, both

NT, TS = var('nt'), var('t_step_save')
OUT, PFILE = var('output_dir', 'S'), var('param_file', 'S')
NAMES = dict(eom.NAMES, nt=NT, t_step_save=TS)


def state(s, L):
    return tm.farr('state.' + s, (L,), ())


def rho_of(A, B):
    i, j = fresh('k'), fresh('k')
    return tm.farr('Scalar_eom.set_rho', (), ((A, (i,), ((I(0), N3),), (i,)), (B, (j,), ((I(0), N3),), (j,))))


def pre(ex, st, n, goal, what):
    if not ex.dry:
        ex.oblig('contract-precondition', goal if isinstance(goal, T) else (TRUE if goal else tm.FALSE), st, n, what)


def contracts(values):
    """contracts of everything main calls; `values` gives the parameter values by accessor"""
    c = dict(ct.UPPER)

    def params_ctor(ex, fd, this, vals, st, n):
        for key, v in values['mem'].items():
            st.mem[this + key] = v
        st.mem[this + ('#args',)] = (lib.tostr(vals[0] if isinstance(vals[0], T) else ex.rv(vals[0], st), st),)
        return None

    def eom_ctor(ex, fd, this, vals, st, n):
        g, p = [v if isinstance(v, P) else ex.ev(v, st) for v in vals]
        st.mem[this + ('#args',)] = (g.path, p.path)
        return None

    def pulse(ex, fd, this, vals, st, n):
        p, g, a, b = vals
        A, B = _vec(ex, a, st), _vec(ex, b, st)
        pre(ex, st, n, A != B, 'two different fields')
        cnt = n_grid(_args(st, g.path))
        for x, s in ((A, 'f'), (B, 'p')):
            size_pre(ex, st, n, x, cnt, 'initial field')
            lib.set_all(ex, Ptr(x), '#d', cnt, state(s, I(0)), st)
        return None

    def step(ex, fd, this, vals, st, n):
        g, f, p = vals
        ga, pa = _args(st, this)
        pre(ex, st, n, ga == g.path, 'the solver was built for this grid')
        cnt = n_grid(_args(st, g.path))
        for o in (f, p):
            for m in ('n', 'l', 'np1', 'k'):
                size_pre(ex, st, n, o.path + (m,), cnt, 'field level')
        pre(ex, st, n, f.path != p.path, 'two different fields')
        A, B = st.mem[f.path + ('n', '#d')], st.mem[p.path + ('n', '#d')]
        la, lb = loops.level_of(A, cnt, st.ctx()), loops.level_of(B, cnt, st.ctx())
        if la and lb and la[0] == 'state.f' and lb[0] == 'state.p' and pv.prove_eq(la[1], lb[1], st.ctx()):
            # by definition: state(L+1) is one step from state(L); the current level holds the filtered state
            na, nb = [tm.farr('filtered.' + s, (la[1],), ()) for s in 'fp']
            ua, ub = state('f', la[1] + I(1)), state('p', la[1] + I(1))
        else:
            i, j = fresh('k'), fresh('k')
            ar = ((A, (i,), ((I(0), cnt),), (i,)), (B, (j,), ((I(0), cnt),), (j,)))
            na, nb, ua, ub = [tm.farr('step.' + q, (), ar) for q in ('nf', 'np', 'f', 'p')]
        for o, x, u in ((f, na, ua), (p, nb, ub)):
            st.mem[o.path + ('n', '#d')] = x
            st.mem[o.path + ('np1', '#d')] = u
            for m in ('l', 'k'):
                st.mem[o.path + (m, '#d')] = tm.farr('scratch.' + m, (), ((x, (fresh('k'),), (), (I(0),)),))
        return None

    def set_rho(ex, fd, this, vals, st, n):
        g, f, p, o = vals
        A, B, O = [_vec(ex, v, st) for v in (f, p, o)]
        ga, pa = _args(st, this)
        pre(ex, st, n, ga == g.path, 'the solver was built for this grid')
        cnt = n_grid(_args(st, g.path))
        for x in (A, B, O):
            size_pre(ex, st, n, x, cnt, 'argument of set_rho')
        pre(ex, st, n, O not in (A, B), 'set_rho writes an array different from its inputs')
        lib.set_all(ex, Ptr(O), '#d', cnt, rho_of(st.mem[A + ('#d',)], st.mem[B + ('#d',)]), st)
        return None

    def saver(kind):
        def w(ex, fd, this, vals, st, n):
            vals = list(vals)
            if kind != '':
                vals.pop(0)
            nm_, arr = vals[0], _vec(ex, vals[-1], st)
            sc = vals[1] if kind != '' else TRUE
            itm = vals[2] if kind != '' else vals[1]
            rv = lambda v: v if isinstance(v, T) else ex.rv(v, st)
            lib.emit(st, ('save', tm.string(kind), lib.tostr(rv(nm_), st), rv(itm), rv(sc), st.mem[arr + ('#d',)], st.mem[arr + ('#n',)]))
            return None
        return w
    c.update({'Params::Params': params_ctor, 'Scalar_eom::Scalar_eom': eom_ctor, 'ID::compact_pulse': pulse, 'Scalar_eom::time_step': step,
              'Scalar_eom::set_rho': set_rho, 'Csv::write': saver(''), 'Csv::write_R_psl': saver('R'), 'Csv::write_n_psl': saver('N'),
              'Csv::write_x_y_z': saver('XYZ')})
    return c


def run_main(k, cheb, contig, nt=None, ts=None, omp=False):
    k.prefer = pref()
    probe = k.run(cheb, contig, {})
    o = params_obj(probe, dict(NAMES, **({'nt': I(nt), 't_step_save': I(ts)} if nt is not None else {})))
    mem = {key[len(o.path):]: v for key, v in probe.st.mem.items() if key[:len(o.path)] == o.path and key[-1] != '#class'}
    r = k.run(cheb, contig, contracts({'mem': mem}), omp)
    r.assume(*probe.st.facts)
    r.assume(*VALID)
    r.assume(le(I(0), NT), le(I(1), TS), lt(NT, I(2 ** 30)))
    m = r.st.mem
    a = ('a', 'argv')
    m[a + ('#n',)] = I(3)
    m[a + ('#d',)] = tm.store(tm.store(tm.store(avar('argv', 'S'), (I(0),), var('argv0', 'S')), (I(1),), PFILE), (I(2),), OUT)
    r.call('main', P(()), [I(3), Ptr(a)])
    return r


def save(name, idx, A):
    return ('save', tm.string('R'), lib.scat(OUT, tm.string('/' + name)), idx, TRUE, A, N3)


def both_saves(L, idx):
    f, p = state('f', L), state('p', L)
    return (save('f', idx, f), save('rho', idx, rho_of(f, p)))


def main_all(k, cheb, contig):
    r = run_main(k, cheb, contig)
    i = var('step')
    L = i + I(1)
    want = Trace(None, both_saves(I(0), I(0)) + (
        ('loop', i, ite(lt(I(1), NT), NT - I(1), I(0)), (('ite', eq(imod(L, TS), I(0)), Trace(None, both_saves(L, idiv(L, TS))), Trace(None, ())),)),))
    k.trace('saved states, in order', r.st.mem.get(('fs',), Trace(None, ())), want, r)


def flat(items):
    return all(x[0] == 'save' for x in items)


def main_small(k, cheb, contig, nt, ts):
    """concrete step counts: a mismatch is a definite violation"""
    r = run_main(k, cheb, contig, nt, ts)
    want = both_saves(I(0), I(0))
    for i in range(1, nt):
        if i % ts == 0:
            want += both_saves(I(i), I(i // ts))
    got = r.st.mem.get(('fs',), Trace(None, ()))
    name = 'nt=%d, t_step_save=%d: saved states, in order' % (nt, ts)
    if not flat(got.items):
        k.flag(name, False, 'outputs not in closed form')
        return
    try:
        traces.same(got, Trace(None, want), r.ctx())
        k.must(name, True)
    except traces.Differ as e:
        k.must(name, False, str(e))


def c22():
    return [('main (%s build)' % cfg_name(c), main_all, c) for c in CONFIGS] + [
        ('main, %d points in time, saving every %d' % q, main_small, (True, True) + q) for q in ((1, 1), (5, 1), (6, 2), (7, 3), (3, 5))]
