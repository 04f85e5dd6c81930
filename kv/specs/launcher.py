"""C25, C26: the launcher."""
import json
import subprocess
import z3
from ..pyexec import num, PyExec, State, Txt, Any_, Unsupported as PyUnsupported
from ..exec import Unsupported
from .. import prove as pv
import time

Rl, In = z3.Real, z3.Int


def prove(k, name, goal, facts, replay=None):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*facts)
    s.add(z3.Not(goal))
    t0 = time.time()
    c = s.check()
    pv.STATS['z3_s'] = pv.STATS.get('z3_s', 0) + time.time() - t0
    pv.STATS['z3_calls'] = pv.STATS.get('z3_calls', 0) + 1
    if c == z3.unsat or c == z3.unknown and cvc5(s):
        k.flag(name, True)
        return
    if c == z3.sat and replay is not None:
        m = s.model()
        vals = {str(d): m[d] for d in m.decls() if not str(d).startswith('aux')}
        bad, detail = replay(vals)
        if bad:
            k.must(name, False, detail)
            return
        k.flag(name, False, 'z3 counter-model %s not reproduced by the real launcher' % vals)
        return
    why = s.reason_unknown() if c == z3.unknown else ''
    k.flag(name, False, '%sz3: %s %s' % ('limit; ' if why in ('timeout', 'canceled') else '', c, why))


def cvc5(s):
    """the second solver on what the first one did not settle"""
    t0 = time.time()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=20000', '-'], input='(set-logic ALL)\n' + s.to_smt2(), capture_output=True, text=True, timeout=30)
        out = r.stdout.strip()
    except (OSError, subprocess.TimeoutExpired):
        out = ''
    pv.STATS['cvc5_s'] = pv.STATS.get('cvc5_s', 0) + time.time() - t0
    pv.STATS['cvc5_calls'] = pv.STATS.get('cvc5_calls', 0) + 1
    return out == 'unsat'


def fl(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return None


ATTR = {'black_hole_mass': Rl, 'black_hole_spin': Rl, 'compactification_length': Rl, 'evolve_time': Rl, 'num_saved_times': In,
        'nx': In, 'nl': In, 'nm': In, 'nlat': In, 'nphi': In, 'cfl': Rl, 'rl_0': Rl, 'ru_0': Rl,
        'km1': Rl, 'k0': Rl, 'k1': Rl, 'k2': Rl, 'V2': Rl, 'V3': Rl, 'V4': Rl, 'l_ang': In, 'm_ang': In, 'amp': Rl}


def settings(cheb):
    a = {n: f(n) for n, f in ATTR.items() if not (cheb and n == 'cfl')}
    a['use_cheb'] = cheb
    v = a
    f = [v['black_hole_mass'] > 0, v['black_hole_spin'] <= v['black_hole_mass'], -v['black_hole_mass'] <= v['black_hole_spin'], v['compactification_length'] > 0,
         v['evolve_time'] >= 0, v['num_saved_times'] >= 1, v['nx'] >= 2, v['nlat'] >= 1, v['nphi'] >= 1, v['nl'] >= 1, v['nm'] >= 0]
    if not cheb:
        f.append(v['cfl'] > 0)
    return a, f


def replayer(cheb, check):
    """run the real launcher on the counter-model and compare"""
    def go(vals):
        from ..battery import launcher as B
        d = {}
        for n, f in ATTR.items():
            x = fl(vals.get(n)) if n in vals else None
            d[n] = x if x is not None else (1 if f is In else 1.0)
        d['use_cheb'] = cheb
        if cheb:
            d.pop('cfl')
        try:
            bad = B.check_derived(d)
        except Exception as e:
            return False, repr(e)
        return bool(bad), 'settings %s: %s' % (json.dumps(d), bad)
    return go


def derived(k, cheb):
    try:
        _derived(k, cheb)
    except PyUnsupported as e:
        raise Unsupported('sim_class.py: ' + str(e))


def _derived(k, cheb):
    X = PyExec()
    a, f = settings(cheb)
    k.functions = X.executed
    outs = X.call('set_derived_params', [], State(a, f))
    v = a
    M, s, L = v['black_hole_mass'], v['black_hole_spin'], v['compactification_length']
    q = Rl('root')
    rp = replayer(cheb, None)
    for n, (st, _) in enumerate(outs):
        F = st.facts + [q >= 0, q * q == M * M - s * s]
        h = M + q
        at = st.attrs
        for nm, goal, facts in st.obs:
            prove(k, nm, goal, facts, rp)
        tag = '' if len(outs) == 1 else ' [path %d]' % (n + 1)

        def eq(name, attr, want):
            if attr not in at:
                k.must(name + tag, False, 'attribute %s is not set' % attr)
            else:
                prove(k, name + tag, num(at[attr]) == want, F, rp)
        # z3 helper: the square root is unique
        roots = [x for x in z3_vars(F) if str(x).startswith('aux') and z3.is_real(x)]
        for x in roots:
            sv = z3.Solver()
            sv.set('timeout', 5000)
            sv.add(*F)
            sv.add(x != q)
            if sv.check() == z3.unsat:
                F.append(x == q)
        eq('inner boundary is the image of the outer horizon', 'Rmin', h / (1 + h / L))
        eq('outer boundary is the compactification length', 'Rmax', L)
        eq('lower pulse limit scales with the horizon', 'rl', h * v['rl_0'])
        eq('upper pulse limit scales with the horizon', 'ru', h * v['ru_0'])
        mx = lambda *xs: xs[0] if len(xs) == 1 else z3.If(xs[0] >= mx(*xs[1:]), xs[0], mx(*xs[1:]))
        if cheb:
            want = 6 / (z3.ToReal(mx(v['nx'], v['nlat'], v['nphi'])) * z3.ToReal(mx(v['nx'], v['nlat'], v['nphi'])))
        else:
            m2 = z3.ToReal(mx(v['nlat'], v['nphi']))
            b = v['cfl'] / (z3.ToReal(v['nx']) - 1)
            want = z3.If(6 / (m2 * m2) <= b, 6 / (m2 * m2), b)
        eq('time step', 'dt', want)
        # step count and save interval are stated on the time step itself, which is positive
        if 'dt' in at and 'nt' in at and 't_step_save' in at:
            prove(k, 'time step is positive' + tag, at['dt'] > 0, F, rp)
            D, T = Rl('dtv'), Rl('Tv')
            sub = [(at['dt'], D)]
            G = [z3.substitute(z3.substitute(g, *sub), (v['evolve_time'] * M, T)) for g in F] + [D > 0, T >= 0]
            nt, ts = [z3.substitute(num(x), *sub) for x in (at['nt'], at['t_step_save'])]
            nsv = v['num_saved_times']
            for w, x in (('nt', nt), ('t_step_save', ts)):
                if not z3.is_int(x):
                    k.must('%s is a whole number%s' % (w, tag), False, str(z3.simplify(x))[:100])
                    return
            rn = z3.ToReal(nt)
            use = lambda *keep: [g for g in G if z3_names(g) <= set(keep) | {'dtv', 'Tv', 'num_saved_times', 'evolve_time', 'black_hole_mass'} or any(str(z).startswith('aux') for z in z3_vars([g]))]
            prove(k, 'the run does not go past the evolve time' + tag, rn * D <= T, use(), rp)
            prove(k, 'one more step would go past it' + tag, (rn + 1) * D > T, use(), rp)
            prove(k, 'the save interval is at least one step' + tag, ts >= 1, use(), rp)
            prove(k, 'at least the requested number of saves' + tag, z3.Implies(nt >= nsv, ts * nsv <= nt), use(), rp)
    c, x, y = Rl('c'), In('tss'), In('n')
    j = In('j')
    prove(k, 'lemma: interval*requested <= steps gives that many saves', z3.Implies(z3.And(x >= 1, y >= 1, x * y <= j), x * (y - 1) <= j - 1), [])


def z3_vars(es):
    out, seen, st = set(), set(), list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e)
        st.extend(e.children())
    return out


def z3_names(e):
    return {str(x) for x in z3_vars([e])}


def compact(k):
    try:
        X = PyExec()
        a, f = settings(True)
        r = Rl('r')
        outs = X.call('compactification', [r], State(a, f + [r >= 0]))
        k.functions = X.executed
        L = a['compactification_length']
        for st, R in outs:
            for nm, goal, facts in st.obs:
                prove(k, nm, goal, facts)
            prove(k, 'R = r/(1 + r/L)', R * (1 + r / L) == r, st.facts)
            prove(k, 'the solver map R/(1-R/L) (proved for Grid::R_to_r under C10) takes it back to r', z3.And(R < L, R / (1 - R / L) == r), st.facts)
            k.flag('the attributes are unchanged', all(st.attrs.get(n) is x for n, x in a.items()) and len(st.attrs) == len(a))
    except PyUnsupported as e:
        raise Unsupported('sim_class.py: ' + str(e))


def c25():
    return [('set_derived_params (Chebyshev)', derived, (True,)), ('set_derived_params (finite differences)', derived, (False,)), ('compactification', compact, ())]


# ---------------------------------------------------------------- C26
def text_attrs(cheb, home, timed, outdir):
    a, f = settings(cheb)
    for n in ('bin_name', 'initial_data_type', 'initial_data_direction', 'out_stem', 'walltime', 'memory', 'email'):
        a[n] = Any_(n, 'text')
    a['home_dir'] = Any_('home_dir', 'text')
    a['computer'] = Txt('home') if home else Txt('della')
    a['time_it'] = timed
    a['recompile'] = False
    a['output_dir'] = Any_('output_dir_setting', 'text') if outdir else None
    a['num_omp_levels'], a['num_threads'] = In('num_omp_levels'), In('num_threads')
    a['run_type'] = Txt('basic_run')
    a['mylist'] = Any_('mylist', 'list')
    return a, f


def dump(k):
    """write_sim_params on an object with arbitrary attributes"""
    try:
        X = PyExec()
        k.functions = X.executed
        od = Any_('output_dir', 'text')
        outs = X.call('write_sim_params', [], State({'output_dir': od}))
        k.flag('one path', len(outs) == 1)
        for st, _ in outs:
            pf = st.attrs.get('parameter_file')
            k.flag('the parameter file has a name', isinstance(pf, Txt) and bool(pf.lit()))
            want = Txt(od, '/') + (pf or Txt())
            ops = [e for e in st.fx if e[0] == 'open']
            k.flag('one file, opened afresh, in the output directory', len(ops) == 1 and ops[0][1] == want and ops[0][2].startswith('w') and len(st.fx) == 1, repr(st.fx))
            t = st.files.get(repr(want), Txt())
            k.flag('the file is the dump of the attributes, nothing else', len(t.p) == 1 and isinstance(t.p[0], tuple) and t.p[0][0] == 'rep', repr(t))
            for kd, nm, val, parts in (t.p[0][2] if t.p and isinstance(t.p[0], tuple) and t.p[0][0] == 'rep' else ()):
                got = Txt(*parts)
                if kd == 'list':
                    ok = len(got.p) == 3 and got.p[0] is nm and got.p[2] == '\n' and isinstance(got.p[1], tuple) and got.p[1][0] == 'rep' and got.p[1][1] is val
                    if ok:
                        (_, _, e, ps), = got.p[1][2]
                        ok = Txt(*ps) == Txt(' ', ('str', e))
                elif kd == 'text':
                    ok = got == Txt(nm, ' ', val, '\n')
                else:
                    # (the solver reads no None and no truth value: such a setting may be left out)
                    ok = got == Txt(nm, ' ', ('str', val), '\n') or kd in ('none', 'bool') and got == Txt()
                k.flag('a %s setting is one line: name, space, value' % kd, ok, repr(got))
    except PyUnsupported as e:
        raise Unsupported('sim_class.py: ' + str(e))


def solver_names():
    from .params import TABLE
    return [n for n, _ in TABLE.values()]


def launch(k, cheb, home, timed, outdir):
    """the order of work of launch_run, and the command; write_sim_params and make_output_dir by their contracts"""
    try:
        X = PyExec()
        k.functions = X.executed
        a, f = text_attrs(cheb, home, timed, outdir)
        od = Any_('the output directory', 'text')
        written = []

        def dump_contract(args, kw, s):
            s.attrs['parameter_file'] = Any_('parameter file', 'text')
            written.append(set(s.attrs))
            s.fx.append(('dump', dict(s.attrs)))
            return [(s, None)]

        def dir_contract(args, kw, s):
            s.attrs['output_stem'] = Any_('output_stem', 'text')
            s.attrs['output_dir'] = od
            s.fx.append(('mkdir', Txt(od)))
            return [(s, None)]
        X.stubs = {'write_sim_params': dump_contract, 'make_output_dir': dir_contract}
        if not home:
            def slurm_contract(args, kw, s):
                s.fx.append(('slurm', Txt(s.attrs['output_dir']), X.totxt(s.attrs['run_str']), X.totxt(s.attrs['bin_name'])))
                return [(s, None)]
            X.stubs['write_slurm_script'] = slurm_contract
        outs = X.call('launch_run', [], State(a, f))
        k.flag('some path', len(outs) > 0)
        for st, _ in outs:
            fx = st.fx
            kinds = [e[0] for e in fx]
            k.flag('the output directory is made first', kinds[:1] == ['mkdir'], str(kinds))
            k.flag('the parameters are written once', kinds.count('dump') == 1, str(kinds))
            if kinds.count('dump') == 1:
                d = fx[kinds.index('dump')][1]
                miss = [n for n in solver_names() if n not in d]
                k.must('every parameter the solver reads is an attribute when the file is written', not miss, 'missing: %s' % miss)
                k.flag('settings are written as they were set', all(d.get(n) is x for n, x in a.items() if n != 'output_dir'), str([n for n, x in a.items() if d.get(n) is not x]))
                k.flag('derived parameters do not change after they are written', all(st.attrs.get(n) is d[n] for n in solver_names() if n in d))
            bn, pf, of = st.attrs['bin_name'], st.attrs['parameter_file'], st.attrs.get('output_file')
            k.flag('the executable is copied next to the parameter file', [e[1:] for e in fx if e[0] == 'copy'] == [(Txt('Bin/', bn), Txt(od, '/', bn))], str([e for e in fx if e[0] == 'copy']))
            run = Txt('time ' if timed else '', './', bn, ' ', pf, ' . 2>&1 | tee ') + (of or Txt())
            at = kinds.index('dump') if 'dump' in kinds else 0
            jobs, execs, cwd = [], [], Txt(a['home_dir'])
            for i, e in enumerate(fx):
                if e[0] == 'chdir':
                    cwd = Txt(*([a['home_dir'], '/'] if e[1].p and isinstance(e[1].p[0], str) and not e[1].p[0].startswith('/') else [])) + e[1]
                elif e[0] == 'command':
                    where = e[2] if len(e) > 2 else cwd
                    if isinstance(e[1].p[0], str) and e[1].p[0].startswith('chmod '):
                        execs.append((i, where, e[1]))
                    elif i > at:
                        jobs.append((where, e[1]))
                    else:
                        k.flag('nothing but recompiling comes before the parameter file', False, str(e))
                elif e[0] == 'chmod':
                    execs.append((i, cwd, Txt('chmod %s ' % ('%o' % e[2] if e[2] is not None else '?')) + e[1]))
                elif e[0] == 'slurm':
                    jobs.append(('slurm', i > at) + tuple(e[1:]))
            k.flag('the launcher ends in its own directory', cwd == Txt(a['home_dir']), repr(cwd))
            if home:
                k.flag('the solver runs in the output directory on that file', jobs == [(Txt(od), run)], str(jobs))
                isx = [x for x in execs if x[1] == Txt(od) and x[2] in (Txt('chmod 755 ', bn), Txt('chmod 755 ', od, '/', bn), Txt('chmod 755 ./', bn))]
                runs = [i for i, e in enumerate(fx) if e[0] == 'command' and e[1] == run]
                copies = [i for i, e in enumerate(fx) if e[0] == 'copy']
                k.flag('the copied executable is made executable before it is run', bool(isx) and bool(runs) and bool(copies) and copies[-1] < isx[-1][0] < runs[0], str(execs))
                env = {e[1].lit(): e[2] for e in fx[:runs[0] if runs else 0] if e[0] == 'env'}
                k.flag('thread settings are exported', set(env) == {'OMP_MAX_ACTIVE_LEVELS', 'OMP_NUM_THREADS'} and env['OMP_MAX_ACTIVE_LEVELS'] == Txt(('str', a['num_omp_levels'])) and env['OMP_NUM_THREADS'] == Txt(('str', a['num_threads'])), str(env))
            else:
                k.flag('the batch job runs the solver in the output directory on that file', jobs in ([('slurm', True, Txt(od), run, Txt(bn)), (Txt(od), Txt('sbatch ', od, '/run.slurm'))], [('slurm', True, Txt(od), run, Txt(bn)), (Txt(od), Txt('sbatch run.slurm'))]), str(jobs))
    except PyUnsupported as e:
        raise Unsupported('sim_class.py: ' + str(e))


def slurm(k):
    try:
        X = PyExec()
        k.functions = X.executed
        a, f = text_attrs(True, False, False, False)
        od = Any_('the output directory', 'text')
        run = Any_('run command', 'text')
        a.update(output_dir=od, run_str=run, output_file=Any_('output file', 'text'))
        for st, _ in X.call('write_slurm_script', [], State(a, f)):
            nm = Txt(od, '/run.slurm')
            k.flag('the job script is written in the output directory', [e for e in st.fx] == [('open', nm, 'w')], str(st.fx))
            t = st.files.get(repr(nm), Txt())
            k.flag('it is a shell script', bool(t.p) and isinstance(t.p[0], str) and t.p[0].startswith('#!/bin/sh\n'), repr(t)[:80])
            i = [q for q, x in enumerate(t.p) if x is run]
            ok = len(i) == 1 and isinstance(t.p[i[0] - 1], str) and t.p[i[0] - 1].endswith('\n') and isinstance(t.p[i[0] + 1], str) and t.p[i[0] + 1].startswith('\n')
            k.flag('the run command is one line of it', ok, repr(t)[-200:])
    except PyUnsupported as e:
        raise Unsupported('sim_class.py: ' + str(e))


def outdir(k, home, given):
    try:
        X = PyExec()
        k.functions = X.executed
        a, f = text_attrs(True, home, False, given)
        for st, _ in X.call('make_output_dir', [], State(a, f)):
            mk = [e for e in st.fx]
            k.flag('the directory recorded as output directory is the one created', len(mk) == 1 and mk[0][0] in ('makedirs', 'mkdir') and mk[0][1] == X.totxt(st.attrs['output_dir']), str(mk))
            k.flag('no other setting changes', all(st.attrs.get(n) is x for n, x in a.items() if n != 'output_dir'))
    except PyUnsupported as e:
        raise Unsupported('sim_class.py: ' + str(e))


def reader_accepts(k):
    """the written line is the line the solver looks for: 'name value' split at the first space (contract proved for Params under C20)"""
    from .params import TABLE
    k.flag('names contain no space', all(' ' not in n for n, _ in TABLE.values()))
    k.flag('names are distinct', len({n for n, _ in TABLE.values()}) == len(TABLE))


def c26():
    T = [('write_sim_params', dump, ()), ('write_slurm_script', slurm, ()), ('names', reader_accepts, ())]
    for cheb in (True, False):
        for home in (True, False):
            for timed in (True, False):
                T.append(('launch_run (%s, %s, %s)' % ('Chebyshev' if cheb else 'finite differences', 'home' if home else 'cluster', 'timed' if timed else 'not timed'), launch, (cheb, home, timed, False)))
    T += [('make_output_dir (%s, %s)' % ('home' if h else 'cluster', 'given' if g else 'automatic'), outdir, (h, g)) for h in (True, False) for g in (True, False)]
    return T
