"""The real launcher (sim_class.py), run in a scratch directory by an unprivileged user, with recorders in place of the solver
executable, sbatch, make and time."""
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
from . import REPO, Crash, Driver

RUNNER = r'''
import sys, json, os
sys.path.insert(0, %(code)r)
os.chdir(%(home)r)
from sim_class import Sim
for line in sys.stdin:
    q = json.loads(line)
    os.chdir(%(home)r)
    try:
        s = Sim()
        for k, v in q['set'].items():
            setattr(s, k, v)
        r = None
        if q['do'] == 'launch':
            s.launch_run()
        elif q['do'] == 'derived':
            s.set_derived_params()
        elif q['do'] == 'compact':
            r = s.compactification(q['r'])
        at = {k: v for k, v in vars(s).items() if isinstance(v, (int, float, str, bool, list, type(None)))}
        print('KV ' + json.dumps({'attrs': at, 'r': r, 'cwd': os.getcwd()}), flush=True)
    except BaseException as e:
        print('KV ' + json.dumps({'error': '%%s: %%s' %% (type(e).__name__, e)}), flush=True)
'''
FAKE_EXE = '''#!/bin/sh
{ echo "argc $#"; echo "cwd $(pwd -P)"; echo "self $(basename "$0")"; echo "file $(realpath "$1")"; echo "dir $(realpath "$2")"; } > "$KV_REC"
cat "$1" > "$KV_REC.params"
'''


class Bench:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='kvlaunch')
        os.chmod(self.dir, 0o755)
        self.code, self.home, self.bin, self.out = [os.path.join(self.dir, x) for x in ('code', 'home', 'bin', 'out')]
        for x in (self.code, self.home, self.bin, self.out, self.home + '/Bin', self.home + '/Output'):
            os.makedirs(x)
        shutil.copy(os.path.join(REPO, 'sim_class.py'), self.code)
        for f in os.listdir(REPO):
            if f.endswith('.py') and f not in ('sim_class.py', 'config.py', 'runscript_template.py'):
                shutil.copy(os.path.join(REPO, f), self.code)
        for n, t in (('sbatch', '#!/bin/sh\nfor a; do case "$a" in -*) ;; *) exec sh "$a";; esac; done\n'), ('make', '#!/bin/sh\nexit 0\n'), ('time', '#!/bin/sh\nexec "$@"\n')):
            self.script(os.path.join(self.bin, n), t)
        self.rec = os.path.join(self.dir, 'rec')
        os.makedirs(self.rec)
        with open(os.path.join(self.dir, 'run.py'), 'w') as fh:
            fh.write(RUNNER % {'code': self.code, 'home': self.home})
        user = {}
        if os.geteuid() == 0:
            for r, ds, fs in os.walk(self.dir):
                for x in [r] + [os.path.join(r, f) for f in fs]:
                    os.chown(x, 65534, 65534)
            user = {'user': 65534, 'group': 65534, 'extra_groups': []}
        env = {'PATH': self.bin + ':/usr/local/bin:/usr/bin:/bin', 'HOME': self.home, 'LC_ALL': 'C', 'KV_REC': os.path.join(self.rec, 'r'), 'PYTHONDONTWRITEBYTECODE': '1'}
        kw = dict(stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=self.home, text=True)
        py = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else sys.executable
        try:
            self.p = subprocess.Popen([py, os.path.join(self.dir, 'run.py')], **kw, **user)
        except PermissionError:
            self.p = subprocess.Popen([py, os.path.join(self.dir, 'run.py')], **kw)

    def script(self, p, t):
        with open(p, 'w') as fh:
            fh.write(t)
        os.chmod(p, 0o755)

    def fake(self, name):
        """a recorder under the executable's name; not executable yet, so that the launcher's own chmod is exercised"""
        p = os.path.join(self.home, 'Bin', name)
        self.script(p, FAKE_EXE)
        if os.geteuid() == 0:
            os.chown(p, 65534, 65534)

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q) + '\n')
        self.p.stdin.flush()
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise Crash('the launcher ended its process: %s' % json.dumps(q)[:300])
            if l.startswith('KV '):
                return json.loads(l[3:])

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
        self.p.stdout.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def close_to(a, b, tol=1e-9):
    return isinstance(a, (int, float)) and abs(a - b) <= tol * max(abs(b), 1e-300)


def compare(d, at):
    """list of derived values that are wrong"""
    M, s, L = float(d['black_hole_mass']), float(d['black_hole_spin']), float(d['compactification_length'])
    q = math.sqrt(max(0.0, (M - s) * (M + s)))
    h = M + q
    bad = []

    def eq(n, e, scale=None):
        g = at.get(n)
        ok = isinstance(g, (int, float)) and abs(g - e) <= 1e-9 * (abs(e) if scale is None else scale) + 1e-300
        if not ok:
            bad.append('%s is %r, expected %r' % (n, g, e))
    eq('Rmin', h / (1 + h / L))
    eq('Rmax', L)
    eq('rl', h * d['rl_0'])
    eq('ru', h * d['ru_0'])
    if d['use_cheb']:
        dt = 6.0 / max(d['nx'], d['nlat'], d['nphi']) ** 2
    else:
        dt = min(6.0 / max(d['nlat'], d['nphi']) ** 2, d['cfl'] / (d['nx'] - 1.0))
    eq('dt', dt)
    T = float(d['evolve_time']) * M
    nt, ts, n = at.get('nt'), at.get('t_step_save'), d['num_saved_times']
    if not isinstance(nt, int) or nt < 0 or nt * dt > T * (1 + 1e-9) + 1e-300 or (nt + 1) * dt < T * (1 - 1e-9):
        bad.append('nt is %r with dt=%r and evolve_time*M=%r' % (nt, dt, T))
    elif not isinstance(ts, int) or ts < 1 or (nt >= n and ts * n > nt):
        bad.append('t_step_save is %r with nt=%r and num_saved_times=%r' % (ts, nt, n))
    return bad


DEF = dict(km1=0.0, k0=1.0, k1=0.0, k2=0.0, V2=1.0, V3=0.0, V4=0.0, l_ang=0, m_ang=0, amp=0.5, rl_0=-1.0, ru_0=3.0, nl=4, nm=4, cfl=0.5,
           initial_data_type='compact_pulse', initial_data_direction='ingoing', num_omp_levels=1, num_threads=2, walltime='1:00:00', memory='1', email='a@b',
           bin_name='default_fd.run', computer='home', time_it=False, recompile=False, output_dir=None, run_type='basic_run',
           black_hole_mass=1.0, black_hole_spin=0.5, compactification_length=10.0, evolve_time=10.0, num_saved_times=10, nx=33, nlat=8, nphi=12, use_cheb=False)


def check_derived(d):
    b = Bench()
    try:
        s = dict(DEF, **d)
        r = b.ask(do='derived', set=s)
        if 'error' in r:
            return ['set_derived_params raised ' + r['error']]
        return compare(s, r['attrs'])
    finally:
        b.close()


def settings(c):
    g = c.rng
    M = float(g.choice([1.0, 0.5, g.uniform(0.05, 5)]))
    a = float(g.choice([0.0, M, -M, round(0.9999 * M, 16), g.uniform(-M, M), g.uniform(-M, M)]))
    L = float(g.choice([1.0, 20.0, 10 ** g.uniform(-1, 3)]))
    d = dict(black_hole_mass=M, black_hole_spin=a, compactification_length=L, evolve_time=float(g.choice([0.0, 0.001, 10.0, g.uniform(0, 700)])),
             num_saved_times=int(g.choice([1, 2, 7, 100, 1200, 100000])), nx=int(g.choice([8, 9, 33, 129, 2049, g.integers(8, 300)])), nl=int(g.integers(1, 30)), nm=int(g.integers(0, 30)),
             nlat=int(g.choice([2, 8, 40, g.integers(2, 400)])), nphi=int(g.choice([4, 8, 48, g.integers(1, 400)])), use_cheb=bool(g.integers(0, 2)), cfl=float(g.choice([0.75, 0.1, 0.25])),
             rl_0=float(g.choice([-1.0, 1.1, g.uniform(-2, 4)])), ru_0=float(g.choice([3.0, g.uniform(0, 9)])),
             km1=float(g.uniform(-1, 1)), k0=float(g.uniform(-1, 1)), k1=float(g.uniform(-1, 1)) * 1e-7, k2=float(g.uniform(-1, 1)), V2=float(g.uniform(-1, 1)), V3=float(g.uniform(-1, 1)), V4=100.0,
             amp=float(g.uniform(-2, 2)), l_ang=int(g.integers(0, 9)), m_ang=int(g.integers(0, 9)), initial_data_direction=str(g.choice(['ingoing', 'outgoing', 'time_symmetric'])))
    s = dict(DEF, **d)
    if s['use_cheb']:
        s.pop('cfl')
        s['bin_name'] = 'default_cheb.run'
    return s


def c25(c):
    b = Bench()
    try:
        for i in range(400 if c.tier == 'quick' else 6000):
            if c.over():
                break
            s = settings(c)
            r = b.ask(do='derived', set=s)
            nm = 'set_derived_params with %s' % {k: s[k] for k in ('black_hole_mass', 'black_hole_spin', 'compactification_length', 'evolve_time', 'num_saved_times', 'nx', 'nlat', 'nphi', 'use_cheb', 'rl_0', 'ru_0')}
            bad = ['raised ' + r['error']] if 'error' in r else compare(s, r['attrs'])
            c.true(nm, not bad, bad, 'consistent set-up')
            if 'attrs' in r:
                ch = [k for k, v in s.items() if r['attrs'].get(k, v) != v]
                c.true(nm + ': settings unchanged', not ch, ch, [])
            x = float(10 ** c.rng.uniform(-2, 4))
            r = b.ask(do='compact', set=s, r=x)
            R, L = r.get('r'), s['compactification_length']
            c.true('compactification(%r) with L=%r' % (x, L), isinstance(R, float) and abs(R - x / (1 + x / L)) <= 1e-9 * abs(R), R, x / (1 + x / L))
    finally:
        b.close()


def read_line(text, name):
    for l in text.split('\n'):
        if l.split(' ')[0] == name:
            w = l[len(name):].split()
            return w
    return None


def c26(c):
    from .cases import PNAMES, PWORD, pinfo
    b = Bench()
    d = None
    try:
        try:
            d = c.driver('params', 1, 1)
        except Exception as e:
            c.errors.append('parameter reader not available: %s' % str(e)[:200])
        for i in range(24 if c.tier == 'quick' else 200):
            if c.over():
                break
            s = settings(c)
            s['evolve_time'] = float(c.rng.choice([1.0, 25.0]))
            s['computer'] = ['home', 'della'][i % 2]
            s['out_stem'] = b.out
            s['time_it'] = bool((i // 2) % 2)
            s['recompile'] = i % 5 == 4
            s['output_dir'] = '/set%d' % i if i % 3 else None
            s['nx'] = 1000 + i   # distinct automatic directory names
            s['list_of_sizes'] = [int(x) for x in c.rng.integers(0, 99, int(c.rng.integers(1, 5)))]
            s['list_of_reals'] = [float(x) for x in c.rng.uniform(0, 9, 3)]
            b.fake(s['bin_name'])
            for f in os.listdir(b.rec):
                os.remove(os.path.join(b.rec, f))
            r = b.ask(do='launch', set=s)
            nm = 'launch_run (%s, %s, time_it=%s, recompile=%s, output_dir=%r)' % (s['bin_name'], s['computer'], s['time_it'], s['recompile'], s['output_dir'])
            if not c.true(nm + ' runs', 'error' not in r, r.get('error'), 'no exception'):
                continue
            at = r['attrs']
            rec = os.path.join(b.rec, 'r')
            if not c.true(nm + ': the selected executable is run', os.path.exists(rec), 'not run', 'run'):
                continue
            h = dict(l.split(' ', 1) for l in open(rec).read().strip().split('\n'))
            c.true(nm + ': two arguments', h['argc'] == '2', h['argc'], '2')
            c.true(nm + ': the executable is %s' % s['bin_name'], h['self'] == s['bin_name'], h['self'], s['bin_name'])
            out = os.path.realpath(at['output_dir'])
            c.true(nm + ': second argument is the output directory', h['dir'] == out, h['dir'], out)
            c.true(nm + ': first argument is a file in it', os.path.dirname(h['file']) == out and os.path.isfile(h['file']), h['file'], out)
            if s['output_dir']:
                base = (b.home + '/Output' if s['computer'] == 'home' else b.out) + s['output_dir']
                c.true(nm + ': output directory as requested', out == os.path.realpath(base), out, base)
            txt = open(rec + '.params').read()
            bad = compare(s, at)
            for n in PNAMES + PWORD:
                v = at.get(n)
                w = read_line(txt, n)
                ok = w is not None and len(w) >= 1 and (w[0] == v if isinstance(v, str) else isinstance(v, (int, float)) and num(w[0]) == v)
                c.true(nm + ': line of %s' % n, ok and any(l.startswith(n + ' ') and not l.startswith(n + '  ') for l in txt.split('\n')), w, v)
                if n in s:
                    c.true(nm + ': %s keeps its setting' % n, v == s[n], v, s[n])
            for n in ('list_of_sizes', 'list_of_reals'):
                e = n + ' ' + ' '.join(str(x) for x in s[n])
                c.true(nm + ': list %s' % n, e in txt.split('\n'), [l for l in txt.split('\n') if l.startswith('list')], e)
            if d is not None and not d.dead:
                try:
                    d('pa.new', 1, s=(h['file'],))
                    g, t = pinfo(d)
                    d('pa.del', 1)
                    for n in PNAMES:
                        c.true(nm + ': the solver reads %s' % n, g[n] == at.get(n), g[n], at.get(n))
                    c.true(nm + ': the solver reads the words', t == [at.get(x) for x in PWORD], t, [at.get(x) for x in PWORD])
                except Crash as e:
                    c.fail(nm + ': the solver rejects the parameter file: %s' % e)
    finally:
        b.close()


def num(t):
    try:
        return float(t)
    except ValueError:
        return None
