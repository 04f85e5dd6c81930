"""Replay battery: runs the real code of /repo (compiled from its current tree against a stand-in for SHTns) on sampled inputs
and compares with independent oracles.  It never decides that a property holds -- the discharged obligations do; it supplies
concrete failing inputs, and is the labelled bounded stand-in wherever an obligation could not be discharged."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KV_REPO', '/repo')
ORIGINAL = {'cheb', 'field', 'finite_diff', 'grid', 'initial_data', 'io', 'main', 'params', 'scalar_eom', 'sphere', 'unit_manager'}
NEEDS = {
    'radial': {'cheb', 'finite_diff'}, 'field': {'field'}, 'sphere': {'sphere'},
    'grid': {'cheb', 'finite_diff', 'sphere', 'grid'}, 'params': {'params'},
    'eom': {'cheb', 'finite_diff', 'sphere', 'grid', 'params', 'field', 'scalar_eom'},
    'id': {'cheb', 'finite_diff', 'sphere', 'grid', 'params', 'initial_data'},
    'io': {'cheb', 'finite_diff', 'sphere', 'grid', 'io'},
    'all': {'cheb', 'finite_diff', 'sphere', 'grid', 'params', 'field', 'scalar_eom', 'initial_data', 'io'},
}
DEFS = {'radial': ['RADIAL'], 'field': ['FIELD'], 'sphere': ['SPHERE'], 'grid': ['GRID', 'RADIAL', 'SPHERE'], 'params': ['PARAMS'],
        'eom': ['GRID', 'PARAMS', 'FIELD', 'EOM'], 'id': ['GRID', 'PARAMS', 'ID'], 'io': ['GRID', 'IO'],
        'all': ['GRID', 'PARAMS', 'FIELD', 'EOM', 'ID', 'IO', 'RADIAL', 'SPHERE']}
WRAP = ','.join('--wrap=' + s for s in ('fftw_malloc', 'fftw_free', 'fftw_alloc_real', 'fftw_alloc_complex', 'fftw_plan_r2r_1d', 'fftw_destroy_plan'))


class BuildError(Exception):
    pass


class Crash(Exception):
    pass


class Unavailable(Exception):
    pass


def _run(cmds, log):
    """compile commands in parallel; returns the indices that failed"""
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    bad = []
    for i, (c, p) in enumerate(procs):
        out = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            bad.append(i)
            log.append(' '.join(c[-4:]) + '\n' + out[-1500:])
    return bad


class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='kvbat')
        self.done = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sources(self, what):
        out = []
        for f in sorted(glob.glob(os.path.join(REPO, 'Source', '*.cpp'))):
            b = os.path.basename(f)[:-4]
            if b in NEEDS[what] or b not in ORIGINAL:
                out.append(f)
        return out

    def build(self, what, cheb, contig, san='', omp=''):
        """driver executable for module group `what`; what='solver' builds the real program"""
        key = (what, bool(cheb), bool(contig), san, omp)
        if key in self.done:
            if isinstance(self.done[key], str):
                return self.done[key]
            raise self.done[key]
        try:
            exe = self._build(*key)
        except BuildError as e:
            self.done[key] = e
            raise
        self.done[key] = exe
        return exe

    def _build(self, what, cheb, contig, san, omp):
        d = os.path.join(self.dir, '%s_%d%d%s%s' % (what, cheb, contig, san, omp))
        os.makedirs(d)
        grp = 'all' if what == 'solver' else what
        fl = ['-O1', '-g', '-std=gnu++17', '-w', '-DUSE_CHEB' if cheb else '-UUSE_CHEB', '-DSHTNS_CONTIGUOUS_LONGITUDES' if contig else '-USHTNS_CONTIGUOUS_LONGITUDES']
        if san == 'asan':
            fl += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']
        elif san == 'tsan':
            fl += ['-fsanitize=thread']
        else:
            fl += ['-D_GLIBCXX_ASSERTIONS']
        if omp:
            fl += ['-fopenmp']
        # the headers of a system SHTns, if there is one, are not used: the stand-in comes first
        inc = ['-I' + os.path.join(HERE, 'inc'), '-I' + os.path.join(REPO, 'Source')]
        jobs = []
        for f in self.sources(grp) + ([os.path.join(REPO, 'Source', 'main.cpp')] if what == 'solver' else []):
            jobs.append(['g++'] + fl + inc + ['-c', f, '-o', os.path.join(d, os.path.basename(f) + '.o')])
        jobs.append(['g++'] + [x for x in fl if x != '-D_GLIBCXX_ASSERTIONS'] + ['-O2'] + inc + ['-c', os.path.join(HERE, 'shtns.cpp'), '-o', os.path.join(d, 'kvshtns.o')])
        if what != 'solver':
            jobs.append(['g++'] + fl + ['-fno-access-control'] + ['-DDRV_%s=1' % x for x in DEFS[what]] + inc + ['-c', os.path.join(HERE, 'drv.cpp'), '-o', os.path.join(d, 'drv.o')])
        if omp == 'kv':
            jobs.append(['g++'] + [x for x in fl if x != '-fopenmp'] + ['-c', os.path.join(HERE, 'gomp.cpp'), '-o', os.path.join(d, 'gomp.o')])
        log = []
        bad = _run(jobs, log)
        if bad:
            raise BuildError('does not compile: ' + log[0][:1200])
        objs = [j[-1] for j in jobs]
        exe = os.path.join(d, 'exe')
        link = ['g++'] + [x for x in fl if x.startswith('-fsanitize')] + objs + ['-o', exe, '-lfftw3', '-lm', '-lpthread']
        if what != 'solver':
            link += ['-Wl,' + WRAP]
        if omp == 'omp':
            link += ['-fopenmp']
        if _run([link], log):
            raise BuildError('does not link: ' + log[0][-1200:])
        return exe


def f8(v):
    return np.ascontiguousarray(np.asarray(v, dtype=np.float64).reshape(-1))


def c2f(v):
    return np.ascontiguousarray(np.asarray(v, complex)).view(np.float64)


def f2c(v):
    return np.ascontiguousarray(v).view(np.complex128)


class Driver:
    def __init__(self, exe, env=None, cwd=None, timeout=120):
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77', 'UBSAN_OPTIONS': 'print_stacktrace=1', 'LC_ALL': 'C'})
        e.update(env or {})
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=cwd)
        self.log = []
        self.dead = False

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode(errors='replace')

    def crash(self, op):
        self.dead = True
        try:
            self.p.wait(10)
        except Exception:
            self.p.kill()
        t = self.stderr()
        lines = [l for l in t.split('\n') if any(s in l for s in ('ERROR', 'Assert', 'assert', 'runtime error', 'KVBAD', 'SUMMARY', 'terminate', 'WARNING: ThreadSan', 'Error', '#0', '#1', '#2', '#3', 'what()'))]
        raise Crash('%s: the code stopped (exit %s): %s' % (op, self.p.returncode, ' | '.join(x.strip()[:160] for x in lines[:8])))

    def __call__(self, op, *ints, d=(), s=(), a=()):
        if self.dead:
            raise Crash(op + ': driver is gone')
        arrs = [f8(x) for x in a]
        ss = [x.encode() for x in s]
        head = '%s %d %d %d %d %s\n' % (op, len(ints), len(d), len(ss), len(arrs),
                                        ' '.join([str(int(x)) for x in ints] + [str(len(x)) for x in ss] + [str(len(x)) for x in arrs]))
        try:
            # ' \n' -> the driver reads one newline after the numbers
            self.p.stdin.write(head.replace(' \n', '\n').encode() + f8(d).tobytes() + b''.join(ss) + b''.join(x.tobytes() for x in arrs))
            self.p.stdin.flush()
            h = self.p.stdout.readline().split()
        except BrokenPipeError:
            self.crash(op)
        if not h:
            self.crash(op)
        if h[0] != b'ok':
            raise Unavailable(op)
        n = int(h[1])
        ls = [int(x) for x in h[2:2 + n]]
        nt = int(h[2 + n])
        out = []
        for l in ls:
            b = self.p.stdout.read(8 * l)
            if len(b) < 8 * l:
                self.crash(op)
            out.append(np.frombuffer(b, np.float64).copy())
        self.text = self.p.stdout.read(nt).decode(errors='replace') if nt else ''
        return out

    def close(self):
        """end the driver; returns (exit code, stderr)"""
        try:
            self.p.stdin.close()
            self.p.wait(30)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        t = self.stderr()
        self.err.close()
        self.dead = True
        return self.p.returncode, t


class Ctx:
    """one property's battery run"""

    def __init__(self, prop, seed, tier, budget):
        import zlib
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode())])
        self.t0, self.budget = time.time(), budget
        self.n = 0
        self.violations, self.samples, self.errors = [], [], []
        self.b = Builder()
        self.scratch = os.path.join(self.b.dir, 'scratch')
        os.makedirs(self.scratch)
        self.drivers = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def over(self):
        return self.left() < 0 or len(self.violations) >= 5

    def driver(self, what, cheb, contig, san='', omp='', env=None, cwd=None):
        d = Driver(self.b.build(what, cheb, contig, san, omp), env, cwd)
        self.drivers.append(d)
        return d

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text[:400])

    def fail(self, desc, got=None, exp=None):
        t = desc
        if got is not None:
            t += '\n    got      %s\n    expected %s' % (got, exp)
        self.violations.append(t)

    def check(self, desc, got, exp, tol=1e-9, scale=None):
        """compare arrays; tol is relative to `scale` (default: largest expected magnitude, at least the input scale given)"""
        self.n += 1
        self.sample(desc() if callable(desc) else desc)
        got, exp = np.atleast_1d(np.asarray(got)), np.atleast_1d(np.asarray(exp))
        if got.shape != exp.shape:
            self.fail(desc() if callable(desc) else desc, 'shape %s' % (got.shape,), 'shape %s' % (exp.shape,))
            return False
        sc = max(float(np.max(np.abs(exp))) if exp.size else 0.0, 1e-300) if scale is None else scale
        err = np.abs(got - exp)
        bad = ~(err <= tol * sc)
        if bad.any():
            i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
            self.fail((desc() if callable(desc) else desc) + ': %d of %d values wrong, worst at position %d' % (bad.sum(), got.size, i), repr(got.reshape(-1)[i]), repr(exp.reshape(-1)[i]))
            return False
        return True

    def same(self, desc, got, exp):
        self.n += 1
        self.sample(desc)
        got, exp = np.asarray(got), np.asarray(exp)
        if got.shape != exp.shape or not np.array_equal(got, exp, equal_nan=True):
            k = np.nonzero(~((got == exp) | (np.isnan(got) & np.isnan(exp))))[0] if got.shape == exp.shape else []
            i = int(k[0]) if len(k) else None
            self.fail(desc + (': changed at position %s (%d positions)' % (i, len(k)) if i is not None else ''),
                      repr(got[i]) if i is not None else got.shape, repr(exp[i]) if i is not None else exp.shape)
            return False
        return True

    def true(self, desc, cond, got='', exp=''):
        self.n += 1
        self.sample(desc)
        if not cond:
            self.fail(desc, str(got)[:300], str(exp)[:300])
        return bool(cond)

    def finish(self):
        for d in self.drivers:
            if not d.dead:
                d.close()
        self.b.close()


def run(prop, seed=1, tier='quick', focus=False, budget=300):
    from . import cases
    names = cases.FOR.get(prop, [])
    cap = (600 if tier != 'quick' else (240 if focus else 60))
    c = Ctx(prop, seed, tier, min(budget, cap))
    try:
        for f in names:
            try:
                f(c)
            except Crash as e:
                c.fail(str(e))
            except (BuildError, Unavailable) as e:
                c.errors.append('%s: %s' % (type(e).__name__, str(e)[:600]))
            except Exception as e:
                c.errors.append('%s: %s: %s' % (f.__name__, type(e).__name__, str(e)[:300]))
                traceback.print_exc()
            if c.over():
                break
    finally:
        c.finish()
    return {'ran': bool(names), 'violations': c.violations, 'evaluations': c.n, 'samples': c.samples, 'errors': c.errors, 'rule': cases.RULE.get(prop, '')}
