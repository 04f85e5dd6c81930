"""Tasks, obligations and their discharge.

A property's specification is a list of tasks.  Each task runs real code symbolically (spec.Run), and states
obligations over the resulting terms.  An obligation is *proved* (prover accepted it), *refuted* (a concrete model of
its facts makes it false) or *open*."""
import multiprocessing as mp
import os
import signal
import time
import traceback
from . import term as tm, prove as pv, exec as X, front, evalt, loops, alg, traces
from .term import T, I, R, TRUE
from .spec import Run, CONFIGS, cfg_name, changed_keys

SLOW = [0.0]        # the slowest obligation of this process
PER_OB = float(os.environ.get('KV_PER_OB', '40'))


class SpecFail(Exception):
    """the symbolic result has a shape the specification cannot be stated on"""


class K:
    """one task"""

    def __init__(self, name, seed=1, prefer=None, hints=None, small=12):
        self.name = name
        self.items = []
        self.runs = []
        self.notes = []
        self.seed = seed
        self.prefer = prefer
        self.hints = hints
        self.small = small

    def run(self, cheb, contig, contracts=None, omp=False, log=False):
        r = Run(cheb, contig, contracts, omp, log)
        self.runs.append(r)
        return r

    def clear(self, r):
        """forget the obligations so far (they belong to another task)"""
        r.ex.obs.clear()

    @staticmethod
    def _facts(f):
        if isinstance(f, Run):
            return f.st.facts + f.st.br
        if isinstance(f, X.St):
            return f.facts + f.br
        if isinstance(f, pv.Ctx):
            return tuple(f.facts)
        return tuple(f)

    def eq(self, name, x, y, facts, more=()):
        self.items.append(('eq', name, (x, y), self._facts(facts) + tuple(more)))

    def alg(self, name, x, y, facts, more=(), gens=(), params=()):
        """pointwise identity of real terms (alg.py)"""
        self.items.append(('alg', name, (x, y, tuple(gens), tuple(params)), self._facts(facts) + tuple(more)))

    def iff(self, name, b, c, facts, more=()):
        self.items.append(('iff', name, (b, c), self._facts(facts) + tuple(more)))

    def trace(self, name, got, want, facts, more=()):
        """the recorded output is the specified one"""
        self.items.append(('trace', name, (got, want), self._facts(facts) + tuple(more)))

    def true(self, name, goal, facts, more=()):
        self.items.append(('prove', name, goal, self._facts(facts) + tuple(more)))

    def flag(self, name, ok, detail=''):
        """a structural condition decided on the symbolic state"""
        self.items.append(('flag', name, bool(ok), detail))

    def must(self, name, ok, detail=''):
        """a structural condition whose failure is itself a definite violation"""
        self.items.append(('must', name, bool(ok), detail))

    def frame(self, name, m0, run, allowed):
        """nothing persistent changes except the allowed keys (prefixes)"""
        bad = [k for k in changed_keys(m0, run.st.mem) if not any(k[:len(a)] == a for a in allowed)]
        self.flag(name, not bad, ', '.join(repr(k) for k in bad[:4]))


def history(pl, facts):
    """does the obligation speak about static storage, whose real contents the model may not be able to reach?"""
    from .evalt import all_atoms
    ts = [x for x in (pl if isinstance(pl, tuple) else (pl,)) if isinstance(x, T)] + [f for f in facts if isinstance(f, T)]
    return any(u.op in ('v', 'av') and str(u.a[0]).startswith('static!') for u in all_atoms(ts))


def discharge(k, out):
    """prove every obligation of task k; appends (name, kind, status, detail)"""
    todo = []
    for r in k.runs:
        for o in r.ex.obs:
            todo.append((o.kind, o.name(), 'prove', o.goal, o.facts))
    for it in k.items:
        if it[0] in ('flag', 'must'):
            st = 'proved' if it[2] else ('refuted' if it[0] == 'must' else 'open')
            out.append((k.name + ': ' + it[1], it[0], st, str(it[3]) if not it[2] else ''))
        else:
            todo.append(('post', k.name + ': ' + it[1], it[0], it[2], it[3]))
    seen = {}
    for kind, name, mode, pl, facts in todo:
        key = (mode, pl, facts)
        if mode == 'prove' and pl is TRUE:
            out.append((name, kind, 'proved', ''))
            continue
        if key in seen:
            out.append((name, kind) + seen[key])
            continue
        t0 = time.time()
        pv.DEADLINE[0] = t0 + PER_OB
        res = None
        why = ''
        try:
            ctx = X.getctx(tuple(facts))
            if mode == 'prove':
                ok = pv.prove(pl, ctx)
            elif mode == 'alg':
                try:
                    ok = alg.alg_eq(pl[0], pl[1], facts, pl[2], pl[3], ctx)
                except alg.Fail as e:
                    ok, why = False, 'alg: %s; ' % e
            elif mode == 'trace':
                try:
                    traces.same(pl[0], pl[1], ctx)
                    ok = True
                except traces.Differ as e:
                    ok, why = False, 'trace: %s; ' % e
            elif mode == 'eq':
                ok = pv.prove_eq(pv.resolve(pl[0], ctx), pv.resolve(pl[1], ctx), ctx)
            else:
                ok = pv.prove_iff(pl[0], pl[1], ctx)
            if ok:
                res = ('proved', '')
            elif kind == 'race' and mode == 'prove' and pl is tm.FALSE and pv.inconsistent(ctx):
                res = ('proved', 'infeasible')
        except pv.Timeout:
            why = 'prover time limit; '
        except RecursionError:
            why = 'prover recursion limit; '
        except Exception as e:
            why = 'prover internal limit; '
            name += ' [prover: %s]' % (str(e)[:80])
        finally:
            pv.DEADLINE[0] = None
            SLOW[0] = max(SLOW[0], time.time() - t0)
        if res is None:
            try:
                if mode == 'trace':
                    s, d = traces.refute(pl[0], pl[1], facts, k.seed, k.hints, k.prefer, k.small)
                else:
                  s, d = evalt.refute('eq' if mode == 'alg' else mode, pl[:2] if mode == 'alg' else pl, facts, seed=k.seed, hints=k.hints, prefer=k.prefer, small=k.small)
            except Exception as e:
                s, d = 'open', 'evaluator: ' + repr(e)[:120]
            if s == 'refuted' and history(pl, facts):
                s, d = 'open', 'fails for some contents of static storage: %s' % (str(d)[:200])
            if s == 'refuted':
                res = ('refuted', str(d))
            else:
                res = ('open', 'not proved; ' + why + '%s' % (('held in %s sampled models' % d) if s == 'held' else d))
        seen[key] = res
        out.append((name, kind) + res)


def run_task(args):
    """executed in a worker process"""
    fn, fargs, name, seed, tlimit, conn = args
    res = {'task': name, 'obs': [], 'unsupported': None, 'functions': {}, 'contracts': [], 'libs': [], 'notes': []}
    t0 = time.time()
    k = K(name, seed)

    def alarm(*a):
        raise pv.Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, tlimit)
    try:
        try:
            fn(k, *fargs)
        except (X.Unsupported, front.FrontError, SpecFail) as e:
            res['unsupported'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        except pv.Timeout:
            res['unsupported'] = 'time limit of the symbolic execution'
        except RecursionError:
            res['unsupported'] = 'recursion limit'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res['unsupported'] = 'internal: %s: %s at %s:%s' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
        res['exec_s'] = round(time.time() - t0, 2)
        try:
            discharge(k, res['obs'])
        except pv.Timeout:
            res['unsupported'] = res['unsupported'] or 'time limit of the prover'
    except pv.Timeout:
        res['unsupported'] = res['unsupported'] or 'time limit'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res['functions'].update({f: 'sim_class.py' for f in getattr(k, 'functions', ())})
    for r in k.runs:
        res['functions'].update(r.ex.functions)
        res['contracts'] = sorted(set(res['contracts']) | set(r.ex.modelled))
        res['libs'] = sorted(set(res['libs']) | set(r.ex.libs))
    res['notes'] = k.notes
    res['time_s'] = round(time.time() - t0, 2)
    res['stats'] = dict(pv.STATS)
    res['slowest'] = round(SLOW[0], 2)
    conn.send(res)
    conn.close()


def run_tasks(tasks, seed=1, tlimit=300.0, workers=None, total=None):
    """tasks: list of (name, fn, args).  Programs must be parsed by the caller before (shared through fork)."""
    workers = workers or min(8, os.cpu_count() or 4)
    pend = list(tasks)
    live = []
    out = []
    t0 = time.time()
    while pend or live:
        while pend and len(live) < workers:
            name, fn, args = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=run_task, args=((fn, args, name, seed, tlimit, b),), daemon=True)
            p.start()
            b.close()
            live.append((p, a, name, time.time()))
        nl = []
        for p, a, name, ts in live:
            got = None
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = {'task': name, 'obs': [], 'unsupported': 'worker died', 'functions': {}, 'contracts': [], 'libs': [], 'notes': [], 'time_s': 0, 'stats': {}}
                p.join(5)
            elif time.time() - ts > tlimit + 60 or (total and time.time() - t0 > total):
                p.kill()
                p.join(5)
                got = {'task': name, 'obs': [], 'unsupported': 'time limit (killed)', 'functions': {}, 'contracts': [], 'libs': [], 'notes': [], 'time_s': round(time.time() - ts, 1), 'stats': {}}
            elif not p.is_alive() and not a.poll(0.2):
                got = {'task': name, 'obs': [], 'unsupported': 'worker died (exit %s)' % p.exitcode, 'functions': {}, 'contracts': [], 'libs': [], 'notes': [], 'time_s': 0, 'stats': {}}
            if got is not None:
                out.append(got)
            else:
                nl.append((p, a, name, ts))
        live = nl
        time.sleep(0.02)
    return out
