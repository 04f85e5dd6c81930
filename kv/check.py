"""Driver: decide one property of /repo's current tree.

exit 0: every obligation discharged (or: bounded stand-in held, see evidence);  exit 1: VIOLATION line printed."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')

TRUSTED = [
    'kv: symbolic executor, loop summaries and prover written for this task (kv/*.py); a prover error could accept a false obligation',
    'clang 18 front end (JSON AST of the real sources; the verified text is the text that is compiled)',
    'declaration-only stubs of the C++ library, FFTW, SHTns and OpenMP headers (kv/stubs); their behaviour is contracted in kv/lib.py and kv/contracts.py',
    'floating-point arithmetic treated as exact real arithmetic',
    'machine integers treated as mathematical integers, except that unsigned underflow below zero is an obligation',
]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(l)
    return out


def summarise(res):
    """(proved, refuted, open_, unsupported) over the tasks' results"""
    proved, refuted, op, uns = [], [], [], []
    for r in res:
        if r['unsupported']:
            uns.append((r['task'], r['unsupported']))
        for o in r['obs']:
            {'proved': proved, 'refuted': refuted}.get(o[2], op).append((r['task'],) + tuple(o))
    return proved, refuted, op, uns


def main(argv):
    t0 = time.time()
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import assume, props
    res = []
    front_err = None
    ptime = 0.0
    if prop in props.SPECS:
        try:
            if prop not in props.NO_CPP:
                from . import core, front
                tp = time.time()
                front.preload()
                ptime = time.time() - tp
            from . import core
            T = props.tasks(prop)
            lim = 330 if tier == 'quick' else 600
            res = core.run_tasks(T, seed=seed, tlimit=lim, total=lim + 20)
        except Exception as e:
            front_err = '%s: %s' % (type(e).__name__, str(e)[:400])
            traceback.print_exc()
    proved, refuted, op, uns = summarise(res)
    if front_err:
        uns.append(('front end', front_err))
    nobs = len(proved) + len(refuted) + len(op)
    tasks_empty = [r['task'] for r in res if not r['obs'] and not r['unsupported']]
    if tasks_empty or (prop in props.SPECS and not nobs):
        uns.append(('vacuity guard', 'no obligation generated: %s' % (tasks_empty or 'all tasks')))
    verif_s = time.time() - t0
    # ---- replay battery on the real code ----
    bat = {'ran': False, 'violations': [], 'evaluations': 0, 'samples': [], 'errors': [], 'rule': ''}
    if prop in props.BATTERY:
        from . import battery
        try:
            bat = battery.run(prop, seed=seed, tier=tier, focus=bool(refuted or op or uns), budget=max(60, (840 if tier == 'quick' else 840) - (time.time() - t0)))
        except Exception as e:
            bat['errors'].append('battery: %s: %s' % (type(e).__name__, str(e)[:400]))
            traceback.print_exc()
    # ---- verdict ----
    viol = []
    kf = known_findings(prop)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + '.txt')
    if os.path.exists(rp):
        os.remove(rp)
    # an obligation the prover gave up on (as opposed to: ran out of time on) is a failed obligation
    failed = [o for o in op if 'limit; ' not in o[4]]
    if bat['violations'] or refuted or failed:
        with open(rp, 'w') as fh:
            fh.write('property %s\n' % prop)
            for v in bat['violations']:
                fh.write('\nFAILING INPUT (replayed against the real code):\n%s\n' % v)
            for o in refuted:
                fh.write('\nFAILED OBLIGATION: %s\n  kind: %s\n  task: %s\n  verifier: refuted; counter-model: %s\n' % (o[1], o[2], o[0], o[4]))
            for o in op:
                fh.write('\nUNDISCHARGED OBLIGATION: %s\n  kind: %s\n  task: %s\n  verifier: %s\n' % (o[1], o[2], o[0], o[4]))
            for u in uns:
                fh.write('\nNOT WITHIN REACH: %s: %s\n' % u)
            fh.write('\nreplay with: cd /verif && ./check %s\n' % prop)
        viol = [bat['violations'], refuted, failed]
    complete = nobs > 0 and not op and not uns and not refuted
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if complete else 'other', 'wall_s': round(time.time() - t0, 1),
          'violations': len(bat['violations']) + len(refuted) + len(failed)}
    fns = {}
    mods, libs = set(), set()
    for r in res:
        fns.update(r['functions'])
        mods |= set(r['contracts'])
        libs |= set(r['libs'])
    st = {}
    for r in res:
        for k, v in r.get('stats', {}).items():
            if isinstance(v, (int, float)):
                st[k] = st.get(k, 0) + v
    ev['coverage'] = {
        'obligations': nobs, 'discharged': len(proved), 'refuted': len(refuted), 'open': len(op),
        'checker_cmd': 'cd /verif && ./check %s' % prop,
        'trusted_base': TRUSTED,
        'functions_verified': sorted(fns), 'callees_by_contract': sorted(mods), 'library_contracts': sorted(libs),
        'tasks': len(res), 'obligations_by_kind': {k: sum(1 for o in proved if o[2] == k) for k in sorted({o[2] for o in proved})},
        'back_ends': 'kv prover (normal forms, array-family matching, induction on loop summaries), z3, sympy', 'solver_stats': {k: round(v, 2) for k, v in st.items()},
        'slowest_obligation_s': max([r.get('slowest', 0) for r in res] or [0]), 'task_time_s': round(sum(r.get('time_s', 0) for r in res), 1), 'parse_time_s': round(ptime, 1), 'verifier_wall_s': round(verif_s, 1),
        'not_within_reach': ['%s: %s' % u for u in uns], 'undischarged': [o[1] + ' -- ' + o[4][:160] for o in op][:20],
        'evaluations': bat['evaluations'], 'rule': bat.get('rule', ''), 'samples': bat['samples'][:3], 'battery_errors': bat['errors'][:5],
    }
    if not complete:
        ev['coverage']['explanation'] = ('BOUNDED: %d obligation(s) not discharged and %d item(s) outside the verifier\'s subset; for these only the bounded replay battery '
                                         '(%d evaluations on the real code) stands in, nothing is counted as proved beyond the discharged obligations' % (len(op) + len(refuted), len(uns), bat['evaluations']))
    ev['assumptions'] = assume.for_prop(prop, mods, libs)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s: %d obligations, %d discharged, %d refuted, %d open, %d outside reach; battery %d evaluations, %d violations; %.1f s' % (
        prop, nobs, len(proved), len(refuted), len(op), len(uns), bat['evaluations'], len(bat['violations']), time.time() - t0))
    for u in uns[:6]:
        print('  not within reach: %s: %s' % u)
    for o in [x for x in op if x not in failed][:6]:
        print('  undischarged: %s -- %s' % (o[1], o[4][:200]))
    for e in bat['errors'][:4]:
        print('  battery: ' + str(e)[:300])
    for l in kf:
        print(l)
    if viol:
        for o in refuted[:6]:
            print('  failed obligation: %s -- %s' % (o[1], o[4][:300]))
        for o in failed[:6]:
            print('  failed obligation (not proved): %s -- %s' % (o[1], o[4][:300]))
        for v in bat['violations'][:4]:
            print('  failing input: ' + str(v)[:400])
        tail = '' if bat['violations'] else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, tail))
        return 1
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv))
