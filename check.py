#!/usr/bin/env python3-vt
"""Decide one property by symbolic execution of the code in /repo.

    check.py C01 [--tier quick|thorough] [--only HARNESS] [-v]
    check.py --replay FILE          replay a counterexample on the real code
"""

import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VS_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path[:0] = [HERE, REPO]
sys.path.append(SITE)
sys.setrecursionlimit(20000)

REPLAYS = os.path.join(HERE, 'replays')
EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')


def prop_modules(prop):
    """The files in props/ that have harnesses for the property."""
    d = os.path.join(HERE, 'props')
    return [f[:-3] for f in sorted(os.listdir(d))
            if f.endswith('.py') and f.lower().startswith(prop.lower())]


def load(prop):
    from vs import ctx
    for m in prop_modules(prop):
        importlib.import_module('props.' + m)
    return [h for h in ctx.HARNESSES.values() if h.prop == prop]


def known_ids(prop):
    ids = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    d = line.split(None, 3)
                    ids[d[2].partition('=')[2]] = d[3].strip()
    except OSError:
        pass
    return ids


# ------------------------------------------------------------ concrete replay
def run_concrete(h, case, inputs, limit=20):
    """Run a harness on the real code. Return (status, detail, observed)."""
    import signal
    import traceback
    from vs import ctx as C
    c = C.ConcreteCtx({k: C.dec(v) for k, v in inputs.items()}, case)

    class Timeout(BaseException):
        pass

    def alarm(*a):
        raise Timeout
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            h.func(c)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except C.Skip:
        return 'skip', '', c.observed
    except C.Violation as e:
        return 'violation', c.failures[-1], c.observed
    except Timeout:
        return 'violation', ('no result in %s s' % limit, None), c.observed
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        f = tb[-1]
        return 'violation', ('exception %s: %s at %s:%d' % (
            type(e).__name__, str(e)[:300], f.filename, f.lineno), None), c.observed
    return 'ok', '', c.observed


def concrete_server(prop):
    """Read jobs (JSON lines) from stdin; run them on the uninstrumented code."""
    hs = {h.name: h for h in load(prop)}
    import quickly
    assert '_vs_call' not in vars(sys.modules['quickly'])
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        job = json.loads(line)
        st, detail, obs = run_concrete(hs[job['harness']], job['case'], job['inputs'], job.get('limit', 20))
        out.write(json.dumps([st, detail, obs]) + '\n')
        out.flush()


def concrete_batch(prop, jobs, timeout=300):
    if not jobs:
        return []
    r = subprocess.run([sys.executable, os.path.abspath(__file__), '--serve', prop],
                       input=''.join(json.dumps(j) + '\n' for j in jobs),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    res = [json.loads(l) for l in r.stdout.splitlines()]
    while len(res) < len(jobs):
        res.append(['error', r.stderr[-500:], []])
    return res


def replay(path):
    with open(path) as f:
        d = json.load(f)
    [res] = concrete_batch(d['property'], [d])
    print('%s: %s' % (res[0], res[1]))
    print(json.dumps(d['inputs'], indent=1))
    for n, v in res[2]:
        print('  observed %s = %r' % (n, v))
    return 1 if res[0] == 'violation' else 0


# ------------------------------------------------------------ symbolic run
def run_job(args):
    """Worker: explore one case of one harness symbolically."""
    name, case, opts = args
    from vs import ctx as C, core, ops
    h = C.HARNESSES[name]
    ops.FUNCTIONS.clear()
    eng = core.Engine(max_paths=opts['max_paths'], max_time=opts['max_time'],
                      query_timeout=opts['query_timeout'], seed=opts['seed'])
    eng.path_time = h.opts.get('path_time', 60)
    eng.max_candidates = opts.get('max_candidates', 12)
    known = opts['known']

    def run(e):
        h.func(C.SymCtx(e, case, known))
    err = ''
    try:
        eng.run(run)
    except Exception as e:
        import traceback
        err = traceback.format_exc()
    E = lambda d: {k: C.enc(v) for k, v in d.items()}
    return dict(harness=name, case=case, paths=eng.paths, queries=eng.queries, forks=eng.forks,
                solver_time=eng.solver_time, wall=getattr(eng, 'wall', 0), proved=eng.proved,
                trivial=eng.trivial, unknown=eng.unknown, inconclusive=eng.inconclusive[:50],
                n_inconclusive=len(eng.inconclusive), reached=eng.reached, exhausted=eng.exhausted,
                candidates=[(l, E(i)) for l, i in eng.candidates],
                known_hits=[(k, l, E(i)) for k, l, i in eng.known_hits[:3]],
                witnesses=[(E(i), o) for i, o in eng.witnesses], error=err,
                functions=sorted(ops.FUNCTIONS))


def check(prop, tier, only=None, verbose=False, jobs=None):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from vs import instr, ctx as C
    C.SYMBOLIC = True
    instr.install(REPO)
    hs = load(prop)
    if only:
        hs = [h for h in hs if h.name in only.split(',')]
    if not hs:
        print('no harness for', prop)
        return 2
    known = known_ids(prop)
    quick = tier == 'quick'
    budget = 300 if quick else 1800
    todo = []
    for h in hs:
        for case in (h.cases if quick else h.thorough):
            todo.append((h.name, case, dict(
                max_paths=h.opts.get('max_paths', 10**6), max_time=h.opts.get('max_time', budget) if quick else budget,
                query_timeout=20000 if quick else 60000, seed=seed, known=tuple(known))))
    import multiprocessing
    results = []
    stop = t0 + (700 if quick else 6 * 3600)
    njobs = jobs or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    late = 0
    with ctx.Pool(njobs, maxtasksperchild=8) as pool:
        it = [pool.apply_async(run_job, (j,)) for j in todo]
        for j, r in zip(todo, it):
            try:
                res = r.get(max(1, stop - time.monotonic()))
            except multiprocessing.TimeoutError:
                late += 1
                continue
            results.append(res)
            if verbose:
                print('%-36s %-60s paths=%d queries=%d proved=%d trivial=%d cand=%d inc=%d %s %.1fs (solver %.1f)%s' % (
                    res['harness'], json.dumps(res['case'])[:60], res['paths'], res['queries'], res['proved'],
                    res['trivial'], len(res['candidates']), res['n_inconclusive'],
                    'exhausted' if res['exhausted'] else 'NOT-EXHAUSTED', res['wall'], res['solver_time'],
                    ' ERROR ' + res['error'] if res['error'] else ''))
                for i in sorted(set(res['inconclusive']))[:5]:
                    print('    inconclusive:', i)
        pool.terminate()

    if os.environ.get('VS_DUMP'):       # for development: a candidate of every case
        for i, r in enumerate(r for r in results if r['candidates']):
            with open(os.path.join(os.environ['VS_DUMP'], 'cand%d.json' % i), 'w') as f:
                label, inputs = r['candidates'][0]
                json.dump(dict(property=prop, harness=r['harness'], case=r['case'], label=label, inputs=inputs), f)

    # replay the candidates on the real code
    cands = []
    seen = {}
    for r in results:
        for label, inputs in r['candidates']:
            key = (r['harness'], label)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 4:
                cands.append(dict(property=prop, harness=r['harness'], case=r['case'], label=label, inputs=inputs))
    cands = cands[:60]
    violations = []
    spurious = []
    for c, (st, detail, obs) in zip(cands, concrete_batch(prop, cands, 600)):
        if st == 'violation':
            violations.append((c, detail[0]))
        elif c['label'].startswith('degraded'):
            pass
        else:
            spurious.append((c, st, detail))
    # known findings must still be what they are
    known_seen = {}
    kjobs = [(k, dict(property=prop, harness=r['harness'], case=r['case'], inputs=i))
             for r in results for k, l, i in r['known_hits']]
    for (k, j), (st, detail, obs) in zip(kjobs, concrete_batch(prop, [j for k, j in kjobs])):
        if st == 'violation':
            known_seen[k] = detail[0]

    # validate the encoding: run witnesses of paths on the real code
    wit = []
    for r in results:
        n = 0
        for inputs, obs in r['witnesses']:
            if n >= (6 if quick else 24):
                break
            n += 1
            wit.append((dict(property=prop, harness=r['harness'], case=r['case'], inputs=inputs), obs))
    wit = wit[:400]
    agree = 0
    disagree = []
    for (job, obs), (st, detail, cobs) in zip(wit, concrete_batch(prop, [w[0] for w in wit], 600)):
        sobs = json.loads(json.dumps(obs))
        if st == 'ok' and sobs == cobs:
            agree += 1
        elif st == 'violation':
            if not any(v[0]['inputs'] == job['inputs'] for v in violations):
                violations.append((dict(job, label=detail[0]), detail[0]))
        else:
            disagree.append((job, st, detail, sobs, cobs))

    vacuous = []
    for h in hs:
        n = sum(sum(r['reached'].values()) for r in results if r['harness'] == h.name)
        if not n:
            vacuous.append(h.name)
    tot = lambda k: sum(r[k] for r in results)
    functions = sorted(set(f for r in results for f in r['functions']))
    nonexh = [(r['harness'], r['case']) for r in results if not r['exhausted']]
    errors = [r['error'] for r in results if r['error']]
    complete = not (nonexh or errors or late or tot('n_inconclusive') or vacuous or spurious or disagree)
    wall = time.monotonic() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level='other', wall_s=round(wall, 2),
        coverage=dict(
            explanation='Bounded symbolic execution of the real Python code (read from the source tree '
                        'and instrumented on this run) with z3: inputs are symbolic, every feasible path '
                        'within the bounds is explored, and each assertion is decided by the solver for all '
                        'values on its path. ' +
                        ('Every harness was explored completely within its bounds.' if complete else
                         'NOT complete on this run: see the lists below; what they name is not covered.'),
            bounds={h.name: dict(what=h.doc, bounds=h.bounds) for h in hs},
            cases=len(results), paths=tot('paths'), forks=tot('forks'), queries=tot('queries'),
            solver_time_s=round(tot('solver_time'), 2),
            assertions_proved_by_solver=tot('proved'), assertions_concrete_on_path=tot('trivial'),
            solver_unknown=tot('unknown'),
            functions_encoded=len(functions), functions=functions,
            witnesses_replayed_on_real_code=len(wit), witnesses_agreeing=agree,
            complete_within_bounds=complete,
            not_exhausted=nonexh[:20], cases_not_finished=late,
            inconclusive=sorted(set(i for r in results for i in r['inconclusive']))[:20],
            vacuous=vacuous, spurious_counterexamples=[(c, s, str(d)) for c, s, d in spurious[:5]],
            encoding_disagreements=[(j, s, str(d)) for j, s, d, a, b in disagree[:5]],
            engine_errors=errors[:3],
            samples=[dict(harness=j['harness'], case=j['case'], inputs=j['inputs'], observed=o) for j, o in wit[:3]],
            known_findings_seen=sorted(known_seen),
        ),
        assumptions=ASSUMPTIONS,
        violations=len(violations),
    )
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known_seen):
        print('KNOWN-FINDING: property=%s %s' % (prop, known.get(k, k)))
    print('%s %s: %d cases, %d paths, %d queries (%.1f s), %d proved + %d concrete assertions, '
          '%d/%d witnesses agree, %d functions, %.1f s%s' % (
              prop, tier, len(results), tot('paths'), tot('queries'), tot('solver_time'), tot('proved'),
              tot('trivial'), agree, len(wit), len(functions), wall, '' if complete else ' INCOMPLETE'))
    if not complete:
        for h, c in nonexh[:10]:
            print('  not exhausted:', h, c)
        for i in ev['coverage']['inconclusive'][:10]:
            print('  inconclusive:', i)
        for v in vacuous:
            print('  vacuous:', v)
        for c, s, d in spurious[:5]:
            print('  counterexample did not reproduce:', json.dumps(c), s, d)
        for j, s, d, a, b in disagree[:3]:
            print('  encoding disagrees:', json.dumps(j), s, d, a, b)
        for e in errors[:2]:
            print('  engine error:', e)
        if late:
            print('  cases not finished:', late)
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        shown = set()
        for c, detail in violations:
            if (c['harness'], c['label']) in shown:
                continue
            shown.add((c['harness'], c['label']))
            path = os.path.join(REPLAYS, '%s-%d.json' % (prop, len(shown)))
            with open(path, 'w') as f:
                json.dump(dict(c, detail=detail), f, indent=1)
            print('%s [%s] %s %s' % (c['harness'], detail, json.dumps(c['case']), json.dumps(c['inputs'])))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if len(shown) >= 5:
                break
        return 1
    if not complete and os.environ.get('VS_STRICT'):
        return 2
    return 0


ASSUMPTIONS = [
    'Symbolic rationals are multiples of a stated power-of-two (or small) denominator within a stated '
    'range; floats holding such values are exact, so they are modelled as exact rationals.',
    'Symbolic strings have a stated length and alphabet; regular expressions and dictionary keys are '
    'decided by forking over the feasible concrete values.',
    'parce (the lexer) and the Python standard library run concretely and are trusted.',
    'Only what the listed bounds include is decided; larger inputs are outside the claim.',
]


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--tier', default=None)
    p.add_argument('--only')
    p.add_argument('--replay')
    p.add_argument('--serve')
    p.add_argument('-v', action='store_true')
    p.add_argument('-j', type=int)
    a = p.parse_args()
    if a.serve:
        concrete_server(a.serve)
        return 0
    if a.replay:
        return replay(a.replay)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    return check(a.prop, tier, a.only, a.v, a.j)


if __name__ == '__main__':
    sys.exit(main())
