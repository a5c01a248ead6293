"""Decides one property: explores all its harnesses symbolically, replays
counterexamples on the unmodified code, writes evidence.

python3-vt symex/run.py C01 [--shard SUBSTR] [-v]"""
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(5000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

REAL_PYTHON = '/opt/venv/bin/python'
WORKERS = int(os.environ.get('SYMEX_WORKERS', '8'))
PATH_TIMEOUT = 20
MAX_TRACES = 12       # passing paths of a shard replayed
MAX_VIOLATIONS = 4    # of a shard
MAX_FAILED = 4        # shards with violations, the rest is skipped
FAILED = multiprocessing.Value('i', 0)


def alarm(*_):
    from symex.engine import PathTimeout
    raise PathTimeout


def run_shard(args):
    prop, name, params, seed, deadline = args
    from symex import engine as E, loader
    from symex.symctx import SymCtx
    module = importlib.import_module('checks.' + prop.lower())
    harness = getattr(module, params.get('h', 'harness'))
    engine = E.Engine(max_paths=params.get('max_paths'), deadline=deadline)
    rng = random.Random('%s %s' % (seed, name))
    violations, traces, covered = [], [], set()
    keys = set()
    passed = [0]
    timeouts = [0]
    state = {'stop': False}

    def candidate(ctx, kind, message, detail=None):
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            model = ctx.dump()
        except BaseException as e:
            engine.note('no model: %s' % type(e).__name__)
            return
        violations.append(E.Violation(message, model, kind, detail))
        violations[-1].key = ctx.key

    def run():
        loader.restore_state()
        ctx = SymCtx(params, engine)
        ctx.violations = violations
        ctx.key = None
        before = len(violations)
        if FAILED.value >= MAX_FAILED:
            state['stop'] = True
            engine.deadline = 1
            return
        # again later, if it was raised where exceptions are swallowed
        signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT, 2)
        try:
            harness(ctx)
            passed[0] += 1
            # reservoir of passing paths to replay
            if len(traces) < MAX_TRACES:
                slot = len(traces)
                traces.append(None)
            else:
                slot = rng.randrange(passed[0])
            if slot < MAX_TRACES:
                traces[slot] = {
                    'model': ctx.dump(),
                    'observations': [repr((k, ctx.evaluate(v))) for k, v in ctx.observations],
                }
        except E.PathTimeout:
            timeouts[0] += 1
            candidate(ctx, 'timeout', 'does not terminate in %d s' % PATH_TIMEOUT)
        except MemoryError:
            timeouts[0] += 1
            candidate(ctx, 'timeout', 'memory exhausted')
        except E.Unsupported as e:
            engine.note('unsupported: %s' % e)
            candidate(ctx, 'unsupported', str(e))
        except E.Inconclusive as e:
            engine.note('solver: unknown')
            state['unknown'] = True
            candidate(ctx, 'unsupported', 'solver: unknown')
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            candidate(ctx, 'exception', '%s: %s' % (type(e).__name__, e), tb[-8:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            covered.update(ctx.covered)
            for v in violations[before:]:
                v.key = ctx.key
                keys.add(v.key)
            if ctx.key is not None and sum(1 for v in violations if v.key == ctx.key) > 40:
                del violations[before:]
        if timeouts[0] >= 2 or timeouts[0] and FAILED.value or sum(1 for v in violations if v.key is None) >= MAX_VIOLATIONS \
                or len(violations) >= 1000:
            state['stop'] = True
            engine.deadline = 1

    signal.signal(signal.SIGALRM, alarm)
    t = time.time()
    error = None
    try:
        engine.explore(run)
    except BaseException:
        error = traceback.format_exc()
    if timeouts[0] or any(v.key is None and v.kind == 'check' for v in violations):
        with FAILED.get_lock():
            FAILED.value += 1
    # one of each known key is enough
    kept, seen, n = [], set(), 0
    for v in violations:
        if v.kind == 'unsupported':
            n += 1
            if n > 40:
                continue
        elif v.key is not None:
            if v.key in seen:
                continue
            seen.add(v.key)
        kept.append({'kind': v.kind, 'message': v.message, 'model': v.model,
                     'detail': v.detail, 'key': v.key})
    return {
        'name': name, 'params': params, 'paths': engine.paths, 'passed': passed[0],
        'branches': engine.branches, 'forks': engine.forks, 'queries': engine.queries,
        'assertions': engine.assertions, 'solver_time': engine.solver_time,
        'complete': engine.complete and not state['stop'] and error is None,
        'notes': engine.notes, 'violations': kept, 'traces': traces,
        'covered': sorted(covered), 'functions': sorted(loader.FUNCTIONS),
        'wall': time.time() - t, 'error': error,
    }


def init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def concrete(items, seed):
    """Outcomes of concrete runs, in several processes with different hash seeds."""
    n = max(1, min(WORKERS, (len(items) + 19) // 20))
    chunks = [items[i::n] for i in range(n)]
    out = [None] * len(items)
    jobs = []
    with tempfile.TemporaryDirectory() as tmp:
        for i, chunk in enumerate(chunks):
            path = os.path.join(tmp, '%d.json' % i)
            with open(path, 'w') as f:
                json.dump(chunk, f)
            env = dict(os.environ, PYTHONHASHSEED=str((seed * 97 + i * 31) % 4294967295),
                       PYTHONDONTWRITEBYTECODE='1')
            jobs.append(subprocess.Popen(
                [REAL_PYTHON, os.path.join(HERE, 'symex', 'replay.py'), path, '--batch'],
                stdout=open(path + '.out', 'w+'), stderr=open(path + '.err', 'w+'), env=env))
        for i, job in enumerate(jobs):
            try:
                job.wait(timeout=60 + 25 * len(chunks[i]))
            except subprocess.TimeoutExpired:
                job.kill()
                job.wait()
            path = os.path.join(tmp, '%d.json' % i)
            with open(path + '.out') as f:
                lines = f.read().splitlines()
            with open(path + '.err') as f:
                err = f.read()
            for j in range(len(chunks[i])):
                if j < len(lines):
                    try:
                        r = json.loads(lines[j])
                    except ValueError:
                        r = {'status': 'error', 'message': lines[j]}
                else:
                    r = {'status': 'error', 'message': 'replay died: ' + err[-500:]}
                out[i + j * n] = r
    return out


def load_findings():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def main():
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--shard')
    parser.add_argument('--no-evidence', action='store_true')
    parser.add_argument('-v', action='store_true')
    args = parser.parse_args()
    prop, tier, seed = args.property, args.tier, args.seed
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    started = time.time()
    budget = 600 if tier == 'quick' else int(os.environ.get('SYMEX_BUDGET', '3000'))
    deadline = started + budget

    from symex import loader
    loader.install()
    try:
        module = importlib.import_module('checks.' + prop.lower())
        import_error = None
    except Exception:
        import_error = traceback.format_exc()
    if import_error:
        print(import_error)
        print('ERROR: harness of %s can not be loaded' % prop)
        return 2
    shards = module.shards(tier)
    if args.shard:
        shards = [s for s in shards if args.shard in s[0]]
    jobs = [(prop, name, params, seed, deadline) for name, params in shards]
    results = []
    with multiprocessing.get_context('fork').Pool(
            min(WORKERS, len(jobs)), init_worker, maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(run_shard, jobs, chunksize=1):
            results.append(r)
            if args.v:
                print('%-40s paths %-6d branches %-7d queries %-7d solver %.1fs wall %.1fs %s%s' % (
                    r['name'][:40], r['paths'], r['branches'], r['queries'], r['solver_time'],
                    r['wall'], '' if r['complete'] else 'INCOMPLETE ', r['notes'] or ''), flush=True)
                for v in r['violations'][:3]:
                    print('   candidate', v['kind'], v['message'], v['key'], v['model'])
                    if v['detail']:
                        print('      ' + '\n      '.join(v['detail']))
                if r['error']:
                    print(r['error'])
    results.sort(key=lambda r: [s[0] for s in shards].index(r['name']))

    # ---- concrete runs: counterexamples and samples of passing paths
    items, refs = [], []
    per_key = {}
    for r in results:
        for v in r['violations']:
            k = (v['key'], v['kind']) if v['key'] else (r['name'], v['kind'])
            per_key[k] = per_key.get(k, 0) + 1
            if per_key[k] > 40:
                continue
            items.append({'property': prop, 'params': r['params'], 'model': v['model']})
            refs.append((r, v, None))
        for t in r['traces']:
            if t:
                items.append({'property': prop, 'params': r['params'], 'model': t['model']})
                refs.append((r, None, t))
    outcomes = concrete(items, seed)
    found, known, errors, fallback = [], {}, [], 0
    validated = 0
    findings = [f for f in load_findings()['findings'] if f['property'] == prop]
    listed = {f['key']: f for f in findings}
    for item, (r, v, t), o in zip(items, refs, outcomes):
        status = o['status']
        bad = status in ('fail', 'exception', 'timeout')
        if bad and o.get('key') in listed:
            known[o['key']] = o
            continue
        if bad and status != 'timeout':
            found.append((item, o))
            continue
        if status == 'timeout':
            if v is None or v['kind'] == 'timeout':
                found.append((item, o))
            else:
                errors.append('replay timeout: %s %s' % (r['name'], item['model']))
            continue
        if status == 'error':
            errors.append('%s: %s' % (r['name'], o['message']))
            continue
        if v is not None:
            if v['kind'] == 'check':
                errors.append('counterexample does not reproduce: %s %s %s' % (
                    r['name'], v['message'], json.dumps(v['model'])))
            else:
                # no symbolic verdict for this path, only a concrete one
                fallback += 1
                if v['kind'] == 'exception':
                    r['notes']['concretely checked: ' + v['message'][:80]] = \
                        r['notes'].get('concretely checked: ' + v['message'][:80], 0) + 1
                    if args.v:
                        print(r['name'], v['detail'])
        else:
            if status == 'skip':
                errors.append('trace skipped concretely: %s %s' % (r['name'], item['model']))
            elif o['observations'] != t['observations']:
                errors.append('observations differ: %s %s\n  symbolic %s\n  concrete %s' % (
                    r['name'], json.dumps(item['model']), t['observations'], o['observations']))
            else:
                validated += 1
    for r in results:
        if r['error']:
            errors.append('%s: %s' % (r['name'], r['error'].strip().splitlines()[-1]))

    covered = set()
    for r in results:
        covered.update(r['covered'])
    if not args.shard and not found:
        for label in getattr(module, 'COVER', {}).get(tier, getattr(module, 'COVER', {}).get('all', ())):
            if label not in covered:
                errors.append('vacuous: nothing reached %r' % label)
    if FAILED.value >= MAX_FAILED and not found:
        errors.append('stopped early, but no violation is reproduced')
    for r in results:
        if r['passed'] == 0 and not r['violations'] and not r['error']:
            errors.append('vacuous: no path of %s ends' % r['name'])

    total = lambda k: sum(r[k] for r in results)
    functions = sorted(set(f for r in results for f in r['functions']))
    notes = {}
    for r in results:
        for k, n in r['notes'].items():
            notes[k] = notes.get(k, 0) + n
    exhaustive = all(r['complete'] for r in results) and not fallback and not errors
    samples = []
    for r in results:
        for t in r['traces'][:2]:
            if t and len(samples) < 12:
                samples.append({'harness': r['name'], 'input': t['model'],
                                'observed': t['observations'][:6]})
    wall = time.time() - started
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total('paths'),
            'transitions': total('branches'),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'harness': r['name'], 'input': r['params']} for r in results[:3]],
            'exhaustive': exhaustive,
            'explanation': 'states: paths of the real code executed symbolically; transitions: '
                           'decisions on symbolic values; every assertion is decided by z3 for all '
                           'the inputs of its path',
            'technique': 'dynamic symbolic execution of the source in /repo, z3',
            'bounds': getattr(module, 'BOUNDS', {}).get(tier, ''),
            'functions_encoded': functions,
            'queries_discharged': total('queries'),
            'assertions_decided': total('assertions'),
            'forks': total('forks'),
            'solver_time_s': round(total('solver_time'), 2),
            'harnesses': [
                {'name': r['name'], 'paths': r['paths'], 'complete': r['complete'],
                 'wall_s': round(r['wall'], 2)} for r in results
            ] if len(results) <= 80 else {
                'count': len(results),
                'complete': sum(1 for r in results if r['complete']),
                'slowest': sorted(((round(r['wall'], 2), r['name']) for r in results), reverse=True)[:5],
            },
            'reached': sorted(covered),
            'paths_without_symbolic_verdict': fallback,
            'notes': notes,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': len(found),
    }
    if not args.no_evidence and not args.shard:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, ensure_ascii=False, indent=1)
    print('%s %s: %d harnesses, %d paths, %d decisions, %d queries, %.1f s of solver, %d traces replayed, '
          '%s, %.1f s' % (prop, tier, len(results), total('paths'), total('branches'), total('queries'),
                          total('solver_time'), validated,
                          'exhaustive within bounds' if exhaustive else 'NOT exhaustive', wall))
    for k, o in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, listed[k]['what']))
    if found:
        base = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(base, exist_ok=True)
        seen = set()
        for item, o in found:
            msg = o.get('message', '')
            k = (json.dumps(item['params'], sort_keys=True), msg.split(':')[0])
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 5:
                break
            path = os.path.join(base, '%s_%d.json' % (prop, len(seen)))
            with open(path, 'w') as f:
                json.dump(item, f, ensure_ascii=False)
            print('  %s: %s' % (o['status'], msg))
            print('  params %s input %s' % (json.dumps(item['params'], ensure_ascii=False),
                                            json.dumps(item['model'], ensure_ascii=False)))
            for line in o.get('traceback', ())[-4:]:
                print('    ' + line)
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR: %s' % e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
