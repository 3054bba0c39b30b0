#!/usr/bin/env python3-vt
"""check.py PROPERTY        decides one property on the current tree of /repo (see DESIGN.md)

1. every contract the property is made of, and every contract those rely on, is verified against the current source
   (pv/: symbolic execution, obligations discharged by z3, cvc5 where z3 does not decide);
2. histories are run on the real code against a model (fals/): a labelled bounded cross-check, and the search for a
   concrete failing input when an obligation is not discharged.
exit 0: held; exit 1: VIOLATION line."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
import json, time, z3, subprocess, signal, importlib, traceback, re, tempfile
from multiprocessing import get_context
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(6000)
REPO = os.environ.get('VREPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else '/usr/bin/python3'
NPROC = max(2, min(8, os.cpu_count() or 8))
BUDGET = 560 if TIER == 'quick' else 3000      # seconds for the proof part, all tasks together
TASK_LIMIT = 300 if TIER == 'quick' else 1500

from pv.source import Program
from pv.contracts import Registry
from pv.engine import Engine, Opts, Obl, TimeUp
import plan


def build():
    prog = Program(REPO)
    reg = Registry()
    for m in plan.MODULES:
        importlib.import_module('specs.' + m).build(reg)
    return prog, reg


PROG = REG = None


def init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def worker(task):
    """one contract against one method: (task, result dict)"""
    name, cls, mode, timeout_ms, limit = task[:5]
    z3.set_param('smt.random_seed', task[5] if len(task) > 5 else 0)
    spec = REG.specs[(name, cls)]
    REG.renames.clear()
    REG.choices.clear()
    o = Opts()
    o.timeout_ms = timeout_ms
    e = Engine(PROG, REG, o)
    e.mode = mode
    t0 = time.time()

    def up(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.alarm(int(limit))
    try:
        e.verify(spec, cls)
    except TimeUp:
        e.failed.append(Obl('not discharged within %d s' % limit, False, None))
    except MemoryError:
        e.failed.append(Obl('verifier out of memory', False, None))
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        e.failed.append(Obl('not decided (verifier error %s: %s at %s)' %
                            (type(ex).__name__, str(ex)[:200], tb[-1].name if tb else ''), False, None))
    finally:
        signal.alarm(0)
    q = ('%s.%s' % (cls, name)) if cls else name
    return task, dict(name=q, discharged=e.discharged,
                      failed=[dict(contract=q, obligation=o.label, at=str(o.line), model=(o.model or '')[:1500],
                                   note=str(o.note)[:3000]) for o in e.failed],
                      used=sorted(e.used), calls=sorted(e.used_contracts, key=str), queries=e.stats.queries,
                      solver_s=e.stats.solver_s, second=e.second, paths=e.stats.paths, reach=e.reach,
                      loops=sorted(str(x) for x in e.used_loops), s=time.time() - t0)


def prove(prop, t_end):
    global PROG, REG
    try:
        PROG, REG = build()
    except Exception as ex:
        return [], [dict(contract='-', obligation='the source cannot be loaded: %s: %s' % (type(ex).__name__, ex), at='',
                         model='', note='')], {}
    todo = plan.tasks(prop, REG)
    seen = set()
    results = {}
    ctx = get_context('fork')
    pending = []
    again = set()
    with ctx.Pool(NPROC, init) as pool:
        def submit(name, cls, mode, tmo, limit):
            key = (name, cls, mode)
            if key in seen:
                return
            seen.add(key)
            pending.append((key, pool.apply_async(worker, ((name, cls, mode, tmo, limit),))))
        for name, cls, mode in sorted(todo, key=lambda t: -plan.weight(t[0], t[1])):
            submit(name, cls, mode, 10000, TASK_LIMIT)
        first_fail = None
        while pending:
            time.sleep(0.05)
            if time.time() > t_end or (first_fail and time.time() > first_fail + 90):
                break
            for it in list(pending):
                key, ar = it
                if not ar.ready():
                    continue
                pending.remove(it)
                try:
                    task, r = ar.get()
                except Exception as ex:
                    r = dict(name='%s.%s' % (key[1], key[0]), discharged=0, used=[], calls=[], queries=0, solver_s=0,
                             second=0, paths=0, reach=0, loops=[], s=0,
                             failed=[dict(contract=str(key), obligation='verifier process failed: %s' % ex, at='', model='',
                                          note='')])
                if r['failed'] and key not in again:
                    # an obligation accepted in any run is discharged: once more, other seed, longer solver limit
                    again.add(key)
                    pending.append((key, pool.apply_async(worker, (key + (20000, TASK_LIMIT, 7),))))
                    continue
                results[key] = r
                if r['failed'] and not first_fail:
                    first_fail = time.time()
                for n2, c2 in r['calls']:
                    if (n2, c2, 'full') not in seen and (n2, c2) in REG.specs:
                        submit(n2, c2, 'full', 10000, TASK_LIMIT)
        left = [k for k, _ in pending]
        pool.terminate()
    failed = [f for r in results.values() for f in r['failed']]
    for k in left:
        failed.append(dict(contract='%s.%s' % (k[1], k[0]),
                           obligation='not discharged: time budget used up' if not failed else 'not attempted after a failure',
                           at='', model='', note=''))
    return list(results.values()), failed, dict(left=len(left))


class Search:
    """fals/run.py in the background"""
    def __init__(self, prop, seconds, parts, hint='', seed=SEED):
        self.dir = tempfile.mkdtemp(prefix='fals-')
        self.ps = []
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        for i in range(parts):
            out, st = os.path.join(self.dir, 'out%d' % i), os.path.join(self.dir, 'st%d' % i)
            self.ps.append((subprocess.Popen(
                [PY, os.path.join(HERE, 'fals', 'run.py'), prop, '--seconds', str(seconds), '--seed', str(seed),
                 '--part', str(i), '--parts', str(parts), '--hint', hint, '--repo', REPO, '--out', out, '--stats', st],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=self.dir), out, st))
        self.deadline = time.time() + seconds + 75

    def result(self):
        found, stats, errors = None, [], []
        for p, out, st in self.ps:
            try:
                txt, _ = p.communicate(timeout=max(1, self.deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                txt = 'timeout'
            if os.path.exists(st):
                try:
                    stats.append(json.load(open(st)))
                except Exception:
                    pass
            if p.returncode == 3 and os.path.exists(out):
                try:
                    d = json.load(open(out))
                    if found is None or len(d['history']) < len(found['history']):
                        found = d
                except Exception:
                    pass
            elif p.returncode not in (0, 3):
                errors.append((txt or '').strip()[-600:])
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
        return found, stats, errors


def main():
    prop = sys.argv[1]
    t0 = time.time()
    if prop not in plan.PROPS:
        print('unknown property ' + prop)
        return 2
    bg = Search(prop, plan.fals_seconds(prop, TIER), 2)
    results, failed, info = prove(prop, t0 + BUDGET)
    found, stats, errors = bg.result()
    if failed and not found:
        names = sorted({f['contract'] for f in failed})
        hint = ','.join(sorted({x.strip('_') for n in names for x in n.split('.')} | {x for n in names for x in n.split('.')} |
                               plan.hints(names)))
        left = 800 - (time.time() - t0)
        secs = max(15, min(75 if TIER == 'quick' else 240, left - 90))
        found, st2, er2 = Search(prop, secs, NPROC, hint, SEED + 1).result()
        stats += st2
        errors += er2
    obligations = sum(r['discharged'] for r in results) + len(failed)
    hist = sum(s['histories'] for s in stats)
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=plan.level(prop),
              coverage=dict(
                  obligations=obligations, discharged=sum(r['discharged'] for r in results),
                  checker_cmd='python3-vt check.py %s' % prop,
                  trusted_base=plan.trusted(prop),
                  back_ends={'z3 %s' % z3v(): sum(r['queries'] for r in results),
                             'cvc5 (queries z3 left open)': sum(r['second'] for r in results)},
                  solver_seconds=round(sum(r['solver_s'] for r in results), 1),
                  paths=sum(r['paths'] for r in results),
                  contracts=sorted(r['name'] for r in results),
                  contracts_verified=len([r for r in results if not r['failed']]),
                  functions_under_contract_or_inlined=sorted({u for r in results for u in r['used']}),
                  loop_invariants=sorted({l for r in results for l in r['loops']}),
                  slowest=[(r['name'], round(r['s'], 1)) for r in sorted(results, key=lambda r: -r['s'])[:5]],
                  bounded_not_proved=plan.bounded(prop),
                  bounded_cross_check=dict(
                      what='histories of operations run on the real code against a model; bounded, not counted as proof',
                      histories=hist, distinct=sum(s['distinct'] for s in stats),
                      samples=[x for s in stats for x in s['samples']][:4], errors=errors[:3])),
              assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - t0, 1),
              violations=1 if (failed or found) else 0)
    if plan.level(prop) != 'proof':
        ev['coverage']['evaluations'] = hist
        ev['coverage']['distinct_nontrivial'] = sum(s['distinct'] for s in stats)
        ev['coverage']['rule'] = 'a case is a history of operations; distinct by its text; every history has at least one operation'
        ev['coverage']['samples'] = [x for s in stats for x in s['samples']][:4]
        ev['coverage']['explanation'] = plan.explain(prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if not failed and not found:
        if errors:
            print('note: cross-check errors: %s' % errors[0][-200:])
        print('%s: %d obligations of %d contracts discharged, %d histories agree (%.0f s)' %
              (prop, ev['coverage']['discharged'], len(results), hist, time.time() - t0))
        return 0
    rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
    d = dict(property=prop, failed_obligations=failed[:12])
    if found:
        d.update(found)
    json.dump(d, open(rp, 'w'), indent=1)
    for f in failed[:6]:
        print('not discharged: %s -- %s %s' % (f['contract'], f['obligation'], f['at']))
    if found:
        print('failing input: %s' % found['history'][:1500])
        print('what fails: %s' % found['what_fails'][:800])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    return 1


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as ex:
        traceback.print_exc()
        prop = sys.argv[1] if len(sys.argv) > 1 else '?'
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=prop, failed_obligations=[dict(contract='-', obligation='check failed: %r' % ex)]), open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
