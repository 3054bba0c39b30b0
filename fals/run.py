"""fals/run.py PROPERTY --seconds S --seed N [--hint op,op] [--repo /repo] [--out FILE]
   fals/run.py --replay FILE
Searches for a history on which the real code breaks the property; exit 0 none found, 3 found (written to FILE)."""
import sys, os, json, time, argparse, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True


def load(repo):
    sys.path.insert(0, repo)
    import extra
    if os.path.realpath(os.path.dirname(os.path.dirname(extra.__file__))) != os.path.realpath(repo):
        print('wrong package: ' + extra.__file__)
        sys.exit(4)
    from fals import core
    core.limits()
    fams = []
    import importlib
    for m in ('lists', 'queues', 'skip', 'search', 'trees', 'heaps', 'tries'):
        if os.path.exists(os.path.join(HERE, m + '.py')):
            fams += importlib.import_module('fals.' + m).FAMILIES
    return core, fams


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--hint', default='')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--out', default='')
    ap.add_argument('--stats', default='')
    ap.add_argument('--part', type=int, default=0)
    ap.add_argument('--parts', type=int, default=1)
    ap.add_argument('--replay', default='')
    a = ap.parse_args()
    core, fams = load(os.path.abspath(a.repo))
    if a.replay:
        d = json.load(open(a.replay))
        if not d.get('history'):
            print('no failing input in this file')
            return 0
        fam = [f for f in fams if name(f) == d['family']][0]
        h = eval(d['history'], {'inf': core.inf, 'Sp': core.Sp, '__builtins__': {}})
        m = core.run(fam, h, d['property'], 30)
        print(m or 'the history shows no violation')
        return 3 if m else 0
    t0 = time.time()
    rng = random.Random(a.seed * 1000003 + a.part * 7919)
    hint = tuple(x for x in a.hint.split(',') if x)
    mine = [f for f in fams if a.prop in f.tags]
    if hint:
        pref = [f for f in mine if any(x == getattr(f, 'cname', '') for x in hint)]
        mine = mine + pref * 3
    pool = core.Pool(a.repo)
    n = distinct = 0
    seen = set()
    samples = []
    found = None
    kinds = {}

    def attempt(fam, h, limit=6.0):
        nonlocal n, found
        n += 1
        kinds[name(fam)] = kinds.get(name(fam), 0) + 1
        if len(seen) < 400000:
            seen.add(hash((name(fam), repr(h))))
        if n % 997 == 1 and len(samples) < 4:
            samples.append(name(fam) + ': ' + repr(h)[:300])
        m = core.run(fam, h, a.prop, limit)
        if m:
            # again, with more time, from a fresh start
            m2 = core.run(fam, h, a.prop, 3 * limit)
            if m2:
                h2, m3 = core.shrink(fam, h, a.prop, limit, time.time() + 15)
                found = (fam, h2 if m3 else h, m3 or m2)
                return True
        return False
    if mine:
        uniq = []
        for f in mine:
            if f not in uniq:
                uniq.append(f)
        # a slice of the small exhaustive histories first (at most half of the time)
        gens = [(f, f.systematic(pool, a.prop)) for f in uniq]
        i = 0
        exhausted = True
        while gens and not found and time.time() - t0 < a.seconds * 0.45:
            for g in list(gens):
                f, it = g
                try:
                    for _ in range(a.parts):
                        h = next(it)
                        i += 1
                        if i % a.parts == a.part and attempt(f, h):
                            break
                except StopIteration:
                    gens.remove(g)
                if found or time.time() - t0 > a.seconds * 0.45:
                    break
        exhausted = not gens
        while not found and time.time() - t0 < a.seconds:
            f = rng.choice(mine)
            if attempt(f, f.gen(rng, pool, a.prop, hint)):
                break
    res = {'histories': n, 'distinct': len(seen), 'samples': samples, 'by_family': kinds,
           'seconds': round(time.time() - t0, 2)}
    if a.stats:
        json.dump(res, open(a.stats, 'w'))
    for f in mine:
        if getattr(f, 'errors', 0):
            print('harness errors: %d %s' % (f.errors, f.last_error))
            f.errors = 0
    if found:
        fam, h, m = found
        if a.out:
            json.dump({'property': a.prop, 'family': name(fam), 'history': repr(h), 'what_fails': m}, open(a.out, 'w'), indent=1)
        print('FOUND ' + m)
        return 3
    print('none found: %d histories, %d distinct, %.1fs' % (n, len(seen), time.time() - t0))
    return 0


def name(f):
    return getattr(f, 'cname', type(f).__name__)


if __name__ == '__main__':
    sys.exit(main())
