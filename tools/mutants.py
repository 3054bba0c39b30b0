"""Engine self-test: AST mutants of one source file; which are not noticed by the contracts?
usage: mutants.py SPECMODS FILE [FUNC,FUNC...] (python3-vt)"""
import sys, ast, copy, os, shutil, tempfile, time, importlib
from multiprocessing import Pool
sys.path.insert(0, os.environ.get('VERIF', '/verif')); sys.setrecursionlimit(5000)


def mutants(tree, only):
    out = []
    for cls in tree.body:
        if isinstance(cls, ast.FunctionDef): fns, cname = [cls], ''
        elif isinstance(cls, ast.ClassDef): fns, cname = cls.body, cls.name
        else: continue
        for fn in fns:
            if not isinstance(fn, ast.FunctionDef): continue
            if only and fn.name not in only: continue
            if fn.name.startswith('_print') or fn.name in ('__repr__', '_represent'): continue
            for path, node in walkp(fn):
                for m in muts(node):
                    out.append((cname, fn.name, path, m))
    return out


def walkp(fn):
    res = []
    def rec(n, path):
        for f, v in ast.iter_fields(n):
            if f in ('decorator_list', 'returns', 'args') and n is fn: continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        res.append((path + [(f, i)], x)); rec(x, path + [(f, i)])
            elif isinstance(v, ast.AST):
                res.append((path + [(f, None)], v)); rec(v, path + [(f, None)])
    rec(fn, [])
    return res


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
SWAP = {'get_next': 'get_prev', 'get_prev': 'get_next', '_head': '_tail', '_tail': '_head', 'get_left': 'get_right',
        'get_right': 'get_left', 'set_left': 'set_right', 'set_right': 'set_left', 'add_front': 'add_end', 'add_end': 'add_front',
        'remove_front': 'remove_end', 'remove_end': 'remove_front', '_left': '_right', '_right': '_left', 'min': 'max', 'max': 'min'}


def muts(n):
    r = []
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for k in CMP.get(type(o), []):
                def f(x, i=i, k=k): x.ops[i] = k(); return x
                r.append(('cmp%d->%s' % (i, k.__name__), f))
    if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
        for d in (1, -1):
            def f(x, d=d): x.value += d; return x
            r.append(('const%+d' % d, f))
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        def f(x): x.value = not x.value; return x
        r.append(('notconst', f))
    if isinstance(n, ast.BoolOp):
        def f(x): x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And(); return x
        r.append(('andor', f))
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
        r.append(('del', lambda x: ast.Pass()))
    if isinstance(n, ast.If):
        def f(x): x.test = ast.Constant(False); return x
        r.append(('iffalse', f))
        def f(x): x.test = ast.Constant(True); return x
        r.append(('iftrue', f))
    if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub):
        def f(x): x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add(); return x
        r.append(('plusminus', f))
    if isinstance(n, ast.AugAssign):
        def f(x): x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add(); return x
        r.append(('aug', f))
    if isinstance(n, ast.Attribute) and n.attr in SWAP:
        def f(x): x.attr = SWAP[x.attr]; return x
        r.append(('swap ' + n.attr, f))
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        def f(x): x.value = ast.Constant(None); return x
        r.append(('retnone', f))
    return r


def apply(tree, cname, fname, path, f):
    t = copy.deepcopy(tree)
    fn = [g for c in (t.body if cname else [t]) if not cname or isinstance(c, ast.ClassDef) and c.name == cname for g in c.body
          if isinstance(g, ast.FunctionDef) and g.name == fname][0]
    par = fn
    for (fl, i) in path[:-1]:
        par = getattr(par, fl) if i is None else getattr(par, fl)[i]
    fl, i = path[-1]
    old = getattr(par, fl) if i is None else getattr(par, fl)[i]
    before = ast.unparse(old)[:80].replace('\n', ' ; ')
    new = f(old)
    if i is None: setattr(par, fl, new)
    else: getattr(par, fl)[i] = new
    ast.fix_missing_locations(t)
    return ast.unparse(t), '%s.%s:%s  %s' % (cname, fname, getattr(old, 'lineno', '?'), before)


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) and len(n.body) > 1:
            n.body = n.body[1:]
    return tree


def run(job):
    mods, rel, k, only, specs, mode = job
    from pv.source import Program
    from pv.contracts import Registry
    from pv.engine import Engine, Opts
    tree = strip(ast.parse(open('/repo/' + rel).read()))
    ms = mutants(tree, only)
    c, f, path, (nm, fun) = ms[k]
    text, desc = apply(tree, c, f, path, fun)
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/extra', d + '/extra')
        open(d + '/' + rel, 'w').write(text)
        R = Registry()
        for m in mods.split(','): importlib.import_module('specs.' + m).build(R)
        prog = Program(d)
        t0 = time.time()
        for key in specs:
            if key not in R.specs: continue
            R.renames.clear(); R.choices.clear()
            e = Engine(prog, R)
            e.opts.time_limit = int(os.environ.get('TL', '60'))
            e.mode = mode
            try:
                e.verify(R.specs[key], key[1])
            except Exception as x:
                return k, 'crash', nm, desc, key, repr(x)[:150]
            if e.failed:
                return k, 'killed', nm, desc, key, e.failed[0].label[:100]
        return k, 'SURVIVED', nm, desc, None, '%.1fs' % (time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    mods, rel = sys.argv[1:3]
    only = set(sys.argv[3].split(',')) if len(sys.argv) > 3 and sys.argv[3] else None
    from pv.source import Program
    from pv.contracts import Registry
    from pv.engine import Engine
    R = Registry()
    for m in mods.split(','): importlib.import_module('specs.' + m).build(R)
    prog = Program('/repo')
    # which contracts exercise which functions
    uses = {}
    mode = os.environ.get('VMODE', 'full')
    cls_only = os.environ.get('CLS')
    with Pool(int(os.environ.get('J', '8'))) as pool:
        for key, used in pool.imap_unordered(usage, [(mods, k) for k in R.specs if not cls_only or k[1] == cls_only]):
            uses[key] = used
        tree = strip(ast.parse(open('/repo/' + rel).read()))
        ms = mutants(tree, only)
        jobs = []
        for i, (c, f, path, m) in enumerate(ms):
            ks = sorted([k for k in uses if (c + '.' + f if c else f) in uses[k][0]], key=lambda k: uses[k][1])
            jobs.append((mods, rel, i, only, ks, mode))
        stat = {}
        for r in pool.imap_unordered(run, jobs):
            stat[r[1]] = stat.get(r[1], 0) + 1
            if r[1] != 'killed':
                print(*r, flush=True)
            elif os.environ.get('V'):
                print(*r, flush=True)
        print(stat)


def usage(a):
    mods, key = a
    from pv.source import Program
    from pv.contracts import Registry
    from pv.engine import Engine
    R = Registry()
    for m in mods.split(','): importlib.import_module('specs.' + m).build(R)
    e = Engine(Program('/repo'), R)
    t = time.time()
    e.verify(R.specs[key], key[1])
    return key, (set(e.used), time.time() - t)


if __name__ == "__main__": main()
