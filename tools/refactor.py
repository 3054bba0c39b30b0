"""Engine self-test: behaviour-preserving rewrites of one source file; the contracts must go on holding.
usage: refactor.py SPECMODS FILE [TRANSFORMATION,...] (python3-vt)"""
import sys, ast, os, shutil, tempfile, time, importlib, subprocess, copy
from multiprocessing import Pool
sys.path.insert(0, os.environ.get('VERIF', '/verif')); sys.setrecursionlimit(5000)


def own(fn):
    """nodes of fn without nested functions"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(n))


def functions(tree):
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    yield c, f
        elif isinstance(c, ast.FunctionDef):
            yield None, c


def rename(tree):
    for c, f in functions(tree):
        params = {a.arg for a in f.args.args}
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for n in own(f)):
            continue
        loc = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in own(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_v'


class Each(ast.NodeTransformer):
    def blocks(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, self.block(b))
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        return self.blocks(n) if isinstance(n, (ast.stmt, ast.ExceptHandler)) and not isinstance(n, ast.ClassDef) else n

    def block(self, b):
        return b


class Swap(Each):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class WhileTrue(Each):
    def visit_While(self, n):
        self.generic_visit(n)
        if not n.orelse and not isinstance(n.test, ast.Constant):
            n.body = [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body
            n.test = ast.Constant(True)
        return n


class Result(Each):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out += [ast.Assign([ast.Name('answer', ast.Store())], s.value), ast.Return(ast.Name('answer', ast.Load()))]
            else:
                out.append(s)
        return out


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class ElseAfterReturn(Each):
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


class NoElseAfterReturn(Each):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                r, s.orelse = s.orelse, []
                out += [s] + self.block(r)
            else:
                out.append(s)
        return out


class Plain(Each):
    def visit_AugAssign(self, n):
        t = copy.deepcopy(n.target)
        t.ctx = ast.Load()
        if isinstance(n.target, (ast.Name, ast.Attribute)) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.value, ast.Constant):
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class NestIf(Each):
    """if a and b: X   ->   if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vs = n.test.values
            inner = n.body
            for v in reversed(vs[1:]):
                inner = [ast.If(v, inner, [])]
            n.test, n.body = vs[0], inner
        return n


class Temp(Each):
    """condition of an if into a local"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.Call)):
                out += [ast.Assign([ast.Name('decision', ast.Store())], s.test)]
                s.test = ast.Name('decision', ast.Load())
            out.append(s)
        return out


class RangeWhile(Each):
    no = 0

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and not s.orelse \
                    and not any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                RangeWhile.no += 1
                k, m = 'idx%d' % RangeWhile.no, 'stop%d' % RangeWhile.no
                L = lambda x: ast.Name(x, ast.Load())
                out += [ast.Assign([ast.Name(m, ast.Store())], s.iter.args[0]), ast.Assign([ast.Name(k, ast.Store())], ast.Constant(0)),
                        ast.While(ast.Compare(L(k), [ast.Lt()], [L(m)]),
                                  [ast.Assign([s.target], L(k))] + s.body + [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))], [])]
            else:
                out.append(s)
        return out


def is_gen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f))


def extract_all(tree):
    """the body of every method moves to a private helper"""
    for c in tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        new = []
        for f in c.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or is_gen(f) or f.args.kwonlyargs or f.args.vararg or not f.args.args \
                    or any(isinstance(n, ast.Name) and n.id == '__class__' for n in own(f)):
                continue
            doc = f.body[:1] if ast.get_docstring(f) else []
            body = f.body[len(doc):]
            if not body or len(body) < 2:
                continue
            h = copy.deepcopy(f)
            h.name = '_do_' + c.name + f.name.replace('_', 'z')
            h.body = body
            h.args.defaults = []
            f.body = doc + [ast.Return(ast.Call(ast.Attribute(ast.Name(f.args.args[0].arg, ast.Load()), h.name, ast.Load()),
                                                [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], []))]
            new.append(h)
        c.body = new


def extract_loop(tree):
    """the last loop of a method, where it is a top-level statement that reads locals and sets none used later, moves out"""
    for c in tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        new = []
        for f in c.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or is_gen(f) or not f.args.args or f.args.args[0].arg != 'self':
                continue
            for i, s in enumerate(f.body):
                if not isinstance(s, (ast.While, ast.For)) or any(isinstance(n, (ast.Return, ast.FunctionDef, ast.Lambda)) for n in ast.walk(s)):
                    continue
                sets = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                later = {n.id for t in f.body[i + 1:] for n in ast.walk(t) if isinstance(n, ast.Name)}
                out = sorted(sets & later)
                before = {n.id for t in f.body[:i] for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                before = {n.id for t in f.body[:i] if isinstance(t, ast.Assign) for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                before |= {a.arg for a in f.args.args}
                reads = sorted(({n.id for n in ast.walk(s) if isinstance(n, ast.Name)} & before) - {'self'})
                every = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if any(x not in before for x in out) or {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & every - before - sets:
                    continue
                h = ast.FunctionDef('_loop_of_' + c.name + f.name.replace('_', 'z'), ast.arguments([], [ast.arg(a) for a in ['self'] + reads], None, [], [], None, []),
                                    [s], [], None, lineno=s.lineno)
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), h.name, ast.Load()), [ast.Name(a, ast.Load()) for a in reads], [])
                L = [ast.Name(x, ast.Load()) for x in out]
                S = [ast.Name(x, ast.Store()) for x in out]
                if out:
                    h.body.append(ast.Return(L[0] if len(L) == 1 else ast.Tuple(L, ast.Load())))
                    f.body[i] = ast.Assign([S[0] if len(S) == 1 else ast.Tuple(S, ast.Store())], call)
                else:
                    f.body[i] = ast.Expr(call)
                new.append(h)
                break
        c.body = new


def tr(cls):
    def f(tree):
        for c, fn in functions(tree):
            cls().visit(fn)
    return f


T = {'rename': rename, 'swap': tr(Swap), 'whiletrue': tr(WhileTrue), 'result': tr(Result), 'else': tr(ElseAfterReturn),
     'noelse': tr(NoElseAfterReturn), 'plain': tr(Plain), 'nest': tr(NestIf), 'temp': tr(Temp), 'rangewhile': tr(RangeWhile),
     'extract': extract_all, 'extractloop': extract_loop}


def run(a):
    mods, repo, name, cls = a
    from pv.source import Program
    from pv.contracts import Registry
    from pv.engine import Engine
    R = Registry()
    for m in mods:
        importlib.import_module('specs.' + m).build(R)
    e = Engine(Program(repo), R)
    e.opts.time_limit = 250
    t = time.time()
    try:
        e.verify(R.specs[(name, cls)], cls)
        r = '' if not e.failed else ' / '.join(str(o.label)[:160] for o in e.failed[:1])
    except Exception as x:
        r = 'CRASH %r' % x
    return name, cls, r, time.time() - t


def main():
    mods, rel = sys.argv[1].split(','), sys.argv[2]
    names = sys.argv[3].split(',') if len(sys.argv) > 3 else list(T)
    from pv.source import Program
    from pv.contracts import Registry
    src = open('/repo/' + rel).read()
    R = Registry()
    for m in mods:
        importlib.import_module('specs.' + m).build(R)
    prog = Program('/repo')
    mine = {n.name for n in ast.parse(src).body if isinstance(n, ast.ClassDef)}
    tasks = [(n, c) for (n, c) in R.specs if c is None or any(k in mine for k in prog.mro(c)[:1])]
    for t in names:
        tree = ast.parse(src)
        T[t](tree)
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree)
        if new == ast.unparse(ast.parse(src)):
            print(t, 'nothing to do'); continue
        d = tempfile.mkdtemp(prefix='refac')
        repo = d + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        open(repo + '/' + rel, 'w').write(new)
        keep = '/tmp/refac_%s_%s.py' % (os.path.basename(rel)[:-3], t)
        open(keep, 'w').write(new)
        with Pool(8) as p:
            bad = [x for x in p.imap_unordered(run, [(mods, repo, n, c) for n, c in tasks]) if x[2]]
        print('%-12s %d of %d contracts fail' % (t, len(bad), len(tasks)), flush=True)
        for n, c, r, s in bad:
            print('      %s.%s  %s  %.0fs' % (c, n, r.replace('\n', ' '), s), flush=True)
        shutil.rmtree(d)


main()
