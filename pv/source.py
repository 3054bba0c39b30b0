"""Loads the current source of the package under verification.

Everything is taken from the files of the repository on every run: classes, bases,
methods, class attributes, module functions.  Docstrings are dropped; nothing else is."""
import ast, os, hashlib


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods, self.attrs = {}, {}
        self.decos = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
                self.decos[s.name] = [ast.unparse(d) for d in s.decorator_list]
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value


class FuncInfo:
    """A function definition together with the class it is defined in (or None)."""
    def __init__(self, node, cls, module):
        self.node, self.cls, self.module = node, cls, module
        self.name = node.name
        self.qual = (cls.name + '.' if cls else '') + node.name
        self.decos = [ast.unparse(d) for d in node.decorator_list]
        self.is_static = 'staticmethod' in self.decos
        self.is_class = 'classmethod' in self.decos
        self.body = strip_doc(node.body)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.body))
        self.loops = {}
        i = 0
        for n in walk_own(self.body):
            if isinstance(n, (ast.While, ast.For)):
                self.loops[id(n)] = i
                i += 1

    def __repr__(self):
        return self.qual


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str):
        return body[1:] or [ast.Pass()]
    return body


def walk_own(body):
    """Pre-order walk of statements that does not enter nested function definitions."""
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Program:
    def __init__(self, root):
        self.root = root
        self.classes, self.functions = {}, {}
        self.sources, self.module_names = {}, {}
        self.problems = []
        base = os.path.join(root, 'extra')
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                text = open(p, encoding='utf-8').read()
                self.sources[rel] = text
                try:
                    tree = ast.parse(text)
                except SyntaxError as e:
                    self.problems.append('%s: %s' % (rel, e))
                    continue
                names = {}
                for s in tree.body:
                    self._top(s, rel, names)
                self.module_names[rel] = names
        self._fi = {}

    def _top(self, s, rel, names):
        if isinstance(s, ast.ClassDef):
            self.classes[s.name] = ClassInfo(s.name, s, rel)
            names[s.name] = ('class', s.name)
        elif isinstance(s, ast.FunctionDef):
            self.functions[(rel, s.name)] = s
            names[s.name] = ('func', rel, s.name)
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                names[a.asname or a.name] = ('import', s.module, a.name)
        elif isinstance(s, ast.Import):
            for a in s.names:
                names[a.asname or a.name] = ('module', a.name)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            names[s.targets[0].id] = ('expr', s.value, rel)

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.sources):
            h.update(k.encode()); h.update(self.sources[k].encode())
        return h.hexdigest()

    def mro(self, name):
        if name not in self.classes:
            return [name]
        c = self.classes[name]
        seqs = [list(self.mro(b.split('.')[-1])) for b in c.bases] + [[b.split('.')[-1] for b in c.bases]]
        out = [name]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                raise ValueError('no mro for ' + name)
            out.append(cand)
            for s in seqs:
                if s[0] == cand:
                    del s[0]

    def is_subclass(self, c, d):
        return d in self.mro(c)

    def func(self, clsname, meth):
        key = (clsname, meth)
        if key not in self._fi:
            c = self.classes[clsname]
            self._fi[key] = FuncInfo(c.methods[meth], c, c.module)
        return self._fi[key]

    def modfunc(self, rel, name):
        key = ('', rel, name)
        if key not in self._fi:
            self._fi[key] = FuncInfo(self.functions[(rel, name)], None, rel)
        return self._fi[key]

    def lookup(self, clsname, meth, after=None):
        """First definition of `meth` in the MRO of clsname (strictly after class `after`)."""
        m = self.mro(clsname)
        if after is not None:
            m = m[m.index(after) + 1:]
        for k in m:
            if k in self.classes and meth in self.classes[k].methods:
                return self.func(k, meth)
        return None

    def class_attr(self, clsname, attr):
        for k in self.mro(clsname):
            if k in self.classes and attr in self.classes[k].attrs:
                return self.classes[k].attrs[attr], self.classes[k].module
        return None
