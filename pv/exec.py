"""Symbolic interpreter of the repository's Python source (the text that runs).

Values: Python constants, z3 terms (Int, Real, Bool, Data), Ref (heap objects, Python lists included),
and the small wrapper classes below.  Strings that are only messages are opaque."""
import ast, z3
from .state import *
from .heap import find_cell, add_cell, snapshot, restore, normalize_heap, LSeg, NODE_ELEM
from .source import walk_own


class PyRaise(Exception):
    def __init__(self, exc, note=''):
        self.exc, self.note = exc, note

    def __str__(self):
        return '%s(%s)' % (self.exc, self.note)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ClassVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'class ' + self.name


class TypeVal:
    """builtin type"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'type ' + self.name


class FuncVal:
    def __init__(self, fi, bound=None):
        self.fi, self.bound = fi, bound


class Method:
    def __init__(self, obj, cls, name, after=None, via_class=None):
        self.obj, self.cls, self.name, self.after = obj, cls, name, after


class SuperVal:
    def __init__(self, obj, cls, after):
        self.obj, self.cls, self.after = obj, cls, after


class Builtin:
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return 'builtin ' + self.name


class ModuleVal:
    def __init__(self, name):
        self.name = name


class OStr:
    """a string whose content is not tracked"""
    def __repr__(self):
        return '<str>'


class Poison:
    def __init__(self, name):
        self.name = name


class VIter:
    """an iterator that yields the items of seq (in order); dep: the collection it reads lazily"""
    def __init__(self, seq, dep=None, bad=None):
        self.seq, self.dep, self.bad = seq, dep, bad


class VRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class VSet:
    def __init__(self, items):
        self.items = items


class VSlice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ExtObj:
    """some library object of unknown class (rejected as an item everywhere)"""
    def __repr__(self):
        return '<library object>'


class Opaque:
    """an object of no type known to the library (not a number, string, collection...)"""
    def __init__(self, iterable=False):
        self.iterable = iterable

    def __repr__(self):
        return '<other object>'


class NoneItem:
    """stands for a None found inside an iterable"""
    def __repr__(self):
        return '<None item>'


NONE_ITEM = NoneItem()


class EnumV:
    def __init__(self, cls, term):
        self.cls, self.term = cls, term

    def __repr__(self):
        return '%s(%s)' % (self.cls, self.term)


def enum_index(c, name):
    """number of a member of the Enum class c; members of equal value are one"""
    vals = [ast.dump(v) for v in c.attrs.values()]
    return vals.index(vals[list(c.attrs).index(name)])


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())


def is_real(v):
    return isinstance(v, float) or (isinstance(v, z3.ArithRef) and v.is_real())


def is_num(v):
    return is_int(v) or is_real(v)


def is_boolv(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_data(v):
    return isinstance(v, z3.ExprRef) and v.sort() == Data


INF = float('inf')
BUILTIN_TYPES = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'slice', 'object', 'type',
                 'frozenset', 'bytes'}
EXC_PARENTS = {
    'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'AttributeError': 'Exception', 'AssertionError': 'Exception', 'OverflowError': 'ArithmeticError',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'StopIteration': 'Exception', 'UserWarning': 'Warning', 'Warning': 'Exception', 'RecursionError': 'RuntimeError',
}
BUILTIN_FUNCS = {'len', 'isinstance', 'type', 'range', 'min', 'max', 'abs', 'round', 'hasattr', 'super', 'iter',
                 'print', 'set', 'list', 'tuple', 'str', 'int', 'float', 'bool', 'sorted', 'reversed', 'enumerate',
                 'zip', 'any', 'all', 'sum', 'dir', 'next', 'repr', 'dict', 'getattr', 'slice', 'divmod', 'id', 'object',
                 'frozenset', 'issubclass', 'setattr'}


def exc_is(a, b):
    while a is not None:
        if a == b:
            return True
        a = EXC_PARENTS.get(a)
    return False


class Frame:
    def __init__(self, fi, selfcls, locs):
        self.fi, self.selfcls, self.locals = fi, selfcls, locs
        self.gen = None
        self.assigned = None


class Interp:
    def __init__(self, path, program, specs, target=None):
        self.p, self.prog, self.specs = path, program, specs
        self.depth = 0
        self.target = target          # (cls, fi) verified now: for recursion measures
        self.measure0 = None
        path.interp = self
        self.stack, self.calls = [], []
        self.ghost = {}

    # ---- truth & comparison ---------------------------------------------
    def truth(self, v):
        """condition as bool or z3 Bool"""
        p = self.p
        if v is None:
            return False
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, Ref):
            if p.is_null(v) is not False:
                if p.ref_eq(v, None):
                    return False
            cls = self.cls_of(v)
            if cls == 'list':
                return self.zb(p.length(self.lst(v)) != 0)
            if cls in ('array', 'proj', 'vdict'):
                return find_cell(p, v).fields['n'] != 0
            if cls == 'dict':
                return self.dict_truth(v)
            if self.prog.lookup(cls, '__bool__'):
                return self.truth(self.call_method(v, '__bool__', [], {}))
            if self.prog.lookup(cls, '__len__'):
                n = self.call_method(v, '__len__', [], {})
                return self.zb(n != 0)
            return True
        if isinstance(v, VSet):
            return len(v.items) > 0
        if isinstance(v, VRange):
            return self.zb(self.range_len(v) > 0)
        if isinstance(v, (ClassVal, TypeVal, FuncVal, Method, Builtin, ExtObj, Opaque, EnumV)):
            return True
        if isinstance(v, Poison):
            raise Unsupported('local %s is not described by the loop invariant' % v.name)
        h = self.hook('truth', v)
        if h is not NotImplemented:
            return h
        raise Unsupported('truth of %r' % (v,))

    def hook(self, name, *a):
        for h in self.specs.hooks.get(name, ()):
            r = h(self, *a)
            if r is not NotImplemented:
                return r
        return NotImplemented

    @staticmethod
    def zb(x):
        return x

    def test(self, v):
        """decide truth on this path"""
        return self.p.branch(self.truth(v))

    def cls_of(self, r):
        p = self.p
        i = p.rep(r)
        c = p.refcls[i]
        if c is None:
            cell = find_cell(p, r)
            c = p.refcls[p.rep(r)] if cell is None else cell.cls
        if c is None:
            raise Unsupported('class of %r unknown' % (r,))
        return c

    def deq(self, a, b):
        if a.eq(b):
            return True
        t = DEQ(a, b)
        self.p.assume(t == DEQ(b, a))
        self.p.assume(z3.Implies(a == b, t))
        return t

    def dlt(self, a, b):
        """strict order on items; trichotomy with equality is a declared assumption on comparable items"""
        if a.eq(b):
            return False
        p = self.p
        e = self.deq(a, b)
        x, y = DLT(a, b), DLT(b, a)
        p.assume(z3.Not(z3.And(x, y)))
        p.assume(e == z3.And(z3.Not(x), z3.Not(y)))
        return x

    def eq(self, a, b):
        p = self.p
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported('local %s is not described by the loop invariant' % v.name)
        if a is b:
            return True
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            from .builtins import type_eq
            return type_eq(self, a, b)
        h = self.hook('eq', a, b)
        if h is not NotImplemented:
            return h
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Ref):
                if p.is_null(o) is None or p.is_null(o) is True:
                    return p.ref_eq(o, None)
                return False
            return False
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            if isinstance(a, EnumV) and isinstance(b, EnumV) and a.cls == b.cls:
                return a.term == b.term
            return False
        if is_boolv(a) and is_boolv(b):
            return self.zeq(a, b)
        if is_num(a) and is_num(b):
            return self.num_cmp('eq', a, b)
        if is_boolv(a) and is_num(b) or is_num(a) and is_boolv(b):
            raise Unsupported('bool/number comparison')
        if is_data(a) and is_data(b):
            return self.deq(a, b)
        if is_data(a) or is_data(b):
            d, o = (a, b) if is_data(a) else (b, a)
            if isinstance(o, (Ref, ClassVal, TypeVal, ExtObj)):
                raise Unsupported('item compared with %r' % (o,))
            return self.deq(d, self.const_data(o))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, OStr) or isinstance(b, OStr):
            return p.fresh_bool('streq')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if e is False:
                    return False
                if e is not True:
                    r = e if r is True else z3.And(r, e)
            return r
        if isinstance(a, (ClassVal, TypeVal)) and isinstance(b, (ClassVal, TypeVal)):
            return type(a) == type(b) and a.name == b.name
        if isinstance(a, (ClassVal, TypeVal)) or isinstance(b, (ClassVal, TypeVal)):
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if p.is_null(a) is not False and p.ref_eq(a, None):
                return self.eq(None, b)
            if p.is_null(b) is not False and p.ref_eq(b, None):
                return False
            ca, cb = self.cls_of(a), self.cls_of(b)
            if ca == 'list' and cb == 'list':
                return self.seq_eq_cond(self.lst(a), self.lst(b))
            if ca == 'dict' or cb == 'dict':
                return self.dict_eq(a, b)
            if ca in self.prog.classes and self.prog.lookup(ca, '__eq__'):
                return self.truth(self.call_method(a, '__eq__', [b], {}))
            return p.ref_eq(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            if is_num(o) or isinstance(o, (str, tuple)) or is_boolv(o):
                return False
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        if type(a) != type(b) and isinstance(a, (int, str, bool, tuple, float)) and \
                isinstance(b, (int, str, bool, tuple, float)):
            return a == b
        if (is_num(a) or is_boolv(a)) and isinstance(b, (str, tuple, OStr)) or \
                (is_num(b) or is_boolv(b)) and isinstance(a, (str, tuple, OStr)):
            return False
        if isinstance(a, (ExtObj, Opaque)) or isinstance(b, (ExtObj, Opaque)):
            return p.fresh_bool('objeq')
        raise Unsupported('comparison of %r and %r' % (a, b))

    def const_data(self, v):
        """an item standing for a Python constant"""
        key = repr(v) if not isinstance(v, z3.ExprRef) else v.sexpr()
        d = z3.Const('const:' + key, Data)
        return d

    def seq_eq_cond(self, A, B):
        p = self.p
        A, B = p.norm(A), p.norm(B)
        if not A.atoms:
            return self.p.as_z3int(p.length(B)) == 0
        if not B.atoms:
            return self.p.as_z3int(p.length(A)) == 0
        raise Unsupported('list equality')

    def zeq(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return zval(a) == zval(b)

    def num_cmp(self, op, a, b):
        conc = lambda v: isinstance(v, (int, float))
        if conc(a) and conc(b):
            return {'eq': a == b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        # an integer against infinity
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(y, float) and y in (INF, -INF) and is_int(x):
                big = y == INF
                less = big if not flip else not big      # x<y ?
                if op == 'eq':
                    return False
                lt = big if not flip else (not big)
                return {'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[op]
        x, y = zval(a), zval(b)
        if x.sort() != y.sort():
            # integers are finite
            i = x if x.is_int() else y
            self.p.assume(z3.And(NINF < z3.ToReal(i), z3.ToReal(i) < PINF))
        return {'eq': lambda: x == y, 'lt': lambda: x < y, 'le': lambda: x <= y,
                'gt': lambda: x > y, 'ge': lambda: x >= y}[op]()

    def order(self, op, a, b):
        p = self.p
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported('local %s is not described by the loop invariant' % v.name)
        h = self.hook('order', op, a, b)
        if h is not NotImplemented:
            return h
        if is_num(a) and is_num(b):
            return self.num_cmp(op, a, b)
        if is_data(a) and is_data(b):
            if op == 'lt':
                return self.dlt(a, b)
            if op == 'gt':
                return self.dlt(b, a)
            if op == 'le':
                return self.znot(self.dlt(b, a))
            return self.znot(self.dlt(a, b))
        if a is None or b is None or isinstance(a, Opaque) or isinstance(b, Opaque):
            raise PyRaise('TypeError', 'order of %r and %r' % (a, b))
        if isinstance(a, Ref) and p.is_null(a) is False and self.cls_of(a) in self.prog.classes:
            m = {'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__'}[op]
            if self.prog.lookup(self.cls_of(a), m):
                return self.truth(self.call_method(a, m, [b], {}))
        if isinstance(a, (str, OStr)) != isinstance(b, (str, OStr)) or \
                (isinstance(a, Ref) and is_num(b)) or (isinstance(b, Ref) and is_num(a)):
            raise PyRaise('TypeError', 'order')
        raise Unsupported('order of %r and %r' % (a, b))

    @staticmethod
    def znot(x):
        return (not x) if isinstance(x, bool) else z3.Not(x)

    # ---- lists -----------------------------------------------------------
    def new_list(self, seq, cls='list'):
        r = self.p.fresh_ref(cls, nonnull=True)
        add_cell(self.p, Cell(r, cls, {'seq': seq}, new=True))
        return r

    def lst(self, r):
        c = find_cell(self.p, r)
        if c is None:
            raise Unsupported('list content unknown')
        return c.fields['seq']

    def set_lst(self, r, seq):
        self.write(r, 'seq', seq)

    def list_index(self, seq, i, exc='list index'):
        """(before, item, after)"""
        p = self.p
        if not is_int(i):
            raise PyRaise('TypeError', 'list indices')
        n = p.length(seq)
        neg = self.num_cmp('lt', i, 0)
        if p.branch(neg):
            i = i + n
        if not p.branch(self.and_(self.num_cmp('ge', i, 0), self.num_cmp('lt', i, n))):
            raise PyRaise('IndexError', exc)
        if isinstance(n, int) is False and p.entails(self.num_cmp('eq', i, n - 1)):
            a, x = p.unsnoc(seq)
            return a, x, EMPTY
        a, b = p.split(seq, i)
        x, b = p.uncons(b)
        return a, x, b

    @staticmethod
    def and_(*xs):
        zs = []
        for x in xs:
            if isinstance(x, bool):
                if not x:
                    return False
            else:
                zs.append(x)
        if not zs:
            return True
        return z3.And(*zs) if len(zs) > 1 else zs[0]

    # ---- objects -----------------------------------------------------------
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.fi.cls is not None:
            return '_%s%s' % (fr.fi.cls.name.lstrip('_'), name)
        return name

    def unmangle(self, name):
        """('_K__m') -> (K, '__m') when class K defines __m"""
        if name.startswith('_') and '__' in name[1:]:
            k, m = name[1:].split('__', 1)
            m = '__' + m
            if not m.endswith('__'):
                for kk in (k, '_' + k):
                    if kk in self.prog.classes and m in self.prog.classes[kk].methods:
                        return kk, m
        return None

    def find_method(self, cls, name, after=None):
        um = self.unmangle(name)
        if um is not None:
            k, m = um
            if k in self.prog.mro(cls):
                return self.prog.func(k, m)
            return None
        return self.prog.lookup(cls, name, after)

    def getattr(self, obj, name, fr=None):
        p = self.p
        if isinstance(obj, Poison):
            raise Unsupported('local %s is not described by the loop invariant' % obj.name)
        if isinstance(obj, Ref):
            if p.is_null(obj) is not False:
                if p.ref_eq(obj, None):
                    raise PyRaise('AttributeError', "None has no attribute '%s'" % name)
            cls = self.cls_of(obj)
            if cls in ('list', 'dict', 'set', 'array', 'proj', 'vdict'):
                return Builtin('%s.%s' % (cls, name), obj)
            cell = find_cell(p, obj)
            if cell is not None and name in cell.fields:
                v = cell.fields[name]
                if isinstance(v, Deleted):
                    raise PyRaise('AttributeError', name)
                return v
            if name == '__class__':
                return ClassVal(cls)
            if name == '__name__':
                return OStr()
            if self.find_method(cls, name) is not None:
                return Method(obj, cls, name)
            ca = self.prog.class_attr(cls, name)
            if ca is not None:
                return self.eval_in_module(ca[0], ca[1])
            if cell is None:
                p.fail('access to field %s of an object that is not described here' % name)
            raise PyRaise('AttributeError', name)
        if obj is None:
            raise PyRaise('AttributeError', "None has no attribute '%s'" % name)
        if isinstance(obj, SuperVal):
            if self.find_method(obj.cls, name, obj.after) is not None:
                return Method(obj.obj, obj.cls, name, obj.after)
            m = self.prog.mro(obj.cls)
            for k in m[m.index(obj.after) + 1:]:
                if k in self.prog.classes and name in self.prog.classes[k].attrs:
                    c = self.prog.classes[k]
                    return self.eval_in_module(c.attrs[name], c.module)
            if name == '__init__':
                return Builtin('object.__init__')
            raise PyRaise('AttributeError', name)
        if isinstance(obj, ClassVal):
            c = self.prog.classes[obj.name]
            if 'Enum' in [b.split('.')[-1] for b in c.bases]:
                if name in c.attrs:
                    return EnumV(obj.name, enum_index(c, name))
                raise PyRaise('AttributeError', name)
            if self.find_method(obj.name, name) is not None:
                return Method(None, obj.name, name)
            ca = self.prog.class_attr(obj.name, name)
            if ca is not None:
                return self.eval_in_module(ca[0], ca[1])
            if name == '__name__':
                return OStr()
            raise PyRaise('AttributeError', name)
        if isinstance(obj, ModuleVal):
            return Builtin(obj.name + '.' + name)
        if isinstance(obj, (str, OStr)):
            return Builtin('str.' + name, obj)
        if is_data(obj):
            return Builtin('data.' + name, obj)
        if isinstance(obj, VSlice):
            return Builtin('slice.' + name, obj)
        if isinstance(obj, VSet):
            return Builtin('set.' + name, obj)
        if isinstance(obj, (FuncVal, Builtin, TypeVal)) and name == '__name__':
            if isinstance(obj, Builtin) and obj.name.startswith('operator.'):
                return obj.name.split('.')[1]
            return OStr()
        if isinstance(obj, ExtObj):
            if name == '__name__':
                return OStr()
            raise Unsupported('attribute %s of a library object' % name)
        h = self.hook('getattr', obj, name)
        if h is not NotImplemented:
            return h
        if is_num(obj) or isinstance(obj, (bool, tuple, Opaque)) or is_boolv(obj):
            raise PyRaise('AttributeError', name)
        raise Unsupported('attribute %s of %r' % (name, obj))

    def write(self, obj, name, val):
        p = self.p
        if obj is None:
            raise PyRaise('AttributeError', "None has no attribute '%s'" % name)
        if not isinstance(obj, Ref):
            raise Unsupported('store to attribute of %r' % (obj,))
        if p.is_null(obj) is not False:
            if p.ref_eq(obj, None):
                raise PyRaise('AttributeError', "None has no attribute '%s'" % name)
        cell = find_cell(p, obj)
        if cell is None:
            p.fail('write to field %s of an object that is not described here' % name)
        if cell.lock:
            p.dirty |= cell.lock
            if 'pure' in cell.lock or 'ro' in cell.lock:
                p.fail('%s.%s is changed by an operation that must not change it' % (cell.cls, name))
        if isinstance(val, Poison):
            raise Unsupported('local %s is not described by the loop invariant' % val.name)
        cell.fields[name] = val

    def setattr(self, obj, name, val):
        self.hook('setattr', obj, name, val)
        self.write(obj, name, val)

    def eval_in_module(self, node, rel):
        fr = Frame(ModFrame(rel), None, {})
        return self.ev(node, fr)

    # ---- names -----------------------------------------------------------
    def name(self, n, fr):
        if n in fr.locals:
            v = fr.locals[n]
            if isinstance(v, Unbound):
                raise PyRaise('UnboundLocalError', n)
            return v
        if fr.fi.node is not None and n in local_names(fr.fi):
            raise PyRaise('UnboundLocalError', n)
        return self.global_name(n, fr.fi.module)

    def global_name(self, n, rel):
        names = self.prog.module_names.get(rel, {})
        if n in names:
            k = names[n]
            if k[0] == 'class':
                return ClassVal(n)
            if k[0] == 'func':
                return FuncVal(self.prog.modfunc(k[1], k[2]))
            if k[0] == 'module':
                return ModuleVal(k[1])
            if k[0] == 'import':
                if k[2] in self.prog.classes:
                    return ClassVal(k[2])
                for (rel2, f) in self.prog.functions:
                    if f == k[2]:
                        return FuncVal(self.prog.modfunc(rel2, f))
                return Builtin('%s.%s' % (k[1], k[2]))
            if k[0] == 'expr':
                return self.eval_in_module(k[1], k[2])
        if n in BUILTIN_TYPES:
            return TypeVal(n)
        if n in EXC_PARENTS:
            return TypeVal(n)
        if n in BUILTIN_FUNCS:
            return Builtin(n)
        raise PyRaise('NameError', n)

    # ---- calls -----------------------------------------------------------
    def bind(self, fi, args, kwargs):
        a = fi.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Unsupported('parameters of ' + fi.qual)
        names = [x.arg for x in a.args]
        if len(args) > len(names):
            raise PyRaise('TypeError', 'too many arguments for ' + fi.qual)
        locs = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in names or k in locs:
                raise PyRaise('TypeError', 'argument %s of %s' % (k, fi.qual))
            locs[k] = v
        nd = len(a.defaults)
        for nme, d in zip(names[len(names) - nd:], a.defaults):
            if nme not in locs:
                locs[nme] = self.eval_in_module(d, fi.module)
        for nme in names:
            if nme not in locs:
                raise PyRaise('TypeError', 'missing argument %s of %s' % (nme, fi.qual))
        return locs

    def call_method(self, obj, name, args, kwargs, after=None, cls=None):
        p = self.p
        if cls is None:
            if p.is_null(obj) is not False:
                if p.ref_eq(obj, None):
                    raise PyRaise('AttributeError', name)
            cls = self.cls_of(obj)
        fi = self.find_method(cls, name, after)
        if fi is None:
            raise PyRaise('AttributeError', name)
        return self.call_fi(fi, cls, ([] if fi.is_static else [obj]) + list(args), kwargs)

    def call_fi(self, fi, cls, args, kwargs):
        """call of a method body `fi` on receiver class cls: by contract when there is one for the method
        that (cls, name) resolves to, otherwise the body is executed here"""
        spec = self.specs.find(self.prog, cls, fi, self.target)
        if spec is not None:
            locs = self.bind(fi, args, kwargs)
            alt = self.specs.specs.get((fi.name + '@view', cls))
            if alt is not None and self.looked_at(locs):
                return alt.call(self, cls, fi, locs)
            if 'inline' in spec.opts and spec.opts['inline'](self, cls, locs):
                return self.run_locs(fi, cls, locs)
            return spec.call(self, cls, fi, locs)
        return self.run_body(fi, cls, args, kwargs)

    def looked_at(self, locs):
        """is a tree involved that is only looked at?"""
        p = self.p
        vs = p.__dict__.get('views')
        if vs is None:
            return False
        for v in locs.values():
            if isinstance(v, Ref) and p.rep(v) in vs:
                return True
        me = locs.get('self')
        c = p.cells.get(p.rep(me)) if isinstance(me, Ref) else None
        if c is None or '_root' not in c.fields:
            return False
        r = c.fields['_root']
        return r is None or p.rep(r) in vs or p.rep(r) == 0

    def run_body(self, fi, cls, args, kwargs):
        locs = self.bind(fi, args, kwargs)
        return self.run_locs(fi, cls, locs)

    def run_locs(self, fi, cls, locs):
        if self.depth > 60:
            raise Unsupported('call depth in ' + fi.qual)
        fr = Frame(fi, cls, locs)
        key = (fi.qual, cls)
        self.depth += 1
        p = self.p
        p.trace.append(fi.qual)
        self.engine_used(fi)
        if self.stack.count(key) >= self.max_nest:
            raise Unsupported('recursion without a contract: ' + fi.qual)
        self.stack.append(key)
        self.calls.append(fi)
        try:
            if fi.is_gen:
                fr.gen = []
                fr.gen_seq = EMPTY
                try:
                    self.block(fi.body, fr)
                except ReturnEx:
                    pass
                return VIter(fr.gen_seq)
            try:
                self.block(fi.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.calls.pop()
            self.depth -= 1

    stack = None
    max_nest = 3

    def engine_used(self, fi):
        self.p.engine.used.add(fi.qual)

    def construct(self, cls, args, kwargs):
        p = self.p
        c = self.prog.classes[cls]
        h = self.hook('construct', cls, args, kwargs)
        if h is not NotImplemented:
            return h
        r = p.fresh_ref(cls, nonnull=True)
        add_cell(p, Cell(r, cls, {}, new=True))
        fi = self.prog.lookup(cls, '__init__')
        if fi is not None:
            self.call_fi(fi, cls, [r] + list(args), kwargs)
        return r

    def call(self, f, args, kwargs, fr):
        if isinstance(f, Method):
            fi = self.find_method(f.cls, f.name, f.after)
            if f.obj is None:
                if fi.is_static:
                    return self.call_fi(fi, f.cls, list(args), kwargs)
                if fi.is_class:
                    return self.call_fi(fi, f.cls, [ClassVal(f.cls)] + list(args), kwargs)
                return self.call_fi(fi, f.cls, list(args), kwargs)
            if fi.is_static:
                return self.call_fi(fi, f.cls, list(args), kwargs)
            if fi.is_class:
                return self.call_fi(fi, f.cls, [ClassVal(f.cls)] + list(args), kwargs)
            return self.call_fi(fi, f.cls, [f.obj] + list(args), kwargs)
        if isinstance(f, ClassVal):
            return self.construct(f.name, args, kwargs)
        if isinstance(f, FuncVal):
            return self.call_fi(f.fi, None, list(args), kwargs)
        if isinstance(f, (Builtin, TypeVal)):
            from .builtins import call_builtin
            return call_builtin(self, f, list(args), kwargs, fr)
        if isinstance(f, LocalFunc):
            locs = self.bind(f.fi, args, kwargs)
            merged = ChainLocals(locs, f.fr.locals)
            fr2 = Frame(f.fi, f.fr.selfcls, merged)
            try:
                self.block(f.fi.body, fr2)
            except ReturnEx as r:
                return r.v
            return None
        if f is None or is_num(f) or is_data(f) or isinstance(f, (str, tuple)):
            raise PyRaise('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    # ---- expressions -----------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.name(e.id, fr)

    def ev_JoinedStr(self, e, fr):
        h = self.hook('fstring', e, fr)
        if h is not NotImplemented:
            return h
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                try:
                    self.ev(v.value, fr)
                except Unsupported:
                    pass
        return OStr()

    def ev_Tuple(self, e, fr):
        return tuple(self.ev(x, fr) for x in self.nostar(e.elts))

    @staticmethod
    def nostar(xs):
        for x in xs:
            if isinstance(x, ast.Starred):
                raise Unsupported('starred expression')
        return xs

    def ev_List(self, e, fr):
        return self.new_list(Seq([Unit(self.ev(x, fr)) for x in self.nostar(e.elts)]))

    def ev_Set(self, e, fr):
        return VSet([self.ev(x, fr) for x in e.elts])

    def ev_Dict(self, e, fr):
        h = self.hook('dict', e, fr)
        if h is not NotImplemented:
            return h
        raise Unsupported('dict display')

    def ev_Slice(self, e, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return VSlice(g(e.lower), g(e.upper), g(e.step))

    def ev_IfExp(self, e, fr):
        if self.test(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ev_BoolOp(self, e, fr):
        v = None
        last = len(e.values) - 1
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == last:
                return v
            if self.test(v):
                if isinstance(e.op, ast.Or):
                    return v if not is_boolv(v) else True
            elif isinstance(e.op, ast.And):
                return v if not is_boolv(v) else False
        return v

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.znot(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_num(v):
                return -v
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return v
        if isinstance(v, Poison):
            raise Unsupported('local %s is not described by the loop invariant' % v.name)
        raise Unsupported('unary operator')

    def ev_BinOp(self, e, fr):
        a, b = self.ev(e.left, fr), self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        p = self.p
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported('local %s is not described by the loop invariant' % v.name)
        h = self.hook('binop', op, a, b)
        if h is not NotImplemented:
            return h
        if isinstance(a, (str, OStr)) and isinstance(b, (str, OStr)) and op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return OStr()
        if isinstance(a, (str, OStr)) and op in ('Mod', 'Mult'):
            return OStr()
        if isinstance(b, (str, OStr)) and op == 'Mult':
            return OStr()
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, z3.BoolRef):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if is_num(a) and is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                try:
                    return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b,
                            'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Div': lambda: a / b,
                            'Pow': lambda: a ** b, 'RShift': lambda: a >> b, 'LShift': lambda: a << b}[op]()
                except ZeroDivisionError:
                    raise PyRaise('ZeroDivisionError')
                except KeyError:
                    raise Unsupported('operator ' + op)
            if isinstance(a, float) or isinstance(b, float):
                if a in (INF, -INF) or b in (INF, -INF):
                    raise Unsupported('arithmetic with infinity')
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op in ('RShift', 'LShift') and is_int(a) and isinstance(b, int) and 0 <= b < 64:
                return zval(a) / (1 << b) if op == 'RShift' else zval(a) * (1 << b)
            if op in ('FloorDiv', 'Mod') and is_int(a) and is_int(b):
                if p.branch(self.num_cmp('eq', b, 0)):
                    raise PyRaise('ZeroDivisionError')
                za, zb = zval(a), zval(b)
                if p.branch(self.num_cmp('gt', b, 0)):
                    return za / zb if op == 'FloorDiv' else za % zb
                q = (-za) / (-zb)
                return q if op == 'FloorDiv' else za - zb * q
            raise Unsupported('operator %s on symbolic numbers' % op)
        if op == 'Add' and isinstance(a, Ref) and isinstance(b, Ref) and self.cls_of(a) == 'list' \
                and self.cls_of(b) == 'list':
            return self.new_list(self.lst(a) + self.lst(b))
        if op == 'Mult' and isinstance(a, Ref) and self.cls_of(a) == 'list' and isinstance(b, int):
            s = EMPTY
            for _ in range(b):
                s = s + self.lst(a)
            return self.new_list(s)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if a is None or b is None:
            raise PyRaise('TypeError', 'operator %s' % op)
        raise Unsupported('operator %s on %r, %r' % (op, a, b))

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.compare(op, left, right, fr)
            if i == n - 1:
                return c if res is True else self.and_(res, c)
            if c is False:
                return False
            if c is not True:
                # chained: short-circuit
                if not self.p.branch(c):
                    return False
            left = right
        return res

    def compare(self, op, a, b, fr):
        t = type(op).__name__
        if t == 'Is' or t == 'IsNot':
            r = self.is_same(a, b)
            return r if t == 'Is' else self.znot(r)
        if t == 'Eq':
            return self.eq(a, b)
        if t == 'NotEq':
            if isinstance(a, Ref) and self.p.is_null(a) is False and self.cls_of(a) in self.prog.classes and \
                    self.prog.lookup(self.cls_of(a), '__ne__'):
                return self.truth(self.call_method(a, '__ne__', [b], {}))
            return self.znot(self.eq(a, b))
        if t in ('Lt', 'LtE', 'Gt', 'GtE'):
            return self.order({'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[t], a, b)
        if t in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if t == 'In' else self.znot(r)
        raise Unsupported('comparison ' + t)

    def is_same(self, a, b):
        p = self.p
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported('local %s is not described by the loop invariant' % v.name)
        if (a is None or isinstance(a, Ref)) and (b is None or isinstance(b, Ref)):
            return p.ref_eq(a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, z3.BoolRef) and isinstance(b, bool):
            return a if b else z3.Not(a)
        if isinstance(b, z3.BoolRef) and isinstance(a, bool):
            return b if a else z3.Not(b)
        if a is None or b is None:
            return False
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return self.eq(a, b)
        if isinstance(a, (ClassVal, TypeVal, TypeOf)) and isinstance(b, (ClassVal, TypeVal, TypeOf)):
            return self.eq(a, b)
        if is_data(a) and isinstance(b, bool) or is_data(b) and isinstance(a, bool):
            return False
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        raise Unsupported('`is` on %r, %r' % (a, b))

    def contains(self, coll, x):
        p = self.p
        if isinstance(coll, VSet) or isinstance(coll, tuple):
            items = coll.items if isinstance(coll, VSet) else coll
            rs = []
            for y in items:
                c = self.eq(x, y)
                if c is True:
                    return True
                if c is not False:
                    rs.append(c)
            return z3.Or(*rs) if rs else False
        if isinstance(coll, VRange):
            if isinstance(coll.step, int) and coll.step == 1 and is_int(x):
                return self.and_(self.num_cmp('ge', x, coll.lo), self.num_cmp('lt', x, coll.hi))
            if is_int(x):
                return range_info(p, coll.lo, coll.hi, coll.step).contains(p, x)
        h = self.hook('contains', coll, x)
        if h is not NotImplemented:
            return h
        if isinstance(coll, Ref):
            cls = self.cls_of(coll)
            if cls == 'list':
                s = p.norm(self.lst(coll))
                if all(isinstance(a, Unit) for a in s.atoms):
                    return self.contains(tuple(a.v for a in s.atoms), x)
                return p.measure('mem', (x,), s) if is_data(x) else self.unsup('membership in a list')
            if cls in self.prog.classes:
                if self.prog.lookup(cls, '__contains__'):
                    return self.truth(self.call_method(coll, '__contains__', [x], {}))
                raise PyRaise('TypeError', 'not iterable')
        if isinstance(coll, Builtin) and coll.name == 'dir(operator)':
            return isinstance(x, str) and x in ('lt', 'le', 'eq', 'ne', 'gt', 'ge')
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        raise Unsupported('membership in %r' % (coll,))

    def unsup(self, m):
        raise Unsupported(m)

    def ev_Attribute(self, e, fr):
        v = self.ev(e.value, fr)
        return self.getattr(v, self.mangle(e.attr, fr), fr)

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        i = self.ev(e.slice, fr)
        return self.getitem(o, i)

    def getitem(self, o, i):
        p = self.p
        if isinstance(o, Poison) or isinstance(i, Poison):
            raise Unsupported('local %s is not described by the loop invariant' % (o if isinstance(o, Poison) else i).name)
        h = self.hook('getitem', o, i)
        if h is not NotImplemented:
            return h
        if isinstance(o, tuple):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise('IndexError', 'tuple')
            raise Unsupported('tuple index')
        if isinstance(o, Ref):
            if p.is_null(o) is not False and p.ref_eq(o, None):
                raise PyRaise('TypeError', 'None[...]')
            cls = self.cls_of(o)
            if cls == 'list':
                s = self.lst(o)
                if isinstance(i, VSlice):
                    return self.new_list(self.seq_slice(s, i))
                return self.list_index(s, i)[1]
            if cls in self.prog.classes:
                return self.call_method(o, '__getitem__', [i], {})
        if isinstance(o, VRange) and isinstance(i, int) and i in (0, -1) and not (isinstance(o.step, int) and o.step == 1):
            ri = range_info(p, o.lo, o.hi, o.step)
            if not p.branch(ri.n > 0):
                raise PyRaise('IndexError', 'range')
            return o.lo if i == 0 else ri.last
        if isinstance(o, VRange) and is_int(i):
            n = self.range_len(o)
            if p.branch(self.num_cmp('lt', i, 0)):
                i = i + n
            if not p.branch(self.and_(self.num_cmp('ge', i, 0), self.num_cmp('lt', i, n))):
                raise PyRaise('IndexError', 'range')
            return self.binop('Add', o.lo, self.binop('Mult', i, o.step))
        if o is None or is_num(o):
            raise PyRaise('TypeError', 'not subscriptable')
        if isinstance(o, OStr):
            return OStr()
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyRaise('IndexError', 'string')
        raise Unsupported('subscript of %r' % (o,))

    def seq_slice(self, s, sl):
        p = self.p
        if sl.lo is None and sl.hi is None and sl.step is None:
            return s
        if sl.lo is None and sl.hi is None and sl.step == -1:
            return p.hom('rev', (), s)
        if sl.step is not None and sl.step != 1:
            raise Unsupported('slice step')
        n = p.length(s)

        def clamp(x, default):
            if x is None:
                return default
            if not is_int(x):
                raise PyRaise('TypeError', 'slice')
            if p.branch(self.num_cmp('lt', x, 0)):
                x = x + n
                if p.branch(self.num_cmp('lt', x, 0)):
                    return 0
                return x
            if p.branch(self.num_cmp('gt', x, n)):
                return n
            return x
        lo, hi = clamp(sl.lo, 0), clamp(sl.hi, n)
        if not p.branch(self.num_cmp('lt', lo, hi)):
            return EMPTY
        a, b = p.split(s, lo)
        c, d = p.split(b, hi - lo)
        return c

    def range_len(self, r):
        p = self.p
        if not isinstance(r.step, int) or r.step not in (1, -1):
            return range_info(p, r.lo, r.hi, r.step).n
        if isinstance(r.step, int) and r.step == 1:
            if isinstance(r.lo, int) and isinstance(r.hi, int):
                return max(0, r.hi - r.lo)
            lo, hi = zval(r.lo), zval(r.hi)
            return z3.If(hi > lo, hi - lo, z3.IntVal(0))
        if isinstance(r.step, int) and r.step == -1:
            lo, hi = zval(r.lo), zval(r.hi)
            return z3.If(lo > hi, lo - hi, z3.IntVal(0))
        h = self.hook('range_len', r)
        if h is not NotImplemented:
            return h
        raise Unsupported('range step')

    def ev_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.locals:
            if e.args:
                if len(e.args) == 2 and isinstance(e.args[0], ast.Name):
                    return SuperVal(self.ev(e.args[1], fr), fr.selfcls, e.args[0].id)
                raise Unsupported('super with arguments')
            first = fr.fi.node.args.args[0].arg
            o = fr.locals[first]
            if isinstance(o, ClassVal):
                return SuperVal(o, o.name, fr.fi.cls.name)
            if fr.fi.is_static:
                return SuperVal(None, self.cls_of(o), fr.fi.cls.name)
            return SuperVal(o, fr.selfcls or self.cls_of(o), fr.fi.cls.name)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, tuple):
                    args.extend(v)
                else:
                    raise Unsupported('starred argument')
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp_iter(a, fr))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('** argument')
            kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs, fr)

    def ev_Lambda(self, e, fr):
        from .source import FuncInfo
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body)], decorator_list=[],
                               returns=None, type_comment=None)
        ast.copy_location(node, e); ast.fix_missing_locations(node)
        return LocalFunc(FuncInfo(node, fr.fi.cls, fr.fi.module), fr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.locals[e.target.id] = v
        return v

    def ev_ListComp(self, e, fr):
        return self.new_list(self.comp(e, fr))

    def ev_GeneratorExp(self, e, fr):
        return self.comp_iter(e, fr)

    def comp_iter(self, e, fr):
        g = e.generators
        it = None
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name) and isinstance(e.elt, ast.Name) \
                and e.elt.id == g[0].target.id:
            it = self.iterate(self.ev(g[0].iter, fr))
            return it
        return VIter(self.comp(e, fr))

    def comp(self, e, fr):
        h = self.hook('comp', e, fr)
        if h is not NotImplemented:
            return h
        if len(e.generators) != 1:
            return self.comp_nested(e, fr)
        g = e.generators[0]
        it = self.iterate(self.ev(g.iter, fr))
        if isinstance(it, VIter):
            if it.bad is not None:
                raise Unsupported('comprehension over an iterable with bad items')
            s = self.p.norm(it.seq)
            if not g.ifs and isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id:
                return s
            if all(isinstance(a, Unit) for a in s.atoms):
                out = EMPTY
                sub = Frame(fr.fi, fr.selfcls, ChainLocals({}, fr.locals))
                for a in s.atoms:
                    self.assign(g.target, a.v, sub)
                    if all(self.test(self.ev(c, sub)) for c in g.ifs):
                        out = out + unit(self.ev(e.elt, sub))
                return out
        raise Unsupported('comprehension')

    def comp_nested(self, e, fr):
        raise Unsupported('nested comprehension')

    def ev_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        fr.gen_seq = fr.gen_seq + unit(v)
        return None

    def ev_YieldFrom(self, e, fr):
        it = self.iterate(self.ev(e.value, fr))
        fr.gen_seq = fr.gen_seq + it.seq
        return None

    # ---- iteration ---------------------------------------------------------
    def iterate(self, v):
        """VIter for an iterable value"""
        p = self.p
        h = self.hook('iterate', v)
        if h is not NotImplemented:
            return h
        if isinstance(v, VIter):
            return v
        if isinstance(v, tuple):
            return VIter(Seq([Unit(x) for x in v]))
        if isinstance(v, VSet):
            if len(v.items) <= 1:
                return VIter(Seq([Unit(x) for x in v.items]))
            raise Unsupported('set iteration order')
        if isinstance(v, str):
            return VIter(Seq([Unit(x) for x in v]))
        if isinstance(v, Ref):
            if p.is_null(v) is not False and p.ref_eq(v, None):
                raise PyRaise('TypeError', 'None is not iterable')
            cls = self.cls_of(v)
            if cls == 'list':
                return VIter(self.lst(v), dep=v)
            if cls in self.prog.classes and self.prog.lookup(cls, '__iter__'):
                it = self.call_method(v, '__iter__', [], {})
                it = self.iterate(it)
                if it.dep is None:
                    it = VIter(it.seq, dep=v)
                return it
            raise PyRaise('TypeError', 'not iterable')
        if isinstance(v, VRange):
            return v
        if v is None or is_num(v) or is_boolv(v):
            raise PyRaise('TypeError', 'not iterable')
        if isinstance(v, Poison):
            raise Unsupported('local %s is not described by the loop invariant' % v.name)
        raise Unsupported('iteration over %r' % (v,))

    # ---- statements ----------------------------------------------------------
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.p.line = (fr.fi.qual, getattr(s, 'lineno', 0))
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Import(self, s, fr):
        for a in s.names:
            fr.locals[a.asname or a.name] = ModuleVal(a.name)

    def st_ImportFrom(self, s, fr):
        for a in s.names:
            if a.name in self.prog.classes:
                fr.locals[a.asname or a.name] = ClassVal(a.name)
            else:
                fr.locals[a.asname or a.name] = Builtin('%s.%s' % (s.module, a.name))

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def st_Return(self, s, fr):
        raise ReturnEx(None if s.value is None else self.ev(s.value, fr))

    def st_Break(self, s, fr):
        raise BreakEx()

    def st_Continue(self, s, fr):
        raise ContinueEx()

    def st_Assert(self, s, fr):
        if not self.test(self.ev(s.test, fr)):
            raise PyRaise('AssertionError', ast.unparse(s.test)[:60])

    def st_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(fr.locals.get('%exc', 'RuntimeError'))
        e = s.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                self.ev(a, fr)
            e = e.func
        v = self.ev(e, fr)
        if isinstance(v, TypeVal):
            raise PyRaise(v.name, 'line %d' % s.lineno)
        raise Unsupported('raise of %r' % (v,))

    def st_If(self, s, fr):
        if self.test(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            cur = self.getattr(o, nm, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = self.getitem(o, i)
        val = self.ev(s.value, fr)
        if isinstance(s.op, ast.Add) and isinstance(cur, Ref) and self.p.is_null(cur) is False and self.cls_of(cur) == 'list':
            it = self.iterate(val)
            self.set_lst(cur, self.lst(cur) + it.seq)
            new = cur
        else:
            new = self.binop(type(s.op).__name__, cur, val)
        if isinstance(t, ast.Name):
            fr.locals[t.id] = new
        elif isinstance(t, ast.Attribute):
            self.setattr(o, nm, new)
        else:
            self.setitem(o, i, new)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, self.mangle(t.attr, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            h = self.hook('unpack', t, v)
            if h is not NotImplemented:
                v = h
            if isinstance(v, Ref) and self.cls_of(v) == 'list':
                s = self.p.norm(self.lst(v))
                if all(isinstance(a, Unit) for a in s.atoms):
                    v = tuple(a.v for a in s.atoms)
            if not isinstance(v, tuple):
                raise Unsupported('unpacking of %r' % (v,))
            if len(v) != len(t.elts):
                raise PyRaise('ValueError', 'unpack')
            for x, y in zip(t.elts, v):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, i, v):
        h = self.hook('setitem', o, i, v)
        if h is not NotImplemented:
            return
        p = self.p
        if isinstance(o, Ref) and p.is_null(o) is False:
            cls = self.cls_of(o)
            if cls == 'list':
                a, x, b = self.list_index(self.lst(o), i)
                self.set_lst(o, a + unit(v) + b)
                return
            if cls in self.prog.classes:
                self.call_method(o, '__setitem__', [i, v], {})
                return
        raise Unsupported('item assignment to %r' % (o,))

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals[t.id] = Unbound()
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                nm = self.mangle(t.attr, fr)
                self.getattr(o, nm, fr)
                self.write(o, nm, Deleted())
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, fr), self.ev(t.slice, fr)
                h = self.hook('delitem', o, i)
                if h is not NotImplemented:
                    continue
                if isinstance(o, Ref) and self.cls_of(o) == 'list':
                    a, x, b = self.list_index(self.lst(o), i)
                    self.set_lst(o, a + b)
                elif isinstance(o, Ref):
                    self.call_method(o, '__delitem__', [i], {})
                else:
                    raise Unsupported('del')

    def st_Try(self, s, fr):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    v = self.ev(h.type, fr)
                    vs = v if isinstance(v, tuple) else (v,)
                    ok = any(isinstance(x, TypeVal) and exc_is(e.exc, x.name) for x in vs)
                if ok:
                    if h.name:
                        fr.locals[h.name] = Opaque()
                    old = fr.locals.get('%exc')
                    fr.locals['%exc'] = e.exc
                    self.block(h.body, fr)
                    if old is None:
                        fr.locals.pop('%exc', None)
                    return
            raise
        else:
            self.block(s.orelse, fr)

    def st_FunctionDef(self, s, fr):
        from .source import FuncInfo
        fr.locals[s.name] = LocalFunc(FuncInfo(s, fr.fi.cls, fr.fi.module), fr)

    def st_Global(self, s, fr):
        raise Unsupported('global')

    def st_With(self, s, fr):
        raise Unsupported('with')

    def st_While(self, s, fr):
        from .loops import exec_while
        exec_while(self, s, fr)

    def st_For(self, s, fr):
        from .loops import exec_for
        exec_for(self, s, fr)

    # dict support is provided by hooks
    def dict_truth(self, v):
        h = self.hook('dict_truth', v)
        if h is NotImplemented:
            raise Unsupported('dict')
        return h

    def dict_eq(self, a, b):
        h = self.hook('dict_eq', a, b)
        if h is NotImplemented:
            raise Unsupported('dict')
        return h


class TypeOf:
    """the type of an item / number that is not fixed"""
    def __init__(self, v):
        self.v = v


class Unbound:
    pass


class Deleted:
    pass


class LocalFunc:
    def __init__(self, fi, fr):
        self.fi, self.fr = fi, fr


class ChainLocals(dict):
    def __init__(self, own, outer):
        dict.__init__(self, own)
        self.outer = outer

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.outer

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.outer[k]

    def get(self, k, d=None):
        return self[k] if k in self else d


class ModFrame:
    """stands for a FuncInfo at module level"""
    def __init__(self, rel):
        self.module, self.cls, self.node, self.qual = rel, None, None, '<module>'


_LN = {}


def local_names(fi):
    k = id(fi.node)
    if k not in _LN:
        s = set(a.arg for a in fi.node.args.args)
        for n in walk_own(fi.body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s.add(n.id)
        _LN[k] = (s, fi.node)
    return _LN[k][0]


def assigned_names(stmts):
    s = set()
    for n in walk_own(stmts):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
    # comprehension targets are not locals of the function, harmless over-approximation
    return s
