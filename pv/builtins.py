"""Models of the Python builtins and library calls the code uses."""
import z3
from .state import *
from .heap import find_cell
from .exec import *

ROUND = z3.Function('round', z3.RealSort(), z3.IntSort())


def type_of(I, v):
    p = I.p
    if v is None:
        return TypeVal('NoneType')
    if is_boolv(v):
        return TypeVal('bool')
    if is_int(v):
        return TypeVal('int')
    if isinstance(v, (str, OStr)):
        return TypeVal('str')
    if isinstance(v, tuple):
        return TypeVal('tuple')
    if isinstance(v, VSlice):
        return TypeVal('slice')
    if isinstance(v, float):
        return TypeVal('float')
    if isinstance(v, Ref):
        if p.is_null(v) is not False and p.ref_eq(v, None):
            return TypeVal('NoneType')
        c = I.cls_of(v)
        return TypeVal('list') if c in ('array', 'proj') else TypeVal('dict') if c == 'vdict' else TypeVal(c) if c in ('list', 'dict', 'set') else ClassVal(c)
    if is_real(v) or is_data(v) or isinstance(v, (ExtObj, Opaque)):
        return TypeOf(v)
    if isinstance(v, EnumV):
        return ClassVal(v.cls)
    h = I.hook('type_of', v)
    if h is not NotImplemented:
        return h
    if isinstance(v, Poison):
        raise Unsupported('local %s is not described by the loop invariant' % v.name)
    return TypeVal('?' + type(v).__name__)


def type_eq(I, t, u):
    """hook for comparison of types"""
    if isinstance(u, TypeOf):
        t, u = u, t
    if not isinstance(t, TypeOf):
        return NotImplemented
    v = t.v
    if isinstance(u, TypeOf):
        return I.p.fresh_bool('sametype')
    if is_real(v):
        if u.name in ('int', 'float') and isinstance(u, TypeVal):
            f = z3.Function('isint_num', z3.RealSort(), z3.BoolSort())(v)
            return f if u.name == 'int' else z3.Not(f)
        return False
    if isinstance(v, (ExtObj, Opaque)):
        if isinstance(u, TypeVal):
            return False
        return I.p.fresh_bool('extype')
    if isinstance(u, ClassVal):
        return False
    if u.name in ('NoneType',):
        return False
    return data_istype(I, v, u.name)


def data_istype(I, v, name):
    p = I.p
    t = istype(name)(v)
    done = p.__dict__.setdefault('type_facts', {})
    s = done.setdefault(v.get_id(), (set(), v))[0]
    if name not in s:
        for o in s:
            p.assume(z3.Not(z3.And(t, istype(o)(v))))
        s.add(name)
    return t


def norm_facts(I, d):
    """facts about the stored form of item d"""
    p = I.p
    n = NORM(d)
    s = data_istype(I, d, 'str')
    p.assume(z3.Implies(z3.Not(s), n == d))
    p.assume(NORM(n) == n)
    p.assume(data_istype(I, n, 'str') == s)
    return n


def isinstance_of(I, v, cls):
    """v instance of ClassVal/TypeVal"""
    p = I.p
    if isinstance(v, Poison):
        raise Unsupported('local %s is not described by the loop invariant' % v.name)
    h = I.hook('isinstance', v, cls)
    if h is not NotImplemented:
        return h
    if isinstance(cls, ClassVal):
        if isinstance(v, ExtObj):
            return True if cls.name == 'Extra' else p.fresh_bool('isinst')
        if isinstance(v, Ref):
            if p.is_null(v) is not False and p.ref_eq(v, None):
                return False
            c = I.cls_of(v)
            return c in I.prog.classes and I.prog.is_subclass(c, cls.name)
        if isinstance(v, EnumV):
            return v.cls == cls.name
        return False
    if isinstance(cls, TypeVal):
        t = type_of(I, v)
        if isinstance(t, TypeOf):
            if cls.name == 'object':
                return True
            if is_real(t.v) and cls.name == 'bool':
                return False
            if is_data(t.v) and cls.name == 'int':
                a, b = data_istype(I, t.v, 'int'), data_istype(I, t.v, 'bool')
                return z3.Or(a, b)
            return type_eq(I, t, cls)
        if cls.name == 'object':
            return True
        if cls.name == 'int' and isinstance(t, TypeVal) and t.name == 'bool':
            return True
        return isinstance(t, TypeVal) and t.name == cls.name
    raise Unsupported('isinstance with %r' % (cls,))


def zmin(I, a, b):
    c = I.order('lt', b, a)
    return pick_num(I, c, b, a)


def zmax(I, a, b):
    c = I.order('gt', b, a)
    return pick_num(I, c, b, a)


def pick_num(I, c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if is_num(x) and is_num(y) and not (isinstance(x, float) or isinstance(y, float)):
        zx, zy = zval(x), zval(y)
        if zx.sort() == zy.sort():
            return z3.If(c, zx, zy)
    if is_num(x) and is_num(y) and (is_real(x) or is_real(y)) and not (is_int(x) or is_int(y)):
        return z3.If(c, zval(x), zval(y))
    return x if I.p.branch(c) else y


def call_builtin(I, f, args, kw, fr):
    p = I.p
    n = f.name
    h = I.hook('builtin', f, args, kw, fr)
    if h is not NotImplemented:
        return h
    if isinstance(f, TypeVal):
        if n in EXC_PARENTS:
            return Opaque()
        if n == 'list':
            if not args:
                return I.new_list(EMPTY)
            it = I.iterate(args[0])
            if isinstance(it, VIter) and it.bad is None:
                return I.new_list(it.seq)
            raise Unsupported('list(...)')
        if n == 'tuple' and args:
            it = I.iterate(args[0])
            s = p.norm(it.seq)
            if all(isinstance(a, Unit) for a in s.atoms):
                return tuple(a.v for a in s.atoms)
            raise Unsupported('tuple(...)')
        if n == 'str':
            return OStr()
        if n == 'type':
            return type_of(I, args[0])
        if n == 'set':
            if not args:
                return VSet([])
            if isinstance(args[0], VRange):
                return args[0]
            it = I.iterate(args[0])
            s = p.norm(it.seq)
            if all(isinstance(a, Unit) for a in s.atoms):
                return VSet([a.v for a in s.atoms])
            raise Unsupported('set(...)')
        if n == 'float' and len(args) == 1 and isinstance(args[0], (str, int, float)):
            try:
                return float(args[0])
            except ValueError:
                raise PyRaise('ValueError', 'float')
        if n == 'int' and len(args) == 1 and is_int(args[0]):
            return args[0]
        if n == 'bool' and len(args) == 1:
            return I.truth(args[0])
        if n == 'slice':
            a = args + [None] * 3
            if len(args) == 1:
                return VSlice(None, args[0], None)
            return VSlice(a[0], a[1], a[2])
        raise Unsupported('call of type ' + n)
    if n == 'len':
        v = args[0]
        if isinstance(v, Ref):
            if p.is_null(v) is not False and p.ref_eq(v, None):
                raise PyRaise('TypeError', 'len(None)')
            c = I.cls_of(v)
            if c == 'list':
                return p.length(I.lst(v))
            if c in I.prog.classes:
                return I.call_method(v, '__len__', [], {})
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, VRange):
            return I.range_len(v)
        if isinstance(v, VSet):
            return len(v.items)
        if isinstance(v, OStr):
            k = p.fresh_int('strlen'); p.assume(k >= 0)
            return k
        if v is None or is_num(v):
            raise PyRaise('TypeError', 'len')
        raise Unsupported('len of %r' % (v,))
    if n == 'isinstance':
        cs = args[1] if isinstance(args[1], tuple) else (args[1],)
        rs = []
        for c in cs:
            r = isinstance_of(I, args[0], c)
            if r is True:
                return True
            if r is not False:
                rs.append(r)
        return z3.Or(*rs) if rs else False
    if n == 'type':
        return type_of(I, args[0])
    if n == 'object.__init__':
        return None
    if n == 'hasattr':
        return has_attr(I, args[0], args[1])
    if n == 'issubclass':
        return I.prog.is_subclass(args[0].name, args[1].name)
    if n == 'range':
        for a in args:
            if not is_int(a):
                raise PyRaise('TypeError', 'range')
        if len(args) == 1:
            return VRange(0, args[0])
        if len(args) == 2:
            return VRange(args[0], args[1])
        if p.branch(I.num_cmp('eq', args[2], 0)):
            raise PyRaise('ValueError', 'range step')
        return VRange(*args)
    if n in ('min', 'max') and not kw:
        pick = zmin if n == 'min' else zmax
        if len(args) >= 2:
            r = args[0]
            for a in args[1:]:
                r = pick(I, r, a)
            return r
        if isinstance(args[0], VRange):
            ri = range_info(p, args[0].lo, args[0].hi, args[0].step)
            if not p.branch(ri.n > 0):
                raise PyRaise('ValueError', n + ' of empty range')
            return ri.high() if n == 'max' else ri.low()
        it = I.iterate(args[0])
        s = p.norm(it.seq)
        if all(isinstance(a, Unit) for a in s.atoms):
            if not s.atoms:
                raise PyRaise('ValueError', n + ' of empty')
            r = s.atoms[0].v
            for a in s.atoms[1:]:
                r = pick(I, r, a.v)
            return r
        raise Unsupported(n + ' of a sequence')
    if n == 'abs':
        v = args[0]
        if isinstance(v, (int, float)):
            return abs(v)
        return z3.If(v >= 0, v, -v)
    if n == 'round':
        v = args[0]
        if is_int(v):
            return v
        if isinstance(v, float):
            if v in (INF, -INF):
                raise PyRaise('OverflowError', 'round(inf)')
            return round(v)
        if is_real(v):
            r = ROUND(v)
            p.assume(z3.And(2 * z3.ToReal(r) <= 2 * v + 1, 2 * z3.ToReal(r) >= 2 * v - 1))
            return r
        raise PyRaise('TypeError', 'round')
    if n in ('iter', 'reversed', 'enumerate', 'sorted', 'zip', 'sum', 'any', 'all', 'next', 'print', 'repr', 'id',
             'getattr', 'setattr', 'divmod'):
        if n == 'iter':
            return I.iterate(args[0])
        if n == 'reversed':
            it = I.iterate(args[0])
            if isinstance(it, VRange):
                if isinstance(it.step, int) and it.step == 1:
                    return VRange(I.binop('Sub', it.hi, 1), I.binop('Sub', it.lo, 1), -1)
                raise Unsupported('reversed')
            return VIter(p.hom('rev', (), it.seq), dep=it.dep)
        if n == 'print':
            return None
        if n in ('repr',):
            return OStr()
        if n == 'sum' and len(args) == 1:
            it = I.iterate(args[0])
            s = p.norm(it.seq)
            if all(isinstance(a, Unit) for a in s.atoms):
                r = 0
                for a in s.atoms:
                    r = I.binop('Add', r, a.v)
                return r
        if n in ('any', 'all'):
            it = I.iterate(args[0])
            s = p.norm(it.seq)
            if all(isinstance(a, Unit) for a in s.atoms):
                for a in s.atoms:
                    t = I.test(a.v)
                    if t and n == 'any':
                        return True
                    if not t and n == 'all':
                        return False
                return n == 'all'
        if n == 'getattr' and len(args) == 2 and isinstance(args[1], str):
            return I.getattr(args[0], args[1])
        if n == 'setattr' and isinstance(args[1], str):
            return I.setattr(args[0], args[1], args[2])
        if n == 'divmod':
            return (I.binop('FloorDiv', *args), I.binop('Mod', *args))
        if n == 'enumerate':
            it = I.iterate(args[0])
            s = p.norm(it.seq) if isinstance(it, VIter) else None
            if s is not None and all(isinstance(a, Unit) for a in s.atoms):
                return VIter(Seq([Unit((i, a.v)) for i, a in enumerate(s.atoms)]))
        if n == 'zip':
            its = [I.iterate(a) for a in args]
            ss = [p.norm(it.seq).atoms for it in its if isinstance(it, VIter)]
            if len(ss) == len(its) and all(isinstance(a, Unit) for s in ss for a in s):
                return VIter(Seq([Unit(tuple(a.v for a in t)) for t in zip(*ss)]))
        raise Unsupported(n)
    if n == 'dir':
        if isinstance(args[0], ModuleVal):
            return Builtin('dir(%s)' % args[0].name)
        raise Unsupported('dir')
    if n == 'str':
        return OStr()
    if n == 'warnings.warn':
        p.warned = True
        return None
    if n.startswith('operator.'):
        op = n.split('.')[1]
        if op in ('lt', 'le', 'gt', 'ge'):
            return I.order(op, *args)
        if op == 'eq':
            return I.eq(*args)
        if op == 'ne':
            return I.znot(I.eq(*args))
    if n == 'random.randint':
        k = p.fresh_int('rnd')
        p.assume(I.and_(I.num_cmp('ge', k, args[0]), I.num_cmp('le', k, args[1])))
        return k
    if n == 'random.choice':
        it = I.iterate(args[0])
        s = p.norm(it.seq)
        if all(isinstance(a, Unit) for a in s.atoms) and s.atoms:
            for a in s.atoms[:-1]:
                if p.choice():
                    return a.v
            return s.atoms[-1].v
    if n == 'random.random':
        k = p.fresh_real('rnd')
        p.assume(z3.And(k >= 0, k < 1))
        return k
    if n in ('random.seed',):
        return None
    if n == 'data.replace':
        d = f.recv
        s = data_istype(I, d, 'str')
        if not p.branch(s):
            raise PyRaise('AttributeError', 'replace')
        if args == ['\n', '\\n']:
            return norm_facts(I, d)
        r = p.fresh_data('replaced')
        return r
    if n.startswith('data.'):
        raise Unsupported('method %s of an item' % n[5:])
    if n.startswith('str.'):
        return str_method(I, n[4:], f.recv, args)
    if n.startswith('list.'):
        return list_method(I, n[5:], f.recv, args, kw)
    if n == 'set.add':
        f.recv.items.append(args[0])
        return None
    if n == 'slice.indices':
        return slice_indices(I, f.recv, args[0])
    raise Unsupported('call of ' + n)


def slice_indices(I, sl, n):
    """CPython slice.indices for a symbolic length"""
    p = I.p
    step = 1 if sl.step is None else sl.step
    for x in (sl.lo, sl.hi, step):
        if x is not None and not is_int(x):
            raise PyRaise('TypeError', 'slice indices')
    if p.branch(I.num_cmp('eq', step, 0)):
        raise PyRaise('ValueError', 'slice step cannot be zero')
    neg = p.branch(I.num_cmp('lt', step, 0))
    lower, upper = (-1, I.binop('Sub', n, 1)) if neg else (0, n)

    def clamp(x, default):
        if x is None:
            return default
        if p.branch(I.num_cmp('lt', x, 0)):
            x = I.binop('Add', x, n)
            if p.branch(I.num_cmp('lt', x, lower)):
                return lower
            return x
        if p.branch(I.num_cmp('gt', x, upper)):
            return upper
        return x
    return (clamp(sl.lo, upper if neg else lower), clamp(sl.hi, lower if neg else upper), step)


def has_attr(I, v, name):
    p = I.p
    h = I.hook('hasattr', v, name)
    if h is not NotImplemented:
        return h
    if name == '__iter__':
        if isinstance(v, Opaque):
            return v.iterable
        if isinstance(v, (VIter, VRange, VSet, tuple, str, OStr)):
            return True
        if v is None or is_num(v) or is_boolv(v):
            return False
        if isinstance(v, Ref):
            if p.is_null(v) is not False and p.ref_eq(v, None):
                return False
            c = I.cls_of(v)
            if c in ('list', 'dict', 'set', 'array', 'proj', 'vdict'):
                return True
            return I.prog.lookup(c, '__iter__') is not None
        if is_data(v):
            return istype('iterable')(v)
    if isinstance(v, Ref):
        cell = find_cell(p, v)
        c = I.cls_of(v)
        return (cell is not None and name in cell.fields) or I.find_method(c, name) is not None or \
            I.prog.class_attr(c, name) is not None
    raise Unsupported('hasattr ' + str(name))


def str_method(I, m, recv, args):
    p = I.p
    if isinstance(recv, str) and all(isinstance(a, (str, int)) for a in args) and m in (
            'replace', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'isspace', 'find', 'index'):
        r = getattr(recv, m)(*args)
        if isinstance(r, list):
            return I.new_list(Seq([Unit(x) for x in r]))
        return r
    if m in ('replace', 'lower', 'upper', 'strip', 'join', 'format', 'rstrip', 'lstrip'):
        return OStr()
    raise Unsupported('string method ' + m)


def list_method(I, m, r, args, kw):
    p = I.p
    s = I.lst(r)
    h = I.hook('list_method', m, r, args)
    if h is not NotImplemented:
        return h
    if m == 'append':
        I.set_lst(r, s + unit(args[0]))
        return None
    if m == 'extend':
        it = I.iterate(args[0])
        if not isinstance(it, VIter) or it.bad is not None:
            raise Unsupported('extend')
        I.set_lst(r, s + it.seq)
        return None
    if m == 'pop':
        if p.branch(I.num_cmp('eq', p.length(s), 0)):
            raise PyRaise('IndexError', 'pop from empty list')
        if not args or args == [-1]:
            a, x = p.unsnoc(s)
            I.set_lst(r, a)
            return x
        a, x, b = I.list_index(s, args[0])
        I.set_lst(r, a + b)
        return x
    if m == 'copy':
        return I.new_list(s)
    if m == 'clear':
        I.set_lst(r, EMPTY)
        return None
    if m == 'insert' and is_int(args[0]):
        i = args[0]
        n = p.length(s)
        if p.branch(I.num_cmp('lt', i, 0)):
            i = i + n
            if p.branch(I.num_cmp('lt', i, 0)):
                i = 0
        if p.branch(I.num_cmp('gt', i, n)):
            i = n
        a, b = p.split(s, i)
        I.set_lst(r, a + unit(args[1]) + b)
        return None
    if m == 'reverse':
        I.set_lst(r, p.hom('rev', (), s))
        return None
    raise Unsupported('list method ' + m)
