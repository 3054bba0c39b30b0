"""Python lists of numbers seen as arrays: random access, statements about all positions, and the number of
occurrences of a value.  Statements about all positions are instantiated at every position a path mentions."""
import z3
from .state import *
from .heap import find_cell, add_cell
from .exec import *

REAL, INT = z3.RealSort(), z3.IntSort()
ARR = z3.ArraySort(INT, REAL)
CNT = z3.Function('occurrences', ARR, INT, REAL, INT)     # of q among the first n entries
LOW = z3.Function('least_entry', ARR, INT, REAL)
HIGH = z3.Function('greatest_entry', ARR, INT, REAL)
QS = [z3.Real('ghost_q')]          # arbitrary value whose occurrences are tracked


def state(p):
    d = p.__dict__
    if 'arr_at' not in d:
        d['arr_at'], d['arr_all'], d['arr_seen'] = [], [], set()
    return d['arr_at'], d['arr_all'], d['arr_seen']


def touch(p, i):
    """position i is of interest"""
    at, al, seen = state(p)
    i = z3.simplify(zval(i))
    if i.get_id() in seen:
        return
    seen.add(i.get_id())
    at.append(i)
    for f in list(al):
        p.assume(f(i))


def for_all(p, f):
    """f(i) holds for every i"""
    at, al, seen = state(p)
    al.append(f)
    for i in list(at):
        p.assume(f(i))


def prove_all(p, f, label, near=()):
    """f(i) for every i: for an arbitrary i"""
    k = p.fresh_int('any')
    touch(p, k)
    touch(p, (k - 1) / 2)
    for g in near:
        touch(p, g(k))
    p.prove(f(k), label)


def induction(p, goal, before, lo, hi, label, near=()):
    """goal(k) for all lo <= k < hi; before(k): the position whose case may be used, towards the base"""
    k = p.fresh_int('ind')
    touch(p, k)
    b = before(k)
    touch(p, b)
    for g in near:
        touch(p, g(k))
    ih = z3.Implies(z3.And(lo <= b, b < hi, b != k), goal(b))
    p.prove(z3.Implies(z3.And(lo <= k, k < hi, ih), goal(k)), label)
    for_all(p, lambda i: z3.Implies(z3.And(lo <= i, i < hi), goal(i)))


def stored(p, a, n, i, v):
    """array a of length n with v at i (at the end when i is n)"""
    b = z3.Store(a, zval(i), v)
    for q in QS:
        if i is n:
            p.assume(CNT(b, n + 1, q) == CNT(a, n, q) + z3.If(v == q, 1, 0))
            continue
        p.assume(CNT(b, n, q) == CNT(a, n, q) - z3.If(z3.Select(a, i) == q, 1, 0) + z3.If(v == q, 1, 0))
    # named: keeps terms small
    c = z3.Const('arr%d' % p.nfresh, ARR)
    p.nfresh += 1
    p.assume(c == b)
    return c


def counts(p, a, n):
    for q in QS:
        p.assume(z3.And(CNT(a, n, q) >= 0, CNT(a, n, q) <= n))


def at_index(p, a, n, i):
    """i is a position: its value occurs"""
    v = z3.Select(a, i)
    p.assume(z3.Implies(z3.And(0 <= i, i < n), CNT(a, n, v) > 0))
    return v


def occurs(p, a, n, q):
    """a position of q, when it occurs (else -1)"""
    j = p.fresh_int('pos')
    touch(p, j)
    yes = CNT(a, n, q) > 0
    p.assume(z3.And(CNT(a, n, q) >= 0, CNT(a, n, q) <= n))
    p.assume(z3.If(yes, z3.And(0 <= j, j < n, z3.Select(a, j) == q), j == -1))
    for_all(p, lambda i: z3.Implies(z3.And(z3.Not(yes), 0 <= i, i < n), z3.Select(a, i) != q))
    return yes, j


def extreme(p, a, n, low):
    """the least / greatest of the n>0 entries"""
    m = (LOW if low else HIGH)(a, n)
    j = p.fresh_int('pos')
    touch(p, j)
    p.assume(z3.Implies(n > 0, z3.And(0 <= j, j < n, z3.Select(a, j) == m, CNT(a, n, m) > 0)))
    for_all(p, lambda i: z3.Implies(z3.And(0 <= i, i < n), m <= z3.Select(a, i) if low else m >= z3.Select(a, i)))
    for q in QS:
        occurs(p, a, n, q)
        p.assume(z3.Implies(CNT(a, n, q) > 0, m <= q if low else m >= q))
    return m


def new_array(p, a, n, new=True, lock=None):
    r = p.fresh_ref('array', nonnull=True)
    counts(p, a, zval(n))
    add_cell(p, Cell(r, 'array', {'arr': a, 'n': n}, new=new, lock=lock))
    return r


def fresh_array(p):
    a = z3.Const('arr%d' % p.nfresh, ARR)
    p.nfresh += 1
    n = p.fresh_int('n')
    p.assume(n >= 0)
    return a, n


def of_seq(p, s):
    """array of a list all of whose items are known"""
    s = p.norm(s)
    if not all(isinstance(x, Unit) and is_num(x.v) for x in s.atoms):
        raise Unsupported('list as an array')
    a = z3.Const('arr%d' % p.nfresh, ARR)
    p.nfresh += 1
    for q in QS:
        p.assume(CNT(a, 0, q) == 0)
    n = 0
    for x in s.atoms:
        v = zval(x.v)
        v = z3.ToReal(v) if v.sort() == INT else v
        k = z3.IntVal(n)
        b = stored(p, a, k, k, v)
        a, n = b, n + 1
    return a, z3.IntVal(n)


def real(v):
    z = zval(v)
    return z3.ToReal(z) if z.sort() == INT else z


def content(I, r):
    c = find_cell(I.p, r)
    return c.fields['arr'], c.fields['n']


def is_array(I, o):
    return isinstance(o, Ref) and I.p.is_null(o) is False and I.p.refcls[I.p.rep(o)] == 'array'


def index(I, n, i):
    p = I.p
    if not is_int(i):
        raise PyRaise('TypeError', 'list indices')
    if p.branch(I.num_cmp('lt', i, 0)):
        i = I.binop('Add', i, n)
    if not p.branch(I.and_(I.num_cmp('ge', i, 0), I.num_cmp('lt', i, n))):
        raise PyRaise('IndexError', 'list index')
    touch(p, i)
    return zval(i)


def install(R):
    @R.hook('truth')
    def truth(I, v):
        return NotImplemented

    @R.hook('eq')
    def eq(I, a, b):
        for x, y in ((a, b), (b, a)):
            if is_array(I, x):
                if is_array(I, y):
                    raise Unsupported('comparison of arrays')
                if isinstance(y, Ref) and I.p.is_null(y) is False and I.cls_of(y) == 'list':
                    if not I.p.norm(I.lst(y)).atoms:
                        return content(I, x)[1] == 0
                    raise Unsupported('comparison of arrays')
                return False
        return NotImplemented

    @R.hook('getitem')
    def getitem(I, o, i):
        if not is_array(I, o):
            return NotImplemented
        p = I.p
        a, n = content(I, o)
        if isinstance(i, VSlice):
            return slice_of(I, a, n, i)
        i = index(I, n, i)
        return at_index(p, a, zval(n), i)

    def slice_of(I, a, n, sl):
        p = I.p
        if sl.step is not None and sl.step != 1:
            raise Unsupported('slice step')
        if sl.lo is None and sl.hi is None:
            return new_array(p, a, n)

        def clamp(x, default):
            if x is None:
                return default
            if not is_int(x):
                raise PyRaise('TypeError', 'slice')
            if p.branch(I.num_cmp('lt', x, 0)):
                x = I.binop('Add', x, n)
                return 0 if p.branch(I.num_cmp('lt', x, 0)) else x
            return n if p.branch(I.num_cmp('gt', x, n)) else x
        lo, hi = zval(clamp(sl.lo, 0)), zval(clamp(sl.hi, n))
        b, k = fresh_array(p)
        p.assume(k == z3.If(hi > lo, hi - lo, 0))
        for_all(p, lambda i: z3.Implies(z3.And(0 <= i, i < k), z3.Select(b, i) == z3.Select(a, lo + i)))
        r = new_array(p, b, k)
        # positions of the part and of the whole
        for i in list(state(p)[0]):
            touch(p, i - lo)
        p.__dict__.setdefault('arr_parts', []).append((b, lo))
        return r

    @R.hook('setitem')
    def setitem(I, o, i, v):
        if not is_array(I, o):
            return NotImplemented
        p = I.p
        a, n = content(I, o)
        if not is_num(v):
            raise Unsupported('array entry')
        i = index(I, n, i)
        I.write(o, 'arr', stored(p, a, zval(n), i, real(v)))

    @R.hook('contains')
    def contains(I, o, x):
        if not is_array(I, o):
            return NotImplemented
        if not is_num(x):
            raise Unsupported('membership in an array')
        a, n = content(I, o)
        return occurs(I.p, a, zval(n), real(x))[0]

    @R.hook('builtin')
    def builtin(I, f, args, kw, fr):
        p, n = I.p, f.name
        if f.name.startswith('array.'):
            return method(I, n[6:], f.recv, args)
        if len(args) >= 1 and is_array(I, args[0]):
            a, k = content(I, args[0])
            k = zval(k)
            if n == 'len':
                return content(I, args[0])[1]
            if n in ('min', 'max') and len(args) == 1 and not kw:
                if p.branch(k == 0):
                    raise PyRaise('ValueError', 'min of empty')
                m = p.fresh_real('ext')
                j = p.fresh_int('pos')
                touch(p, j)
                for b, lo in p.__dict__.get('arr_parts', ()):
                    if b.eq(a):
                        touch(p, j + lo)
                p.assume(z3.And(0 <= j, j < k, z3.Select(a, j) == m))
                at_index(p, a, k, j)
                for_all(p, lambda i: z3.Implies(z3.And(0 <= i, i < k), m <= z3.Select(a, i) if n == 'min' else m >= z3.Select(a, i)))
                return m
            if isinstance(f, TypeVal) and n == 'list':
                return new_array(p, a, k)
            if isinstance(f, TypeVal) and n == 'bool':
                return k != 0
        return NotImplemented

    def method(I, m, r, args):
        p = I.p
        a, n0 = content(I, r)
        n = zval(n0)
        if m == 'append':
            if not is_num(args[0]):
                raise Unsupported('array entry')
            v = real(args[0])
            b = stored(p, a, n, n, v)
            touch(p, n)
            counts(p, b, n + 1)
            I.write(r, 'arr', b)
            I.write(r, 'n', z3.simplify(n + 1))
            return None
        if m == 'pop' and (not args or args == [-1]):
            if p.branch(n == 0):
                raise PyRaise('IndexError', 'pop from empty list')
            last = z3.simplify(n - 1)
            touch(p, last)
            v = at_index(p, a, n, last)
            for q in QS:
                p.assume(CNT(a, last, q) == CNT(a, n, q) - z3.If(v == q, 1, 0))
            counts(p, a, last)
            I.write(r, 'n', last)
            return v
        if m == 'index' and len(args) == 1 and is_num(args[0]):
            q = real(args[0])
            yes, j = occurs(p, a, n, q)
            if not p.branch(yes):
                raise PyRaise('ValueError', 'not in list')
            for_all(p, lambda i: z3.Implies(z3.And(0 <= i, i < j), z3.Select(a, i) != q))
            return j
        if m == 'count' and len(args) == 1 and is_num(args[0]):
            return CNT(a, n, real(args[0]))
        if m == 'copy':
            return new_array(p, a, n)
        if m == 'clear':
            I.write(r, 'n', z3.IntVal(0))
            for q in QS:
                p.assume(CNT(a, 0, q) == 0)
            return None
        raise Unsupported('list method ' + m)
