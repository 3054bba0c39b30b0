"""Contracts of MinHeap and MaxHeap.  The stored list is seen as an array; Q is an arbitrary value whose number of
occurrences is followed through every operation (what holds for Q holds for every number)."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv.builtins import data_istype
from pv import arrays as A
from pv.arrays import CNT, for_all, prove_all, induction, touch, occurs, extreme

CLS = ('MinHeap', 'MaxHeap')
P = ('C19',)
Q = A.QS[0]
S = z3.Select


SEQ_MEASURE['cnum'] = (z3.IntSort, lambda p, a, v: z3.If(zval(v) == a[0], z3.IntVal(1), z3.IntVal(0)), lambda x, y: x + y, 0)
MEASURE_FACT['cnum'] = lambda c: c >= 0


def le(cls, x, y):
    """x may stand above y"""
    return x <= y if cls == 'MinHeap' else x >= y


def up(i):
    return (i - 1) / 2


def claim(m, f, near=()):
    """f(i) for every position i"""
    if m.producing:
        for_all(m.p, f)
    else:
        prove_all(m.p, f, m.label + ': order of the entries', near)


def ordered(cls, a, n):
    return lambda i: z3.Implies(z3.And(1 <= i, i < n), le(cls, S(a, up(i)), S(a, i)))


def almost(cls, a, n, k):
    """ordered but for the entry at k, whose children are in order with its parent"""
    return lambda i: z3.Implies(z3.And(1 <= i, i < n), z3.And(
        z3.Implies(i != k, le(cls, S(a, up(i)), S(a, i))),
        z3.Implies(z3.And(up(i) == k, k >= 1), le(cls, S(a, up(k)), S(a, i)))))


def HP(m, r, cls):
    f = m.cell(r, cls, _heap='array')
    a, n = m.array(f['_heap'])
    claim(m, ordered(cls, a, n))
    return a, n


def raw(m, r, cls):
    f = m.cell(r, cls, _heap='array')
    return m.array(f['_heap'])


def build(R):
    A.install(R)
    for k in CLS:
        R.tagger(k)(lambda m, r, k=k: HP(m, r, k))

    def nonnum(c):
        d = c.p.fresh_data('nonnum')
        for t in ('int', 'float', 'bool'):
            c.p.assume(z3.Not(data_istype(c.I, d, t)))
        return d
    R.kinds['nonnum'] = nonnum
    ANYVAL = 'num|none|extra|nonnum|bool|opaque'

    def me(c):
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = c.p.fresh_ref(c.cls, nonnull=True)
        return c.locs['self']

    def rep(c):
        return HP(c, me(c), c.cls)

    def number(c, v):
        return c.kind(v) in ('int', 'num')

    def value_error(c, v):
        k = c.kind(v)
        return None if k in ('int', 'num') else 'ValueError' if k == 'none' else 'TypeError'

    def tally(c, b, k, a, n, plus=None, minus=None):
        """the entries b[:k] are those of a[:n], one more / one less"""
        w = CNT(a, n, Q)
        if plus is not None:
            w = w + z3.If(plus == Q, 1, 0)
            c.ensures(k == n + 1)
        elif minus is not None:
            w = w - z3.If(minus == Q, 1, 0)
            c.ensures(k == n - 1)
        else:
            c.ensures(k == n)
        c.ensures(CNT(b, k, Q) == w)

    @R.contract('__init__', CLS, props=P)
    def init(c):
        s = me(c)
        c.cell(s, c.cls)
        yield
        a, n = rep(c)
        c.ensures(n == 0)
        c.ensures(CNT(a, n, Q) == 0)

    @R.contract('clear', CLS, props=P)
    def clear(c):
        rep(c)
        yield
        a, n = rep(c)
        c.ensures(n == 0)
        c.ensures(CNT(a, n, Q) == 0)

    R.kinds['niter'] = lambda c: VIter(c.p.fresh_seq('num'))

    def niter_bad(c):
        k = c.p.pick(['none', 'extra', 'nonnum', 'bool'])
        return VIter(c.p.fresh_seq('num'), bad=NONE_ITEM if k == 'none' else c.make(k))
    R.kinds['niter_bad'] = niter_bad

    @R.contract('heapify', CLS, props=P)
    def heapify(c):
        p = c.p
        if c.proof:
            c.locs['cls'] = ClassVal(c.cls)
        it = c.arg('iterable', 'niter|niter_bad|opaque|none')
        if c.kind(it) != 'iter':
            c.fails('TypeError')
        if it.bad is not None:
            c.fails(value_error(c, None if it.bad is NONE_ITEM else it.bad))
        yield
        a, n = HP(c, c.returns_object(c.cls), c.cls)
        c.ensures(n == p.as_z3int(p.length(it.seq)))
        c.ensures(CNT(a, n, Q) == p.measure('cnum', (Q,), it.seq))

    @R.loop_inv('Heap.heapify', 0)
    def heapify_loop(L):
        p = L.p
        for v, x in sorted(L.locals.items()):
            if v not in L.loop.assigned and isinstance(x, Ref) and p.is_null(x) is False and \
                    p.refcls[p.rep(x)] == L.fr.selfcls:
                a, n = HP(L, x, L.fr.selfcls)
                L.fact(n == p.as_z3int(p.length(L.visited)))
                L.fact(CNT(a, n, Q) == p.measure('cnum', (Q,), L.visited))
                return
        p.fail(L.label + ': no heap is built')

    @R.contract('insert', CLS, props=P)
    def insert(c):
        a, n = rep(c)
        v = c.arg('value', ANYVAL)
        e = value_error(c, v)
        if e:
            c.rejects(e)
        yield
        b, k = rep(c)
        tally(c, b, k, a, n, plus=A.real(v))

    @R.loop_inv('Heap.insert', 0)
    def insert_loop(L):
        a0, n0 = sift(L, None)
        L.decreases(L.locals['%idx'])

    def sift(L, less, name='idx'):
        """an entry moves up: invariant and the array on entry"""
        cls = L.fr.selfcls
        a, n = raw(L, L.const('self'), cls)
        i = L.int(name)
        L.locals['%idx'] = i
        first = L.entry_val('a', lambda: (a, n))
        m = n if less is None else n - 1
        L.fact(n == first[1])
        L.fact(CNT(a, n, Q) == CNT(first[0], first[1], Q))
        L.fact(z3.And(0 <= zval(i), zval(i) < n))
        if less is not None:
            L.fact(S(a, n - 1) == S(first[0], n - 1))
        touch(L.p, i)
        touch(L.p, up(zval(i)))
        touch(L.p, n - 1)
        claim(L, almost(cls, a, m, zval(i)))
        return first

    @R.loop_inv('Heap.__rebalance', 0)
    def sink_loop(L):
        cls = L.fr.selfcls
        a, n = raw(L, L.const('self'), cls)
        i = zval(L.int('parent_idx'))
        a0, n0, k = L.entry_val('a', lambda: (a, n, i))
        L.fact(n == n0)
        L.fact(CNT(a, n, Q) == CNT(a0, n0, Q))
        L.fact(z3.And(k <= i, i < n))
        L.fact(S(a, n - 1) == S(a0, n - 1))
        for t in (i, up(i), k, up(k), n - 1, 2 * i + 1, 2 * i + 2):
            touch(L.p, t)
        L.fact(z3.Implies(z3.And(i != k, i < n - 1), le(cls, S(a, up(i)), S(a, i))))
        claim(L, lambda j: z3.Implies(z3.And(1 <= j, j < n - 1), z3.And(
            z3.Implies(z3.And(up(j) != i, j != i, z3.Or(j != k, i != k)), le(cls, S(a, up(j)), S(a, j))),
            z3.Implies(z3.And(up(j) == i, i >= 1), le(cls, S(a, up(i)), S(a, j))))))
        L.decreases(n - i)

    @R.loop_inv('Heap.remove', 0)
    def remove_loop(L):
        sift(L, True, 'del_idx')
        L.decreases(L.locals['%idx'])

    @R.contract('remove', CLS, props=P)
    def remove(c):
        p = c.p
        a, n = rep(c)
        v = c.arg('del_value', ANYVAL)
        if not number(c, v) or not c.branch(occurs(p, a, n, A.real(v))[0]):
            yield
            b, k = rep(c)
            c.warns()
            tally(c, b, k, a, n)
            claim(c, lambda i: z3.Implies(z3.And(0 <= i, i < n), S(b, i) == S(a, i)))
            return
        yield
        b, k = rep(c)
        tally(c, b, k, a, n, minus=A.real(v))

    def root_first(c, a, n):
        """the first entry is extreme: induction along the path to the root"""
        touch(c.p, 0)
        induction(c.p, lambda i: le(c.cls, S(a, 0), S(a, i)), up, 0, n, c.label + ': the root is extreme')

    def leaf_last(c, a, n, m):
        """m bounds every entry when it bounds the leaves: induction along a path down to a leaf"""
        induction(c.p, lambda i: le(c.cls, S(a, i), m), lambda i: 2 * i + 1, 0, n, c.label + ': a leaf is extreme',
                  [lambda i: i - n / 2, lambda i: 2 * i + 1 - n / 2])

    def get(low):
        def contract(c):
            p = c.p
            c.pure()
            a, n = rep(c)
            if not c.branch(n > 0):
                c.rejects('IndexError')
            m = extreme(p, a, n, low)
            yield
            if c.proof:
                if not is_num(c.result):
                    p.fail(c.label + ': the result is not a number')
                r = A.real(c.result)
                if (c.cls == 'MinHeap') == low:
                    root_first(c, a, n)
                    c.ensures(r == m)
                else:
                    # the result is an entry, and it bounds every entry
                    leaf_last(c, a, n, r)
                    c.ensures(r == m)
            else:
                c.returns(m)
        return contract
    R.contract('get_min', CLS, props=P + ('C25',))(get(True))
    R.contract('get_max', CLS, props=P + ('C25',))(get(False))

    def take(low):
        def contract(c):
            p = c.p
            a, n = rep(c)
            if not c.branch(n > 0):
                c.rejects('IndexError')
            m = extreme(p, a, n, low)
            yield
            b, k = rep(c)
            tally(c, b, k, a, n, minus=m)
        return contract
    R.contract('remove_min', CLS, props=P)(take(True))
    R.contract('remove_max', CLS, props=P)(take(False))

    @R.contract('__len__', CLS, props=P + ('C25',))
    def length(c):
        c.pure()
        a, n = rep(c)
        yield
        c.returns(n)

    @R.contract('is_empty', CLS, props=P + ('C25',))
    def is_empty(c):
        c.pure()
        a, n = rep(c)
        yield
        c.returns(n == 0)

    @R.contract('__contains__', CLS, props=P + ('C25',))
    def contains(c):
        c.pure()
        a, n = rep(c)
        v = c.arg('num', ANYVAL)
        if number(c, v):
            occurs(c.p, a, n, A.real(v))
        yield
        c.returns(CNT(a, n, A.real(v)) > 0 if number(c, v) else False)

    @R.contract('to_list', CLS, props=P + ('C25',))
    def to_list(c):
        p = c.p
        c.pure()
        a, n = rep(c)
        yield
        if c.proof:
            r = c.result
            if not (isinstance(r, Ref) and p.is_null(r) is False):
                p.fail(c.label + ': result is not a list')
            b, k = c.array(r)
            tally(c, b, k, a, n)
            claim(c, lambda i: z3.Implies(z3.And(0 <= i, i < n), S(b, i) == S(a, i)))
        else:
            c.result = A.new_array(p, a, n)
