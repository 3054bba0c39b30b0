"""Contracts of Stack, Queue, Deque and PriorityQueue."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv.builtins import norm_facts, data_istype, ROUND
from specs.lists import LL, chain, NODE

QS = ('Queue', 'Deque')
NUMP = z3.RealSort()


def _real(x):
    z = zval(x)
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def _pack(p, c):
    d, pr = c.fields.get('_data'), c.fields.get('_priority')
    if not is_data(d) or not is_num(pr):
        return None
    if not isinstance(pr, (int, float)) and pr.is_int():
        p.assume(z3.And(NINF < z3.ToReal(pr), z3.ToReal(pr) < PINF))
    return (d, _real(pr))


node_class('PriorityNode', '(sdata,num)', lambda p, e: {'_data': e[0], '_priority': e[1]}, _pack,
           lambda p, e: [NORM(e[0]) == e[0], z3.And(NINF <= zval(e[1]), zval(e[1]) <= PINF)])

SEQ_MEASURE['minprio'] = (z3.RealSort, lambda p, a, v: v[1], lambda x, y: z3.If(zval(x) <= zval(y), zval(x), zval(y)), PINF)
SEQ_MEASURE['maxprio'] = (z3.RealSort, lambda p, a, v: v[1], lambda x, y: z3.If(zval(x) >= zval(y), zval(x), zval(y)), NINF)
for _k in ('minprio', 'maxprio'):
    MEASURE_FACT[_k] = lambda c: z3.And(NINF <= c, c <= PINF)


def same_cap(m, a, b):
    if isinstance(a, float) and isinstance(b, float):
        return m.fact(a == b)
    if is_int(a) and is_int(b):
        return m.fact(zval(a) == zval(b))
    m.p.fail('%s: capacity %r instead of %r' % (m.label, a, b))


def within(m, n, K):
    """a length respects a capacity"""
    m.fact(zval(n) >= 0)
    if not (isinstance(K, float) and K == INF):
        m.fact(zval(n) <= zval(K))


def full(c, S, K):
    if isinstance(K, float):
        return False
    return c.branch(zval(c.p.length(S)) == zval(K))


def capkind(m, K):
    return 'cap' if K is None or not m.producing else (lambda _: K)


def ST(m, r, S=None, K=None):
    """a stack with content S (bottom first) and capacity K"""
    f = m.cell(r, 'Stack', _container='list', _max_capacity=capkind(m, K))
    got = put_list(m, f['_container'], S)
    k = f['_max_capacity']
    if K is not None:
        same_cap(m, k, K)
    within(m, m.p.length(got), k)
    return got, k


def put_list(m, r, S, kind='data'):
    """a Python list object with content S"""
    if m.producing and S is not None:
        add_cell(m.p, Cell(r, 'list', {'seq': S}, lock=m.op_lock()))
        return S
    got = m.list_cell(r, kind)
    if S is not None:
        m.seqeq(got, S)
    return got


def QU(m, r, cls, S=None, K=None):
    """a queue or deque: content S from head to tail, capacity K"""
    f = m.cell(r, cls, _container='ref:DoublyLinkedList', _max_capacity=capkind(m, K))
    got = LL(m, f['_container'], 'DoublyLinkedList', S)
    k = f['_max_capacity']
    if K is not None:
        same_cap(m, k, K)
    within(m, m.p.length(got), k)
    return got, k


def PQ(m, r, S=None, K=None, loose=False):
    """a priority queue; loose: the recorded extremes may be out of date (inside an operation)"""
    f = m.cell(r, 'PriorityQueue', _container='ref:DoublyLinkedList', _max_capacity=capkind(m, K),
               _min_priority='num', _max_priority='num')
    got = LL(m, f['_container'], 'DoublyLinkedList', S)
    k = f['_max_capacity']
    if K is not None:
        same_cap(m, k, K)
    within(m, m.p.length(got), k)
    if loose:
        return got, k
    m.fact(_real(f['_min_priority']) == zval(m.p.measure('minprio', (), got)))
    m.fact(_real(f['_max_priority']) == zval(m.p.measure('maxprio', (), got)))
    return got, k


def trim(p, S):
    """drop the parts known to be empty"""
    for a in p.norm(S).atoms:
        if isinstance(a, SVar) and a.id not in p.ssub and p.entails(p.as_z3int(p.atom_len(a)) == 0):
            p.seq_bind(a, EMPTY)


def build(R):
    R.tagger('Stack')(lambda m, r: ST(m, r))
    for k in QS:
        R.tagger(k)(lambda m, r, k=k: QU(m, r, k))
    R.tagger('PriorityQueue')(lambda m, r: PQ(m, r))
    R.transparent.add(('PriorityQueue', 'DoublyLinkedList'))
    def nonnum(c):
        d = c.p.fresh_data('nonnum')
        for t in ('int', 'float', 'bool'):
            c.p.assume(z3.Not(data_istype(c.I, d, t)))
        return d
    R.kinds['nonnum'] = nonnum

    def me(c):
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = c.p.fresh_ref(c.cls, nonnull=True)
        return c.locs['self']

    def rep(c, S=None, K=None, loose=False):
        if c.cls == 'Stack':
            return ST(c, me(c), S, K)
        if c.cls == 'PriorityQueue':
            return PQ(c, me(c), S, K, loose)
        return QU(c, me(c), c.cls, S, K)

    ALL = ('Stack', 'Queue', 'Deque', 'PriorityQueue')
    P = ('C07', 'C08', 'C09', 'C10')

    def capacity(c):
        """the capacity an argument stands for (rejects bad ones)"""
        v = c.arg('max_capacity', 'int|num|bool|none|opaque|nonnum', default=INF)
        k = c.kind(v)
        if k not in ('int', 'num'):
            c.cell(me(c), c.cls)
            c.fails('TypeError')
        if isinstance(v, float):
            return v if v == INF else c.p.fail('capacity')
        if c.branch(zval(v) < 0):
            c.cell(me(c), c.cls)
            c.fails('ValueError')
        if k == 'int':
            return v
        if c.branch(v == PINF):
            return INF
        c.p.assume(z3.And(2 * z3.ToReal(ROUND(v)) <= 2 * v + 1, 2 * z3.ToReal(ROUND(v)) >= 2 * v - 1))
        return ROUND(v)

    @R.contract('__init__', ALL, props=P)
    def init(c):
        K = capacity(c)
        c.cell(me(c), c.cls)
        yield
        rep(c, EMPTY, K)

    @R.contract('clear', ALL, props=P)
    def clear(c):
        S, K = rep(c)
        yield
        rep(c, EMPTY, K)

    @R.contract('__len__', ALL, props=P + ('C25',))
    def len_(c):
        c.pure()
        S, K = rep(c, loose=True)
        yield
        c.returns(c.p.length(S))

    @R.contract('is_empty', ALL, props=P + ('C25',))
    def is_empty(c):
        c.pure()
        S, K = rep(c, loose=True)
        yield
        c.returns(zval(c.p.length(S)) == 0)

    @R.contract('is_full', ALL, props=P + ('C25',))
    def is_full(c):
        c.pure()
        S, K = rep(c, loose=True)
        yield
        c.returns(False if isinstance(K, float) else zval(c.p.length(S)) == zval(K))

    def item_error(c, item):
        k = c.kind(item)
        return 'ValueError' if k == 'none' else 'TypeError' if k == 'extra' else None

    def stored(c, item):
        norm_facts(c.I, item)
        return NORM(item)

    # ------------------------------------------------------------------ stack
    @R.contract('push', ('Stack',), props=('C07',))
    def push(c):
        S, K = rep(c)
        item = c.arg('item', 'data|none|extra')
        errs = []
        if full(c, S, K):
            errs.append('OverflowError')
        e = item_error(c, item)
        if e:
            errs.append(e)
        if errs:
            c.rejects(*errs)
        x = stored(c, item)
        yield
        rep(c, S + unit(x), K)

    @R.contract('peek', ('Stack',), props=('C07', 'C25'))
    def peek(c):
        c.pure()
        S, K = rep(c)
        if c.p.is_empty_seq(S):
            c.rejects('IndexError')
        a, x = c.p.unsnoc(S)
        yield
        c.returns(x)

    def take_last(c):
        S, K = rep(c)
        if c.p.is_empty_seq(S):
            yield
            rep(c, EMPTY, K)
            c.warns()
            c.returns(None)
            return
        a, x = c.p.unsnoc(S)
        yield
        rep(c, a, K)
        c.returns(x)

    def take_first(c):
        S, K = rep(c)
        if c.p.is_empty_seq(S):
            yield
            rep(c, EMPTY, K)
            c.warns()
            c.returns(None)
            return
        x, b = c.p.uncons(S)
        yield
        rep(c, b, K)
        c.returns(x)

    @R.contract('pop', ('Stack',), props=('C07',))
    def pop(c):
        yield from take_last(c)

    # ------------------------------------------------------------------ queue (newest at the head), deque
    def add(c, left):
        S, K = rep(c)
        item = c.arg('item', 'data|none|extra')
        e = item_error(c, item)
        if e:
            c.rejects(e)
        x = stored(c, item)
        isfull = full(c, S, K)
        if isfull and not c.p.is_empty_seq(S):
            S = c.p.unsnoc(S)[0] if left else c.p.uncons(S)[1]
        room = isinstance(K, float) or c.branch(zval(K) > 0)
        yield
        T = (unit(x) + S if left else S + unit(x)) if room else EMPTY
        rep(c, T, K)
        if isfull and room:
            c.warns()

    @R.contract('enqueue', QS, props=('C08', 'C09'))
    def enqueue(c):
        yield from add(c, True)

    @R.contract('append_left', ('Deque',), props=('C09',))
    def append_left(c):
        yield from add(c, True)

    @R.contract('append_right', ('Deque',), props=('C09',))
    def append_right(c):
        yield from add(c, False)

    def ends(names, classes, props, last, remove):
        for nm in names:
            @R.contract(nm, classes, props=props + (() if remove else ('C25',)))
            def f(c):
                if remove:
                    yield from (take_last(c) if last else take_first(c))
                    return
                c.pure()
                S, K = rep(c)
                if c.p.is_empty_seq(S):
                    c.rejects('IndexError')
                x = c.p.unsnoc(S)[1] if last else c.p.uncons(S)[0]
                yield
                c.returns(x[0] if isinstance(x, tuple) else x)

    ends(('top',), QS + ('PriorityQueue',), P, True, False)
    ends(('dequeue',), QS, ('C08', 'C09'), True, True)
    ends(('get_right',), ('Deque',), ('C09',), True, False)
    ends(('get_left',), ('Deque',), ('C09',), False, False)
    ends(('pop_right',), ('Deque',), ('C09',), True, True)
    ends(('pop_left',), ('Deque',), ('C09',), False, True)

    # ------------------------------------------------------------------ priority queue
    @R.contract('enqueue', ('PriorityQueue',), props=('C10',))
    def penqueue(c):
        S, K = rep(c)
        item = c.arg('item', 'data|none|extra')
        pr = c.arg('priority', 'int|num|bool|opaque|nonnum', default=None)
        errs = []
        e = item_error(c, item)
        if e:
            errs.append(e)
        k = c.kind(pr)
        if k not in ('int', 'num', 'none'):
            errs.append('TypeError')
        if errs:
            c.rejects(*errs)
        x = stored(c, item)
        isfull = full(c, S, K)
        if isfull and not c.p.is_empty_seq(S):
            S = c.p.unsnoc(S)[0]
        room = isinstance(K, float) or c.branch(zval(K) > 0)
        yield
        if not room:
            rep(c, EMPTY, K)
            return
        if isfull:
            c.warns()
        if k == 'none':
            # some number is drawn
            if c.proof:
                f = find_cell(c.p, c.I.getattr(me(c), '_container'))
                h = f.fields['_head']
                cell = find_cell(c.p, h)
                if cell is None or not is_num(cell.fields.get('_priority')):
                    c.p.fail(c.label + ': no priority is stored')
                pr = cell.fields['_priority']
            else:
                pr = c.p.fresh_real('prio')
        rep(c, unit((x, _real(pr))) + S, K)

    @R.contract('dequeue', ('PriorityQueue',), props=('C10',))
    def pdequeue(c):
        p = c.p
        S, K = rep(c)
        low = c.arg('lowest_priority', 'bool', default=False)
        if p.is_empty_seq(S):
            yield
            rep(c, EMPTY, K)
            c.warns()
            c.returns(None)
            return
        low = c.I.test(low)
        best = zval(p.measure('minprio' if low else 'maxprio', (), S))
        yield
        if c.proof:
            T, _ = rep(c, None, K)
            trim(p, S)
            trim(p, T)
            whole = p.norm(S).atoms
            for i, a in enumerate(whole):
                if isinstance(a, Unit) and repr(whole[:i] + whole[i + 1:]) == repr(p.norm(T).atoms):
                    p.seq_prove_eq(T, Seq(whole[:i] + whole[i + 1:]), c.label + ': exactly one item is removed')
                    p.prove(a.v[1] == best, c.label + ': the removed item has the extreme priority')
                    c.returns(a.v[0])
                    return
            p.fail(c.label + ': not exactly one item is removed: %r from %r' % (T, S))
        else:
            A, x, B = p.fresh_seq('(sdata,num)'), p.fresh_val('(sdata,num)'), p.fresh_seq('(sdata,num)')
            p.seq_assume_eq(S, A + unit(x) + B)
            p.assume(x[1] == best)
            rep(c, A + B, K)
            c.returns(x[0])

    def pchain(L, x, y, length=None, px=None):
        return chain(L, 'DoublyLinkedList', x, y, length=length, px=px)

    def scan(L, cur, con=None):
        """the container of self: items before cur, items from cur on"""
        I = L.I
        con = con or I.getattr(L.const('self'), '_container')
        h = I.getattr(con, '_head')
        A, a = pchain(L, h, cur)
        B, last = pchain(L, cur, None, px=a)
        L.same(last, I.getattr(con, '_tail'))
        L.same_seq('S', A + B)
        L.decreases(L.p.length(B))
        return A, B

    def update(which, field):
        def inv(L):
            cur = L.ref('curr_node')
            self = L.const('self')
            other = '_max_priority' if field == '_min_priority' else '_min_priority'
            I = L.I
            kept = {k: L.entry_val(k, lambda k=k: I.getattr(self, k)) for k in ('_container', '_max_capacity', other)}
            f = L.cell(self, 'PriorityQueue', **{field: 'num', **{k: (lambda m, k=k: kept[k]) for k in kept}})
            for k in kept:
                if not L.producing:
                    L.p.val_prove_eq(f[k], kept[k], L.label + ': ' + k)
            A, B = scan(L, cur, kept['_container'])
            L.fact(_real(f[field]) == zval(L.p.measure(which, (), A)))
        return inv

    R.loop_inv('PriorityQueue._update_min_priority', 0)(update('minprio', '_min_priority'))
    R.loop_inv('PriorityQueue._update_max_priority', 0)(update('maxprio', '_max_priority'))

    @R.loop_inv('PriorityQueue.dequeue', 0)
    def pdequeue_loop(L):
        cur = L.ref('curr_node')
        I, p = L.I, L.p
        A, B = scan(L, cur)
        low = I.test(L.const('lowest_priority'))
        m = zval(p.measure('minprio' if low else 'maxprio', (), A))
        best = _real(I.getattr(L.const('self'), '_min_priority' if low else '_max_priority'))
        L.fact(z3.Or(zval(p.length(A)) == 0, m > best if low else m < best))
