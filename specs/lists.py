"""Contracts and loop invariants of the linked lists."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv.builtins import norm_facts, data_istype, slice_indices

LISTS = ('LinkedList', 'DoublyLinkedList', 'CircularLinkedList')
NODE = {'LinkedList': 'Node', 'DoublyLinkedList': 'DoublyNode', 'CircularLinkedList': 'Node'}


def _pack_data(p, c):
    v = c.fields.get('_data')
    return v if is_data(v) or is_num(v) else None


for _k in ('Node', 'DoublyNode'):
    node_class(_k, 'sdata', lambda p, e: {'_data': e}, _pack_data, lambda p, e: [NORM(e) == e] if is_data(e) else [])


# ---- sequence functions ---------------------------------------------------------
def _mapnorm(path, args, v):
    norm_facts(path.interp, v)
    return unit(NORM(v))


SEQ_HOM['mapnorm'] = (_mapnorm, False)


def _remall(path, args, v):
    return EMPTY if path.branch(path.interp.eq(v, args[0])) else unit(v)


SEQ_HOM['remall'] = (_remall, False)
SEQ_FILTER['remall'] = lambda p, a, v: z3.Not(zval(p.interp.eq(v, a[0])))
SEQ_MEASURE['len_remall'] = (z3.IntSort, lambda p, a, v: z3.If(zval(p.interp.eq(v, a[0])), z3.IntVal(0), z3.IntVal(1)),
                             lambda x, y: x + y, 0)


def zor(x, y):
    if x is True or y is True:
        return True
    if x is False:
        return y
    if y is False:
        return x
    return z3.Or(x, y)


SEQ_MEASURE['mem'] = (z3.BoolSort, lambda p, a, v: p.interp.eq(v, a[0]), zor, False)
SEQ_MEASURE['cnt'] = (z3.IntSort, lambda p, a, v: z3.If(zval(p.interp.eq(v, a[0])), z3.IntVal(1), z3.IntVal(0)),
                      lambda x, y: x + y, 0)


def mem(c, v, s):
    return c.p.measure('mem', (v,), s)


# ---- representation ----------------------------------------------------------------
def chain(m, cls, x, y, length=None, px=None, S=None):
    """(content, last node) of a segment of nodes of a list class"""
    return m.lseg(x, y, node_of(m.I, cls), dl=(cls == 'DoublyLinkedList'), px=px, length=length, S=S)


def node_of(I, cls):
    """class of the nodes: the list inside a priority queue is made of its own nodes"""
    if cls == 'DoublyLinkedList' and I.target[0] == 'PriorityQueue':
        return 'PriorityNode'
    return NODE[cls]


def LL(m, r, cls, S=None):
    """r is a well-formed list of exact class cls; returns its content"""
    p = m.p
    ln = 'int' if S is None or not m.producing else (lambda _: p.length(S))
    if cls == 'DoublyLinkedList':
        f = m.cell(r, cls, _head='ref', _tail='ref', _length=ln)
    else:
        f = m.cell(r, cls, _head='ref', _length=ln)
    n, h = f['_length'], f['_head']
    if S is None or not m.producing:
        m.fact(zval(n) >= 0)
    if m.branch(n == 0):
        if cls == 'DoublyLinkedList':
            m.same(h, None)
            m.same(f['_tail'], None)
        got = EMPTY
    else:
        end = h if cls == 'CircularLinkedList' else None
        got, last = chain(m, cls, h, end, length=n, S=S if m.producing else None)
        if cls == 'DoublyLinkedList':
            m.same(last, f['_tail'])
    if S is not None and not m.producing:
        m.seqeq(got, S)
    return got if S is None else S


def walk(L, cls, self, cur, prev, count, given=(None, None)):
    """the traversal stands at `cur`, `count` nodes after the head, prev the node before it (None at the head).
    Only the chain is described, the list object itself is left alone. Returns (before, from cur on)."""
    I, p = L.I, L.p
    h, n = I.getattr(self, '_head'), I.getattr(self, '_length')
    L.fact(z3.And(zval(count) >= 0, zval(count) <= zval(n)))
    if L.branch(n == 0):
        L.same(cur, h)
        if prev is not NOPREV:
            L.same(prev, None)
        if given[0] is not None:
            p.seq_assume_eq(given[0] + given[1], EMPTY)
        return EMPTY, EMPTY
    end = h if cls == 'CircularLinkedList' else None
    dl = cls == 'DoublyLinkedList'
    if L.branch(count == 0):
        L.same(cur, h)
        if prev is not NOPREV:
            L.same(prev, None)
        if given[0] is not None:
            p.seq_assume_eq(given[0], EMPTY)
        B, last = chain(L, cls, cur, end, length=n, S=given[1])
        if dl:
            L.same(last, I.getattr(self, '_tail'))
        return EMPTY, B
    if prev is NOPREV:
        A, a = chain(L, cls, h, cur, length=count, S=given[0])
        B, last = chain(L, cls, cur, end, length=n - count, px=a, S=given[1])
    else:
        A0, a = chain(L, cls, h, prev, length=count - 1)
        d, _ = chain(L, cls, prev, cur, length=1, px=a)
        A = A0 + d
        B, last = chain(L, cls, cur, end, length=n - count, px=prev)
    if dl:
        L.same(last, I.getattr(self, '_tail'))
    return A, B


class _NoPrev:
    pass


NOPREV = _NoPrev()


def is_ref(v):
    return isinstance(v, Ref)


def build(R):
    # ------------------------------------------------------------------ kinds of arguments
    def mk_other(c):
        d = c.p.fresh_data('other')
        c.p.assume(z3.Not(data_istype(c.I, d, 'int')))
        c.p.assume(z3.Not(data_istype(c.I, d, 'slice')))
        c.p.assume(z3.Not(data_istype(c.I, d, 'bool')))
        return d
    R.kinds['other'] = mk_other
    R.kinds['truth'] = lambda c: c.p.choice()

    def mk_iter(c):
        return VIter(c.p.fresh_seq('data'))
    R.kinds['iter'] = mk_iter
    R.kinds['iter_none'] = lambda c: VIter(c.p.fresh_seq('data'), bad=NONE_ITEM)
    R.kinds['iter_extra'] = lambda c: VIter(c.p.fresh_seq('data'), bad=ExtObj())
    R.kinds['same'] = lambda c: c.p.fresh_ref(c.cls, nonnull=True)
    for k in LISTS:
        R.tagger(k)(lambda m, r, k=k: LL(m, r, k))

    def me(c):
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = c.p.fresh_ref(c.cls, nonnull=True)
        return c.locs['self']

    # ------------------------------------------------------------------ construction
    @R.contract('__init__', LISTS, props=('C01', 'C02', 'C03', 'C06'))
    def init(c):
        s = me(c)
        it = c.arg('iterable', 'iter|iter_none|iter_extra|same|opaque|none', default=None)
        k = c.kind(it)
        if k == 'none':
            T = EMPTY
        elif k == 'iter':
            if it.bad is NONE_ITEM:
                c.cell(s, c.cls); c.fails('ValueError')
            if it.bad is not None:
                c.cell(s, c.cls); c.fails('TypeError')
            T = c.p.hom('mapnorm', (), it.seq)
        elif k == 'obj:' + c.cls:
            T = c.read(lambda m: LL(m, it, c.cls))
        elif k == 'obj:list':
            T = c.p.hom('mapnorm', (), c.I.lst(it))
        else:
            c.cell(s, c.cls); c.fails('TypeError')
        c.cell(s, c.cls)
        yield
        LL(c, s, c.cls, T)

    @R.loop_inv('LinkedList.__init__', 0)
    @R.loop_inv('DoublyLinkedList.__init__', 0)
    def init_loop(L):
        appended(L, 'prev_node', EMPTY, L.p.hom('mapnorm', (), L.visited))

    def appended(L, lastname, S0, V):
        """self holds S0 ++ V and the local is its last node (None when empty)"""
        self, cls = L.const('self'), L.fr.selfcls
        last = L.ref(lastname)
        grown(L, self, cls, last, S0 + V)

    def grown(L, r, cls, last, W):
        """r holds W; last: its last node when not empty (None otherwise)"""
        p, I = L.p, L.I
        extra = dict(_tail='ref') if cls == 'DoublyLinkedList' else {}
        f = L.cell(r, cls, _head='ref', _length=(lambda _: p.length(W)) if L.producing else 'int', **extra)
        n, h = f['_length'], f['_head']
        if not L.producing:
            L.fact(zval(n) == zval(p.length(W)))
        if L.branch(n == 0):
            if last is not NOPREV:
                L.same(last, None)
            if cls == 'DoublyLinkedList':
                L.same(h, None)
                L.same(f['_tail'], None)
            return
        if L.producing:
            A, x = p.unsnoc(W)
        end = h if cls == 'CircularLinkedList' else None
        if last is NOPREV:
            got, tl = chain(L, cls, h, end, length=n, S=W if L.producing else None)
        else:
            A1, a = chain(L, cls, h, last, length=n - 1, S=A if L.producing else None)
            d, tl = chain(L, cls, last, end, length=1, px=a, S=unit(x) if L.producing else None)
            got = A1 + d
        if cls == 'DoublyLinkedList':
            L.same(tl, f['_tail'])
        if not L.producing:
            L.seqeq(got, W)

    R.grown = grown

    @R.contract('clear', LISTS, props=('C01', 'C02', 'C03'))
    def clear(c):
        s = me(c)
        LL(c, s, c.cls)
        yield
        LL(c, s, c.cls, EMPTY)

    # ------------------------------------------------------------------ questions
    @R.contract('__len__', LISTS, props=('C01', 'C02', 'C03', 'C25'))
    def len_(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        yield
        c.returns(c.p.length(S))

    @R.contract('is_empty', LISTS, props=('C01', 'C02', 'C03', 'C25'))
    def is_empty(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        yield
        c.returns(zval(c.p.length(S)) == 0)

    @R.contract('__iter__', LISTS, props=('C01', 'C02', 'C03', 'C25'))
    def iter_(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        yield
        c.yields(S, dep=c.locs['self'])

    @R.loop_inv('LinkedList.__iter__', 0)
    def iter_loop(L):
        self, cls = L.const('self'), L.fr.selfcls
        cur = L.ref('curr_node')
        i = L.int('counter')
        A, B = walk(L, cls, self, cur, NOPREV, i)
        Y = L.yielded('sdata')
        L.seqeq(Y, A)
        L.same_seq('S', A + B)
        L.decreases(L.I.getattr(self, '_length') - i)

    @R.contract('__contains__', LISTS, props=('C01', 'C02', 'C03', 'C25'))
    def contains(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        v = c.arg('value', 'data|none')
        yield
        c.returns(False if c.kind(v) == 'none' else mem(c, v, S))

    @R.loop_inv('LinkedList._search', 0)
    def search_loop(L):
        self, cls = L.const('self'), L.fr.selfcls
        v = L.const('value')
        cur = L.ref('curr_node')
        h = L.I.getattr(self, '_head')
        A, a = chain(L, cls, h, cur)
        B, last = chain(L, cls, cur, None, px=a)
        if cls == 'DoublyLinkedList':
            L.same(last, L.I.getattr(self, '_tail'))
        L.fact(zval(L.p.length(B)) >= 1)
        L.fact(z3.Not(zval(mem(L, v, A))))
        L.same_seq('S', A + B)
        L.decreases(L.p.length(B))

    @R.loop_inv('CircularLinkedList.__contains__', 0)
    def ccontains_loop(L):
        L.fact(z3.Not(zval(mem(L, L.const('value'), L.visited))))

    # ------------------------------------------------------------------ indexing
    @R.loop_inv('LinkedList._get_node', 0)
    def get_node_loop(L):
        self, cls = L.const('self'), L.fr.selfcls
        idx = L.const('idx', is_int)
        cur, prev = L.ref('curr_node'), L.ref('prev_node')
        i = L.int('counter')
        L.fact(zval(i) <= zval(idx))
        A, B = walk(L, cls, self, cur, prev, i)
        L.same_seq('S', A + B)
        L.decreases(idx - i)

    @R.loop_inv('DoublyLinkedList._get_node', 0)
    def dget_node_loop(L):
        self, cls = L.const('self'), L.fr.selfcls
        idx = L.const('idx', is_int)
        cur = L.ref('curr_node')
        i = L.int('counter')
        I = L.I
        h, n = I.getattr(self, '_head'), I.getattr(self, '_length')
        L.fact(z3.And(zval(i) >= zval(idx), zval(i) <= zval(n), zval(i) >= 1))
        A, a = chain(L, cls, h, cur, length=i - 1)
        d, _ = chain(L, cls, cur, nxt(L, cur), length=1, px=a)
        B, last = chain(L, cls, nxt_of(L), None, length=n - i, px=cur)
        L.same(last, I.getattr(self, '_tail'))
        L.same_seq('S', A + d + B)
        L.decreases(i - idx)

    def nxt(L, cur):
        if L.producing:
            L._nx = L.p.fresh_ref()
        else:
            L._nx = L.I.getattr(cur, '_next')
        return L._nx

    def nxt_of(L):
        return L._nx

    def position(c, S, idx, n):
        """(before, item, after) at a valid position"""
        a, b = c.p.split(S, idx)
        x, b = c.p.uncons(b)
        return a, x, b

    def sliced(c, S, sl):
        """the items at the positions of the slice"""
        p, I = c.p, c.I
        n = p.length(S)
        step = 1 if sl.step is None else sl.step
        if c.branch(zval(step) == 0):
            c.rejects('ValueError')
        lo, hi, step = slice_indices(I, sl, n)
        r = range_info(p, lo, hi, step)
        if r.up:
            return p.hom('sel', (r, 0), S)
        return p.hom('rsel', (r, 0), S)

    R.sliced = sliced

    @R.loop_inv('LinkedList.__getitem__', 0)
    def slice_loop(L):
        self, cls, p = L.const('self'), L.fr.selfcls, L.p
        cur = L.ref('curr_node')
        i = L.int('counter')
        out = L.const('out_llist', is_ref)
        rng = L.const('indices', lambda v: not isinstance(v, Ref))
        rev = L.I.test(L.const('is_reversed', is_boolv))
        mx = L.const('max_idx', is_int)
        L.fact(zval(i) <= z3.If(zval(mx) + 1 > 0, zval(mx) + 1, z3.IntVal(0)))
        A, B = walk(L, cls, self, cur, NOPREV, i)
        L.same_seq('S', A + B)
        ri = range_info(p, rng.lo, rng.hi, rng.step)
        W = p.hom('rsel' if rev else 'sel', (ri, 0), A)
        last = L.ref('prev_node')
        if rev:
            LL(L, out, cls, W)
            if L.producing:
                p.refcls[p.rep(last)] = NODE[cls]
        else:
            grown(L, out, cls, last, W)
        L.decreases(z3.If(zval(mx) + 1 > zval(i), zval(mx) + 1 - zval(i), z3.IntVal(0)))

    def bad_index(c, k):
        return k in ('other', 'data', 'none', 'bool', 'opaque', 'str')

    @R.contract('__getitem__', ('LinkedList', 'DoublyLinkedList'), props=('C01', 'C02', 'C25'))
    def getitem(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        idx = c.arg('idx', 'int|other|none|slice')
        n = c.p.length(S)
        k = c.kind(idx)
        if k == 'slice':
            T = sliced(c, S, idx)
            yield
            LL(c, c.returns_object(c.cls), c.cls, T)
            return
        if k != 'int':
            c.rejects('TypeError')
        if not c.branch(z3.And(zval(idx) >= -zval(n), zval(idx) < zval(n))):
            c.rejects('IndexError')
        if c.branch(zval(idx) < 0):
            idx = idx + n
        a, x, b = position(c, S, idx, n)
        yield
        c.returns(x)

    @R.contract('__getitem__', ('CircularLinkedList',), props=('C03', 'C25'))
    def cgetitem(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        idx = c.arg('idx', 'int|other|none|slice')
        n = c.p.length(S)
        k = c.kind(idx)
        if k == 'slice':
            c.rejects('IndexError')
        if k != 'int':
            c.rejects('TypeError')
        if c.branch(z3.Or(zval(idx) < 0, zval(n) == 0)):
            c.rejects('IndexError')
        a, x, b = position(c, S, c.I.binop('Mod', idx, n), n)
        yield
        c.returns(x)

    def item_ok(c, item):
        k = c.kind(item)
        if k == 'none':
            return 'ValueError'
        if k == 'extra':
            return 'TypeError'
        return None

    def stored(c, item):
        norm_facts(c.I, item)
        return NORM(item)

    @R.contract('add_front', LISTS, props=('C01', 'C02', 'C03'))
    def add_front(c):
        S = LL(c, me(c), c.cls)
        item = c.arg('item', 'data|none|extra')
        e = item_ok(c, item)
        if e:
            c.rejects(e)
        x = stored(c, item)
        yield
        LL(c, me(c), c.cls, unit(x) + S)

    @R.contract('add_end', LISTS, props=('C01', 'C02', 'C03'))
    def add_end(c):
        S = LL(c, me(c), c.cls)
        item = c.arg('item', 'data|none|extra')
        e = item_ok(c, item)
        if e:
            c.rejects(e)
        x = stored(c, item)
        yield
        LL(c, me(c), c.cls, S + unit(x))

    @R.contract('insert', LISTS, props=('C01', 'C02', 'C03'))
    def insert(c):
        S = LL(c, me(c), c.cls)
        idx = c.arg('idx', 'int|other|none|slice')
        item = c.arg('item', 'data|none|extra')
        n = c.p.length(S)
        errs = []
        if item_ok(c, item):
            errs.append(item_ok(c, item))
        k = c.kind(idx)
        if k == 'slice':
            errs.append('IndexError')
        elif k != 'int':
            errs.append('TypeError')
        elif c.branch(zval(idx) < 0):
            errs.append('IndexError')
        elif c.cls != 'CircularLinkedList' and c.branch(zval(idx) > zval(n)):
            errs.append('IndexError')
        if errs:
            c.rejects(*errs)
        if c.cls == 'CircularLinkedList':
            idx = c.I.binop('Mod', idx, c.I.binop('Add', n, 1))
        a, b = c.p.split(S, idx)
        x = stored(c, item)
        yield
        LL(c, me(c), c.cls, a + unit(x) + b)

    def index_errors(c, idx, n):
        k = c.kind(idx)
        if k == 'slice':
            return ['IndexError']
        if k != 'int':
            return ['TypeError']
        if c.branch(zval(idx) < 0):
            return ['IndexError']
        if c.cls != 'CircularLinkedList' and c.branch(zval(idx) >= zval(n)):
            return ['IndexError']
        return []

    @R.contract('__setitem__', LISTS, props=('C01', 'C02', 'C03'))
    def setitem(c):
        S = LL(c, me(c), c.cls)
        idx = c.arg('idx', 'int|other|none|slice')
        item = c.arg('item', 'data|none|extra')
        n = c.p.length(S)
        errs = index_errors(c, idx, n)
        if not errs and c.cls == 'CircularLinkedList':
            if c.branch(zval(n) == 0):
                errs.append('IndexError')
            else:
                idx = c.I.binop('Mod', idx, n)
        if item_ok(c, item):
            errs.append(item_ok(c, item))
        if errs:
            c.rejects(*errs)
        a, _, b = position(c, S, idx, n)
        x = stored(c, item)
        yield
        LL(c, me(c), c.cls, a + unit(x) + b)

    @R.contract('__delitem__', LISTS, props=('C01', 'C02', 'C03'))
    def delitem(c):
        S = LL(c, me(c), c.cls)
        idx = c.arg('idx', 'int|other|none|slice')
        n = c.p.length(S)
        errs = index_errors(c, idx, n)
        if errs:
            c.rejects(*errs)
        if c.cls == 'CircularLinkedList':
            if c.branch(zval(n) == 0):
                yield
                LL(c, me(c), c.cls, S)
                return
            idx = c.I.binop('Mod', idx, n)
        a, _, b = position(c, S, idx, n)
        yield
        LL(c, me(c), c.cls, a + b)

    @R.contract('remove_front', LISTS, props=('C01', 'C02', 'C03'))
    def remove_front(c):
        S = LL(c, me(c), c.cls)
        if not c.p.is_empty_seq(S):
            _, S = c.p.uncons(S)
        yield
        LL(c, me(c), c.cls, S)

    @R.contract('remove_end', LISTS, props=('C01', 'C02', 'C03'))
    def remove_end(c):
        S = LL(c, me(c), c.cls)
        if not c.p.is_empty_seq(S):
            S, _ = c.p.unsnoc(S)
        yield
        LL(c, me(c), c.cls, S)

    # ------------------------------------------------------------------ removal by value
    @R.contract('remove', LISTS, props=('C01', 'C02', 'C03'))
    def remove(c):
        p = c.p
        S = LL(c, me(c), c.cls)
        v = c.arg('value', 'data|none|extra')
        al = c.arg('all', 'bool|other|none', default=True)
        errs = []
        if item_ok(c, v):
            errs.append(item_ok(c, v))
        if c.kind(al) != 'bool':
            errs.append('TypeError')
        if errs:
            c.rejects(*errs)
        al = c.I.test(al)
        yield
        if al:
            T = p.hom('remall', (v,), S)
        elif c.branch(mem(c, v, S)):
            a, x, b = p.fresh_seq('sdata'), p.fresh_val('sdata'), p.fresh_seq('sdata')
            p.seq_assume_eq(S, a + unit(x) + b)
            p.assume(z3.Not(zval(mem(c, v, a))))
            p.assume(zval(c.I.eq(x, v)))
            T = a + b
        else:
            T = S
        LL(c, me(c), c.cls, T)

    @R.loop_inv('LinkedList._remove_value', 0)
    def remove_loop(L):
        p, I = L.p, L.I
        self, cls = L.const('self'), L.fr.selfcls
        v, al = L.const('value'), L.const('all')
        cur, prev = L.ref('curr_node'), L.ref('prev')
        i = L.int('counter')
        found = L.flag('FOUND_FIRST')
        extra = dict(_tail='ref') if cls == 'DoublyLinkedList' else {}
        f = L.cell(self, cls, _head='ref', _length='int', **extra)
        n, h = f['_length'], f['_head']
        end = h if cls == 'CircularLinkedList' else None
        dl = cls == 'DoublyLinkedList'
        tl = None
        L.fact(zval(n) >= 0)
        if L.branch(n == 0):
            if dl:
                L.same(h, None); L.same(f['_tail'], None)
            L.same(prev, None)
            K, B = EMPTY, EMPTY
        elif L.is_null(prev):
            L.same(cur, h)
            K = EMPTY
            B, tl = chain(L, cls, cur, end, length=n)
        else:
            if L.producing:
                k = p.fresh_int('kept')
                p.assume(z3.And(k >= 1, k <= n))
                A1, a = chain(L, cls, h, prev, length=k - 1)
                d, _ = chain(L, cls, prev, cur, length=1, px=a)
                B, tl = chain(L, cls, cur, end, length=n - k, px=prev)
            else:
                A1, a = chain(L, cls, h, prev)
                d, _ = chain(L, cls, prev, cur, length=1, px=a)
                B, tl = chain(L, cls, cur, end, length=n - p.length(A1) - 1, px=prev)
            K = A1 + d
        if dl and tl is not None:
            L.same(tl, f['_tail'])
        if L.entry:
            L.loop.ghost['S0'] = K + B
        A0 = L.prefix_of('S0', B, 'sdata')
        L.fact(zval(i) == zval(p.length(A0)))
        if I.test(al):
            L.seqeq(K, p.hom('remall', (v,), A0))
        elif not found:
            L.fact(z3.Not(zval(mem(L, v, A0))))
            L.seqeq(K, A0)
        else:
            if L.producing:
                x = p.fresh_val('sdata')
                p.seq_assume_eq(A0, K + unit(x))
            else:
                if p.is_empty_seq(A0):
                    p.fail(L.label + ': found without an item')
                A1, x = p.unsnoc(A0)
                p.seq_prove_eq(K, A1, L.label)
            L.fact(zval(I.eq(x, v)))
            L.fact(z3.Not(zval(mem(L, v, K))))
        L.decreases(zval(p.length(L.loop.ghost['S0'])) - zval(i))

    # ------------------------------------------------------------------ whole-list operations
    @R.contract('extend', LISTS, props=('C06',))
    def extend(c):
        p = c.p
        s = me(c)
        if c.proof:
            k = p.pick(['same', 'self', 'opaque', 'none', 'data'])
            o = s if k == 'self' else c.make(k)
            c.locs['other'] = o
        o = c.locs['other']
        S = LL(c, s, c.cls)
        if c.kind(o) != 'obj:' + c.cls:
            c.rejects('TypeError')
        if p.ref_eq(o, s):
            T = S
        else:
            T = c.read(lambda m: LL(m, o, c.cls))
        yield
        LL(c, s, c.cls, S + T)

    def extend_loop(L, lastname):
        self, cls = L.const('self'), L.fr.selfcls
        last = L.ref(lastname)
        S0 = L.entry_val('S0', lambda: content(L, self, cls))
        grown(L, self, cls, last, S0 + L.visited)

    def content(L, r, cls):
        """content of a list on loop entry (without taking it)"""
        snap = snapshot(L.p)
        m = Mode(L.I, False, L.label)
        S = LL(m, r, cls)
        restore(L.p, snap)
        return S

    R.content = content
    R.loop_inv('LinkedList.extend', 0)(lambda L: extend_loop(L, 'last_node'))
    R.loop_inv('DoublyLinkedList.extend', 0)(lambda L: extend_loop(L, 'last_node'))
    R.loop_inv('CircularLinkedList.extend', 1)(lambda L: extend_loop(L, 'prev_node'))

    @R.loop_inv('CircularLinkedList.extend', 0)
    def cextend_walk(L):
        self, cls, p = L.const('self'), L.fr.selfcls, L.p
        cur = L.ref('curr_node')
        i = L.int('counter')
        n = L.I.getattr(self, '_length')
        if L.branch(zval(n) == 0):
            L.same(cur, None)
            L.fact(zval(i) == 0)
            A, B = EMPTY, EMPTY
        else:
            L.fact(zval(i) < zval(n))
            A, B = walk(L, cls, self, cur, NOPREV, i)
        L.same_seq('S', A + B)
        L.decreases(z3.If(zval(n) > zval(i), zval(n) - zval(i), z3.IntVal(0)))

    @R.contract('split', LISTS, props=('C04',))
    def split(c):
        p = c.p
        c.pure()
        S = LL(c, me(c), c.cls)
        idx = c.arg('idx', 'int|other|none|slice')
        n = p.length(S)
        k = c.kind(idx)
        if k == 'slice':
            c.rejects('IndexError')
        if k != 'int':
            c.rejects('TypeError')
        if c.branch(zval(idx) < 0):
            c.rejects('IndexError')
        if c.cls == 'CircularLinkedList':
            idx = 0 if c.branch(zval(n) == 0) else c.I.binop('Mod', idx, n)
        elif c.branch(zval(idx) > zval(n)):
            c.rejects('IndexError')
        a, b = p.split(S, idx)
        yield
        l, r = c.returns_pair(c.cls, c.cls)
        LL(c, l, c.cls, a)
        LL(c, r, c.cls, b)

    @R.loop_inv('LinkedList._split', 0)
    def split_left(L):
        self, cls, p = L.const('self'), L.fr.selfcls, L.p
        cur, last = L.ref('curr_node'), L.ref('prev_node')
        i = L.int('counter')
        idx = L.const('idx', is_int)
        L.fact(zval(i) <= zval(idx))
        A, B = walk(L, cls, self, cur, NOPREV, i)
        L.same_seq('S', A + B)
        grown(L, L.const('left_list', is_ref), cls, last, A)
        L.decreases(zval(idx) - zval(i))

    @R.loop_inv('LinkedList._split', 1)
    def split_right(L):
        self, cls, p = L.const('self'), L.fr.selfcls, L.p
        cur, last = L.ref('curr_node'), L.ref('prev_node')
        i = L.int('counter')
        idx = L.const('idx', is_int)
        n = L.I.getattr(self, '_length')
        L.fact(zval(i) >= zval(idx))
        L.fact(zval(idx) >= 0)
        A, B = walk(L, cls, self, cur, NOPREV, i)
        S = L.same_seq('S', A + B)
        a, W = p.split(A, idx)
        out = L.const('right_list', is_ref)
        if p.is_empty_seq(W):
            LL(L, out, cls, W)
            if L.producing:
                p.refcls[p.rep(last)] = NODE[cls]
            elif last is not None and p.is_null(last) is not True and not p.ref_eq(last, None):
                if L.I.cls_of(last) != NODE[cls]:
                    p.fail(L.label + ': not a node')
        else:
            grown(L, out, cls, last, W)
        L.decreases(zval(n) - zval(i))

    def rotation(name, left):
        @R.contract(name, LISTS, props=('C04',))
        def rotate(c):
            p = c.p
            s = me(c)
            ip = c.arg('inplace', 'bool|int|none|other', default=True)
            d = c.arg('distance', 'int|other|none')
            S = LL(c, s, c.cls)
            errs = []
            if c.kind(ip) != 'bool':
                errs.append('TypeError')
            if c.kind(d) != 'int':
                errs.append('TypeError')
            elif c.branch(zval(d) < 0):
                errs.append('ValueError')
            if errs:
                c.rejects(*errs)
            ip = c.I.test(ip)
            n = p.length(S)
            if c.branch(zval(n) == 0):
                T = S
            else:
                k = c.I.binop('Mod', d, n)
                a, b = p.split(S, k if left else zval(n) - zval(k))
                T = b + a
            if not ip:
                c.pure()
            yield
            if ip:
                c.returns(None)
                LL(c, s, c.cls, T)
            else:
                LL(c, c.returns_object(c.cls), c.cls, T)
    rotation('rotate_left', True)
    rotation('rotate_right', False)

    @R.contract('reverse', LISTS, props=('C04',))
    def reverse(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        yield
        LL(c, c.returns_object(c.cls), c.cls, c.p.hom('rev', (), S))

    @R.loop_inv('LinkedList.reverse', 0)
    def reverse_loop(L):
        self, cls, p = L.const('self'), L.fr.selfcls, L.p
        cur = L.ref('curr_node')
        i = L.int('counter')
        A, B = walk(L, cls, self, cur, NOPREV, i)
        L.same_seq('S', A + B)
        LL(L, L.const('rev', is_ref), cls, p.hom('rev', (), A))
        L.decreases(zval(L.I.getattr(self, '_length')) - zval(i))

    @R.contract('copy', LISTS, props=('C04',))
    def copy(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        yield
        LL(c, c.returns_object(c.cls), c.cls, S)

    @R.loop_inv('LinkedList.copy', 0)
    def copy_loop(L):
        grown(L, L.const('copied_list', is_ref), L.fr.selfcls, L.ref('copied_node'), L.visited)

    @R.contract('to_list', LISTS, props=('C04',))
    def to_list(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        yield
        c.returns_list(S)

    @R.contract('count', LISTS, props=('C04',))
    def count(c):
        c.pure()
        S = LL(c, me(c), c.cls)
        v = c.arg('value', 'data|none')
        yield
        c.returns(0 if c.kind(v) == 'none' else c.p.measure('cnt', (v,), S))

    @R.loop_inv('LinkedList.count', 0)
    def count_loop(L):
        v = L.const('value')
        t = L.int('total_count')
        L.fact(zval(t) == (0 if v is None else zval(L.p.measure('cnt', (v,), L.visited))))

    # ------------------------------------------------------------------ comparison
    def alike(c, s, o):
        """the contents of two different lists, position by position: (n1, n2, pairs of common positions)"""
        p = c.p
        if c.proof:
            P = p.fresh_seq('(sdata,sdata)')
            R1, R2 = EMPTY, EMPTY
            k = p.pick(['equal', 'first longer', 'second longer'])
            if k == 'first longer':
                R1 = unit(p.fresh_val('sdata')) + p.fresh_seq('sdata')
            elif k == 'second longer':
                R2 = unit(p.fresh_val('sdata')) + p.fresh_seq('sdata')
            LL(c, s, c.cls, p.hom('mapfst', (), P) + R1)
            LL(c, o, c.cls, p.hom('mapsnd', (), P) + R2)
            c.I.ghost['compare'] = (P, R1, R2)
            return p.length(P + R1), p.length(P + R2), P
        raise Unsupported('comparison of lists at a call')

    def comparison(name, self_value, value):
        @R.contract(name, LISTS, props=('C05',))
        def cmp(c):
            p = c.p
            c.pure()
            s = me(c)
            k = p.pick(['same', 'self', 'opaque', 'none', 'data', 'int'])
            o = s if k == 'self' else c.make(k)
            c.locs['other'] = o
            if k == 'self':
                LL(c, s, c.cls)
                c.I.ghost['compare'] = None
            elif k == 'same':
                n1, n2, P = alike(c, s, o)
            else:
                LL(c, s, c.cls)
                c.rejects('TypeError')
            yield
            if k == 'self':
                c.returns(self_value)
                return
            n1, n2 = zval(n1), zval(n2)
            ms = lambda f: zval(p.measure(f, (), P))
            eq = z3.And(n1 == n2, ms('all_eq'))
            le = z3.And(n1 <= n2, ms('all_le'))
            ge = z3.And(n1 >= n2, ms('all_ge'))
            c.returns({'eq': eq, 'ne': z3.Not(eq), 'le': le, 'ge': ge, 'lt': z3.And(le, z3.Not(eq)),
                       'gt': z3.And(ge, z3.Not(eq))}[value])
    for nm, sv in (('eq', True), ('ne', False), ('le', True), ('ge', True), ('lt', False), ('gt', False)):
        comparison('__%s__' % nm, sv, nm)

    @R.loop_inv('LinkedList._compare', 0)
    def compare_loop(L):
        self, other, cls, p, I = L.const('self'), L.const('other'), L.fr.selfcls, L.p, L.I
        op = L.const('op')
        p1, p2 = L.ref('pointer1'), L.ref('pointer2')
        i = L.int('counter')
        alleq = L.flag('all_equal')
        n1, n2 = I.getattr(self, '_length'), I.getattr(other, '_length')
        L.fact(z3.And(zval(i) <= zval(n1), zval(i) <= zval(n2)))
        g = I.ghost['compare']
        L.decreases(zval(n1) - zval(i))
        if g is None:
            L.same(p1, p2)
            A, B = walk(L, cls, self, p1, NOPREV, i)
            L.same_seq('S', A + B)
            L.fact(alleq)
            return
        P, R1, R2 = g
        if L.producing:
            PA, PB = p.fresh_seq('(sdata,sdata)'), p.fresh_seq('(sdata,sdata)')
            p.seq_assume_eq(P, PA + PB)
            f, s = lambda X: p.hom('mapfst', (), X), lambda X: p.hom('mapsnd', (), X)
            walk(L, cls, self, p1, NOPREV, i, given=(f(PA), f(PB) + R1))
            walk(L, cls, other, p2, NOPREV, i, given=(s(PA), s(PB) + R2))
        else:
            A1, B1 = walk(L, cls, self, p1, NOPREV, i)
            A2, B2 = walk(L, cls, other, p2, NOPREV, i)
            p.seq_prove_eq(A1 + B1, p.hom('mapfst', (), P) + R1, L.label)
            p.seq_prove_eq(A2 + B2, p.hom('mapsnd', (), P) + R2, L.label)
            PA, PB = p.split(P, i)
        L.fact(zval(alleq) == zval(p.measure('all_eq', (), PA)))
        nm = {'eq': 'all_eq', 'lt': 'all_le', 'le': 'all_le', 'gt': 'all_ge', 'ge': 'all_ge'}.get(op.name.split('.')[-1])
        if nm is None:
            raise Unsupported('comparison by ' + op.name)
        L.fact(zval(p.measure(nm, (), PA)))


def _pairhom(i):
    return lambda path, args, v: unit(v[i])


SEQ_HOM['mapfst'] = (_pairhom(0), False)
SEQ_HOM['mapsnd'] = (_pairhom(1), False)


def zand(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return z3.And(x, y)


def _pairall(f):
    return (z3.BoolSort, f, zand, True)


SEQ_MEASURE['all_eq'] = _pairall(lambda p, a, v: p.interp.eq(v[0], v[1]))
SEQ_MEASURE['all_le'] = _pairall(lambda p, a, v: p.interp.order('le', v[0], v[1]))
SEQ_MEASURE['all_ge'] = _pairall(lambda p, a, v: p.interp.order('ge', v[0], v[1]))
