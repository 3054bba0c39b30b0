"""Contracts of the skip list."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv.builtins import data_istype
from pv.grid import *
from pv import grid as G_

P = ('C11',)
ANYVAL = 'num|none|extra|nonnum|bool|opaque'
Q = z3.Real('ghost_q')


def build(R):
    G_.install(R)
    R.transparent.add(('SkipList', 'LinkedList'))
    R.not_transparent.add(('SkipList', 'LinkedList', '__iter__'))
    R.tagger('SkipList')(lambda m, r: SK(m, r))

    def me(c):
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = c.p.fresh_ref(c.cls, nonnull=True)
        return c.locs['self']

    def rep(c, T=None):
        return SK(c, me(c), T)

    def number(c, v):
        return c.kind(v) in ('int', 'num')

    def real(v):
        z = zval(v)
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def value_error(c, v):
        """what is wrong with an item"""
        k = c.kind(v)
        if k in ('int', 'num'):
            return 'ValueError' if c.branch(real(v) == NINF) else None
        return 'ValueError' if k == 'none' else 'TypeError'

    def vals(p, T):
        return p.hom('mapval', (), T)

    def has(p, T, x):
        return zval(hof(p, x, T)) >= 0

    # ------------------------------------------------------------------ construction
    R.kinds['piter'] = lambda c: VIter(c.p.fresh_seq('pnum'))

    def piter_bad(c):
        k = c.p.pick(['none', 'extra', 'nonnum', 'bool', 'low'])
        return VIter(c.p.fresh_seq('pnum'), bad=NONE_ITEM if k == 'none' else float('-inf') if k == 'low' else c.make(k))
    R.kinds['piter_bad'] = piter_bad

    def items(c):
        it = c.arg('iterable', 'piter|piter_bad|opaque|none', default=None)
        k = c.kind(it)
        if k == 'none':
            return EMPTY, None
        if k == 'iter':
            if it.bad is None:
                return it.seq, None
            return it.seq, 'ValueError' if isinstance(it.bad, float) else value_error(c, None if it.bad is NONE_ITEM else it.bad)
        return None, 'TypeError'

    @R.contract('__init__', ('SkipList',), props=P)
    def init(c):
        s = me(c)
        S, err = items(c)
        c.cell(s, c.cls)
        if err:
            c.fails(err)
        none = c.kind(c.locs.get('iterable')) == 'none'
        yield
        T, hdr, N = rep(c, EMPTY if none else None)
        if c.proof:
            c.ensures(has(c.p, T, Q) == zval(c.p.measure('mem', (Q,), S)))

    @R.loop_inv('SkipList.__init__', 0)
    def init_loop(L):
        T, hdr, N = SK(L, L.const('self'))
        L.fact(has(L.p, T, Q) == zval(L.p.measure('mem', (Q,), L.visited)))

    @R.contract('clear', ('SkipList',), props=P)
    def clear(c):
        rep(c)
        yield
        rep(c, EMPTY)

    # ------------------------------------------------------------------ questions
    @R.contract('__len__', ('SkipList',), props=P + ('C25',))
    def len_(c):
        c.pure()
        T, hdr, N = rep(c)
        yield
        c.returns(c.p.length(T))

    @R.contract('is_empty', ('SkipList',), props=P + ('C25',))
    def is_empty(c):
        c.pure()
        T, hdr, N = rep(c)
        yield
        c.returns(zval(c.p.length(T)) == 0)

    @R.contract('get_height', ('SkipList',), props=P + ('C25',))
    def get_height(c):
        c.pure()
        T, hdr, N = rep(c)
        yield
        c.returns(N)

    @R.contract('__contains__', ('SkipList',), props=P + ('C25',))
    def contains(c):
        c.pure()
        T, hdr, N = rep(c)
        v = c.arg('value', ANYVAL)
        yield
        c.returns(has(c.p, T, real(v)) if number(c, v) else False)

    @R.contract('__iter__', ('SkipList',), props=P + ('C25',))
    def iter_(c):
        c.pure()
        T, hdr, N = rep(c)
        yield
        c.yields(vals(c.p, T), dep=me(c) if not c.proof else None)

    @R.loop_inv('SkipList.__iter__', 0)
    def iter_loop(L):
        L.seqeq(L.yielded('num'), L.visited)

    @R.contract('to_list', ('SkipList',), props=P + ('C25',))
    def to_list(c):
        c.pure()
        T, hdr, N = rep(c)
        yield
        c.returns_list(vals(c.p, T))

    def position(c, T):
        """a valid index, or the error there is"""
        i = c.arg('idx', 'int|none|bool|opaque|other|slice')
        k = c.kind(i)
        if k == 'slice':
            c.rejects('IndexError')
        if k != 'int':
            c.rejects('TypeError')
        if c.branch(z3.Or(zval(i) < 0, zval(i) >= zval(c.p.length(T)))):
            c.rejects('IndexError')
        return i

    @R.contract('__getitem__', ('SkipList',), props=P + ('C25',))
    def getitem(c):
        p = c.p
        c.pure()
        T, hdr, N = rep(c)
        i = position(c, T)
        yield
        A, B = p.split(T, zval(i))
        x, _ = p.uncons(B)
        c.returns(x[0])

    # ------------------------------------------------------------------ search
    @R.contract('_search', ('SkipList',), props=P)
    def search(c):
        p = c.p
        c.pure()
        T, hdr, N = rep(c)
        x = c.arg('value', 'num')
        c.requires(zval(x) > NINF)
        x = real(x)
        yield
        G = grid_of(p, hdr)
        if c.proof:
            r = c.result
            if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[2], Ref) and c.I.cls_of(r[2]) == 'list'):
                p.fail(c.label + ': result')
            w = where(p, r[1])
            if w is None:
                p.fail(c.label + ': the node found is not a node of the list')
            n0, l = w
            v = value(p, G, n0)
            s = c.I.lst(r[2])
            if p.branch(zval(v) == x):
                p.prove(zval(height(p, G, n0)) == zval(l), c.label + ': the top node of the number')
                c.same(r[0], prev_ref(p, G, before(p, G, n0), l))
                p.prove(zval(p.length(s)) == zval(N) - 1 - zval(l), c.label + ': number of nodes that were passed')
                return
            p.prove(zval(l) == 0, c.label + ': the search ends on level 0')
            is_pred(c, G, n0, 0, x)
            check_preds(c, G, s, x, zval(N) - 1, z3.IntVal(1), True)
            return
        if p.branch(has(p, T, x)):
            A, col, B = locate(p, T, x)
            c.result = (prev_ref(p, G, A, col[1]), node_ref(p, col[2], col[1]),
                        c.I.new_list(preds(p, x, z3.simplify(zval(N) - 1), z3.simplify(zval(col[1]) + 1))))
            return
        A, B = cut(p, T, x)
        c.result = (None, prev_ref(p, G, A, 0),
                    c.I.new_list(p.hom('rev', (), preds(p, x, z3.simplify(zval(N) - 1), z3.IntVal(1)))))

    @R.loop_inv('SkipList._search', 0)
    def search_loop(L):
        p, I = L.p, L.I
        x = real(L.const('value', is_num))
        G = grid_of(p)
        start, prev = L.ref('start_node'), L.ref('prev_node')
        if L.producing:
            k = p.fresh_int('level')
            p.assume(z3.And(k >= 0, k <= zval(G.N) - 1))
            p.assume(zval(hof(p, x, G.T)) <= k)
            if p.choice():
                p.union(start, node_ref(p, G.hdr, k))
                p.union(prev, None)
            else:
                c = pick_column(p, G.T)
                p.assume(z3.And(zval(c[1]) >= k, zval(c[0]) < x))
                p.union(start, node_ref(p, c[2], k))
                if p.choice():
                    b = G.hdr
                else:
                    d = pick_column(p, before(p, G, c[2]))
                    p.assume(zval(d[1]) >= k)
                    b = d[2]
                p.union(prev, node_ref(p, b, k))
            r = L.local('last_accessed_nodes', lambda v: isinstance(v, Ref), lambda: p.fresh_ref('list', nonnull=True))
            add_cell(p, Cell(r, 'list', {'seq': preds(p, x, z3.simplify(zval(G.N) - 1), z3.simplify(k + 1))}, lock=L.op_lock()))
        else:
            w = where(p, start)
            if w is None:
                p.fail(L.label + ': the search is not at a node of the list')
            n0, k = w
            L.fact(zval(value(p, G, n0)) < x)
            L.fact(zval(hof(p, x, G.T)) <= zval(k))
            if p.rep(n0) == p.rep(G.hdr):
                L.same(prev, None)
            else:
                b = where(p, prev)
                if b is None:
                    p.fail(L.label + ': the previous node is not a node of the list')
                L.fact(zval(b[1]) == zval(k))
                if p.rep(b[0]) != p.rep(G.hdr) and index(p, before(p, G, n0), b[0]) is None:
                    p.fail(L.label + ': the previous node is not in front')
            r = L.local('last_accessed_nodes', lambda v: isinstance(v, Ref) and p.refcls[p.rep(v)] == 'list', None)
            s = L.list_cell(r, 'pred')
            check_preds(L, G, s, x, z3.simplify(zval(G.N) - 1), z3.simplify(zval(k) + 1), False)
        L.decreases(k)

    @R.loop_inv('search_sorted', 0)
    def sorted_loop(L):
        p, I = L.p, L.I
        G = grid_of(p)
        x = real(L.const('value', is_num))
        start = L.const('start_node', lambda v: isinstance(v, Ref))
        s0, k = where(p, start)
        prev, cur, nxt = L.ref('prev_node'), L.ref('curr_node'), L.ref('next_node', opt=True)
        p0 = L.entry_val('prev', lambda: prev)
        if L.producing:
            rest = after(p, G, s0)
            if p.choice():
                n0 = s0
                p.union(cur, start)
                p.union(prev, p0)
            else:
                c = pick_column(p, rest)
                n0 = c[2]
                p.assume(z3.And(zval(c[1]) >= zval(k), zval(c[0]) <= x))
                p.union(cur, node_ref(p, n0, k))
                p.union(prev, prev_ref(p, G, before(p, G, n0), k))
            if nxt is not None:
                p.union(nxt, next_ref(p, after(p, G, n0), k))
        else:
            w = where(p, cur)
            if w is None:
                p.fail(L.label + ': the search is not at a node of the list')
            n0 = w[0]
            L.fact(zval(w[1]) == zval(k))
            if p.rep(n0) == p.rep(s0):
                L.same(prev, p0)
            else:
                if index(p, after(p, G, s0), n0) is None:
                    p.fail(L.label + ': the search goes backwards')
                L.fact(zval(value(p, G, n0)) <= x)
                L.same(prev, prev_ref(p, G, before(p, G, n0), k))
            if nxt is not None:
                L.same(nxt, next_ref(p, after(p, G, n0), k))
        L.decreases(p.length(after(p, G, n0)))

    # ------------------------------------------------------------------ insertion
    @R.contract('insert', ('SkipList',), props=P)
    def insert(c):
        p = c.p
        T, hdr, N = rep(c)
        v = c.arg('value', ANYVAL)
        e = value_error(c, v)
        if e:
            c.rejects(e)
        x = real(v)
        if c.branch(has(p, T, x)):
            yield
            rep(c, T)
            return
        yield
        if c.proof:
            T2, _, _ = rep(c)
            s = below(p, T, x)
            if s is None:
                p.fail(c.label + ': position of the new number')
            p.seq_prove_eq(vals(p, T2), vals(p, s[0]) + unit(x) + vals(p, s[1]), c.label + ': the number is added in order')
        else:
            A, B = cut(p, T, x)
            n = fresh_col(p)
            p.assume(n[0] == x)
            rep(c, A + unit(n) + B)

    @R.loop_inv('SkipList.insert', 0)
    def insert_loop(L):
        p, I = L.p, L.I
        x = real(L.const('value', is_num))
        me_ = L.const('self')
        cur, k = L.ref('curr_node'), L.int('curr_level')
        g = L.loop.ghost
        if L.entry:
            G = grid_of(p)
            g['n0'], g['hdr'] = cur, G.hdr
            s = below(p, G.T, x)
            if s is None:
                p.fail(L.label + ': position of the new number')
            g['A'], g['B'] = s
        L.fact(zval(k) >= 0)
        T = g['A'] + unit((x, zval(k), g['n0'])) + g['B']
        SK(L, me_, T, hdr=g['hdr'])
        L.same(cur, node_ref(p, g['n0'], k))
        L.decreases(FOREVER)

    # ------------------------------------------------------------------ removal
    @R.contract('remove', ('SkipList',), props=P)
    def remove(c):
        p = c.p
        T, hdr, N = rep(c)
        v = c.arg('value', ANYVAL)
        if not number(c, v) or not c.branch(has(p, T, real(v))):
            yield
            rep(c, T)
            return
        x = real(v)
        if c.proof:
            yield
            T2, _, _ = rep(c)
            A, col, B = locate(p, T, x)
            p.seq_prove_eq(vals(p, T2), vals(p, A) + vals(p, B), c.label + ': the number is removed, nothing else changes')
        else:
            A, col, B = locate(p, T, x)
            yield
            rep(c, A + B)

    def removing(L):
        """columns in front of, of, and behind the number that is being removed"""
        g, p = L.loop.ghost, L.p
        if L.entry:
            G = grid_of(p)
            g['hdr'] = G.hdr
            w = where(p, L.found)
            if w is None:
                p.fail(L.label + ': the node to be removed is not in the list')
            g['n0'] = w[0]
            g['v'] = value(p, G, w[0])
            g['A'], g['B'] = before(p, G, w[0]), after(p, G, w[0])
        return g['A'], g['B'], g['n0'], g['v']

    @R.loop_inv('SkipList.remove', 0)
    def remove_loop(L):
        p, g = L.p, L.loop.ghost
        k = L.int('level')
        L.found, prev = L.ref('found_node'), L.ref('prev_node')
        A, B, n0, v = removing(L)
        L.fact(zval(k) >= -1)
        up = p.branch(zval(k) >= 0)
        T = A + unit((v, zval(k), n0)) + B if up else A + B
        SK(L, L.const('self'), T, hdr=g['hdr'])
        if up:
            G = grid_of(p) if L.producing else Grid(g['hdr'], T, 0)
            L.same(L.found, node_ref(p, n0, k))
            L.same(prev, prev_ref(p, G, A, k))
        L.decreases(zval(k) + 1)

    @R.loop_inv('SkipList.remove', 1)
    def down_loop(L):
        p, g = L.p, L.loop.ghost
        G = grid_of(p)
        found = L.const('found_node', lambda v: isinstance(v, Ref))
        prev, nxt = L.ref('prev_node'), L.ref('next_node', opt=True)
        x0, k = where(p, found)
        if L.producing:
            rest = after(p, G, g['start'])
            if p.choice():
                n0 = g['start']
            else:
                j = index(p, rest, x0)
                c = pick_column(p, Seq(rest.atoms[:j]))
                p.assume(zval(c[1]) >= zval(k))
                n0 = c[2]
            p.union(prev, node_ref(p, n0, k))
            if nxt is not None:
                p.union(nxt, next_ref(p, after(p, G, n0), k))
        else:
            w = where(p, prev)
            if w is None:
                p.fail(L.label + ': not at a node of the list')
            n0 = w[0]
            if L.entry:
                g['start'] = n0
            L.fact(zval(w[1]) == zval(k))
            if p.rep(n0) != p.rep(g['start']) and index(p, after(p, G, g['start']), n0) is None:
                p.fail(L.label + ': the search goes backwards')
            if index(p, after(p, G, n0), x0) is None:
                p.fail(L.label + ': the search is too far')
            if nxt is not None:
                L.same(nxt, next_ref(p, after(p, G, n0), k))
        L.decreases(p.length(after(p, G, n0)))

    @R.contract('__delitem__', ('SkipList',), props=P)
    def delitem(c):
        p = c.p
        T, hdr, N = rep(c)
        i = position(c, T)
        yield
        A, B = p.split(T, zval(i))
        x, B = p.uncons(B)
        T2, _, _ = rep(c, None if c.proof else A + B)
        c.seqeq(vals(p, T2), vals(p, A) + vals(p, B))

    # ------------------------------------------------------------------ loops of the lists of the levels
    def for_levels(key, fn):
        old = R.loops[(key, 0, None)]

        def inv(L):
            return fn(L) if L.I.target[0] == 'SkipList' else old(L)
        if getattr(old, 'unit', False):
            inv.unit = True
        R.loops[(key, 0, None)] = inv

    def at(L, G, cur, i, end):
        """cur is the node at position i (0: the header) of level 0; end: it may be past the last one"""
        p = L.p
        n = zval(p.length(G.T))
        L.fact(z3.And(zval(i) >= 0, zval(i) <= (n + 1 if end else n)))
        if p.branch(zval(i) == 0):
            L.same(cur, G.hdr)
            return None
        if L.producing:
            A, B = p.split(G.T, zval(i) - 1)
            if p.is_empty_seq(B):
                L.same(cur, None)
            else:
                c, _ = p.uncons(B)
                p.union(cur, c[2])
            return p.norm(A)
        if p.is_null(cur) is not False and p.ref_eq(cur, None):
            L.fact(zval(i) == n + 1)
            return p.norm(G.T)
        w = where(p, cur)
        if w is None or index(p, G.T, w[0]) is None:
            p.fail(L.label + ': not at a node of the list')
        L.fact(zval(w[1]) == 0)
        A = before(p, G, w[0])
        L.fact(zval(p.length(A)) == zval(i) - 1)
        return A

    def get_node_loop(L):
        p = L.p
        G = grid_of(p)
        idx = L.const('idx', is_int)
        cur, prev, i = L.ref('curr_node'), L.ref('prev_node'), L.int('counter')
        L.fact(zval(i) <= zval(idx))
        L.fact(zval(idx) <= zval(p.length(G.T)))
        A = at(L, G, cur, i, False)
        if A is None:
            L.same(prev, None)
        else:
            L.same(prev, prev_ref(p, G, A, 0))
        L.decreases(zval(idx) - zval(i))

    def slice_loop(L):
        p, I = L.p, L.I
        G = grid_of(p)
        cur, i = L.ref('curr_node'), L.int('counter')
        out = L.const('out_llist', lambda v: isinstance(v, Ref))
        rng = L.const('indices', lambda v: isinstance(v, VRange))
        mx = L.const('max_idx', is_int)
        if not (rng.step == 1 and p.entails(zval(rng.lo) == 1) and p.entails(zval(rng.hi) == 1 + zval(p.length(G.T)))):
            raise Unsupported('a slice of a level other than all but its header')
        L.fact(zval(i) <= z3.If(zval(mx) + 1 > 0, zval(mx) + 1, z3.IntVal(0)))
        A = at(L, G, cur, i, True)
        last = L.ref('prev_node')
        R.grown(L, out, 'LinkedList', last, EMPTY if A is None else vals(p, A))
        L.decreases(z3.If(zval(mx) + 1 > zval(i), zval(mx) + 1 - zval(i), z3.IntVal(0)))

    for_levels('LinkedList._get_node', get_node_loop)
    for_levels('LinkedList.__getitem__', slice_loop)
