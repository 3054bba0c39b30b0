"""Contracts of the search trees: BST, AVL, red-black tree, splay tree, treap."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv.trees import *
from pv.trees import ANY, cv, chain_facts, tvar
from pv import trees as T_
from pv.builtins import data_istype
from .queues import trim

# ---- order of a sequence of numbers: (strictly ascending, smallest, largest) -----------------------------------
def key(v):
    return v[0] if isinstance(v, tuple) else v


def _ord_unit(p, a, v):
    return (z3.BoolVal(True), zval(key(v)), zval(key(v)), z3.IntVal(1))


def _ord_comb(x, y):
    ax, lx, hx, nx = x
    ay, ly, hy, ny = y
    if z3.is_int_value(zval(nx)) and zval(nx).as_long() == 0:
        return y
    if z3.is_int_value(zval(ny)) and zval(ny).as_long() == 0:
        return x
    ex, ey = nx == 0, ny == 0
    return (z3.And(ax, ay, z3.Or(ex, ey, hx < ly)),
            z3.If(ex, ly, z3.If(ey, lx, z3.If(lx <= ly, lx, ly))),
            z3.If(ex, hy, z3.If(ey, hx, z3.If(hx >= hy, hx, hy))), nx + ny)


def _ord_fact(p, c, a, args):
    asc, lo, hi, n = c
    ln = p.slen[a.id]
    return [n == ln, z3.Implies(n == 0, asc), z3.Implies(n == 1, z3.And(asc, lo == hi)),
            z3.Implies(n >= 1, z3.And(NINF <= lo, lo <= hi, hi <= PINF)),
            z3.Implies(z3.And(n >= 2, asc), lo < hi)]


SEQ_MEASURE['ord'] = ((z3.BoolSort, z3.RealSort, z3.RealSort, z3.IntSort), _ord_unit, _ord_comb,
                      (z3.BoolVal(True), z3.RealVal(0), z3.RealVal(0), z3.IntVal(0)))
MEASURE_FACT['ord'] = _ord_fact
ORDERED.add('ord')


def _zor(x, y):
    if x is False:
        return y
    if y is False:
        return x
    return z3.Or(zval(x), zval(y))


SEQ_MEASURE['has'] = (z3.BoolSort, lambda p, a, v: zval(key(v)) == a[0], _zor, False)
def _has_link(p, c, a, args):
    asc, lo, hi, n = p.measure('ord', (), Seq((a,)))
    out = [z3.Implies(c, z3.And(p.slen[a.id] >= 1, lo <= args[0], args[0] <= hi))]
    for fn, b, d in list(p.smeas[a.id].values()):
        if fn == 'has' and d is not c:
            out.append(z3.Implies(b[0] == args[0], c == d))
    return out


MEASURE_LINK['has'] = _has_link


def ascending(p, S):
    return zval(p.measure('ord', (), S)[0])


def below(p, S, x):
    """every item of the ascending S is smaller than x"""
    a, lo, hi, n = p.measure('ord', (), S)
    return z3.Or(zval(n) == 0, zval(hi) < x)


def above(p, S, x):
    a, lo, hi, n = p.measure('ord', (), S)
    return z3.Or(zval(n) == 0, zval(lo) > x)


def has(p, S, x):
    return zval(p.measure('has', (zval(x),), S))


# ---- node classes -------------------------------------------------------------------------------------------------
SEQ_HOM['keys'] = (lambda p, a, v: unit(v[0]), False)


class BSTAlg(Algebra):
    pairs = False
    def nonleaf(self, p, t):
        pass

    def stamp(self, p, v, l, r):
        """the payload a valid node with these sides carries"""
        return v


    def root(self, m, p, t):
        """what more is demanded of the tree as a whole"""

    def new_node(self, c, n, px, v=None):
        """n is a node without children; its payload"""
        v, l, r = c.node(n, self, px, v)
        c.same(l, None)
        c.same(r, None)
        return v


def zmax(a, b):
    a, b = zval(a), zval(b)
    return z3.If(a >= b, a, b)


class AVLAlg(BSTAlg):
    """payload (value, stored height); h: height, -1 for the empty tree"""
    leaf = {'h': z3.IntVal(-1)}
    E = ('hh',)

    def fresh(self, p):
        return (p.fresh_real('key'), p.fresh_int('height'))

    def unpack(self, p, v):
        return {'_data': v[0], '_height': v[1]}

    def pack(self, p, c):
        v, h = Algebra.pack(self, p, c), c.fields.get('_height')
        return None if v is None or not is_int(h) else v + (zval(h),)

    def attr_fresh(self, p, name, t):
        assert name == 'h'
        h = p.fresh_int('h')
        p.assume(z3.And(h >= -1, (h == -1) == (zval(p.length(attr(p, self, t, 'S'))) == 0)))
        return h

    def attr_node(self, p, name, v, l, r):
        return 1 + zmax(attr(p, self, l, 'h'), attr(p, self, r, 'h'))

    def attr_plug(self, p, name, C, t):
        return cv(p, self, cnorm(C)[-1], 'U')['hh']

    def inv(self, p, v, l, r):
        return self.fits(p, v[1], attr(p, self, l, 'h'), attr(p, self, r, 'h'))

    def fits(self, p, h, a, b):
        return [a - b <= 1, b - a <= 1, zval(h) == 1 + zmax(a, b)]

    def stamp(self, p, v, l, r):
        return (v[0], self.attr_node(p, 'h', v, l, r))

    def new_node(self, c, n, px, v=None):
        v = BSTAlg.new_node(self, c, n, px, v)
        c.fact(v[1] == 0)
        return v

    def e_fresh(self, p):
        h = p.fresh_int('hh')
        p.assume(h >= -1)
        return {'hh': h}

    def frame(self, p, f, lo, up):
        return self.fits(p, f.v[1], zval(lo['hh']), zval(attr(p, self, f.sib, 'h'))) + [zval(up['hh']) == f.v[1]]

    def compat(self, p, e, t):
        return [zval(attr(p, self, t, 'h')) == e['hh']]

    def up(self, p, f, lo, nxt):
        return {'hh': f.v[1]}


ALG = {}
ALG['AVL'] = AVLAlg('AVLNode')


class TreapAlg(BSTAlg):
    """payload (value, priority), both part of the item; top: priority at the root"""
    kind = '(num,num)'
    pairs = True
    leaf = {'top': NINF}
    E = ('lim',)

    def fresh(self, p):
        return (p.fresh_real('key'), p.fresh_real('prio'))

    def unpack(self, p, v):
        return {'_data': v[0], '_priority': v[1]}

    def pack(self, p, c):
        v, h = Algebra.pack(self, p, c), c.fields.get('_priority')
        return None if v is None or not is_num(h) else v + (real(p, h),)

    def elem(self, v):
        return v

    def facts(self, v):
        return Algebra.facts(self, v) + [z3.And(NINF <= v[1], v[1] <= PINF)]

    def attr_fresh(self, p, name, t):
        return p.fresh_real('top')

    def attr_node(self, p, name, v, l, r):
        return v[1]

    def attr_plug(self, p, name, C, t):
        C = cnorm(C)
        if not C or isinstance(C[-1], Frame):
            return C[-1].v[1] if C else attr(p, self, t, 'top')
        top = p.fresh_real('top')
        p.assume(top <= zval(cv(p, self, C[-1], 'U')['lim']))
        return top

    def inv(self, p, v, l, r):
        return [zval(attr(p, self, l, 'top')) <= v[1], zval(attr(p, self, r, 'top')) <= v[1]]

    def e_fresh(self, p):
        return {'lim': p.fresh_real('lim')}

    def frame(self, p, f, lo, up):
        return [zval(lo['lim']) <= f.v[1], zval(attr(p, self, f.sib, 'top')) <= f.v[1], f.v[1] <= zval(up['lim'])]

    def compat(self, p, e, t):
        return [zval(attr(p, self, t, 'top')) <= e['lim']]

    def up(self, p, f, lo, nxt):
        return {'lim': nxt.v[1] if isinstance(nxt, Frame) else PINF}

    def bound(self, p, attrs, C):
        if C and isinstance(C[-1], CVar) and 'top' in attrs:
            return [zval(cv(p, self, C[-1], 'U')['lim']) == zval(attrs['top'])]
        return []

    def demand(self, p, C):
        """the demand at the hole of a context that reaches up to the root"""
        C = cnorm(C)
        return PINF if not C else C[0].v[1] if isinstance(C[0], Frame) else zval(cv(p, self, C[0], 'E')['lim'])


ALG['Treap'] = TreapAlg('TreapNode')
class RedBlackAlg(BSTAlg):
    """payload (value, colour); bh: black nodes on every way down; red: colour of the root.
    A context demands a black height (bh) and may demand a black root (black)."""
    leaf = {'bh': z3.IntVal(0), 'red': z3.BoolVal(False)}
    E = ('bh', 'black')

    def colour(self, p, name):
        c = p.engine.prog.classes.get('Color')
        return enum_index(c, name) if c and name in c.attrs else -1

    def red(self, p, v):
        return zval(v[1]) == self.colour(p, 'RED')

    def one(self, p, v):
        return z3.If(self.red(p, v), z3.IntVal(0), z3.IntVal(1))

    def fresh(self, p):
        c = p.fresh_int('colour')
        p.assume(z3.Or(c == self.colour(p, 'RED'), c == self.colour(p, 'BLACK')))
        return (p.fresh_real('key'), c)

    def unpack(self, p, v):
        return {'_data': v[0], '_color': EnumV('Color', v[1])}

    def pack(self, p, c):
        v, h = Algebra.pack(self, p, c), c.fields.get('_color')
        return None if v is None or not isinstance(h, EnumV) or h.cls != 'Color' else v + (zval(h.term),)

    def attr_fresh(self, p, name, t):
        bh, red = p.fresh_int('bh'), p.fresh_bool('red')
        t.attrs.setdefault('bh', bh)
        t.attrs.setdefault('red', red)
        some = zval(p.length(attr(p, self, t, 'S'))) > 0
        p.assume(z3.And(bh >= 0, z3.Implies(z3.Not(some), z3.And(bh == 0, z3.Not(red))),
                        z3.Implies(z3.And(some, z3.Not(red)), bh >= 1)))
        return t.attrs[name]

    def attr_node(self, p, name, v, l, r):
        return self.red(p, v) if name == 'red' else zval(attr(p, self, l, 'bh')) + self.one(p, v)

    def attr_plug(self, p, name, C, t):
        C = cnorm(C)
        if not C:
            return attr(p, self, t, name)
        if isinstance(C[-1], Frame):
            f = C[-1]
            return self.red(p, f.v) if name == 'red' else zval(attr(p, self, f.sib, 'bh')) + self.one(p, f.v)
        U = cv(p, self, C[-1], 'U')
        if name == 'bh':
            return U['bh']
        red = p.fresh_bool('red')
        p.assume(z3.Not(z3.And(red, zval(U['black']))))
        return red

    def isred(self, p, t):
        return zval(attr(p, self, t, 'red'))

    def bh(self, p, t):
        return zval(attr(p, self, t, 'bh'))

    def inv(self, p, v, l, r):
        return [self.bh(p, l) == self.bh(p, r),
                z3.Or(z3.Not(self.red(p, v)), z3.And(z3.Not(self.isred(p, l)), z3.Not(self.isred(p, r))))]

    def e_fresh(self, p):
        bh = p.fresh_int('bh')
        p.assume(bh >= 0)
        return {'bh': bh, 'black': p.fresh_bool('black')}

    def frame(self, p, f, lo, up):
        red = self.red(p, f.v)
        return [zval(lo['bh']) == self.bh(p, f.sib), z3.Implies(red, zval(lo['black'])),
                z3.Not(z3.And(red, self.isred(p, f.sib))), zval(up['bh']) == zval(lo['bh']) + self.one(p, f.v),
                z3.Not(z3.And(red, zval(up['black'])))]

    def compat(self, p, e, t):
        return [self.bh(p, t) == zval(e['bh']), z3.Not(z3.And(self.isred(p, t), zval(e['black'])))]

    def bound(self, p, attrs, C):
        if C and isinstance(C[-1], CVar) and 'red' in attrs:
            return [zval(cv(p, self, C[-1], 'U')['black']) == z3.Not(zval(attrs['red']))]
        return []

    def up(self, p, f, lo, nxt):
        return {'bh': zval(lo['bh']) + self.one(p, f.v),
                'black': self.red(p, nxt.v) if isinstance(nxt, Frame) else z3.BoolVal(False)}

    def demand(self, p, C):
        """does the context ask for a black root in its hole?"""
        C = cnorm(C)
        return z3.BoolVal(False) if not C else self.red(p, C[0].v) if isinstance(C[0], Frame) \
            else zval(cv(p, self, C[0], 'E')['black'])

    def crowned(self, p, C):
        """the topmost node is black (if there is one)"""
        C = cnorm(C)
        return z3.BoolVal(True) if not C else z3.Not(self.red(p, C[-1].v)) if isinstance(C[-1], Frame) \
            else zval(cv(p, self, C[-1], 'U')['black'])

    def new_node(self, c, n, px, v=None):
        v = BSTAlg.new_node(self, c, n, px, v)
        c.fact(self.red(c.p, v))
        return v

    def root(self, m, p, t):
        m.fact(z3.Not(self.isred(p, t)))


ALG['RedBlackTree'] = RedBlackAlg('RedBlackNode')
ALG['BST'] = ALG['SplayTree'] = BSTAlg('BSTNode')
CLS = ('BST', 'AVL', 'RedBlackTree', 'SplayTree', 'Treap')
P = ('C14', 'C15', 'C16', 'C17', 'C18')


def BT(m, r, cls, S=None):
    """a search tree of exact class cls; its items in order and its term"""
    p, alg = m.p, ALG[cls]
    f = m.cell(r, cls, _root='ref', _length='int')
    t = m.tree(f['_root'], alg, None)
    got = attr(p, alg, t, 'S')
    if S is not None:
        m.seqeq(got, S)
    m.fact(zval(f['_length']) == zval(p.length(got)))
    m.fact(ascending(p, got))
    alg.root(m, p, t)
    return got, t


def build(R):
    def nonnum(c):
        d = c.p.fresh_data('nonnum')
        for t in ('int', 'float', 'bool'):
            c.p.assume(z3.Not(data_istype(c.I, d, t)))
        return d
    R.kinds['nonnum'] = nonnum
    ANYVAL = 'num|none|extra|nonnum|bool|opaque'
    for k in ALG:
        R.tagger(k)(lambda m, r, k=k: BT(m, r, k))

    def me(c):
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = c.p.fresh_ref(c.cls, nonnull=True)
        return c.locs['self']

    def alg(c):
        return ALG[c.cls]

    def rep(c, S=None):
        return BT(c, me(c), c.cls, S)

    def number(c, v):
        return c.kind(v) in ('int', 'num')

    def value_error(c, v):
        k = c.kind(v)
        return None if k in ('int', 'num') else 'ValueError' if k == 'none' else 'TypeError'

    # ------------------------------------------------------------------ private recursive functions
    def opened(name):
        def f(I, cls, locs):
            r = locs[name]
            return isinstance(r, Ref) and I.p.rep(r) in I.p.cells
        return f

    def root_parent(c, x):
        """parent link of the (closed) tree at x"""
        p = c.p
        if c.proof:
            return p.fresh_ref()
        i = p.rep_any(x)
        for ch in p.chunks:
            if isinstance(ch, T_.Tree) and p.rep_any(ch.x) == i:
                return ch.px
            if isinstance(ch, T_.TCtx) and p.rep_any(ch.root) == i:
                return ch.tp
        p.fail(c.label + ': the starting node is not available here')

    def start(c):
        """parameter start_node: some node of a tree"""
        p = c.p
        if c.proof:
            c.locs['self'] = p.fresh_ref(c.cls, nonnull=True)
        x = c.object_arg('start_node', alg(c).cls)
        px = root_parent(c, x)
        return x, px, c.tree(x, alg(c), px)

    def where(c, x, px, r):
        """node r of the tree at x: (frames, payload, left term, right term)"""
        p, a = c.p, alg(c)
        if not c.producing:
            cell = find_cell(p, r)
            if cell is None or not isinstance(cell.fields.get('_parent', 0), (Ref, type(None))):
                p.fail(c.label + ': the result is not a node of the tree')
            hp = cell.fields['_parent']
        else:
            hp = p.fresh_ref()
        v, l, rr = c.node(r, a, hp)
        L, Rt = c.tree(l, a, r), c.tree(rr, a, r)
        C = c.ctx(x, px, r, hp, a, valid=False)
        return C, v, L, Rt

    def result_node(c):
        if c.proof:
            return c.check_object(c.result, alg(c).cls)
        c.result = c.p.fresh_ref(alg(c).cls, nonnull=True)
        return c.result

    @R.contract('_search', CLS, props=P, inline=opened('start_node'))
    def search(c):
        p, a = c.p, alg(c)
        c.view()
        x, px, t = start(c)
        v = c.arg('find_val', 'int|num')
        S = attr(p, a, t, 'S')
        c.requires(ascending(p, S))
        c.decreases(p.length(S))
        yield
        r = result_node(c)
        C, w, L, Rt = where(c, x, px, r)
        c.same_tree(t, TPlug(C, TNode(w, L, Rt)))
        v = real(p, v)
        SL, SR = attr(p, a, L, 'S'), attr(p, a, Rt, 'S')
        A, B = cattr(p, a, C, 'A'), cattr(p, a, C, 'B')
        c.ensures(z3.Or(w[0] == v,
                        z3.And(v < w[0], zval(p.length(SL)) == 0, below(p, A, v)),
                        z3.And(v > w[0], zval(p.length(SR)) == 0, above(p, B, v))))

    def extreme(name, least):
        @R.contract(name, CLS, props=P, inline=opened('start_node'))
        def f(c):
            p, a = c.p, alg(c)
            c.view()
            x, px, t = start(c)
            c.decreases(p.length(attr(p, a, t, 'S')))
            yield
            r = result_node(c)
            C, w, L, Rt = where(c, x, px, r)
            c.same_tree(t, TPlug(C, TNode(w, L, Rt)))
            c.ensures(zval(p.length(cattr(p, a, C, 'A' if least else 'B'))) == 0)
            c.ensures(zval(p.length(attr(p, a, L if least else Rt, 'S'))) == 0)

    extreme('_get_min_node', True)
    extreme('_get_max_node', False)

    @R.contract('_insert_node', CLS, props=P, inline=opened('start_node'))
    def insert_node(c):
        p, a = c.p, alg(c)
        if c.proof:
            c.locs['self'] = p.fresh_ref(c.cls, nonnull=True)
        s, x, n = c.locs['self'], c.object_arg('start_node', a.cls), c.object_arg('inserted_node', a.cls)
        px = root_parent(c, x)
        t = c.tree(x, a, px)
        f = c.cell(s, c.cls, _length='int', _root='ref')
        v = a.new_node(c, n, None)
        S = attr(p, a, t, 'S')
        c.requires(ascending(p, S))
        c.decreases(p.length(S))
        dup = c.branch(has(p, S, v[0]))
        yield
        g = c.cell(s, c.cls, _length='int', _root=lambda m: f['_root'])
        c.same(g['_root'], f['_root'])
        c.ensures(zval(g['_length']) == zval(f['_length']) + (0 if dup else 1))
        r = result_node(c)
        if dup:
            c.warns()
            a.new_node(c, n, None, v)
            C, w, L, Rt = where(c, x, px, r)
            c.same_tree(t, TPlug(C, TNode(w, L, Rt)))
            c.ensures(w[0] == v[0])
            return
        c.same(r, n)
        if c.producing:
            q = p.fresh_ref(a.cls, nonnull=True)
            qp = p.fresh_ref()
            left = p.choice()
        else:
            cell = find_cell(p, n)
            q = cell.fields.get('_parent', 0) if cell else 0
            cq = find_cell(p, q) if isinstance(q, Ref) and p.is_null(q) is not True else None
            if cq is None:
                p.fail(c.label + ': the inserted node is not linked')
            qp = cq.fields.get('_parent', 0)
            left = p.known_eq(cq.fields.get('_left'), n) is True
        a.new_node(c, n, q, v)
        w, l, rr = c.node(q, a, qp)
        c.same(l if left else rr, n)
        B = c.tree(rr if left else l, a, q)
        C = c.ctx(x, px, q, qp, a, valid=False)
        lt, rt = (LEAF, B) if left else (B, LEAF)
        c.same_tree(t, TPlug(C, TNode(a.stamp(p, w, lt, rt), lt, rt)))
        c.ensures(z3.And(v[0] < w[0], below(p, cattr(p, a, C, 'A'), v[0])) if left else
                  z3.And(v[0] > w[0], above(p, cattr(p, a, C, 'B'), v[0])))

    # ------------------------------------------------------------------ construction and insertion
    def items(c):
        """the iterable argument: (sequence of its numbers, error or None)"""
        it = c.arg('iterable', 'niter|niter_bad|opaque|none', default=None)
        k = c.kind(it)
        if k == 'none':
            return EMPTY, None
        if k == 'iter':
            if it.bad is None:
                return it.seq, None
            return it.seq, value_error(c, None if it.bad is NONE_ITEM else it.bad)
        return None, 'TypeError'

    R.kinds['niter'] = lambda c: VIter(c.p.fresh_seq('num'))

    def niter_bad(c):
        k = c.p.pick(['none', 'extra', 'nonnum', 'bool'])
        return VIter(c.p.fresh_seq('num'), bad=NONE_ITEM if k == 'none' else c.make(k))
    R.kinds['niter_bad'] = niter_bad
    Q = z3.Real('ghost_q')

    @R.contract('__init__', CLS, props=P)
    def init(c):
        s = me(c)
        T, err = items(c)
        if c.cls == 'Treap':
            c.arg('seed', 'int|none', default=None)
        c.cell(s, c.cls)
        if err:
            c.fails(err)
        none = c.kind(c.locs.get('iterable')) == 'none'
        yield
        S, t = rep(c, EMPTY if none else None)
        if c.proof:
            c.ensures(has(c.p, S, Q) == has(c.p, T, Q))

    @R.loop_inv('BST.__init__', 0)
    def init_loop(L):
        S, t = BT(L, L.const('self'), L.fr.selfcls)
        L.fact(has(L.p, S, Q) == has(L.p, L.visited, Q))

    @R.contract('insert', CLS, props=P)
    def insert(c):
        p = c.p
        S, t = rep(c)
        v = c.arg('value', ANYVAL)
        errs = [value_error(c, v)] if value_error(c, v) else []
        pr = None
        if c.cls == 'Treap':
            pr = c.arg('priority', 'num|none|bool|opaque|nonnum', default=None)
            if c.kind(pr) not in ('none', 'num', 'int'):
                errs.append('TypeError')
        if errs:
            c.rejects(*errs)
        x = real(p, v)
        if c.branch(has(p, S, x)):
            yield
            S2, t2 = rep(c)
            c.warns()
            unchanged(c, S, t, S2, t2)
            if c.cls == 'SplayTree':
                at_root(c, t2, x)
            return
        yield
        if c.proof:
            S2, t2 = rep(c)
            if c.cls == 'SplayTree':
                at_root(c, t2, x)
            trim(p, S)
            trim(p, S2)
            rest, got = without(p, S2, x)
            if rest is None:
                p.fail(c.label + ': the number is not added: %r becomes %r' % (p.norm(S), p.norm(S2)))
            if pr is not None:
                p.prove(got[1] == real(p, pr), c.label + ': the number keeps the given priority')
            p.seq_prove_eq(S, rest, c.label + ': the number is added, nothing else changes')
        else:
            k = alg(c).kind
            A, B = p.fresh_seq(k), p.fresh_seq(k)
            e = p.fresh_val(k)
            p.assume(zval(key(e)) == x)
            if pr is not None:
                p.assume(e[1] == real(p, pr))
            p.seq_assume_eq(S, A + B)
            rep(c, A + unit(e) + B)

    def without(p, S, x):
        """S without the number x (None: x is not seen in it)"""
        whole = p.norm(S).atoms
        for i, a in enumerate(whole):
            if isinstance(a, Unit) and p.entails(zval(key(a.v)) == x):
                return Seq(whole[:i] + whole[i + 1:]), a.v
        return None, None

    def unchanged(c, S, t, S2, t2):
        if c.cls in ('AVL', 'RedBlackTree', 'SplayTree', 'Treap'):
            c.seqeq(S2, S)
        elif c.producing:
            c.same_tree(t2, t)
        else:
            c.same_tree(t, t2)

    # ------------------------------------------------------------------ AVL: walking up and rebalancing
    @R.loop_inv('AVL._insert', 0, unit=True)
    @R.loop_inv('AVL._remove', 0, unit=True)
    def rebalancing(L):
        """heights are right everywhere but at `parent`, one of whose sides may be off by one"""
        p, a = L.p, ALG['AVL']
        self = L.const('self')
        x = L.ref('parent')
        n0 = L.entry_val('length', lambda: L.I.getattr(self, '_length'))
        f = L.cell(self, 'AVL', _root='ref', _length='int')
        L.fact(zval(f['_length']) == zval(n0))
        root = f['_root']
        if L.is_null(x):
            t = L.tree(root, a, None)
            S = attr(p, a, t, 'S')
            L.decreases(0)
        else:
            if L.producing:
                up = p.fresh_ref()
            else:
                c = find_cell(p, x)
                if c is None:
                    p.fail(L.label + ': not a node of the tree')
                up = c.fields.get('_parent', 0)
            v, l, r = L.node(x, a, up)
            A, B = L.tree(l, a, x), L.tree(r, a, x)
            C = L.ctx(root, None, x, up, a, valid=False)
            hl, hr = zval(attr(p, a, A, 'h')), zval(attr(p, a, B, 'h'))
            cases = []
            for dl, dr in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)):
                x0, y0 = hl + dl, hr + dr
                fs, _, _ = chain_facts(p, a, C, {'hh': 1 + zmax(x0, y0)}, fresh=False)
                cases.append(z3.And(x0 - y0 <= 1, y0 - x0 <= 1, *[zval(y) for y in fs]))
            L.fact(z3.Or(*cases))
            S = attr(p, a, TPlug(C, TNode(v, A, B)), 'S')
            L.decreases(zval(cattr(p, a, C, 'k')) + 1)
        L.constant_seq('S', S, a.kind)
        L.fact(ascending(p, S))

    @R.contract('_rebalance', ('AVL',), props=('C15',))
    def rebalance(c):
        """a node whose sides are valid and differ in height by two"""
        p, a = c.p, alg(c)
        if c.proof:
            c.locs['self'] = p.fresh_ref(c.cls, nonnull=True)
            px = p.fresh_ref(a.cls)
        x = c.object_arg('start_node', a.cls)
        if not c.proof:
            cell = find_cell(p, x)
            px = cell.fields.get('_parent', 0) if cell else 0
        v, l, r = c.node(x, a, px)
        A, B = c.tree(l, a, x), c.tree(r, a, x)
        ha, hb = zval(attr(p, a, A, 'h')), zval(attr(p, a, B, 'h'))
        S = attr(p, a, TNode(v, A, B), 'S')
        c.requires(z3.Or(ha - hb == 2, hb - ha == 2))
        c.requires(ascending(p, S))
        yield
        m = result_node(c)
        t = c.tree(m, a, px)
        c.seqeq(attr(p, a, t, 'S'), S)
        h = zval(attr(p, a, t, 'h'))
        c.ensures(z3.Or(h == zmax(ha, hb), h == zmax(ha, hb) + 1))

    @R.contract('get_height', ('AVL',), props=('C15', 'C25'))
    def avl_height(c):
        c.pure()
        S, t = rep(c)
        h = zval(attr(c.p, alg(c), t, 'h'))
        yield
        c.returns(z3.If(h >= 0, h, 0))

    # ------------------------------------------------------------------ red-black tree
    @R.contract('__recolor', ('RedBlackTree',), props=('C16',))
    def recolor(c):
        """only start_node and its parent may both be red"""
        p, a = c.p, alg(c)
        if c.proof:
            c.locs['self'] = p.fresh_ref(c.cls, nonnull=True)
            root, hp, y = p.fresh_ref(a.cls), p.fresh_ref(a.cls), p.fresh_ref(a.cls)
        s, x = c.locs['self'], c.object_arg('start_node', a.cls)
        if not c.proof:
            root, hp, y = above_of(c, x)
        f = c.cell(s, c.cls, _length='int', _root='ref')
        v, l, r = c.node(x, a, hp)
        A, B = c.tree(l, a, x), c.tree(r, a, x)
        C = c.ctx(root, None, x, hp, a, valid=False)
        if not c.is_null(hp):
            c.same(f['_root'], root)
        for g in a.inv(p, v, A, B):
            c.requires(g)
        fs, _, _ = chain_facts(p, a, C, {'bh': a.bh(p, A) + a.one(p, v), 'black': a.demand(p, C)}, fresh=False)
        for g in fs:
            c.requires(g)
        c.requires(a.crowned(p, C))
        S = attr(p, a, TPlug(C, TNode(v, A, B)), 'S')
        c.requires(ascending(p, S))
        c.decreases(cattr(p, a, C, 'k'))
        yield
        g = c.cell(s, c.cls, _length='int', _root='ref')
        c.same(g['_root'], f['_root'])
        c.ensures(zval(g['_length']) == zval(f['_length']))
        m = result_node(c)
        t = c.tree(m, a, None)
        c.seqeq(attr(p, a, t, 'S'), S)

    @R.contract('get_black_height', ('RedBlackTree',), props=('C16', 'C25'))
    def black_height(c):
        c.pure()
        S, t = rep(c)
        yield
        c.returns(alg(c).bh(c.p, t))

    @R.loop_inv('RedBlackTree.get_black_height', 0)
    def left_spine(L):
        """the nodes above start_node, the root apart, have been counted"""
        p, a = L.p, ALG['RedBlackTree']
        self, n = L.const('self'), L.int('black_height')
        x = L.ref('start_node', a.cls)
        f = L.cell(self, 'RedBlackTree', _root='ref', _length='int')
        if L.is_null(x):
            t = L.tree(f['_root'], a, None)
            bh0 = L.entry_val('bh', lambda: a.bh(p, t))
            L.fact(n + 1 == bh0)
            L.decreases(0)
            return
        up = standing(L, self, x)
        t = L.tree(x, a, up)
        C = L.ctx(f['_root'], None, x, up, a, valid=False)
        bh, black = a.bh(p, t), a.demand(p, C)
        L.fact(z3.Not(z3.And(a.isred(p, t), black)))
        fs, _, _ = chain_facts(p, a, C, {'bh': bh, 'black': black}, fresh=False)
        for y in fs:
            L.fact(y)
        bh0 = L.entry_val('bh', lambda: attr(p, a, TPlug(C, t), 'bh'))
        L.fact(n + 1 + bh == bh0)
        L.decreases(zval(p.length(attr(p, a, t, 'S'))) + 1)

    @R.loop_inv('RedBlackTree.__handle_double_black', 0, unit=True)
    def double_black(L):
        """one black node is missing on every way through double_black_node (unless that is red, and to become
        black, or the root, where it does not matter); everything else is in order"""
        p, a = L.p, ALG['RedBlackTree']
        self = L.const('self')
        d, q = L.ref('double_black_node', a.cls), L.ref('parent', a.cls)
        n0 = L.entry_val('length', lambda: L.I.getattr(self, '_length'))
        f = L.cell(self, 'RedBlackTree', _root='ref', _length='int')
        L.fact(zval(f['_length']) == zval(n0))
        root = f['_root']
        if L.producing:
            form = p.pick(['root', 'node', 'leaf'])
            if form == 'root':
                p.union(d, root)
            if form != 'leaf':
                p.nonnull_ref(d)
            else:
                p.union(d, None)
        else:
            form = 'root' if p.known_eq(d, root) is True else 'leaf' if L.is_null(d) else \
                'root' if p.ref_eq(d, root) else 'node'
        Sd, hd, red = EMPTY, 0, z3.BoolVal(False)
        if form != 'leaf':
            v, l, r = L.node(d, a, None if form == 'root' else q)
            A, B = L.tree(l, a, d), L.tree(r, a, d)
            L.fact(a.bh(p, A) == a.bh(p, B))
            Sd = attr(p, a, TNode(v, A, B), 'S')
            hd, red = a.bh(p, A) + a.one(p, v), a.red(p, v)
        if form == 'root':
            S = Sd
            L.decreases(0)
        else:
            if L.producing:
                p.nonnull_ref(q)
            up = standing(L, self, q)
            w, l, r = L.node(q, a, up)
            left = p.choice() if L.producing else (p.known_eq(l, d) is True and
                                                   not (form == 'leaf' and p.is_null(r) is True))
            L.same(l if left else r, d)
            D = L.tree(r if left else l, a, q)
            L.fact(a.bh(p, D) == hd + 1)
            C = L.ctx(root, None, q, up, a, valid=False)
            black = a.demand(p, C)
            for x in (a.isred(p, D), black):
                L.fact(z3.Not(z3.And(a.red(p, w), x)))
            fs, _, _ = chain_facts(p, a, C, {'bh': a.bh(p, D) + a.one(p, w), 'black': black}, fresh=False)
            for x in fs:
                L.fact(x)
            SD = attr(p, a, D, 'S')
            S = cattr(p, a, C, 'A') + (Sd if left else SD) + unit(a.elem(w)) + (SD if left else Sd) + cattr(p, a, C, 'B')
            L.decreases(z3.If(red, z3.IntVal(1), zval(cattr(p, a, C, 'k')) + 2))
        L.constant_seq('S', S, a.kind, lazy=True)
        L.fact(ascending(p, S))

    # ------------------------------------------------------------------ treap
    def standing(L, self, x, what='parent'):
        """parent of the node x as the code sees it"""
        if L.producing:
            return L.p.fresh_ref(ALG[L.fr.selfcls].cls)
        c = find_cell(L.p, x)
        if c is None:
            L.p.fail(L.label + ': not a node of the tree')
        return c.fields.get('_parent', 0)

    @R.loop_inv('Treap.insert', 0)
    def treap_up(L):
        """the priorities are in order everywhere but between new_node and its parent"""
        p, a = L.p, ALG['Treap']
        self = L.const('self')
        n, x = L.ref('new_node', a.cls), L.ref('parent', a.cls)
        n0 = L.entry_val('length', lambda: L.I.getattr(self, '_length'))
        f = L.cell(self, 'Treap', _root='ref', _length='int')
        L.fact(zval(f['_length']) == zval(n0))
        root = f['_root']
        v, l, r = L.node(n, a, x, L.loop.ghost.get('v'))
        if L.entry:
            L.loop.ghost['v'] = v
        A, B = L.tree(l, a, n), L.tree(r, a, n)
        top = [zval(attr(p, a, A, 'top')), zval(attr(p, a, B, 'top'))]
        for y in top:
            L.fact(y <= v[1])
        if L.is_null(x):
            L.same(n, root)
            S, T = attr(p, a, A, 'S'), attr(p, a, B, 'S')
            L.decreases(0)
        else:
            up = standing(L, self, x)
            w, l, r = L.node(x, a, up)
            if L.producing:
                left = p.choice()
            else:
                left = p.known_eq(l, n) is True
            L.same(l if left else r, n)
            D = L.tree(r if left else l, a, x)
            for y in top + [zval(attr(p, a, D, 'top'))]:
                L.fact(y <= w[1])
            C = L.ctx(root, None, x, up, a, valid=False)
            lim = a.demand(p, C)
            fs, _, _ = chain_facts(p, a, C, {'lim': lim}, fresh=False)
            for y in fs:
                L.fact(y)
            L.fact(w[1] <= lim)
            S, T = attr(p, a, A, 'S'), attr(p, a, B, 'S')
            SD = attr(p, a, D, 'S')
            if left:
                T = T + unit(a.elem(w)) + SD
            else:
                S = SD + unit(a.elem(w)) + S
            S, T = cattr(p, a, C, 'A') + S, T + cattr(p, a, C, 'B')
            L.decreases(zval(cattr(p, a, C, 'k')) + 1)
        L.constant_seq('S', S, a.kind, lazy=True)
        L.constant_seq('T', T, a.kind, lazy=True)
        L.fact(ascending(p, S + unit(a.elem(v)) + T))

    @R.loop_inv('Treap.remove', 0)
    def treap_down(L):
        """the priorities are in order everywhere but at removed_node, which moves down"""
        p, a = L.p, ALG['Treap']
        self = L.const('self')
        x, up = L.ref('removed_node', a.cls), L.ref('parent', a.cls)
        n0 = L.entry_val('length', lambda: L.I.getattr(self, '_length'))
        f = L.cell(self, 'Treap', _root='ref', _length='int')
        L.fact(zval(f['_length']) == zval(n0))
        root = f['_root']
        if L.producing:
            p.nonnull_ref(x)
        v, l, r = L.node(x, a, up, L.loop.ghost.get('v'))
        if L.entry:
            L.loop.ghost['v'] = v
        A, B = L.tree(l, a, x), L.tree(r, a, x)
        C = L.ctx(root, None, x, up, a, valid=False)
        lim = a.demand(p, C)
        fs, _, _ = chain_facts(p, a, C, {'lim': lim}, fresh=False)
        for y in fs:
            L.fact(y)
        k = zval(cattr(p, a, C, 'k'))
        SA, SB = attr(p, a, A, 'S'), attr(p, a, B, 'S')
        size = zval(p.length(SA)) + zval(p.length(SB))
        for y in (A, B):
            L.fact(zval(attr(p, a, y, 'top')) <= lim)
        L.fact(z3.Or(k > 0, size > 0))
        S = cattr(p, a, C, 'A') + SA
        T = SB + cattr(p, a, C, 'B')
        L.constant_seq('S', S, a.kind)
        L.constant_seq('T', T, a.kind)
        L.fact(ascending(p, S + unit(a.elem(v)) + T))
        L.decreases(size)

    # ------------------------------------------------------------------ splaying
    def above_of(c, x):
        """(root of the tree node x belongs to, its parent, the child link of the parent)"""
        p = c.p
        cell = find_cell(p, x)
        if cell is None:
            p.fail(c.label + ': the starting node is not available here')
        hp = up = cell.fields.get('_parent', 0)
        cur = y = x
        for _ in range(30):
            if p.is_null(up) is True:
                return cur, hp, y
            if p.rep_any(up) in p.cells:
                cur, up = up, p.cells[p.rep_any(up)].fields.get('_parent', 0)
                continue
            for ch in p.chunks:
                if isinstance(ch, T_.TCtx) and p.known_eq(ch.hp, up) is True and (cur is x or p.known_eq(ch.x0, cur) is True):
                    if cur is x:
                        y = ch.x0
                    cur, up = ch.root, ch.tp
                    break
            else:
                if p.is_null(up) is None and p.ref_eq(up, None):
                    continue
                break
        p.fail(c.label + ': the way to the root is broken')

    @R.contract('__splaying', ('SplayTree',), props=('C17',))
    def splaying(c):
        p, a = c.p, alg(c)
        if c.proof:
            c.locs['self'] = p.fresh_ref(c.cls, nonnull=True)
            root, hp, y = p.fresh_ref(a.cls), p.fresh_ref(a.cls), p.fresh_ref(a.cls)
        x = c.object_arg('start_node', a.cls)
        if not c.proof:
            root, hp, y = above_of(c, x)
        v, l, r = c.node(x, a, hp)
        A, B = c.tree(l, a, x), c.tree(r, a, x)
        # the link of the node above may still lead to another node: it is only overwritten
        C = c.ctx(root, None, y, hp, a)
        S = attr(p, a, TPlug(C, TNode(v, A, B)), 'S')
        c.requires(ascending(p, S))
        c.decreases(cattr(p, a, C, 'k'))
        yield
        c.same(result_node(c), x)
        w, l, r = c.node(x, a, None, v)
        c.seqeq(attr(p, a, c.tree(l, a, x), 'S'), cattr(p, a, C, 'A') + attr(p, a, A, 'S'))
        c.seqeq(attr(p, a, c.tree(r, a, x), 'S'), attr(p, a, B, 'S') + cattr(p, a, C, 'B'))

    def at_root(c, t, x):
        """the number x is at the root of t"""
        p, a = c.p, alg(c)
        if c.producing:
            v = a.fresh(p)
            p.assume(v[0] == x)
            c.same_tree(t, TNode(v, tvar(p, a), tvar(p, a)))
            return
        t = tnorm(t)
        if not isinstance(t, TNode):
            p.fail(c.label + ': what is at the root is not known')
        p.prove(t.v[0] == x, c.label + ': the number is at the root')

    @R.contract('__contains__', ('SplayTree',), props=('C17',))
    def splay_contains(c):
        p = c.p
        S, t = rep(c)
        v = c.arg('find_val', ANYVAL)
        e = value_error(c, v)
        if e:
            c.rejects(e)
        x = real(p, v)
        yes = c.branch(has(p, S, x))
        yield
        S2, t2 = rep(c)
        c.seqeq(S2, S)
        if yes:
            at_root(c, t2, x)
        c.returns(yes)

    # ------------------------------------------------------------------ questions
    @R.contract('__inorder_traverse', CLS, props=P)
    def inorder_from(c):
        p = c.p
        c.pure()
        if c.proof:
            c.locs['self'] = p.fresh_ref(c.cls, nonnull=True)
            c.locs['start_node'] = p.fresh_ref()
        t = c.tree(c.locs['start_node'], alg(c), p.fresh_ref() if c.proof else ANY, valid=False)
        S = attr(p, alg(c), t, 'S')
        c.decreases(p.length(S))
        yield
        c.returns_list(keys(c, S))

    def keys(c, S):
        return c.p.hom('keys', (), S) if alg(c).pairs else S

    @R.contract('inorder_traverse', CLS, props=P + ('C25',))
    def inorder(c):
        c.pure()
        S, t = rep(c)
        yield
        c.returns_list(keys(c, S))

    @R.contract('__len__', CLS, props=P + ('C25',))
    def len_(c):
        c.pure()
        S, t = rep(c)
        yield
        c.returns(c.p.length(S))

    @R.contract('is_empty', CLS, props=P + ('C25',))
    def is_empty(c):
        c.pure()
        S, t = rep(c)
        yield
        c.returns(zval(c.p.length(S)) == 0)

    def ends(name, first):
        @R.contract(name, CLS, props=P + ('C25',))
        def f(c):
            c.pure()
            S, t = rep(c)
            if c.p.is_empty_seq(S):
                c.rejects('IndexError')
            x = c.p.uncons(S)[0] if first else c.p.unsnoc(S)[1]
            yield
            c.returns(key(x))

    ends('get_min', True)
    ends('get_max', False)

    @R.contract('__contains__', tuple(k for k in CLS if k != 'SplayTree'), props=P + ('C25',))
    def contains(c):
        c.pure()
        S, t = rep(c)
        v = c.arg('find_val', ANYVAL)
        yield
        c.returns(has(c.p, S, real(c.p, v)) if number(c, v) else False)

    @R.contract('clear', CLS, props=P)
    def clear(c):
        rep(c)
        yield
        rep(c, EMPTY)

    # ------------------------------------------------------------------ removal
    @R.contract('remove', CLS, props=P)
    def remove(c):
        p = c.p
        S, t = rep(c)
        v = c.arg('del_value', ANYVAL)
        if not number(c, v) or not c.branch(has(p, S, real(p, v))):
            yield
            S2, t2 = rep(c)
            c.warns()
            unchanged(c, S, t, S2, t2)
            return
        x = real(p, v)
        yield
        if c.proof:
            S2, t2 = rep(c)
            trim(p, S)
            trim(p, S2)
            rest, _ = without(p, S, x)
            if rest is None:
                p.fail(c.label + ': the number was not found: %r becomes %r' % (p.norm(S), p.norm(S2)))
            p.seq_prove_eq(S2, rest, c.label + ': the number is removed, nothing else changes')
        else:
            k = alg(c).kind
            A, e, B = p.fresh_seq(k), p.fresh_val(k), p.fresh_seq(k)
            p.seq_assume_eq(S, A + unit(e) + B)
            p.assume(key(e) == x)
            rep(c, A + B)
