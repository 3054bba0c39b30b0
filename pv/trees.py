"""Binary trees: tree and context predicates with ghost terms.

tree(x, T)            : x is the root of a tree with ghost term T (null iff T is the leaf)
ctx(r, t, x, h, C)    : the tree rooted at r (whose parent link is t) without the subtree at x; h is the parent of x
                        (t when x is r); C is the list of frames from x up to r.
Attributes of terms (in-order sequence, height, black height, ...) are defined by the class's Algebra: they are
fresh constants on variables, linked by the definition whenever a variable is unfolded, and the class's
node invariant is assumed of every node of a variable and proved of every node that is folded back."""
import z3
from .state import *
from .heap import *


class TLeaf:
    def __repr__(self):
        return '.'


LEAF = TLeaf()


class TNode:
    def __init__(self, v, l, r):
        self.v, self.l, self.r = v, l, r

    def __repr__(self):
        return '(%r %r %r)' % (self.l, self.v, self.r)


class TVar:
    def __init__(self, i, alg):
        self.id, self.alg, self.attrs, self.sub = i, alg, {}, None

    def __repr__(self):
        return 'T%d' % self.id


class TPlug:
    """context C (atoms bottom first) around t"""
    def __init__(self, C, t):
        self.C, self.t = tuple(C), t

    def __repr__(self):
        return '%r{%r}' % (list(self.C), self.t)


class TApp:
    """structural function (mirror) of a variable"""
    def __init__(self, fn, t):
        self.fn, self.t = fn, t

    def __repr__(self):
        return '%s(%r)' % (self.fn, self.t)


class Frame:
    """a node with a hole on one side"""
    def __init__(self, side, v, sib):
        self.side, self.v, self.sib = side, v, sib

    def node(self, t):
        return TNode(self.v, t, self.sib) if self.side == 'L' else TNode(self.v, self.sib, t)

    def __repr__(self):
        return '%s%r%r' % (self.side, self.v, self.sib)


class CVar:
    def __init__(self, i, alg):
        self.id, self.alg, self.attrs, self.sub = i, alg, {}, None

    def __repr__(self):
        return 'C%d' % self.id


class Algebra:
    """one node class: its fields and its node invariant"""
    parent = True
    kind = 'num'                       # kind of the items of the in-order sequence
    E = ()                             # what a context demands of its hole

    def __init__(self, cls):
        self.cls = cls

    # payload: a tuple; fields without links
    def fresh(self, p):
        return (p.fresh_real('key'),)

    def unpack(self, p, v):
        return {'_data': v[0]}

    def pack(self, p, c):
        d = c.fields.get('_data')
        if not (isinstance(d, (int, float)) and not isinstance(d, bool) or isinstance(d, z3.ArithRef)):
            return None
        return (real(p, d),)

    def elem(self, v):
        return v[0]

    def facts(self, v):
        return [z3.And(NINF <= v[0], v[0] <= PINF)]

    # attributes of trees
    leaf = {}

    def attr_fresh(self, p, name, t):
        raise Unsupported('attribute %s of %s' % (name, self.cls))

    def attr_node(self, p, name, v, l, r):
        raise Unsupported('attribute %s of %s' % (name, self.cls))

    def attr_plug(self, p, name, C, t):
        raise Unsupported('attribute %s of a tree around a node' % name)

    def inv(self, p, v, l, r):
        return []

    def nonleaf(self, p, t):
        """what is known of a tree that is not empty"""

    # contexts
    def e_fresh(self, p):
        return {}

    def frame(self, p, f, lo, up):
        """facts relating a frame to what it demands of its hole (lo) and what is demanded of its node (up)"""
        return []

    def compat(self, p, e, t):
        """facts: tree t may stand in a hole with demand e"""
        return []

    def bound(self, p, attrs, C):
        """facts about the demands of C when a valid tree with these attributes is something put into C"""
        return []

    def up(self, p, f, lo, nxt):
        """demand above frame f when the next frame is nxt (None at the top)"""
        return {}


def real(p, x):
    z = zval(x)
    if z.sort() == z3.IntSort():
        z = z3.ToReal(z)
        p.assume(z3.And(NINF < z, z < PINF))
    return z


def tvar(p, alg, **attrs):
    p.nfresh += 1
    t = TVar(p.nfresh, alg)
    t.attrs.update(attrs)
    return t


def cvar(p, alg, **attrs):
    p.nfresh += 1
    c = CVar(p.nfresh, alg)
    c.attrs.update(attrs)
    return c


# ---- terms ----------------------------------------------------------------------------------------------------
def tnorm(t):
    while isinstance(t, TVar) and t.sub is not None:
        t = t.sub
    if isinstance(t, TPlug):
        C = cnorm(t.C)
        inner = tnorm(t.t)
        while C and isinstance(C[0], Frame):
            inner = C[0].node(inner)
            C = C[1:]
        if isinstance(inner, TPlug):
            C = inner.C + C
            inner = inner.t
        if not C:
            return inner
        if isinstance(C[-1], Frame):
            return C[-1].node(TPlug(C[:-1], inner))
        return TPlug(C, inner)
    if isinstance(t, TApp):
        x = tnorm(t.t)
        if x is LEAF:
            return LEAF
        if isinstance(x, TApp):
            return x.t
        if isinstance(x, TNode):
            return TNode(x.v, TApp(t.fn, x.r), TApp(t.fn, x.l))
        return TApp(t.fn, x)
    return t


def cnorm(C):
    out = []
    for a in C:
        if isinstance(a, CVar) and a.sub is not None:
            out.extend(cnorm(a.sub))
        else:
            out.append(a)
    return tuple(out)


def alg_of(t, default=None):
    t = tnorm(t)
    return t.alg if isinstance(t, TVar) else default


def attr(p, alg, t, name):
    t = tnorm(t)
    if isinstance(t, TVar):
        if name not in t.attrs:
            if name == 'S':
                t.attrs[name] = p.fresh_seq(alg.kind)
            elif name in ('pre', 'post'):
                t.attrs[name] = s = p.fresh_seq(alg.kind)
                p.assume(p.as_z3int(p.length(s)) == p.as_z3int(p.length(attr(p, alg, t, 'S'))))
            else:
                t.attrs[name] = alg.attr_fresh(p, name, t)
        v = t.attrs[name]
        return p.norm(v) if isinstance(v, Seq) else v
    if t is LEAF:
        if name in ('S', 'pre', 'post'):
            return EMPTY
        return alg.leaf[name]
    if isinstance(t, TNode):
        if name == 'S':
            return attr(p, alg, t.l, 'S') + unit(alg.elem(t.v)) + attr(p, alg, t.r, 'S')
        if name == 'pre':
            return unit(alg.elem(t.v)) + attr(p, alg, t.l, 'pre') + attr(p, alg, t.r, 'pre')
        if name == 'post':
            return attr(p, alg, t.l, 'post') + attr(p, alg, t.r, 'post') + unit(alg.elem(t.v))
        return alg.attr_node(p, name, t.v, t.l, t.r)
    if isinstance(t, TApp):
        if name == 'S':
            return p.hom('rev', (), attr(p, alg, t.t, 'S'))
        return alg.attr_app(p, name, t)
    if name == 'S':
        return cattr(p, alg, t.C, 'A') + attr(p, alg, t.t, 'S') + cattr(p, alg, t.C, 'B')
    return alg.attr_plug(p, name, t.C, t.t)


def cattr(p, alg, C, name):
    """A/B: in-order items before/after the hole; k: number of frames"""
    C = cnorm(C)
    if name == 'k':
        n = 0
        for a in C:
            n = n + (1 if isinstance(a, Frame) else cv(p, alg, a, 'k'))
        return n
    out = EMPTY
    for a in C:
        if isinstance(a, Frame):
            if name == 'A':
                part = attr(p, alg, a.sib, 'S') + unit(alg.elem(a.v)) if a.side == 'R' else EMPTY
            else:
                part = unit(alg.elem(a.v)) + attr(p, alg, a.sib, 'S') if a.side == 'L' else EMPTY
        else:
            part = p.norm(cv(p, alg, a, name))
        out = part + out if name == 'A' else out + part
    return out


def cv(p, alg, c, name):
    if name not in c.attrs:
        if name in ('A', 'B'):
            c.attrs[name] = s = p.fresh_seq(alg.kind)
            n = p.as_z3int(p.length(s))
            p.assume(z3.Implies(cv(p, alg, c, 'k') == 0, n == 0))
        elif name == 'k':
            k = p.fresh_int('frames')
            p.assume(k >= 0)
            c.attrs[name] = k
        elif name == 'E':
            c.attrs['E'] = alg.e_fresh(p)
            c.attrs['U'] = alg.e_fresh(p)
            for n in alg.E:
                p.assume(z3.Implies(cv(p, alg, c, 'k') == 0, zval(c.attrs['E'][n]) == zval(c.attrs['U'][n])))
        elif name == 'U':
            cv(p, alg, c, 'E')
    return c.attrs[name]


def chain_facts(p, alg, C, E=None, U=None, fresh=True):
    """facts: the frames of C fit together; E the demand at the hole, U above the top.
    fresh: intermediate demands are unknown constants (assuming); otherwise they are computed (proving)."""
    if not alg.E:
        return [], {}, {}
    C = cnorm(C)
    out = []
    cur = E
    for i, a in enumerate(C):
        if isinstance(a, CVar):
            e = cv(p, alg, a, 'E')
            if cur is None:
                cur = E = e
            else:
                out += [zval(cur[n]) == zval(e[n]) for n in alg.E]
            cur = cv(p, alg, a, 'U')
            continue
        if cur is None:
            cur = E = alg.e_fresh(p)
        nxt = C[i + 1] if i + 1 < len(C) else None
        if isinstance(nxt, CVar):
            up = cv(p, alg, nxt, 'E')
        elif nxt is None and U is not None:
            up = U
        elif fresh:
            up = alg.e_fresh(p)
        else:
            up = alg.up(p, a, cur, nxt)
        out += alg.frame(p, a, cur, up)
        cur = up
    if U is not None and cur is not None and cur is not U:
        out += [zval(cur[n]) == zval(U[n]) for n in alg.E]
    return out, E, cur


def valid_facts(p, alg, t, fresh=True):
    """facts saying that the explicit nodes of t satisfy the node invariant (variables always do)"""
    t = tnorm(t)
    out = []
    if isinstance(t, TNode):
        out += valid_facts(p, alg, t.l, fresh) + valid_facts(p, alg, t.r, fresh)
        out += list(alg.inv(p, t.v, t.l, t.r))
    elif isinstance(t, TPlug):
        out += valid_facts(p, alg, t.t, fresh)
        for a in t.C:
            if isinstance(a, Frame):
                out += valid_facts(p, alg, a.sib, fresh)
        fs, E, U = chain_facts(p, alg, t.C, fresh=fresh)
        out += fs
        if alg.E:
            out += alg.compat(p, E, t.t)
    return out


def tbind(p, t, term):
    """variable t is term"""
    t0 = t = tnorm(t)
    term = tnorm(term)
    if t is term:
        return
    if not isinstance(t, TVar):
        raise Unsupported('tree equation %r = %r' % (t, term))
    alg = t.alg
    t.sub = term
    for n, v in list(t.attrs.items()):
        w = attr(p, alg, term, n)
        if isinstance(v, Seq):
            p.seq_assume_eq(v, w)
        else:
            p.assume(zval(v) == zval(w))
    for f in valid_facts(p, alg, term):
        p.assume(f)
    if isinstance(term, TPlug):
        for f in alg.bound(p, t0.attrs, cnorm(term.C)):
            p.assume(f)


def cbind(p, c, atoms):
    alg = c.alg
    atoms = cnorm(atoms)
    c.sub = atoms
    if 'k' in c.attrs:
        p.assume(zval(c.attrs['k']) == zval(cattr(p, alg, atoms, 'k')))
    for n in ('A', 'B'):
        if n in c.attrs:
            p.seq_assume_eq(c.attrs[n], cattr(p, alg, atoms, n))
    if 'E' in c.attrs:
        if atoms:
            fs, _, _ = chain_facts(p, alg, atoms, c.attrs['E'], c.attrs['U'])
            for f in fs:
                p.assume(f)
        else:
            for n in alg.E:
                p.assume(zval(c.attrs['E'][n]) == zval(c.attrs['U'][n]))


def teq(p, a, b, label):
    """prove that two terms are the same tree"""
    a, b = tnorm(a), tnorm(b)
    if a is b:
        return
    if isinstance(a, TVar) and isinstance(b, TVar) and a.id == b.id:
        return
    if isinstance(a, TNode) and isinstance(b, TNode):
        p.val_prove_eq(a.v, b.v, label)
        teq(p, a.l, b.l, label)
        teq(p, a.r, b.r, label)
        return
    if isinstance(a, TApp) and isinstance(b, TApp) and a.fn == b.fn:
        return teq(p, a.t, b.t, label)
    if isinstance(a, TPlug) and isinstance(b, TPlug):
        ca, cb = list(a.C), list(b.C)
        while ca and cb:
            x, y = ca[-1], cb[-1]
            if isinstance(x, CVar) and isinstance(y, CVar) and x.id == y.id:
                ca.pop(); cb.pop()
                continue
            if isinstance(x, Frame) and isinstance(y, Frame) and x.side == y.side:
                p.val_prove_eq(x.v, y.v, label)
                teq(p, x.sib, y.sib, label)
                ca.pop(); cb.pop()
                continue
            break
        if len(ca) < len(a.C):
            return teq(p, TPlug(ca, a.t), TPlug(cb, b.t), label)
    p.fail('%s: the trees differ: %r vs %r' % (label, a, b))


# ---- heap -----------------------------------------------------------------------------------------------------
class Tree:
    kind = 'tree'

    def __init__(self, x, T, alg, px, lock=None):
        self.x, self.T, self.alg, self.px, self.lock = x, T, alg, px, lock
        self.ne = False

    def copy(self):
        t = Tree(self.x, self.T, self.alg, self.px, self.lock)
        t.ne = self.ne
        return t

    def __repr__(self):
        return 'tree(%r,%r)' % (self.x, tnorm(self.T))

    def bases(self):
        return [self.x]

    def normalize(self, p):
        T = tnorm(self.T)
        if T is LEAF:
            p.chunks.remove(self)
            p.union(self.x, None)
            return True
        if p.is_null(self.x) is True:
            if not isinstance(T, TVar):
                raise Infeasible()
            tbind(p, T, LEAF)
            p.chunks.remove(self)
            return True
        if not isinstance(T, TVar):
            p.nonnull_ref(self.x)
        i = p.rep_any(self.x)
        clash = i in p.cells
        if not clash:
            for c in p.chunks:
                if c is not self and isinstance(c, (Tree, TCtx)) and p.rep_any(c.bases()[0]) == i:
                    if isinstance(c, TCtx) and not c.nonempty(p):
                        continue
                    clash = True
        if clash:
            # a node cannot be in two places
            if p.is_null(self.x) is False:
                raise Infeasible()
            p.union(self.x, None)
            return True
        if not self.ne and p.is_null(self.x) is False and isinstance(T, TVar):
            self.ne = True
            p.assume(p.as_z3int(p.length(attr(p, self.alg, T, 'S'))) >= 1)
            self.alg.nonleaf(p, T)
        return False

    def expose(self, p, ref):
        if p.rep_any(self.x) != p.rep_any(ref):
            return False
        if p.is_null(self.x) is not False:
            p.ref_eq(self.x, None)
            return True
        p.chunks.remove(self)
        T = tnorm(self.T)
        alg = self.alg
        if isinstance(T, TVar):
            v = alg.fresh(p)
            L, R = tvar(p, alg), tvar(p, alg)
            tbind(p, T, TNode(v, L, R))
        elif isinstance(T, TNode):
            v, L, R = T.v, T.l, T.r
        else:
            raise Unsupported('unfolding %r' % (T,))
        open_node(p, self.x, alg, v, L, R, self.px, self.lock)
        return True


def open_node(p, x, alg, v, L, R, px, lock, left=None, right=None):
    l = p.fresh_ref() if left is None else left
    r = p.fresh_ref() if right is None else right
    fields = alg.unpack(p, v)
    fields['_left'], fields['_right'] = l, r
    if alg.parent:
        fields['_parent'] = px
    add_cell(p, Cell(x, alg.cls, fields, lock))
    if left is None:
        p.chunks.append(Tree(l, L, alg, x, lock))
        known_class(p, l, alg)
    if right is None:
        p.chunks.append(Tree(r, R, alg, x, lock))
        known_class(p, r, alg)
    p.heap_normalize()


def known_class(p, r, alg):
    i = p.rep_any(r)
    if i and p.refcls[i] is None:
        p.refcls[i] = alg.cls


class TCtx:
    kind = 'ctx'

    def __init__(self, root, tp, x, hp, C, alg, lock=None):
        self.root, self.tp, self.x0, self.hp, self.C, self.alg, self.lock = root, tp, x, hp, tuple(C), alg, lock

    def copy(self):
        return TCtx(self.root, self.tp, self.x0, self.hp, self.C, self.alg, self.lock)

    def __repr__(self):
        return 'ctx(%r^%r,%r^%r,%r)' % (self.root, self.tp, self.x0, self.hp, list(cnorm(self.C)))

    def bases(self):
        return [self.root]

    def k(self, p):
        return cattr(p, self.alg, self.C, 'k')

    def nonempty(self, p):
        k = self.k(p)
        if isinstance(k, int):
            return k > 0
        return p.entails(k > 0)

    def empty(self, p):
        """bind the frames to nothing"""
        for a in cnorm(self.C):
            if isinstance(a, Frame):
                raise Infeasible()
            p.assume(zval(cv(p, self.alg, a, 'k')) == 0)
            cbind(p, a, ())
        if self in p.chunks:
            p.chunks.remove(self)
        p.union(self.root, self.x0)
        if self.alg.parent:
            p.union(self.tp, self.hp)

    def normalize(self, p):
        C = cnorm(self.C)
        if not C:
            self.empty(p)
            return True
        if any(isinstance(a, Frame) for a in C):
            p.nonnull_ref(self.root)
            p.nonnull_ref(self.hp)
        known = p.known_eq(self.root, self.x0)
        outside = lambda r: p.is_null(r) is True or p.rep_any(r) in p.cells
        if p.is_null(self.root) is True or p.rep_any(self.root) in p.cells:
            self.empty(p)
            return True
        if self.alg.parent and (p.is_null(self.hp) is True or p.rep_any(self.hp) in p.cells):
            self.empty(p)
            return True
        for c in p.chunks:
            if c is not self and isinstance(c, Tree) and p.is_null(c.x) is False and p.rep_any(c.x) == p.rep_any(self.root):
                self.empty(p)
                return True
        if known is False and not getattr(self, 'ne', False):
            self.ne = True
            p.assume(zval(self.k(p)) >= 1)
            p.nonnull_ref(self.root)
            if self.alg.parent:
                p.nonnull_ref(self.hp)
            return True
        if self.alg.parent and p.is_null(self.tp) is True and p.is_null(self.hp) is False and not getattr(self, 'ne', False):
            self.ne = True
            p.assume(zval(self.k(p)) >= 1)
            p.nonnull_ref(self.root)
            return True
        return False

    def expose(self, p, ref):
        i = p.rep_any(ref)
        top = p.rep_any(self.root) == i
        bottom = self.alg.parent and p.rep_any(self.hp) == i
        if not top and not bottom:
            return False
        if p.branch(zval(self.k(p)) == 0):
            self.empty(p)
            normalize_heap(p)
            return True
        if bottom:
            self.open_bottom(p)
        else:
            self.open_top(p)
        return True

    def open_bottom(self, p):
        alg = self.alg
        p.chunks.remove(self)
        C = cnorm(self.C)
        while True:
            a = C[0]
            if isinstance(a, CVar):
                if p.branch(zval(cv(p, alg, a, 'k')) == 0):
                    cbind(p, a, ())
                    C = cnorm(C)
                    if not C:
                        raise Infeasible()
                    continue
                f = Frame('L' if p.choice() else 'R', alg.fresh(p), tvar(p, alg))
                rest = cvar(p, alg)
                cbind(p, a, (f, rest))
                C = cnorm(C)
                continue
            break
        f = C[0]
        up = p.fresh_ref()
        known_class(p, self.hp, alg)
        known_class(p, up, alg)
        p.nonnull_ref(self.hp)
        x = self.hp
        p.chunks.append(TCtx(self.root, self.tp, x, up, C[1:], alg, self.lock))
        if f.side == 'L':
            open_node(p, x, alg, f.v, None, f.sib, up, self.lock, left=self.x0)
        else:
            open_node(p, x, alg, f.v, f.sib, None, up, self.lock, right=self.x0)

    def open_top(self, p):
        alg = self.alg
        p.chunks.remove(self)
        C = cnorm(self.C)
        while True:
            a = C[-1]
            if isinstance(a, CVar):
                if p.branch(zval(cv(p, alg, a, 'k')) == 0):
                    cbind(p, a, ())
                    C = cnorm(C)
                    if not C:
                        raise Infeasible()
                    continue
                f = Frame('L' if p.choice() else 'R', alg.fresh(p), tvar(p, alg))
                rest = cvar(p, alg)
                cbind(p, a, (rest, f))
                C = cnorm(C)
                continue
            break
        f = C[-1]
        ch = p.fresh_ref()
        p.nonnull_ref(self.root)
        known_class(p, ch, alg)
        p.chunks.append(TCtx(ch, self.root, self.x0, self.hp, C[:-1], alg, self.lock))
        if f.side == 'L':
            open_node(p, self.root, alg, f.v, None, f.sib, self.tp, self.lock, left=ch)
        else:
            open_node(p, self.root, alg, f.v, f.sib, None, self.tp, self.lock, right=ch)


def take_node(p, c, alg, px, label, take):
    if c.cls != alg.cls:
        p.fail('%s: node of class %s' % (label, c.cls))
    take(c.lock)
    v = alg.pack(p, c)
    if v is None:
        p.fail('%s: node without proper content' % label)
    for f in alg.facts(v):
        p.prove(f, label + ' (stored value)')
    for n in ('_left', '_right') + (('_parent',) if alg.parent else ()):
        w = c.fields.get(n, 0)
        if not (w is None or isinstance(w, Ref)):
            p.fail('%s: node without proper %s link' % (label, n))
    if alg.parent and px is not ANY and p.known_eq(c.fields['_parent'], px) is not True:
        if not p.ref_eq(c.fields['_parent'], px):
            p.fail('%s: parent link of a node is wrong' % label)
    del p.cells[p.rep(c.ref)]
    return v


class _Any:
    pass


ANY = _Any()


def consume_tree(p, x, alg, px, label, take, valid=True):
    """take the tree rooted at x out of the heap; its term"""
    for _ in range(50):
        if p.is_null(x) is True:
            return LEAF
        i = p.rep(x)
        if i in p.cells:
            c = p.cells[i]
            v = take_node(p, c, alg, px, label, take)
            l = consume_tree(p, c.fields['_left'], alg, c.ref, label, take, valid)
            r = consume_tree(p, c.fields['_right'], alg, c.ref, label, take, valid)
            t = TNode(v, l, r)
            if valid:
                for f in alg.inv(p, v, l, r):
                    p.prove(f, label + ': node invariant')
            return t
        for c in list(p.chunks):
            if isinstance(c, Tree) and p.rep_any(c.x) == i:
                if c.alg is not alg:
                    p.fail('%s: tree of another class' % label)
                if alg.parent and px is not ANY and p.known_eq(c.px, px) is not True:
                    if p.is_null(c.x) is None:
                        p.ref_eq(c.x, None)
                        break
                    p.fail('%s: parent link of a node is wrong' % label, (x, px, c.px))
                take(c.lock)
                p.chunks.remove(c)
                return tnorm(c.T)
            if isinstance(c, TCtx) and p.rep_any(c.root) == i:
                if c.alg is not alg:
                    p.fail('%s: tree of another class' % label)
                if alg.parent and px is not ANY and p.known_eq(c.tp, px) is not True:
                    p.fail('%s: parent link of a node is wrong' % label)
                take(c.lock)
                p.chunks.remove(c)
                t = consume_tree(p, c.x0, alg, c.hp, label, take, valid)
                if valid and alg.E:
                    fs, E, U = chain_facts(p, alg, c.C, fresh=False)
                    for f in fs + alg.compat(p, E, t):
                        p.prove(f, label + ': node invariant')
                return tnorm(TPlug(c.C, t))
        else:
            if p.is_null(x) is None:
                if p.ref_eq(x, None):
                    continue
            p.fail('%s: a subtree is missing' % label, x)
    p.fail('%s: a subtree is missing' % label)


def consume_ctx(p, root, tp, x, hp, alg, label, take, valid=True, E=None):
    """take everything between root (parent link tp) and the hole x (parent link hp); the frames"""
    atoms = ()
    cur, par = x, hp
    for _ in range(50):
        if p.known_eq(cur, root) is True and (not alg.parent or p.known_eq(par, tp) is True):
            break
        ch = None
        for c in p.chunks:
            if isinstance(c, TCtx) and p.known_eq(c.x0, cur) is True and (not alg.parent or p.known_eq(c.hp, par) is True):
                ch = c
                break
        if ch is not None:
            take(ch.lock)
            p.chunks.remove(ch)
            atoms += tuple(cnorm(ch.C))
            cur, par = ch.root, ch.tp
            continue
        if p.is_null(par) is None and p.ref_eq(par, None):
            continue
        if p.is_null(par) is not True and p.rep(par) in p.cells:
            c = p.cells[p.rep(par)]
            l, r = c.fields.get('_left', 0), c.fields.get('_right', 0)
            if l != 0 and p.known_eq(l, cur) is True and not (p.known_eq(r, cur) is True):
                side = 'L'
            elif r != 0 and p.known_eq(r, cur) is True and not (p.known_eq(l, cur) is True):
                side = 'R'
            elif l != 0 and r != 0 and p.is_null(cur) is True and p.known_eq(l, cur) is True and p.known_eq(r, cur) is True:
                side = 'L'            # two empty sides: either description fits
            else:
                p.fail('%s: a child link does not lead back' % label, (cur, par))
            v = take_node(p, c, alg, ANY, label, take)
            sib = consume_tree(p, r if side == 'L' else l, alg, par, label, take, valid)
            atoms += (Frame(side, v, sib),)
            cur, par = c.ref, c.fields['_parent']
            continue
        p.fail('%s: the path to the root is broken' % label, (cur, par, root, tp))
    else:
        p.fail('%s: the path to the root is too long' % label)
    if valid and alg.E:
        fs, e, u = chain_facts(p, alg, atoms, E, fresh=False)
        for f in fs:
            p.prove(f, label + ': node invariant')
    return atoms
