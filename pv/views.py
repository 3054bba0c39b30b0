"""Trees that are only looked at.

A query takes a tree and changes nothing, so its nodes need not be owned one by one: a reference to a node that is
looked at carries a record of what is known of the subtree below it (size, height, traversals, levels, ...), by the
definitions below.  Opening a node adds the definition for that node and a read-only cell; its children are looked at
in turn.  Sequences of nodes (the children of a node with many of them, work lists of a search) have the same
quantities as measures and homomorphisms.

Two levels of a listing are never compared: a list of lists, or a dictionary from level to value, is followed at one
arbitrary level K, so what is proved holds of every level."""
import z3
from .state import *
from .heap import find_cell, add_cell, Cell
from .exec import *
from . import contracts as C_
from . import builtins as B_

RO = frozenset({'ro', 'pure'})
ALGS = {}            # node class -> Algebra (binary) or None (many children)
POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
LOWER = z3.Function('lower', z3.StringSort(), z3.StringSort())


class View:
    def __init__(self, cls):
        self.cls, self.attrs, self.comp, self.node, self.ne = cls, {}, {}, None, False


def views(p):
    if 'views' not in p.__dict__:
        p.views = {}
        p.vlists = []
        p.bfs = []
        p.donated = []
        p.heap_hooks.append(vnorm)
    return p.views


def view(p, ref, cls):
    """ref (or None) is looked at as a node of exact class cls"""
    vs = views(p)
    i = p.rep_any(ref)
    if i == 0:
        return
    if i in vs:
        return
    if p.refcls[i] is None:
        p.refcls[i] = cls
    vs[i] = View(cls)
    p.vitem = item(cls)


def viewed(p, ref):
    return isinstance(ref, Ref) and p.rep(ref) in p.__dict__.get('views', ())


def vnorm(p):
    for i in list(p.views):
        if i not in p.views:
            continue
        j = p.rep(i)
        if j != i:
            v = p.views.pop(i)
            if j == 0:
                leafify(p, v)
            elif j in p.views:
                merge(p, v, p.views[j])
            else:
                p.views[j] = v
        elif p.nonnull[i] and not p.views[i].ne:
            nonleaf(p, p.views[i])


def nonleaf(p, v):
    v.ne = True
    for k, x in v.attrs.items():
        if k[0] in ('size', 'lv'):
            p.assume(x >= 1)


LEAFV = {'size': 0, 'H': -1, 'lv': 0, 'has': False, 'strict': True, 'pre': EMPTY, 'post': EMPTY, 'in': EMPTY, 'lev': EMPTY}


def leafify(p, v):
    if v.node is not None:
        raise Infeasible()
    for k, x in list(v.attrs.items()):
        if k[0] in LEAFV:
            equate(p, x, LEAFV[k[0]])


def merge(p, v, w):
    if v.node is not None and w.node is not None:
        raise Unsupported('two nodes of the tree turn out to be one')
    if v.node is not None:
        w.node, w.comp, v.node = v.node, v.comp, None
    for k, x in list(v.attrs.items()):
        if k in w.attrs:
            equate(p, x, w.attrs[k])
        else:
            w.attrs[k] = x


def equate(p, x, y):
    if isinstance(x, Seq):
        p.seq_assume_eq(x, y)
    elif isinstance(x, z3.ExprRef):
        p.assume(x == (y if isinstance(y, z3.ExprRef) else zval(y)))
    else:
        p.val_assume_eq(x, y)


def simp(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e, som=True)
    return e.as_long() if z3.is_int_value(e) else e


# ---- quantities of a subtree ----------------------------------------------------------------------------------
def va(p, ref, name, *args):
    if p.is_null(ref) is True:
        return LEAFV[name]
    vs = views(p)
    v = vs.get(p.rep(ref))
    if v is None:
        raise Unsupported('not a node of the tree that is looked at')
    if not v.ne and p.is_null(ref) is False:
        nonleaf(p, v)
    if name == 'lev':
        args = (simp(args[0]),)
    if args:
        p.__dict__.setdefault(KEYARGS, {})[tuple(akey(a) for a in args)] = args
    key = (name,) + tuple(akey(a) for a in args)
    p.keep.append(args)
    if v.node is not None:
        if key not in v.comp:
            if key in v.attrs:
                v.comp[key] = v.attrs[key]
            else:
                v.comp[key] = node_attr(p, v, name, args)
                if name == 'lev':
                    widths(p, v, args[0], v.comp[key])
        r = v.comp[key]
    else:
        if key not in v.attrs:
            fresh_attr(p, v, name, args, key)
        r = v.attrs[key]
    return p.norm(r) if isinstance(r, Seq) else r


def widths(p, v, e, s):
    w = v.attrs.get(('width',))
    if w is not None:
        p.assume(z3.Select(w, zval(e)) == p.as_z3int(p.length(s)))
    v.__dict__.setdefault('levs', []).append((e, s))


def width(p, ref):
    """array: number of nodes on each level"""
    v = views(p)[p.rep(ref)]
    if ('width',) not in v.attrs:
        v.attrs[('width',)] = w = z3.Const(p.name('width'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        for e, s in v.__dict__.get('levs', ()):
            p.assume(z3.Select(w, zval(e)) == p.as_z3int(p.length(s)))
    return v.attrs[('width',)]


def basic(p, v):
    """size, height and leaf count of an unopened subtree"""
    if ('size',) not in v.attrs:
        s, h, l = p.fresh_int('size'), p.fresh_int('height'), p.fresh_int('leaves')
        v.attrs[('size',)], v.attrs[('H',)], v.attrs[('lv',)] = s, h, l
        p.assume(z3.And(s >= 0, h >= -1, h < z3.If(s == 0, 0, s), (h == -1) == (s == 0), l >= 0, l <= s, (l == 0) == (s == 0)))
        if v.ne:
            p.assume(z3.And(s >= 1, l >= 1))
    return v.attrs[('size',)], v.attrs[('H',)]


def fresh_attr(p, v, name, args, key):
    if name in ('size', 'H', 'lv'):
        basic(p, v)
        return
    kind = kind_of(v.cls)
    if name == 'data':
        v.attrs[key] = p.fresh_val(kind)
    elif name in ('pre', 'post', 'in'):
        s, _ = basic(p, v)
        v.attrs[key] = q = p.fresh_seq(kind)
        p.assume(p.length(q) == s)
    elif name == 'lev':
        s, h = basic(p, v)
        e = zval(args[0])
        if p.entails(e < 0):
            v.attrs[key] = EMPTY
            return
        v.attrs[key] = q = p.fresh_seq(kind)
        n = p.length(q)
        p.assume(z3.And((n == 0) == z3.Or(e < 0, e > h), z3.Implies(z3.And(e == 0, s >= 1), n == 1), n <= s))
        widths(p, v, args[0], q)
    elif name in ('has', 'strict'):
        s, _ = basic(p, v)
        v.attrs[key] = b = p.fresh_bool(name)
        p.assume(z3.Implies(s == 0, z3.BoolVal(LEAFV[name]) == b))
    else:
        raise Unsupported('quantity %s of a subtree' % name)


def kind_of(cls):
    a = ALGS[cls]
    return 'data' if a is None else 'num' if a.kind != 'data' else 'data'


def open_view(p, ref):
    """v.node: ('b', data, left, right, payload) or ('n', data, F, list reference)"""
    v = views(p)[p.rep(ref)]
    if v.node is not None:
        return v
    p.nonnull_ref(ref)
    if not v.ne:
        nonleaf(p, v)
    a = ALGS[v.cls]
    if a is None:
        lr = p.fresh_ref('dict' if v.cls == 'TrieNode' else 'list', nonnull=True)
        F = p.fresh_seq('tree:' + v.cls)
        v.node = ('n', p.fresh_data(), F, lr)
        p.vlists.append((lr, F))
    else:
        w = a.fresh(p)
        l, r = p.fresh_ref(), p.fresh_ref()
        view(p, l, v.cls)
        view(p, r, v.cls)
        v.node = ('b', a.elem(w) if not a.kind.startswith('(') else w[0], l, r, w)
    for k, x in list(v.attrs.items()):
        if k[0] == 'width':
            continue
        equate(p, x, node_attr(p, v, k[0], keyargs(p, v, k)))
    return v


KEYARGS = 'keyargs'


def keyargs(p, v, k):
    return p.__dict__.setdefault(KEYARGS, {}).get(k[1:], ())


def mx(a, b):
    a, b = zval(a), zval(b)
    return z3.If(a >= b, a, b)


def node_attr(p, v, name, args):
    if v.node[0] == 'n':
        return node_attr_n(p, v, name, args)
    _, d, l, r, w = v.node
    if name == 'data':
        return d
    if name in ('pre', 'post', 'in', 'has', 'size', 'H', 'strict', 'lv'):
        x, y = va(p, l, name, *args), va(p, r, name, *args)
    if name == 'size':
        return z3.simplify(1 + zval(x) + zval(y))
    if name == 'H':
        return 1 + mx(x, y)
    if name == 'lv':
        return z3.If(z3.And(zval(va(p, l, 'size')) == 0, zval(va(p, r, 'size')) == 0), 1, zval(x) + zval(y))
    if name == 'has':
        return or_(p.interp.eq(d, args[0]), x, y)
    if name == 'strict':
        a, b = zval(va(p, l, 'size')) == 0, zval(va(p, r, 'size')) == 0
        return z3.And(a == b, zval(x), zval(y))
    if name == 'pre':
        return unit(d) + x + y
    if name == 'post':
        return x + y + unit(d)
    if name == 'in':
        return x + unit(d) + y
    if name == 'lev':
        e = args[0]
        if p.branch(zval(e) == 0):
            return unit(d)
        if p.entails(zval(e) < 0):
            return EMPTY
        return va(p, l, 'lev', e - 1) + va(p, r, 'lev', e - 1)
    raise Unsupported('quantity %s of a subtree' % name)


def node_attr_n(p, v, name, args):
    _, d, F, lr = v.node
    if name == 'data':
        return d
    if name == 'size':
        return 1 + p.measure('vsize', (), F)
    if name == 'H':
        return 1 + p.measure('vh', (), F)
    if name == 'lv':
        return z3.If(p.as_z3int(p.length(F)) == 0, 1, p.measure('vlv', (), F))
    if name == 'has':
        return or_(p.interp.eq(d, args[0]), p.measure('vhas', args, F))
    if name == 'lev':
        e = args[0]
        if p.branch(zval(e) == 0):
            return unit(d)
        if p.entails(zval(e) < 0):
            return EMPTY
        return p.hom('lev', (simp(e - 1),), F)
    raise Unsupported('quantity %s of a subtree' % name)


def or_(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(zval(x))
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


# ---- sequences of nodes ---------------------------------------------------------------------------------------
def kids(p, ref):
    v = open_view(p, ref)
    if v.node[0] == 'n':
        return p.norm(v.node[2])
    out = EMPTY
    for x in v.node[2:4]:
        if not p.ref_eq(x, None):
            out = out + unit(x)
    return out


def node_of(v):
    return v[0] if isinstance(v, tuple) else v


SEQ_HOM['mapdata'] = (lambda p, a, v: unit(va(p, v, 'data')), False)
SEQ_HOM['kids'] = (lambda p, a, v: kids(p, v), False)
SEQ_HOM['lev'] = (lambda p, a, v: va(p, v, 'lev', *a), False)
SEQ_HOM['levs'] = (lambda p, a, v: va(p, v[0], 'lev', a[0] - zval(v[1])), False)
SEQ_HOM['levt'] = (lambda p, a, v: va(p, v[0], 'lev', a[0] - zval(v[1])), True)


def add(x, y):
    return z3.simplify(zval(x) + zval(y))


SEQ_MEASURE['vsize'] = (z3.IntSort, lambda p, a, v: zval(va(p, node_of(v), 'size')), add, z3.IntVal(0))
SEQ_MEASURE['vlv'] = (z3.IntSort, lambda p, a, v: zval(va(p, node_of(v), 'lv')), add, z3.IntVal(0))
SEQ_MEASURE['vh'] = (z3.IntSort, lambda p, a, v: zval(va(p, node_of(v), 'H')), mx, z3.IntVal(-1))
SEQ_MEASURE['vhas'] = (z3.BoolSort, lambda p, a, v: zval(va(p, node_of(v), 'has', *a)), lambda x, y: z3.Or(zval(x), zval(y)), z3.BoolVal(False))
SEQ_MEASURE['nlen_kids'] = (z3.IntSort, lambda p, a, v: p.as_z3int(p.length(kids(p, v))), add, z3.IntVal(0))
SEQ_MEASURE['nlen_lev'] = (z3.IntSort, lambda p, a, v: p.as_z3int(p.length(va(p, v, 'lev', *a))), add, z3.IntVal(0))
for _h in ('levs', 'levt'):
    SEQ_MEASURE['nlen_' + _h] = (z3.IntSort, lambda p, a, v: p.as_z3int(p.length(va(p, v[0], 'lev', a[0] - zval(v[1])))), add, z3.IntVal(0))
    SEQ_LEN[_h] = 'nlen_' + _h
SEQ_LEN['kids'], SEQ_LEN['lev'] = 'nlen_kids', 'nlen_lev'
# work lists of (node, depth): levels reached, deepest entry, no entry at a negative depth
SEQ_MEASURE['reach'] = (z3.IntSort, lambda p, a, v: zval(v[1]) + 1 + zval(va(p, v[0], 'H')), mx, z3.IntVal(0))
SEQ_MEASURE['deepest'] = (z3.IntSort, lambda p, a, v: zval(v[1]), mx, z3.IntVal(0))
SEQ_MEASURE['depths'] = (z3.BoolSort, lambda p, a, v: zval(v[1]) >= 0, lambda x, y: z3.And(zval(x), zval(y)), z3.BoolVal(True))


def link(fn):
    def deco(f):
        MEASURE_LINK[fn] = f
        return f
    return deco


@link('vsize')
def _l(p, c, a, args):
    return [c >= p.slen[a.id]]


@link('vlv')
def _l(p, c, a, args):
    return [c >= p.slen[a.id]]


@link('vh')
def _l(p, c, a, args):
    return [c >= -1, (c == -1) == (p.slen[a.id] == 0)]


@link('vhas')
def _l(p, c, a, args):
    return []


@link('nlen_kids')
def _l(p, c, a, args):
    return [c >= 0, c <= p.measure('vsize', (), Seq((a,))) - p.slen[a.id]]


@link('nlen_lev')
def _l(p, c, a, args):
    e = zval(args[0])
    return [c >= 0, (c == 0) == z3.Or(e < 0, e > p.measure('vh', (), Seq((a,))))]


@link('nlen_levs')
def _l(p, c, a, args):
    return [c >= 0]


@link('nlen_levt')
def _l(p, c, a, args):
    return [c >= 0]


MEASURE_APP[('vsize', 'kids')] = lambda p, a: p.measure('vsize', (), Seq((a.x,))) - p.slen[a.x.id]


def bfs_of(p, F):
    """the values of the forest F, level by level: values of F, then the same of its children"""
    views(p)
    F = p.norm(F)
    if not F.atoms:
        return EMPTY
    for G, W, done in p.bfs:
        G = p.norm(G)
        if len(G.atoms) == len(F.atoms) and all(same_node_atom(p, x, y) for x, y in zip(G.atoms, F.atoms)):
            return p.norm(W)
    kind = None
    for a in F.atoms:
        if isinstance(a, Unit):
            kind = p.views[p.rep(a.v)].cls
        else:
            kind = (a if isinstance(a, SVar) else a.x).kind[5:]
    W = p.fresh_seq(kind_of(kind))
    p.assume(p.length(W) == zval(p.measure('vsize', (), F)))
    p.bfs.append((F, W, [False]))
    return W


def same_node_atom(p, x, y):
    if isinstance(x, Unit) and isinstance(y, Unit):
        return p.known_eq(x.v, y.v) is True
    return not isinstance(x, Unit) and not isinstance(y, Unit) and same_atom(x, y)


def bfs_unfold(p, F):
    F = p.norm(F)
    W = bfs_of(p, F)
    for G, V, done in p.bfs:
        if p.norm(V) is W or p.norm(V).atoms == W.atoms:
            if done[0]:
                return
            done[0] = True
    p.seq_assume_eq(W, p.hom('mapdata', (), F) + bfs_of(p, p.hom('kids', (), F)))


# ---- cells ----------------------------------------------------------------------------------------------------
def expose(p, ref):
    i = p.rep(ref)
    for lr, F in p.vlists:
        if p.rep(lr) == i:
            if p.refcls[i] == 'dict':
                add_cell(p, Cell(lr, 'dict', {'seq': F, 'own': None}, RO))
            else:
                add_cell(p, Cell(lr, 'list', {'seq': F}, RO))
            return True
    if i not in p.views:
        return False
    if p.is_null(ref) is not False:
        p.ref_eq(ref, None)
        return True
    v = open_view(p, ref)
    if v.node[0] == 'n':
        f = {'_data': v.node[1], '_children': v.node[3]}
        if v.cls == 'TrieNode':
            f['_parent'], f['_is_word'] = p.fresh_ref(), p.fresh_bool('mark')
        add_cell(p, Cell(ref, v.cls, f, RO))
    else:
        a = ALGS[v.cls]
        f = a.unpack(p, v.node[4])
        f['_left'], f['_right'] = v.node[2], v.node[3]
        if a.parent:
            if not hasattr(v, 'parent'):
                v.parent = p.fresh_ref()
            f['_parent'] = v.parent
        add_cell(p, Cell(ref, v.cls, f, RO))
    return True


# ---- contract operations ---------------------------------------------------------------------------------------
def look(c, x, cls):
    """x is the root of a tree with nodes of class cls, which is only looked at"""
    p = c.p
    if c.mode == 'proof':
        view(p, x, cls)
        return x
    if p.is_null(x) is True:
        return x
    if not viewed(p, x) or p.views[p.rep(x)].cls != cls:
        raise Unsupported('%s: the node is not one of a tree that is looked at' % c.label)
    return x


def level_k(p):
    """the level that is followed: any"""
    if 'vk' not in p.__dict__:
        p.vk = z3.Int('K')
        p.assume(p.vk >= 0)
    return p.vk


def fresh_entry(p, kind):
    """an entry of another level: anything"""
    if kind == 'rows':
        r = p.fresh_ref('list', nonnull=True)
        add_cell(p, Cell(r, 'list', {'seq': p.fresh_seq('data')}))
        return r
    return p.fresh_val(kind)


def as_proj(I, r, kind, cls='proj'):
    """content of a list (of lists): (length, entry at the level that is followed)"""
    p = I.p
    c = find_cell(p, r)
    if c is None:
        return None
    if c.cls == cls and c.fields['kind'] == kind:
        return zval(c.fields['n']), c.fields['val']
    if c.cls == 'list' and cls == 'proj':
        s = p.norm(c.fields['seq'])
        if all(isinstance(a, Unit) for a in s.atoms):
            val = None
            for i, a in enumerate(s.atoms):
                if p.branch(level_k(p) == i):
                    val = a.v
            return z3.IntVal(len(s.atoms)), val
    return None


def proj(m, r, kind, cls='proj'):
    """a list followed at one level: (length, entry there or None)"""
    p = m.p
    K = level_k(p)
    if m.producing:
        n = p.fresh_int('n')
        p.assume(n >= 0)
        val = None
        if p.branch(K < n):
            if kind == 'rows':
                val = p.fresh_ref('list', nonnull=True)
            else:
                val = p.fresh_val(kind)
        p.refcls[p.rep(r)] = cls
        add_cell(p, Cell(r, cls, {'n': n, 'val': val, 'kind': kind, 'at': None}, lock=m.op_lock()))
        return n, val
    m.begin_op()
    c = find_cell(p, r)
    x = None if c is None else as_proj(m.I, r, kind, cls)
    if x is None:
        p.fail('%s: not a listing by level' % m.label)
    m.take(c.lock)
    del p.cells[p.rep(r)]
    m.end_op()
    n, val = x
    if not p.branch(K < n):
        val = None
    elif val is None:
        p.fail('%s: an entry is missing' % m.label)
    if val is not None and kind != 'rows':
        m.conform_value(val, kind)
    return n, val


def donate(p, v):
    """a list that has become an entry of a listing"""
    if isinstance(v, Ref) and p.is_null(v) is False and p.refcls[p.rep(v)] == 'list':
        if any(p.known_eq(v, d) is not False for d in p.donated):
            raise Unsupported('one list as two entries')
        p.donated.append(v)


class VIdx(VRange):
    """iteration over something by position: item(k) at position k"""
    def __init__(self, n, item):
        VRange.__init__(self, 0, n, 1)
        self.item = item


class DictVals:
    def __init__(self, r):
        self.r = r


class SStr(OStr):
    """a string that matters"""
    strterm = True

    def __init__(self, t):
        self.t = t


def install(R):
    if getattr(R, 'views_installed', False):
        return
    R.views_installed = True
    R.kinds['sstr'] = lambda c: SStr(z3.String(c.p.name('str')))

    def cls(I, o):
        return I.p.refcls[I.p.rep(o)] if isinstance(o, Ref) and I.p.is_null(o) is False else None

    def fields(I, o):
        c = find_cell(I.p, o)
        if c is None:
            raise Unsupported('list content unknown')
        return c.fields

    @R.hook('eq')
    def eq(I, a, b):
        if isinstance(b, SStr):
            a, b = b, a
        if not isinstance(a, SStr):
            return NotImplemented
        if isinstance(b, SStr):
            return a.t == b.t
        if isinstance(b, str):
            return a.t == z3.StringVal(b)
        return NotImplemented

    @R.hook('truth')
    def truth(I, v):
        if isinstance(v, SStr):
            return v.t != z3.StringVal('')
        return NotImplemented

    def children(I, o):
        """dictionary of the children of a node that is looked at"""
        return isinstance(o, Ref) and cls(I, o) == 'dict' and any(I.p.known_eq(o, r) is True for r, _ in I.p.__dict__.get('vlists', ()))

    @R.hook('dict_eq')
    def dict_eq(I, a, b):
        if children(I, b):
            a, b = b, a
        if not children(I, a):
            return NotImplemented
        if cls(I, b) != 'vdict' or not I.p.entails(zval(fields(I, b)['n']) == 0):
            raise Unsupported('comparison of dictionaries')
        return I.p.as_z3int(I.p.length(fields(I, a)['seq'])) == 0

    @R.hook('dict_truth')
    def dict_truth(I, d):
        return I.p.as_z3int(I.p.length(fields(I, d)['seq'])) != 0 if children(I, d) else NotImplemented

    @R.hook('getitem')
    def getitem(I, o, i):
        c = cls(I, o)
        if c not in ('proj', 'vdict'):
            return NotImplemented
        p = I.p
        f = fields(I, o)
        if c == 'proj' and isinstance(i, C_.VSlice) and (i.lo, i.hi, i.step) == (1, None, None) and f['at'] is None and f['kind'] == 'rows':
            r = p.fresh_ref('tail', nonnull=True)
            n = zval(f['n'])
            add_cell(p, Cell(r, 'tail', {'n': z3.If(n >= 1, n - 1, z3.IntVal(0)), 'val': f['val']}, new=True))
            return r
        if not is_int(i):
            raise Unsupported('subscript of a listing')
        n = zval(f['n'])
        if c == 'proj' and p.branch(I.num_cmp('lt', i, 0)):
            i = i + n
        if not p.branch(I.and_(I.num_cmp('ge', i, 0), I.num_cmp('lt', i, n))):
            raise PyRaise('IndexError' if c == 'proj' else 'KeyError', 'listing')
        if f['at'] is not None:
            return f['at'](i)
        if p.branch(zval(i) == level_k(p)):
            return f['val']
        return fresh_entry(p, f['kind'])

    @R.hook('setitem')
    def setitem(I, o, i, v):
        c = cls(I, o)
        if c not in ('proj', 'vdict'):
            return NotImplemented
        p = I.p
        f = fields(I, o)
        if f['kind'] == 'rows' or f['at'] is not None or not is_int(i):
            raise Unsupported('assignment to an entry of a listing')
        n = zval(f['n'])
        if c == 'vdict':
            if not p.branch(I.and_(I.num_cmp('ge', i, 0), I.num_cmp('le', i, n))):
                raise Unsupported('keys of a dictionary out of order')
            if p.branch(zval(i) == n):
                I.write(o, 'n', z3.simplify(n + 1))
        elif not p.branch(I.and_(I.num_cmp('ge', i, 0), I.num_cmp('lt', i, n))):
            raise Unsupported('assignment to an entry of a listing')
        if p.branch(zval(i) == level_k(p)):
            I.write(o, 'val', v)
        else:
            I.write(o, 'val', f['val'])
        return None

    @R.hook('contains')
    def contains(I, o, x):
        if cls(I, o) == 'vdict' and is_int(x):
            return I.and_(I.num_cmp('ge', x, 0), I.num_cmp('lt', x, fields(I, o)['n']))
        return NotImplemented

    @R.hook('dict')
    def dict_(I, e, fr):
        p = I.p
        if 'views' not in p.__dict__:
            return NotImplemented
        if any(k is None for k in e.keys):
            return NotImplemented
        ks = [I.ev(k, fr) for k in e.keys]
        if ks != list(range(len(ks))):
            return NotImplemented
        vs = [I.ev(x, fr) for x in e.values]
        r = p.fresh_ref('vdict', nonnull=True)
        val = None
        for i, v in enumerate(vs):
            if p.branch(level_k(p) == i):
                val = v
        add_cell(p, Cell(r, 'vdict', {'n': z3.IntVal(len(ks)), 'val': val, 'kind': I.p.vitem, 'at': None}, new=True))
        return r

    @R.hook('iterate')
    def iterate(I, v):
        if cls(I, v) == 'proj':
            f = fields(I, v)
            if f['at'] is not None:
                return VIdx(f['n'], f['at'])
        if isinstance(v, VIdx):
            return v
        return NotImplemented

    @R.hook('binop')
    def binop(I, op, a, b):
        if is_int(b) and not isinstance(b, int):
            if op == 'Pow' and isinstance(a, int) and a == 2 or op == 'LShift' and isinstance(a, int) and a == 1:
                if I.p.branch(I.num_cmp('ge', b, 0)):
                    t = POW2(b)
                    I.p.assume(t >= 1)
                    I.p.assume(z3.Implies(b == 0, t == 1))
                    return t
        return NotImplemented

    @R.hook('builtin')
    def builtin(I, f, args, kw, fr):
        p, n = I.p, f.name
        if n == 'str.lower' and isinstance(f.recv, SStr):
            return SStr(LOWER(f.recv.t))
        c = cls(I, args[0]) if args else None
        if c in ('proj', 'vdict'):
            g = fields(I, args[0])
            if n == 'len':
                return g['n']
            if n == 'enumerate' and len(args) == 1 and g['at'] is not None:
                return VIdx(g['n'], lambda k: (k, g['at'](k)))
        if n == 'list' and args and isinstance(args[0], DictVals):
            g = fields(I, args[0].r)
            r = p.fresh_ref('proj', nonnull=True)
            add_cell(p, Cell(r, 'proj', {'n': g['n'], 'val': g['val'], 'kind': g['kind'], 'at': None}, new=True))
            return r
        if n == 'vdict.values':
            return DictVals(f.recv)
        if n == 'dict.values' and children(I, f.recv):
            return C_.VIter(fields(I, f.recv)['seq'])
        if n == 'len' and args and children(I, args[0]):
            return p.length(fields(I, args[0])['seq'])
        if n == 'proj.append':
            g = fields(I, f.recv)
            v = args[0]
            k = zval(g['n'])
            if g['at'] is not None or (g['kind'] == 'rows') != (cls(I, v) == 'list'):
                raise Unsupported('entry of a listing')
            donate(p, v)
            I.write(f.recv, 'n', z3.simplify(k + 1))
            if p.branch(k == level_k(p)):
                I.write(f.recv, 'val', v)
            return None
        return NotImplemented


def item(cls):
    return 'data' if kind_of(cls) == 'data' else 'num'
