"""Skip lists: all levels at once, as one sequence of columns.

A column (v, h, n) is the tower of nodes of the number v: one node on each of the levels 0..h, n being the one on level 0.
Level k of the list is the sub-sequence of the columns with h >= k, in front of it the node of the header column (-inf).
A node is known by its column and its level; `p.gnodes` names the nodes met so far.  Nothing of a node is stored here:
its content, its successor (the node on the same level of the next column that is tall enough) and the node below it
follow from the sequence and are worked out when they are read.

Folding.  When the description is taken back after changes, the new sequence may differ from the old one by one column
being one level taller or lower (a missing column has height -1).  Then only that column's predecessor on the level in
question has another successor, and only that level another length: these, and whatever has been written to, are
checked; everything else is as before."""
import z3
from .state import *
from .heap import *
from .exec import *

NODE = 'SkipNode'
LOW, HIGH = NINF - 1, PINF + 1


def fresh_col(p):
    v, h, n = p.fresh_real('v'), p.fresh_int('h'), p.fresh_ref(NODE, nonnull=True)
    p.assume(v > NINF)
    p.assume(h >= 0)
    return (v, h, n)


FRESH['col'] = fresh_col


def positive(p):
    v = p.fresh_real('v')
    p.assume(v > NINF)
    return v


FRESH['pnum'] = positive
HOM_KIND['mapval'] = 'num'
SEQ_HOM['mapval'] = (lambda p, args, v: unit(v[0]), False)


def zmax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return z3.If(zval(a) >= zval(b), zval(a), zval(b))


def zmin(a, b):
    return z3.If(zval(a) <= zval(b), zval(a), zval(b))


# smallest and largest number, is it strictly increasing
def _ord(a, b):
    return (zmin(a[0], b[0]), zmax(a[1], b[1]), z3.And(zval(a[2]), zval(b[2]), zval(a[1]) < zval(b[0])))


SEQ_MEASURE['cord'] = ((z3.RealSort, z3.RealSort, z3.BoolSort), lambda p, a, v: (v[0], v[0], True), _ord, (HIGH, LOW, True))
MEASURE_FACT['cord'] = lambda p, c, a, args: [
    z3.If(p.slen[a.id] == 0, z3.And(c[0] == HIGH, c[1] == LOW, c[2]), z3.And(NINF < c[0], c[0] <= c[1], c[1] <= PINF))]
ORDERED.add('cord')
SEQ_MEASURE['maxh'] = (z3.IntSort, lambda p, a, v: v[1], zmax, -1)
MEASURE_LINK['maxh'] = lambda p, c, a, args: [z3.If(p.slen[a.id] == 0, c == -1, c >= 0)]


def maxh(p, s):
    return p.measure('maxh', (), s)


def order(p, s):
    return p.measure('cord', (), s)


def svar(a):
    return Seq((a,))


# number of columns that reach a level
SEQ_MEASURE['tall'] = (z3.IntSort, lambda p, a, v: z3.If(zval(v[1]) >= zval(a[0]), z3.IntVal(1), z3.IntVal(0)),
                       lambda x, y: x + y, 0)


def _tall(p, c, a, args):
    k = zval(args[0])
    return [c >= 0, c <= p.slen[a.id], (c == 0) == (zval(maxh(p, svar(a))) < k), z3.Implies(k <= 0, c == p.slen[a.id])]


MEASURE_LINK['tall'] = _tall
# height of the column of a number, -1 when there is none
SEQ_MEASURE['hof'] = (z3.IntSort, lambda p, a, v: z3.If(zval(v[0]) == zval(a[0]), zval(v[1]), z3.IntVal(-1)), zmax, -1)


def _hof(p, c, a, args):
    lo, hi, _ = order(p, svar(a))
    q = zval(args[0])
    return [c >= -1, c <= zval(maxh(p, svar(a))), z3.Implies(c >= 0, z3.And(lo <= q, q <= hi))] + \
        [z3.Implies(q == zval(b[0]), c == d) for f, b, d in p.smeas[a.id].values() if f == 'hof' and d is not c]


MEASURE_LINK['hof'] = _hof


def hof(p, q, s):
    return p.measure('hof', (zval(q),), s)


def tall(p, k, s):
    return p.measure('tall', (zval(k),), s)


# ---- names of nodes and of the lists of the levels -------------------------------------------
def tables(p):
    if 'gnodes' not in p.__dict__:
        p.gnodes, p.glists, p.glevels, p.gpreds = [], [], {}, {}


def node_ref(p, n0, k):
    """the node on level k of the column that starts with n0"""
    tables(p)
    i = p.rep(n0)
    for m, j, r in p.gnodes:
        if p.rep(m) == i and p.branch(zval(j) == zval(k)):
            return r
    if p.branch(zval(k) == 0):
        r = n0
    else:
        r = p.fresh_ref(NODE, nonnull=True)
    p.gnodes.append((n0, k, r))
    return r


def level_ref(p, hdr, k):
    tables(p)
    i = p.rep(hdr)
    for m, j, r in p.glists:
        if p.rep(m) == i and p.branch(zval(j) == zval(k)):
            return r
    r = p.fresh_ref('LinkedList', nonnull=True)
    p.glists.append((hdr, k, r))
    return r


def where(p, ref):
    """(first node of the column, level) of a node"""
    tables(p)
    if ref is None:
        return None
    i = p.rep(ref)
    for m, j, r in p.gnodes:
        if p.rep(r) == i:
            return m, j
    for g in p.chunks:              # a node on level 0
        if isinstance(g, Grid) and (p.rep(g.hdr) == i or index(p, g.T, ref) is not None):
            p.gnodes.append((ref, 0, ref))
            return ref, 0
    return None


def index(p, T, n0):
    i = p.rep(n0)
    for j, a in enumerate(p.norm(T).atoms):
        if isinstance(a, Unit) and p.rep(a.v[2]) == i:
            return j
    return None


def after(p, G, n0):
    """columns behind that of n0 (the header column: all)"""
    if p.rep(n0) == p.rep(G.hdr):
        return p.norm(G.T)
    j = index(p, G.T, n0)
    return None if j is None else Seq(p.norm(G.T).atoms[j + 1:])


def before(p, G, n0):
    j = index(p, G.T, n0)
    return None if j is None else Seq(p.norm(G.T).atoms[:j])


def value(p, G, n0):
    if p.rep(n0) == p.rep(G.hdr):
        return NINF
    return p.norm(G.T).atoms[index(p, G.T, n0)].v[0]


def height(p, G, n0):
    if p.rep(n0) == p.rep(G.hdr):
        return z3.simplify(zval(G.N) - 1)
    return p.norm(G.T).atoms[index(p, G.T, n0)].v[1]


def first_tall(p, s, k):
    """first column of s that reaches level k"""
    for a in p.norm(s).atoms:
        if isinstance(a, Unit):
            if p.branch(zval(a.v[1]) >= zval(k)):
                return a.v
        elif not p.branch(zval(maxh(p, svar(a))) < zval(k)):
            P, c, Q = p.fresh_seq('col'), fresh_col(p), p.fresh_seq('col')
            p.assume(zval(maxh(p, P)) < zval(k))
            p.assume(c[1] >= zval(k))
            order(p, svar(a))
            p.seq_bind(a, P + unit(c) + Q)
            return c
    return None


def last_tall(p, s, k):
    for a in reversed(p.norm(s).atoms):
        if isinstance(a, Unit):
            if p.branch(zval(a.v[1]) >= zval(k)):
                return a.v
        elif not p.branch(zval(maxh(p, svar(a))) < zval(k)):
            P, c, Q = p.fresh_seq('col'), fresh_col(p), p.fresh_seq('col')
            p.assume(zval(maxh(p, Q)) < zval(k))
            p.assume(c[1] >= zval(k))
            order(p, svar(a))
            p.seq_bind(a, P + unit(c) + Q)
            return c
    return None


def next_ref(p, rest, k):
    c = first_tall(p, rest, k)
    return None if c is None else node_ref(p, c[2], k)


def prev_ref(p, G, part, k):
    """the last node on level k of the header and the columns in part"""
    c = last_tall(p, part, k)
    return node_ref(p, G.hdr if c is None else c[2], k)


def below(p, s, x):
    """the columns with numbers less than x, the others (x is not inside a part of s)"""
    atoms = p.norm(s).atoms
    for j, a in enumerate(atoms):
        hi = zval(order(p, svar(a))[1])
        if not p.entails(hi < zval(x)):
            lo = zval(order(p, svar(a))[0])
            if not p.entails(lo >= zval(x)):
                return None
            return Seq(atoms[:j]), Seq(atoms[j:])
    return Seq(atoms), EMPTY


def cut(p, s, x):
    """split s (strictly increasing, without x) at x"""
    atoms = p.norm(s).atoms
    for j, a in enumerate(atoms):
        lo, hi, _ = order(p, svar(a))
        if isinstance(a, Unit):
            if p.branch(zval(hi) < zval(x)):
                continue
            return Seq(atoms[:j]), Seq(atoms[j:])
        if p.entails(hi < zval(x)):
            continue
        if p.entails(lo > zval(x)):
            return Seq(atoms[:j]), Seq(atoms[j:])
        A, B = p.fresh_seq('col'), p.fresh_seq('col')
        p.assume(zval(order(p, A)[1]) < zval(x))
        p.assume(zval(order(p, B)[0]) > zval(x))
        p.seq_bind(a, A + B)
        return Seq(atoms[:j]) + A, B + Seq(atoms[j + 1:])
    return Seq(atoms), EMPTY


def locate(p, s, x):
    """(before, column, after) of the number x in s (strictly increasing, with x)"""
    atoms = p.norm(s).atoms
    for j, a in enumerate(atoms):
        if isinstance(a, Unit):
            if p.branch(zval(a.v[0]) == zval(x)):
                return Seq(atoms[:j]), a.v, Seq(atoms[j + 1:])
        elif p.branch(hof(p, x, svar(a)) >= 0):
            P, c, Q = p.fresh_seq('col'), fresh_col(p), p.fresh_seq('col')
            p.assume(c[0] == zval(x))
            order(p, svar(a))
            p.seq_bind(a, P + unit(c) + Q)
            return Seq(atoms[:j]) + P, c, Q + Seq(atoms[j + 1:])
    raise Infeasible()


def pick_column(p, s):
    """an arbitrary column of s"""
    atoms = [a for a in p.norm(s).atoms if isinstance(a, Unit) or not p.entails(p.slen[a.id] == 0)]
    if not atoms:
        raise Infeasible()
    a = p.pick(atoms)
    if isinstance(a, Unit):
        return a.v
    P, c, Q = p.fresh_seq('col'), fresh_col(p), p.fresh_seq('col')
    order(p, svar(a))
    p.seq_bind(a, P + unit(c) + Q)
    return c


# ---- cells whose content follows from the sequence -------------------------------------------
class Lazy(dict):
    def __init__(self, rules):
        dict.__init__(self)
        self.rules, self.written = rules, set()

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.rules

    def __missing__(self, k):
        v = self.rules[k]()
        dict.__setitem__(self, k, v)
        return v

    def __setitem__(self, k, v):
        self.written.add(k)
        dict.__setitem__(self, k, v)

    def get(self, k, d=None):
        return self[k] if k in self else d


class GCell(Cell):
    def copy(self):
        f = Lazy(self.fields.rules)
        dict.update(f, self.fields)
        f.written = set(self.fields.written)
        return GCell(self.ref, self.cls, f, self.lock, self.new)


class Grid:
    kind = 'grid'

    def __init__(self, hdr, T, N, lock=None):
        self.hdr, self.T, self.N, self.lock = hdr, T, N, lock

    def copy(self):
        return Grid(self.hdr, self.T, self.N, self.lock)

    def __repr__(self):
        return 'grid(%r, %r)' % (self.T, self.N)

    def bases(self):
        return [self.hdr]

    def normalize(self, p):
        return False

    def expose(self, p, ref):
        i = p.rep(ref)
        w = where(p, ref)
        if w is not None:
            n0, k = w
            if after(p, self, n0) is None or not p.entails(zval(k) <= zval(height(p, self, n0))):
                return False
            G = self.copy()
            add_cell(p, GCell(ref, NODE, Lazy({
                '_data': lambda: value(p, G, n0),
                '_next': lambda: next_ref(p, after(p, G, n0), k),
                '_down': lambda: None if p.branch(zval(k) == 0) else node_ref(p, n0, z3.simplify(zval(k) - 1))}), self.lock))
            return True
        for m, k, r in p.glists:
            if p.rep(r) == i and p.rep(m) == p.rep(self.hdr) and p.entails(zval(k) < zval(self.N)):
                G = self.copy()
                add_cell(p, GCell(r, 'LinkedList', Lazy({
                    '_head': lambda: node_ref(p, G.hdr, k),
                    '_length': lambda: 1 + tall(p, k, G.T)}), self.lock))
                return True
        return False


def grid_of(p, hdr=None):
    for g in p.chunks:
        if isinstance(g, Grid) and (hdr is None or p.rep(g.hdr) == p.rep(hdr)):
            return g
    return None


# ---- the predicate -----------------------------------------------------------------------
def SK(m, r, T=None, hdr=None):
    """a skip list with the columns T; returns (columns, first header node, number of levels)"""
    p = m.p
    tables(p)
    f = m.cell(r, 'SkipList', _level_lists='list', _num_levels='int')
    N = f['_num_levels']
    if m.producing:
        X = p.fresh_seq('level')
        x = X.atoms[0]
        p.assume(p.slen[x.id] == zval(N))
        p.assume(zval(N) >= 1)
        hdr = hdr or p.fresh_ref(NODE, nonnull=True)
        p.glevels[x.id] = hdr
        add_cell(p, Cell(f['_level_lists'], 'list', {'seq': X}, lock=m.op_lock()))
        if T is None:
            T = p.fresh_seq('col')
        for c in facts(p, T, N):
            p.assume(c)
        p.chunks.append(Grid(hdr, T, N, m.op_lock()))
        return p.norm(T), hdr, N
    L = p.norm(m.list_cell(f['_level_lists'], 'level'))
    m.begin_op()
    p.prove(zval(p.length(L)) == zval(N), m.label + ': number of levels')
    if not L.atoms:
        p.fail(m.label + ': there is no level')
    if isinstance(L.atoms[0], Unit):
        hdr = initial(m, L)
        T = EMPTY if T is None else T
        G = Grid(hdr, EMPTY, 1)
        if p.norm(T).atoms:
            p.fail(m.label + ': the list is empty')
    else:
        hdr = p.glevels.get(L.atoms[0].id)
        G = grid_of(p, hdr)
        if G is None:
            p.fail(m.label + ': the levels are not described here')
        T = p.norm(G.T if T is None else T)
        m.take(G.lock)
        p.chunks.remove(G)
        fold(m, G, T, N, L)
    for c in facts(p, T, N):
        p.prove(c, m.label + ': the columns are in order and the number of levels is right')
    m.end_op()
    return p.norm(T), hdr, N


def facts(p, T, N):
    return [zval(order(p, T)[2]), zval(N) - 1 == zval(zmax(0, maxh(p, T)))]


def explicit(m, ref, what):
    p = m.p
    c = p.cells.get(p.rep(ref)) if isinstance(ref, Ref) else None
    if c is None:
        p.fail('%s: %s is not there' % (m.label, what))
    m.take(c.lock)
    return c


def initial(m, L):
    """one level with nothing but its header"""
    p = m.p
    if len(L.atoms) != 1:
        p.fail(m.label + ': more levels than described')
    c = explicit(m, L.atoms[0].v, 'the list of level 0')
    h = c.fields.get('_head')
    n = explicit(m, h, 'the first node')
    check_number(m, n, NINF)
    m.same(n.fields.get('_next', NOREF), None)
    m.same(n.fields.get('_down', NOREF), None)
    p.prove(zval(c.fields.get('_length')) == 1, m.label + ': length of level 0')
    del p.cells[p.rep(L.atoms[0].v)]
    del p.cells[p.rep(h)]
    return h


NOREF = Ref(0)


def check_number(m, cell, v):
    d = cell.fields.get('_data')
    if not is_num(d):
        m.p.fail('%s: the content of a node is %r' % (m.label, d))
    m.p.prove(zval(d) == v, m.label + ': number in a node')


def field(m, cell, name):
    v = cell.fields.get(name, m)
    if not (v is None or isinstance(v, Ref)):
        m.p.fail('%s: link %s of a node is missing' % (m.label, name))
    return v


def fold(m, G, T, N, L):
    p = m.p
    a, b = list(p.norm(G.T).atoms), list(p.norm(T).atoms)
    A = []
    while a and b and same_atom(a[0], b[0]):
        A.append(a.pop(0))
        b.pop(0)
    while a and b and same_atom(a[-1], b[-1]):
        a.pop()
        b.pop()
    k0 = grow = col = None
    if a or b:
        if len(a) > 1 or len(b) > 1 or not all(isinstance(x, Unit) for x in a + b):
            p.fail('%s: the columns are %r instead of %r' % (m.label, p.norm(G.T), p.norm(T)))
        if a and b:
            if p.rep(a[0].v[2]) != p.rep(b[0].v[2]):
                p.fail('%s: another node in a column' % m.label)
            p.prove(zval(a[0].v[0]) == zval(b[0].v[0]), m.label + ': number of a column')
        col = (a or b)[0].v
        h0, h1 = (zval(x[0].v[1]) if x else z3.IntVal(-1) for x in (a, b))
        if p.entails(h1 == h0 + 1):
            k0, grow = z3.simplify(h1), True
        elif p.entails(h1 == h0 - 1):
            k0, grow = z3.simplify(h0), False
        elif not p.entails(h0 == h1):
            p.fail('%s: a column changes by more than one level' % m.label)
    new = Grid(G.hdr, T, N)
    # number of levels
    units = L.atoms[1:]
    keep = p.slen[L.atoms[0].id]
    if p.entails(zval(N) == zval(G.N) + 1):
        if len(units) != 1 or not (grow and p.entails(k0 == zval(G.N))):
            p.fail('%s: a level is added that should not be there' % m.label)
        p.prove(keep == zval(G.N), m.label + ': the other levels are kept')
        r = units[0].v
        c = explicit(m, r, 'the list of the new level')
        no_name(m, p.glists, G.hdr, G.N)
        p.glists.append((G.hdr, G.N, r))
        h = c.fields.get('_head')
        explicit(m, h, 'the first node of the new level')
        no_name(m, p.gnodes, G.hdr, G.N)
        p.gnodes.append((G.hdr, G.N, h))
    else:
        if units:
            p.fail('%s: levels are added' % m.label)
        if not p.entails(zval(N) == zval(G.N)):
            p.prove(zval(N) == zval(G.N) - 1, m.label + ': number of levels')
    # the level that changes
    if k0 is not None and (grow or not p.entails(k0 >= zval(N))):
        pr = prev_ref(p, G, Seq(A), k0)
        c = explicit(m, pr, 'the changed predecessor')
        if isinstance(c, GCell) and '_next' not in c.fields.written:
            p.fail('%s: the predecessor on the changed level is left as it was' % m.label)
        if grow:
            u = field(m, c, '_next')
            explicit(m, u, 'the new node')
            if p.branch(k0 == 0):
                m.same(u, col[2])
            else:
                no_name(m, p.gnodes, col[2], k0)
                p.gnodes.append((col[2], k0, u))
        m.same(field(m, c, '_next'), next_ref(p, after(p, new, where(p, pr)[0]), k0))
        lc = explicit(m, level_ref(p, G.hdr, k0), 'the list of the changed level')
        if isinstance(lc, GCell) and '_length' not in lc.fields.written:
            p.fail('%s: the length of the changed level is left as it was' % m.label)
    # what has been written
    p.chunks.append(new)
    for n0, k, r in list(p.gnodes):
        c = p.cells.get(p.rep(r))
        if c is None:
            continue
        if after(p, new, n0) is None:
            continue
        if isinstance(c, GCell) and not c.fields.written:
            m.take(c.lock)
            del p.cells[p.rep(r)]
            continue
        if not p.branch(zval(k) <= zval(height(p, new, n0))):
            continue
        m.take(c.lock)
        w = c.fields.written if isinstance(c, GCell) else ('_data', '_next', '_down')
        if '_data' in w:
            check_number(m, c, value(p, new, n0))
        if '_next' in w:
            m.same(field(m, c, '_next'), next_ref(p, after(p, new, n0), k))
        if '_down' in w:
            m.same(field(m, c, '_down'), None if p.branch(zval(k) == 0) else node_ref(p, n0, z3.simplify(zval(k) - 1)))
        p.cells.pop(p.rep(r), None)
    for h, k, r in list(p.glists):
        c = p.cells.get(p.rep(r))
        if c is None or p.rep(h) != p.rep(G.hdr):
            continue
        m.take(c.lock)
        if isinstance(c, GCell) and not c.fields.written or p.entails(zval(k) >= zval(N)):
            del p.cells[p.rep(r)]
            continue
        m.same(field(m, c, '_head'), node_ref(p, G.hdr, k))
        p.prove(zval(c.fields['_length']) == 1 + zval(tall(p, k, T)), m.label + ': length of a level')
        del p.cells[p.rep(r)]
    p.chunks.remove(new)


def no_name(m, table, n0, k):
    p = m.p
    for x, j, r in table:
        if p.rep(x) == p.rep(n0) and not p.entails(zval(j) != zval(k)):
            p.fail('%s: a node is there already' % m.label)


# ---- lists of predecessors -------------------------------------------------------------------
def preds(p, x, hi, lo):
    """a list of the predecessors of x on the levels hi, hi-1, .., lo"""
    tables(p)
    X = p.fresh_seq('pred')
    p.gpreds[X.atoms[0].id] = (x, hi, lo)
    p.assume(p.slen[X.atoms[0].id] == zval(hi) - zval(lo) + 1)
    return X


def check_preds(m, G, s, x, hi, lo, up):
    """s is such a list (up: in the opposite order)"""
    p = m.p
    atoms = list(p.norm(s).atoms)
    if up:
        atoms.reverse()
    k = zval(hi)
    for a in atoms:
        if isinstance(a, Unit):
            w = where(p, a.v) if isinstance(a.v, Ref) else None
            if w is None:
                p.fail('%s: not a node of the list' % m.label)
            p.prove(zval(w[1]) == k, m.label + ': levels of the nodes that were passed')
            is_pred(m, G, w[0], k, x)
            k = z3.simplify(k - 1)
        else:
            y = a if isinstance(a, SVar) else a.x
            if (isinstance(a, FApp) != up or y.id not in p.gpreds) and not p.entails(p.slen[y.id] == 0):
                p.fail('%s: the nodes that were passed are in another order' % m.label)
            if y.id not in p.gpreds:
                continue
            z, h, l = p.gpreds[y.id]
            p.prove(z3.And(zval(z) == zval(x), zval(h) == k), m.label + ': nodes that were passed')
            k = z3.simplify(zval(l) - 1)
    p.prove(k + 1 == zval(lo), m.label + ': number of nodes that were passed')


def is_pred(m, G, n0, k, x):
    p = m.p
    p.prove(zval(value(p, G, n0)) < zval(x), m.label + ': a node in front')
    c = first_tall(p, after(p, G, n0), k)
    if c is not None:
        p.prove(zval(c[0]) > zval(x), m.label + ': the last node in front')


def _special(p, s, kind):
    for a in s.atoms:
        y = a if isinstance(a, SVar) else a.x if isinstance(a, FApp) else None
        if y is not None and y.kind == kind:
            return y
    return None


def getitem(I, o, i):
    p = I.p
    if 'gnodes' not in p.__dict__ or not isinstance(o, Ref) or p.is_null(o) is not False or I.cls_of(o) != 'list' or not is_int(i):
        return NotImplemented
    s = p.norm(I.lst(o))
    y = _special(p, s, 'level')
    z = _special(p, s, 'pred')
    if y is None and z is None:
        return NotImplemented
    n = p.length(s)
    if p.branch(zval(i) < 0):
        i = zval(i) + n
    if not p.branch(z3.And(zval(i) >= 0, zval(i) < zval(n))):
        raise PyRaise('IndexError', 'list index')
    base = 0
    for a in s.atoms:
        if isinstance(a, Unit):
            if p.branch(zval(i) == base):
                return a.v
            base = z3.simplify(zval(base) + 1)
            continue
        w = a if isinstance(a, SVar) else a.x
        if p.branch(zval(i) < zval(base) + p.slen[w.id]):
            k = z3.simplify(zval(i) - base)
            if y is not None:
                return level_ref(p, p.glevels[y.id], k)
            if isinstance(a, FApp):
                k = z3.simplify(p.slen[w.id] - 1 - k)
            x, hi, lo = p.gpreds[w.id]
            G = grid_of(p)
            c = below(p, G.T, x) if G else None
            if c is None:
                raise Unsupported('position of the predecessor')
            return prev_ref(p, G, c[0], z3.simplify(zval(hi) - k))
        base = z3.simplify(zval(base) + p.slen[w.id])
    raise Infeasible()


def delitem(I, o, i):
    p = I.p
    if 'gnodes' not in p.__dict__ or not isinstance(o, Ref) or I.cls_of(o) != 'list' or not is_int(i):
        return NotImplemented
    s = p.norm(I.lst(o))
    y = _special(p, s, 'level')
    if y is None:
        return NotImplemented
    n = p.length(s)
    if not p.branch(z3.And(zval(i) < zval(n), zval(i) >= -zval(n))):
        raise PyRaise('IndexError', 'list index')
    if not p.entails(z3.Or(zval(i) == zval(n) - 1, zval(i) == -1)):
        p.fail('a level other than the top one is deleted')
    if isinstance(s.atoms[-1], Unit):
        I.set_lst(o, Seq(s.atoms[:-1]))
        return None
    X = p.fresh_seq('level')
    p.glevels[X.atoms[0].id] = p.glevels[y.id]
    p.assume(p.slen[X.atoms[0].id] == zval(n) - 1)
    I.set_lst(o, X)
    return None


def install(R):
    R.hook('getitem')(getitem)
    R.hook('delitem')(delitem)
