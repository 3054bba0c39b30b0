"""Tries: strings, dictionaries of child nodes, tries and tries with a hole.

A snapshot TV of a subtree is a mathematical object: its label (the string on its node; None at the root), the set of
strings accepted below it (a predicate on strings, known at the strings asked for), its number of nodes, and, once it is
opened, whether its node ends a word and the snapshots of its children as a sequence.  CT is a snapshot of a trie with
one subtree cut out: the path from the root to the hole, the label of the hole, what is accepted elsewhere, the number
of nodes elsewhere.  Heap predicates TSub and TCtx tie references to snapshots.

What every node satisfies: labels are not empty (one character long in a plain trie), a child is stored under the
first character of its label, its parent link is right, and every node but the root ends a word or has a child."""
import z3
from .state import *
from .heap import *
from .exec import *
from .views import SStr

STR = z3.StringSort()
NIL = z3.StringVal('')
STRIP = z3.Function('strip', STR, STR)
NODE = 'TrieNode'
ANY = object()
Len = z3.Length


# ---- strings --------------------------------------------------------------------------------------------------
def is_str(v):
    return isinstance(v, (str, SStr))


def sterm(v):
    return v.t if isinstance(v, SStr) else z3.StringVal(v)


def parts(t):
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return [x for c in t.children() for x in parts(c)]
    return [] if t.eq(NIL) else [t]


def cat(*ts):
    xs = [x for t in ts for x in parts(t)]
    return NIL if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)


def memo(p, key, f):
    d = p.__dict__.setdefault('smemo', {})
    if key not in d:
        d[key] = f()
    return d[key]


def fresh_str(p, base='s'):
    return z3.String(p.name(base))


def head(p, s):
    """(first character, rest) of a string that is not empty"""
    xs = parts(s)
    one = p.__dict__.setdefault('singles', set())
    if xs and xs[0].get_id() in one:
        return xs[0], cat(*xs[1:])

    def make():
        h, t = fresh_str(p, 'ch'), fresh_str(p, 'tl')
        p.keep.append((s, h, t))
        p.assume(z3.And(s == z3.Concat(h, t), Len(h) == 1))
        one.add(h.get_id())
        return h, t
    return memo(p, ('head', s.get_id()), make)


def known_split(p, s, xs):
    """s == concatenation of xs"""
    p.__dict__.setdefault('splits', {}).setdefault(s.get_id(), []).append((s, xs))
    p.keep.append(s)


def splits(p, s):
    return [x for _, x in p.__dict__.get('splits', {}).get(s.get_id(), ())]


def starts(p, s, l):
    """decides whether s starts with l; the rest"""
    for y in parts(l):
        ok, s = starts1(p, s, y)
        if not ok:
            return False, None
    return True, s


def starts1(p, s, l):
    xs = parts(s)
    if xs and xs[0].eq(l):
        return True, cat(*xs[1:])
    mine = p.__dict__.setdefault('rests', {}).setdefault(s.get_id(), [])
    for y, r in mine:
        for d in ((y,), *splits(p, y)):
            if d[0].eq(l):
                return True, cat(*d[1:], r)
    for d in splits(p, l):
        return starts(p, s, cat(*d))
    if p.leaf:
        if xs and splits(p, xs[0]):
            return starts1(p, cat(*splits(p, xs[0])[0], *xs[1:]), l)
        a, b = known_head(p, s), known_head(p, l)
        if b and not a:
            if p.branch(s == NIL):
                return False, None
            a = head(p, s)
        elif a and not b:
            if p.branch(l == NIL):
                return True, s
            b = head(p, l)
        if a and b and not (a[0].eq(s) or b[0].eq(l) and b[0].eq(a[0])):
            ok, r = starts(p, a[1], b[1]) if p.branch(a[0] == b[0]) else (False, None)
            p.keep.append((s, l, r))
            p.assume(z3.PrefixOf(l, s) if ok else z3.Not(z3.PrefixOf(l, s)))
            if ok:
                p.assume(s == cat(l, r))
                mine.append((l, r))
            return ok, r
    if not p.branch(z3.PrefixOf(l, s)):
        return False, None
    r = fresh_str(p, 'rest')
    if p.leaf and len(xs) == 1:
        known_split(p, s, [l, r])
    p.keep.append((s, l, r))
    p.assume(s == cat(l, r))
    mine.append((l, r))
    for x, d in [e for es in p.__dict__.get('splits', {}).values() for e in es]:
        if d[0].eq(l):
            p.assume(z3.PrefixOf(x, s) == z3.PrefixOf(cat(*d[1:]), r))      # x == l + .., s == l + r
    return True, r


def known_head(p, s):
    xs = parts(s)
    if xs and (xs[0].get_id() in p.__dict__.get('singles', ()) or ('head', s.get_id()) in p.__dict__.get('smemo', ())):
        return head(p, s)
    return None


def split_str(p, s, k):
    """s == a + b, |a| == k (0 <= k <= |s| holds)"""
    k = z3.simplify(zval(k))
    if z3.is_int_value(k) and k.as_long() == 0:
        return NIL, s
    for xs in [parts(s)] + splits(p, s):
        for i in range(1, len(xs) + 1):
            if p.entails(sum([Len(x) for x in xs[:i]], z3.IntVal(0)) == k):
                return cat(*xs[:i]), cat(*xs[i:])

    def make():
        a, b = fresh_str(p, 'left'), fresh_str(p, 'right')
        p.keep.append((s, k, a, b))
        p.assume(z3.And(s == z3.Concat(a, b), Len(a) == k))
        known_split(p, s, [a, b])
        return a, b
    return memo(p, ('split', s.get_id(), k.get_id()), make)


def char_at(I, s, i):
    p = I.p
    n = Len(s)
    if p.branch(I.num_cmp('lt', i, 0)):
        i = i + n
    if not p.branch(I.and_(I.num_cmp('ge', i, 0), I.num_cmp('lt', i, n))):
        raise PyRaise('IndexError', 'string index')
    if p.entails(zval(i) == 0):
        return SStr(head(p, s)[0])
    return SStr(head(p, split_str(p, s, i)[1])[0])


def str_slice(I, s, sl):
    p = I.p
    if sl.step is not None and sl.step != 1:
        raise Unsupported('step of a string slice')
    n = Len(s)

    def clamp(x, default):
        if x is None:
            return default
        if not is_int(x):
            raise PyRaise('TypeError', 'slice')
        if p.branch(I.num_cmp('lt', x, 0)):
            x = x + n
            return z3.IntVal(0) if p.branch(I.num_cmp('lt', x, 0)) else x
        return n if p.branch(I.num_cmp('gt', x, n)) else x
    lo, hi = clamp(sl.lo, z3.IntVal(0)), clamp(sl.hi, n)
    if sl.lo is None:
        return s if sl.hi is None else split_str(p, s, hi)[0]
    if sl.hi is None:
        return split_str(p, s, lo)[1]
    if not p.branch(I.num_cmp('lt', lo, hi)):
        return NIL
    b = split_str(p, s, lo)[1]
    return split_str(p, b, z3.simplify(zval(hi) - zval(lo)))[0]


class VStr:
    """iteration over the characters of a string"""
    def __init__(self, t):
        self.t = t


# ---- snapshots ------------------------------------------------------------------------------------------------
def on(p):
    if 'tries' not in p.__dict__:
        p.tries = True
        p.single = False
        p.leaf = False
        p.aims = 'QP'
        p.P = z3.String('P')
        p.solver.set('timeout', 300)
        p.nokeys = {}
        p.Q = z3.String('Q')
        p.subst_hooks.append(inherit)


class TV:
    """snapshot of a subtree"""
    def __init__(self, p, ref, label, dead=False):
        self.ref, self.label, self.dead = ref, label, dead
        self.node, self.q, self.memo, self.w = None, [], {}, None
        self.cq, self.cmemo = [], {}
        i = p.name('')
        self.fn = z3.Function('acc' + i, STR, z3.BoolSort())
        self.cfn = z3.Function('cnt' + i, STR, z3.IntSort())
        self.size, self.lv = z3.Int('nodes' + i), z3.Int('leaves' + i)
        self.schema = None
        p.assume(z3.And(self.size >= 1, self.lv >= 1))
        if label is not None:
            label_facts(p, label)

    def __repr__(self):
        return 'trie%r%s' % (self.ref, '' if self.node is None else self.node)


def label_facts(p, l):
    if p.single:
        p.assume(Len(l) == 1)
        p.__dict__.setdefault('singles', set()).add(l.get_id())
        p.keep.append(l)
    else:
        p.assume(Len(l) >= 1)


class Ent:
    """an entry of a dictionary whose node is described elsewhere"""
    def __init__(self, key, ref):
        self.key, self.ref = key, ref

    def __repr__(self):
        return '%s->%r' % (self.key, self.ref)


def key_of(p, tv):
    return head(p, tv.label)[0]


def fresh_child(p):
    return TV(p, p.fresh_ref(NODE, nonnull=True), fresh_str(p, 'label'))


FRESH['tn'] = fresh_child
FRESH['sstr'] = lambda p: SStr(fresh_str(p))


def forbid(p, s, k):
    """no child in s is stored under k"""
    for a in p.norm(s).atoms:
        if isinstance(a, SVar):
            ks = p.nokeys.setdefault(a.id, [])
            if any(k.eq(x) for x in ks):
                continue
            ks.append(k)
            for key, (fn, args, c) in list(p.smeas.get(a.id, {}).items()):
                if fn in ('tacc', 'tcnt'):
                    p.assume(z3.Implies(z3.PrefixOf(k, args[0]), c == 0))
        elif isinstance(a, Unit):
            if isinstance(a.v, Ent):
                p.assume(a.v.key != k)
            else:
                p.assume(z3.Not(z3.PrefixOf(k, a.v.label)))
        else:
            raise Unsupported('dictionary content')


def inherit(p, v):
    for k in p.nokeys.get(v.id, ()):
        forbid(p, p.ssub[v.id], k)


def lacks(p, s, k):
    """formula: no child in s is stored under k (only what is recorded)"""
    out = []
    for a in p.norm(s).atoms:
        if isinstance(a, SVar):
            out.append(z3.Or(zval(p.slen[a.id]) == 0, *[k == x for x in p.nokeys.get(a.id, ())]))
        elif isinstance(a.v, Ent):
            out.append(a.v.key != k)
        else:
            out.append(z3.Not(z3.PrefixOf(k, a.v.label)))
    return z3.And(*out) if out else z3.BoolVal(True)


def add_(x, y):
    return z3.simplify(zval(x) + zval(y))


def unit_acc(p, args, tv):
    ok, r = starts(p, args[0], tv.label)
    if not ok:
        return z3.IntVal(0)
    return z3.If(acc(p, tv, r), z3.IntVal(1), z3.IntVal(0))


SEQ_MEASURE['tacc'] = (z3.IntSort, unit_acc, add_, z3.IntVal(0))
SEQ_MEASURE['tsize'] = (z3.IntSort, lambda p, a, tv: tv.size, add_, z3.IntVal(0))
SEQ_MEASURE['tcnt'] = (z3.IntSort, lambda p, a, tv: unit_cnt(p, a, tv), add_, z3.IntVal(0))
SEQ_MEASURE['tlv'] = (z3.IntSort, lambda p, a, tv: tv.lv, add_, z3.IntVal(0))
SEQ_MEASURE['cntw'] = (z3.IntSort, lambda p, a, v: z3.If(sterm(v) == a[0], z3.IntVal(1), z3.IntVal(0)), add_, z3.IntVal(0))
SEQ_MEASURE['join'] = (z3.StringSort, lambda p, a, v: sterm(v), lambda x, y: cat(x, y), NIL)
ORDERED.add('join')
SEQ_HOM['mapref'] = (lambda p, a, v: unit(v.ref), False)
MEASURE_LINK['tacc'] = lambda p, c, a, args: [c >= 0, c <= 1, z3.Implies(args[0] == NIL, c == 0)] + \
    [z3.Implies(z3.PrefixOf(k, args[0]), c == 0) for k in p.nokeys.get(a.id, ())] + \
    [z3.Implies(args[0] == x[0], c == d) for fn, x, d in p.smeas[a.id].values() if fn == 'tacc' and not d.eq(c)]
MEASURE_LINK['tcnt'] = lambda p, c, a, args: [c >= 0] + [z3.Implies(z3.PrefixOf(k, args[0]), c == 0) for k in p.nokeys.get(a.id, ())]
MEASURE_LINK['tlv'] = lambda p, c, a, args: [c >= p.slen[a.id]]
MEASURE_LINK['tsize'] = lambda p, c, a, args: [c >= p.slen[a.id]]


def acc(p, tv, s):
    """is s accepted below tv?"""
    key = s.get_id()
    if key in tv.memo:
        return tv.memo[key]
    p.keep.append(s)
    if tv.node is None:
        tv.q.append(s)
        r = tv.fn(s)
    else:
        r = node_acc(p, tv.node, s)
    tv.memo[key] = r
    if tv.schema is not None:
        p.assume(r == tv.schema(s))
    return r


# in leaf mode a string is accepted when its path ends at a leaf, whatever the marks say; the leaves are counted
def unit_cnt(p, args, tv):
    s = args[0]
    ok, r = starts(p, s, tv.label)
    if ok:
        return cnt(p, tv, r)
    return tv.lv if starts(p, tv.label, s)[0] else z3.IntVal(0)


def cnt(p, tv, s):
    """number of leaves below tv whose path starts with s"""
    if p.branch(s == NIL):
        return tv.lv
    key = s.get_id()
    if key not in tv.cmemo:
        p.keep.append(s)
        if tv.node is None:
            tv.cq.append(s)
            tv.cmemo[key] = tv.cfn(s)
        else:
            tv.cmemo[key] = node_cnt(p, tv.node, s)
    return tv.cmemo[key]


def node_cnt(p, node, s):
    if node[0] == 'n':
        return p.measure('tcnt', (s,), node[2])
    _, C, sub = node
    ok, r = starts(p, s, C.P)
    if ok:
        return cnt(p, sub, r)
    e = ccnt(p, C, s)
    return add_(e, sub.lv) if p.branch(z3.PrefixOf(s, C.P)) else e


def ccnt(p, C, s):
    """number of leaves elsewhere whose path starts with s (not NIL), which does not start with the path to the hole"""
    key = s.get_id()
    if key not in C.cmemo:
        p.keep.append(s)
        if C.node is None:
            C.cq.append(s)
            C.cmemo[key] = C.cfn(s)
        else:
            C.cmemo[key] = ctx_cnt(p, C, s)
    return C.cmemo[key]


def ctx_cnt(p, C, s):
    _, F, C1 = C.node
    ok, r = starts(p, s, NIL if C1 is None else C1.P)
    if ok:
        if p.branch(r == NIL):
            return p.measure('tlv', (), F)
        return p.measure('tcnt', (r,), F)
    e = ccnt(p, C1, s)
    return add_(e, p.measure('tlv', (), F)) if starts(p, C1.P, s)[0] else e


def node_acc(p, node, s):
    if node[0] == 'plug':
        _, C, sub = node
        ok, r = starts(p, s, C.P)
        return acc(p, sub, r) if ok else cacc(p, C, s)
    _, isw, F = node
    if p.branch(s == NIL):
        return zval(isw)
    m = p.measure('tacc', (s,), F)
    p.assume(z3.And(m >= 0, m <= 1))          # keys of a dictionary are distinct
    return m == 1


def set_node(p, tv, node):
    tv.node = node
    p.assume(tv.size == node_size(p, node))
    if node[0] == 'n':
        m = zval(p.measure('tlv', (), node[2]))
        p.assume(tv.lv == z3.If(m == 0, z3.IntVal(1), m))
    for s in tv.q:
        p.assume(tv.fn(s) == node_acc(p, node, s))
    for s in tv.cq:
        p.assume(tv.cfn(s) == node_cnt(p, node, s))


def node_size(p, node):
    if node[0] == 'plug':
        return add_(node[1].n, node[2].size)
    return z3.simplify(1 + zval(p.measure('tsize', (), node[2])))


def open_tv(p, tv):
    if tv.node is None:
        isw, F = p.fresh_bool('isw'), p.fresh_seq('tn')
        if p.leaf:
            isw = z3.BoolVal(False) if tv.label is None else zval(p.length(F)) == 0
        elif tv.label is not None and not tv.dead:
            p.assume(z3.Or(isw, p.length(F) > 0))
        set_node(p, tv, ('n', isw, F))
    if tv.node[0] != 'n':
        raise Unsupported('a trie with a hole')
    return tv.node


def wit(p, tv):
    """a string accepted below tv (a node other than the root)"""
    if tv.label is None or tv.dead:
        raise Unsupported('the root need not have a word below it')
    if tv.w is None:
        if tv.node is None:
            tv.w = fresh_str(p, 'word')
            p.assume(acc(p, tv, tv.w))
        else:
            _, isw, F = tv.node
            if p.branch(zval(isw)):
                tv.w = NIL
            else:
                c, _ = p.uncons(F)
                tv.w = cat(c.label, wit(p, c))
    return tv.w


def find_word(p, tv, s):
    """a string accepted below tv that starts with s, from what is known; None: not found"""
    if tv.node is None:
        return wit(p, tv) if p.entails(s == NIL) else None
    if tv.node[0] == 'plug':
        _, C, sub = tv.node
        ok, r = starts(p, s, C.P)
        if ok:
            x = find_word(p, sub, r)
            return None if x is None else cat(C.P, x)
        return cat(C.P, wit(p, sub)) if p.entails(z3.PrefixOf(s, C.P)) else None
    if p.branch(s == NIL):
        return wit(p, tv) if tv.label is not None else None
    for a in p.norm(tv.node[2]).atoms:
        if isinstance(a, Unit):
            c = a.v
            if p.entails(z3.PrefixOf(s, c.label)):
                return cat(c.label, wit(p, c))
            if p.entails(z3.PrefixOf(c.label, s)):
                x = find_word(p, c, starts(p, s, c.label)[1])
                return None if x is None else cat(c.label, x)
    return None


class CT:
    """snapshot of a trie without the subtree at a node other than the root"""
    def __init__(self, p, lab):
        i = p.name('')
        self.P, self.n, self.lab = z3.String('path' + i), z3.Int('others' + i), lab
        self.fn = z3.Function('elsewhere' + i, STR, z3.BoolSort())
        self.cfn = z3.Function('cntelse' + i, STR, z3.IntSort())
        self.node, self.q, self.memo = None, [], {}
        self.cq, self.cmemo = [], {}
        p.assume(z3.And(Len(self.P) >= 1, self.n >= 1, Len(lab) <= Len(self.P)))


def cacc(p, C, s):
    """is s, which does not start with the path to the hole, accepted?"""
    key = s.get_id()
    if key not in C.memo:
        p.keep.append(s)
        if C.node is None:
            C.q.append(s)
            C.memo[key] = C.fn(s)
        else:
            C.memo[key] = ctx_acc(p, C, s)
    return C.memo[key]


def ctx_acc(p, C, s):
    isw, F, C1 = C.node
    ok, r = starts(p, s, NIL if C1 is None else C1.P)
    if not ok:
        return cacc(p, C1, s)
    if p.branch(r == NIL):
        return zval(isw)
    m = p.measure('tacc', (r,), F)
    p.assume(z3.And(m >= 0, m <= 1))
    return m == 1


# ---- heap -----------------------------------------------------------------------------------------------------
class TSub:
    kind = 'tsub'

    def __init__(self, ref, tv, par, lock=None):
        self.ref, self.tv, self.par, self.lock = ref, tv, par, lock

    def copy(self):
        return TSub(self.ref, self.tv, self.par, self.lock)

    def __repr__(self):
        return 'sub(%r,%r)' % (self.ref, self.tv)

    def bases(self):
        return [self.ref]

    def normalize(self, p):
        i = p.rep_any(self.ref)
        if i == 0 or i in p.cells or any(c is not self and isinstance(c, TSub) and p.rep_any(c.ref) == i for c in p.chunks):
            raise Infeasible()
        return False

    def expose(self, p, ref):
        if p.rep_any(self.ref) != p.rep_any(ref):
            return False
        _, isw, F = open_tv(p, self.tv)
        p.chunks.remove(self)
        node_cells(p, self.ref, self.tv.label, self.par, isw, F, self.lock)
        return True


def node_cells(p, ref, label, par, isw, F, lock):
    d = p.fresh_ref('dict', nonnull=True)
    l = fresh_str(p, 'rootlabel') if label is None else label
    if p.leaf:
        isw = p.fresh_bool('mark')
    add_cell(p, Cell(ref, NODE, {'_data': SStr(l), '_parent': par, '_children': d, '_is_word': isw}, lock))
    add_cell(p, Cell(d, 'dict', {'seq': F, 'own': ref}, lock))


class TCtx:
    kind = 'tctx'

    def __init__(self, root, C, hole, par, lock=None):
        self.root, self.C, self.hole, self.par, self.lock = root, C, hole, par, lock

    def copy(self):
        return TCtx(self.root, self.C, self.hole, self.par, self.lock)

    def __repr__(self):
        return 'ctx(%r,%r)' % (self.root, self.hole)

    def bases(self):
        return [self.root]

    def normalize(self, p):
        if p.known_eq(self.root, self.hole) is True or p.rep_any(self.root) in p.cells or p.rep_any(self.par) in p.cells:
            raise Infeasible()
        return False

    def expose(self, p, ref):
        if p.rep_any(self.par) != p.rep_any(ref):
            return False
        C = self.C
        top = p.ref_eq(self.par, self.root)
        isw, A, B = p.fresh_bool('isw'), p.fresh_seq('tn'), p.fresh_seq('tn')
        if p.leaf:
            isw = z3.BoolVal(False)
        k = head(p, C.lab)[0]
        forbid(p, A, k)
        forbid(p, B, k)
        p.chunks.remove(self)
        F = A + unit(Ent(k, self.hole)) + B
        n = add_(1, add_(p.measure('tsize', (), A), p.measure('tsize', (), B)))
        if top:
            p.assume(z3.And(C.P == C.lab, C.n == n))
            C1 = None
            node_cells(p, self.par, None, None, isw, F, self.lock)
        else:
            lab = fresh_str(p, 'label')
            label_facts(p, lab)
            C1 = CT(p, lab)
            p.assume(z3.And(C.P == z3.Concat(C1.P, C.lab), C.n == n + C1.n))
            up = p.fresh_ref(NODE, nonnull=True)
            node_cells(p, self.par, lab, up, isw, F, self.lock)
            p.chunks.append(TCtx(self.root, C1, self.par, up, self.lock))
        C.node = (isw, A + B, C1)
        for s in C.q:
            p.assume(C.fn(s) == ctx_acc(p, C, s))
        for s in C.cq:
            p.assume(C.cfn(s) == ctx_cnt(p, C, s))
        p.heap_normalize()
        return True


def own(p, i):
    """the child of rep i leaves the dictionary that holds it"""
    for c in list(p.cells.values()):
        if c.cls != 'dict' or 'seq' not in c.fields:
            continue
        s = p.norm(c.fields['seq'])
        for j, a in enumerate(s.atoms):
            if isinstance(a, Unit) and isinstance(a.v, TV) and p.rep_any(a.v.ref) == i:
                tv = a.v
                c.fields['seq'] = Seq(s.atoms[:j] + (Unit(Ent(key_of(p, tv), tv.ref)),) + s.atoms[j + 1:])
                p.chunks.append(TSub(tv.ref, tv, c.fields['own'], c.lock))
                return True
    return False


def expose(p, ref):
    return own(p, p.rep_any(ref))


def eat(m, ref, par, dead=None, root=False):
    """take the subtree at ref (parent link par) out of the heap: its snapshot"""
    p = m.p
    if not isinstance(ref, Ref) or p.is_null(ref) is not False:
        p.fail('%s: a link does not point to a node' % m.label)

    def parent(x):
        if par is ANY:
            return
        if not (x is None or isinstance(x, Ref)) or not (p.known_eq(x, par) is True or p.ref_eq(x, par)):
            p.fail('%s: a parent link is wrong' % m.label)
    i = p.rep(ref)
    if i not in p.cells:
        own(p, i)
    for c in p.chunks:
        if isinstance(c, TSub) and p.rep(c.ref) == i:
            parent(c.par)
            if c.tv.dead and not (dead is not None and p.known_eq(dead, ref) is True):
                break
            m.take(c.lock)
            p.chunks.remove(c)
            return c.tv
        if isinstance(c, TCtx) and p.rep(c.root) == i:
            parent(None)
            m.take(c.lock)
            p.chunks.remove(c)
            sub = eat(m, c.hole, c.par, dead)
            if not sub.label.eq(c.C.lab):
                p.prove(sub.label == c.C.lab, m.label + ': label of a node')
            tv = TV(p, ref, None)
            set_node(p, tv, ('plug', c.C, sub))
            return tv
    c = find_cell(p, ref)
    if c is None or c.cls != NODE:
        p.fail('%s: a node is not available here' % m.label)
    f = c.fields
    for n in ('_data', '_parent', '_children', '_is_word'):
        if n not in f:
            p.fail('%s: attribute %s is missing' % (m.label, n))
    parent(f['_parent'])
    if not is_str(f['_data']):
        p.fail('%s: a label is not a string' % m.label)
    if not is_boolv(f['_is_word']):
        p.fail('%s: a word mark is not a truth value' % m.label)
    label = None if root else sterm(f['_data'])
    d = f['_children']
    dc = find_cell(p, d) if isinstance(d, Ref) else None
    if dc is None or dc.cls != 'dict':
        p.fail('%s: children of a node are not in a dictionary of its own' % m.label)
    if label is not None:
        p.prove(Len(label) == 1 if p.single else Len(label) >= 1, m.label + ': length of a label')
        if p.single:
            p.__dict__.setdefault('singles', set()).add(label.get_id())
            p.keep.append(label)
    m.take(c.lock)
    m.take(dc.lock)
    del p.cells[p.rep(ref)]
    del p.cells[p.rep(d)]
    out = []
    seq = p.norm(dc.fields['seq'])
    n = p.length(seq)
    for a in seq.atoms:
        if isinstance(a, Unit) and isinstance(a.v, Ent):
            ch = eat(m, a.v.ref, ref, dead)
            p.prove(z3.And(z3.PrefixOf(a.v.key, ch.label), Len(a.v.key) == 1), m.label + ': key of a child')
            for b in seq.atoms:
                if isinstance(b, SVar):
                    forbid(p, Seq((b,)), a.v.key)    # keys of a dictionary are distinct
            out.append(Unit(ch))
        else:
            if dc.fields['own'] is None or p.known_eq(dc.fields['own'], ref) is not True:
                p.fail('%s: a dictionary of children has moved to another node' % m.label)
            out.append(a)
    tv = TV(p, ref, label)
    isw = zval(f['_is_word'])
    if p.leaf:
        isw = z3.BoolVal(False) if root else zval(n) == 0
    elif not root:
        if dead is not None and p.known_eq(dead, ref) is True:
            tv.dead = True
        else:
            p.prove(z3.Or(isw, zval(n) > 0), m.label + ': a node without a word below it')
    set_node(p, tv, ('n', isw, Seq(out)))
    return tv


def find(p, tv, ref, path=NIL):
    """(path, snapshot) of the node ref inside tv"""
    if p.known_eq(tv.ref, ref) is True:
        return path, tv
    if tv.node is None:
        return None
    if tv.node[0] == 'plug':
        return find(p, tv.node[2], ref, cat(path, tv.node[1].P))
    for a in p.norm(tv.node[2]).atoms:
        if isinstance(a, Unit):
            r = find(p, a.v, ref, cat(path, a.v.label))
            if r is not None:
                return r
    return None


def trie(m, root, hole=None, dead=False, of=None):
    """the trie at root, with the node hole singled out (dead: it may be without a word below it):
    (snapshot of the whole, path to the hole, snapshot of the subtree there).
    of: snapshot of the whole, when it is known (producing)"""
    p = m.p
    if m.producing:
        lock = m.op_lock()
        at_root = hole is None or p.known_eq(hole, root)
        if at_root is None:
            at_root = p.choice()
        p.nonnull_ref(root)
        if p.refcls[p.rep(root)] is None:
            p.refcls[p.rep(root)] = NODE
        if at_root:
            if hole is not None:
                p.union(hole, root)
            V = of or TV(p, root, None)
            p.chunks.append(TSub(root, V, None, lock))
            normalize_heap(p)
            return V, NIL, V
        p.nonnull_ref(hole)
        p.set_neq(hole, root)
        up = p.fresh_ref(NODE, nonnull=True)
        sub = TV(p, hole, fresh_str(p, 'label'), dead)
        C = CT(p, sub.label)
        V = of or TV(p, root, None)
        if V.node is not None:
            raise Unsupported('a trie that is described twice')
        set_node(p, V, ('plug', C, sub))
        p.chunks.append(TCtx(root, C, hole, up, lock))
        p.chunks.append(TSub(hole, sub, up, lock))
        normalize_heap(p)
        return V, C.P, sub
    m.begin_op()
    V = eat(m, root, None, hole if dead else None, True)
    m.end_op()
    if hole is None:
        return V, NIL, V
    r = find(p, V, hole)
    if r is None:
        p.fail('%s: the node is not part of the trie' % m.label)
    return V, r[0], r[1]


def words_seen(p, V, w):
    """the strings held below the nodes of V that have been looked at, none of which begins with w or the other way round"""
    if V.node is None:
        return
    path, sub = (V.node[1].P, V.node[2]) if V.node[0] == 'plug' else (NIL, V)
    kids = [] if sub.node is None else [a.v for a in p.norm(sub.node[2]).atoms if isinstance(a, Unit) and isinstance(a.v, TV)]
    ys = [cat(path, tv.label, wit(p, tv)) for tv in kids]
    if sub.label is not None:
        if sub.node is not None:
            ys.append(path)
        if not kids and (sub.node is None or p.entails(z3.PrefixOf(w, path))):
            ys.append(cat(path, wit(p, sub)))
    for y in ys:
        p.assume(z3.Implies(acc(p, V, y), z3.Not(z3.Or(z3.PrefixOf(y, w), z3.PrefixOf(w, y)))))


def subtrie(m, ref):
    """the subtree at a node other than the root, looked at"""
    p = m.p
    if m.producing:
        V = TV(p, ref, fresh_str(p, 'label'))
        p.chunks.append(TSub(ref, V, p.fresh_ref(NODE, nonnull=True), m.op_lock()))
        normalize_heap(p)
        return V
    m.begin_op()
    V = eat(m, ref, ANY)
    m.end_op()
    if V.label is None:
        p.fail('%s: precondition: a node other than the root' % m.label)
    return V


# ---- dictionaries -----------------------------------------------------------------------------------------------
class DictView:
    def __init__(self, r, what):
        self.r, self.what = r, what


def lookup(p, d, k):
    """(position, entry) of key k, or None"""
    c = find_cell(p, d)
    s = p.norm(c.fields['seq'])
    for j, a in enumerate(s.atoms):
        if isinstance(a, Unit):
            ky = a.v.key if isinstance(a.v, Ent) else key_of(p, a.v)
            if p.branch(ky == k):
                if isinstance(a.v, TV):
                    own(p, p.rep_any(a.v.ref))
                return j, p.norm(find_cell(p, d).fields['seq']).atoms[j].v
    for a in s.atoms:
        if isinstance(a, SVar):
            out = z3.Or(zval(p.slen[a.id]) == 0, *[k == x for x in p.nokeys.get(a.id, ())])
            if p.entails(out):
                continue
            if p.choice():
                bind_child(p, a, s, k)
                p.assume(z3.Not(out))
                return lookup(p, d, k)
    forbid(p, Seq([a for a in s.atoms if isinstance(a, SVar)]), k)
    return None


def bind_child(p, a, s, k):
    """one child in the variable a of s is stored under k"""
    x, y, tv = p.fresh_seq('tn'), p.fresh_seq('tn'), fresh_child(p)
    h = key_of(p, tv)
    p.assume(h == k)
    p.seq_bind(a, x + unit(tv) + y)
    for b in p.norm(s).atoms:
        if isinstance(b, SVar):
            forbid(p, Seq((b,)), k)
    return tv


def closed(m_label, I, ref):
    """current snapshot of the node ref; nothing changes"""
    from .contracts import Mode
    p = I.p
    snap = snapshot(p)
    tv = eat(Mode(I, False, m_label), ref, ANY)
    restore(p, snap)
    return tv


def install(R):
    from . import views
    views.install(R)
    if getattr(R, 'tries_installed', False):
        return
    R.tries_installed = True

    def dcell(I, o, misc=False):
        p = I.p
        if isinstance(o, Ref) and p.is_null(o) is False and p.refcls[p.rep(o)] == 'dict':
            c = find_cell(p, o)
            if c is None or not misc and 'seq' not in c.fields:
                raise Unsupported('content of a dictionary unknown')
            return c
        return None

    def items(I, o):
        """snapshots of the children in a dictionary"""
        p = I.p
        out = []
        for a in p.norm(dcell(I, o).fields['seq']).atoms:
            out.append(Unit(closed('children', I, a.v.ref)) if isinstance(a, Unit) and isinstance(a.v, Ent) else a)
        return Seq(out)

    @R.hook('dict')
    def dict_(I, e, fr):
        if 'tries' not in I.p.__dict__ or e.keys:
            return NotImplemented
        return new_dict(I)

    def new_dict(I):
        r = I.p.fresh_ref('dict', nonnull=True)
        add_cell(I.p, Cell(r, 'dict', {'seq': EMPTY, 'own': None}, new=True))
        return r

    @R.hook('dict_truth')
    def dict_truth(I, d):
        c = dcell(I, d)
        return NotImplemented if c is None else I.p.as_z3int(I.p.length(c.fields['seq'])) != 0

    @R.hook('dict_eq')
    def dict_eq(I, a, b):
        x, y = dcell(I, a), dcell(I, b)
        if x is None or y is None:
            return False
        for u, w in ((x, y), (y, x)):
            if not I.p.norm(w.fields['seq']).atoms:
                return I.p.as_z3int(I.p.length(u.fields['seq'])) == 0
        raise Unsupported('comparison of dictionaries')

    @R.hook('binop')
    def binop(I, op, a, b):
        if op == 'Add' and is_str(a) and is_str(b) and (isinstance(a, SStr) or isinstance(b, SStr)):
            return SStr(cat(sterm(a), sterm(b)))
        return NotImplemented

    @R.hook('getitem')
    def getitem(I, o, i):
        p = I.p
        if isinstance(o, SStr) or isinstance(o, str) and (isinstance(i, VSlice) or isinstance(i, z3.ArithRef)):
            if 'tries' not in p.__dict__:
                return NotImplemented
            if isinstance(i, VSlice):
                return SStr(str_slice(I, sterm(o), i))
            if not is_int(i):
                raise PyRaise('TypeError', 'string indices')
            return char_at(I, sterm(o), i)
        c = dcell(I, o)
        if c is None:
            return NotImplemented
        if not is_str(i):
            raise Unsupported('key %r' % (i,))
        x = lookup(p, o, sterm(i))
        if x is None:
            raise PyRaise('KeyError', 'no such child')
        return x[1].ref

    @R.hook('setitem')
    def setitem(I, o, i, v):
        c = dcell(I, o, is_int(i))
        if c is None:
            return NotImplemented
        if is_int(i) and ('misc' in c.fields or c.fields['seq'] is EMPTY) and I.p.leaf:
            I.write(o, 'misc', True)            # positions -> leaves: nothing is said about it
            c.fields.pop('seq', None)
            return None
        if not is_str(i) or not isinstance(v, Ref):
            raise Unsupported('entry %r: %r of a dictionary' % (i, v))
        p = I.p
        k = sterm(i)
        x = lookup(p, o, k)
        s = p.norm(dcell(I, o).fields['seq']).atoms
        if x is None:
            I.write(o, 'seq', Seq(s + (Unit(Ent(k, v)),)))
        else:
            I.write(o, 'seq', Seq(s[:x[0]] + (Unit(Ent(x[1].key, v)),) + s[x[0] + 1:]))
        return None

    def remove(I, o, i):
        if not is_str(i):
            raise Unsupported('key %r' % (i,))
        p = I.p
        x = lookup(p, o, sterm(i))
        if x is None:
            return None
        s = p.norm(dcell(I, o).fields['seq']).atoms
        I.write(o, 'seq', Seq(s[:x[0]] + s[x[0] + 1:]))
        forbid(p, Seq([a for a in s if isinstance(a, SVar)]), x[1].key)
        return x[1].ref

    @R.hook('delitem')
    def delitem(I, o, i):
        if dcell(I, o) is None:
            return NotImplemented
        if remove(I, o, i) is None:
            raise PyRaise('KeyError', 'no such child')
        return None

    @R.hook('contains')
    def contains(I, o, x):
        p = I.p
        if dcell(I, o) is not None and is_str(x):
            return lookup(p, o, sterm(x)) is not None
        if isinstance(o, DictView) and o.what == 'keys' and is_str(x):
            return lookup(p, o.r, sterm(x)) is not None
        return NotImplemented

    @R.hook('iterate')
    def iterate(I, v):
        p = I.p
        if isinstance(v, SStr):
            return VStr(v.t)
        if isinstance(v, VStr):
            return v
        if isinstance(v, DictView) and v.what == 'values':
            src = items(I, v.r)
            return source(VIter(p.hom('mapref', (), src)), src, dcell(I, v.r).fields['own'])
        if isinstance(v, Ref) and p.is_null(v) is False and p.refcls[p.rep(v)] == 'list':
            c = find_cell(p, v)
            if c is not None and 'src' in c.fields:
                a, b = p.norm(c.fields['seq']).atoms, p.hom('mapref', (), c.fields['src'][0]).atoms
                if len(a) == len(b) and all(same_atom(x, y) for x, y in zip(a, b)):
                    return source(VIter(c.fields['seq'], dep=v), *c.fields['src'])
        return NotImplemented

    def source(it, src, owner):
        it.src, it.owner = src, owner
        return it

    @R.hook('builtin')
    def builtin(I, f, args, kw, fr):
        p, n = I.p, f.name
        if 'tries' not in p.__dict__:
            return NotImplemented
        a = args[0] if args else None
        if n == 'len':
            if isinstance(a, SStr):
                return Len(a.t)
            c = dcell(I, a)
            if c is not None:
                return p.length(c.fields['seq'])
            if isinstance(a, DictView):
                return p.length(dcell(I, a.r).fields['seq'])
        if n == 'list' and isinstance(a, (DictView, VIter)):
            it = I.iterate(a)
            if hasattr(it, 'src'):
                r = I.new_list(it.seq)
                find_cell(p, r).fields['src'] = (it.src, it.owner)
                return r
        if n == 'dict' and not args and not kw:
            return new_dict(I)
        if n == 'dict.values':
            return DictView(f.recv, 'values')
        if n == 'dict.keys':
            return DictView(f.recv, 'keys')
        if n == 'dict.get' and is_str(a):
            x = lookup(p, f.recv, sterm(a))
            return x[1].ref if x is not None else args[1] if len(args) > 1 else None
        if n == 'dict.pop' and is_str(a):
            x = remove(I, f.recv, a)
            if x is None:
                if len(args) > 1:
                    return args[1]
                raise PyRaise('KeyError', 'pop')
            return x
        if n.startswith('str.') and is_str(f.recv):
            m, t = n[4:], f.recv
            if m == 'strip' and isinstance(t, SStr) and not args:
                r = STRIP(t.t)
                p.assume(Len(r) <= Len(t.t))
                return SStr(r)
            if m == 'isspace' and isinstance(t, SStr):
                r = STRIP(t.t)
                p.assume(Len(r) <= Len(t.t))
                return z3.And(r == NIL, t.t != NIL)
            if m in ('startswith', 'endswith') and is_str(a) and len(args) == 1 and (isinstance(t, SStr) or isinstance(a, SStr)):
                return (z3.PrefixOf if m == 'startswith' else z3.SuffixOf)(sterm(a), sterm(t))
            if m == 'join' and t == '':
                it = I.iterate(a)
                if isinstance(it, VIter):
                    return SStr(p.measure('join', (), it.seq))
        return NotImplemented
