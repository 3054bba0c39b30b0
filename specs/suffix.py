"""Contracts of the suffix trie: what it stores (every suffix of the word, marked off by its position), the questions
for substrings and for the number of occurrences, and the suffix array.

The word is W, its suffix from position k on BASE(k); the trie holds SFX(k) = BASE(k) + '$ ⟶ ' + the digits of k for every k
from 0 to |W|, a string being held when its path ends at a leaf.  Preconditions: W is not empty and its characters sort
after '$'; what is asked for has no '$'.  OCC(k) counts the positions before k at which the pattern P (arbitrary, not
empty) occurs."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv import tries as T
from pv.tries import acc, cat, cnt, fresh_str, is_str, sterm, wit, split_str, SStr, NIL, STR, Len

P = ('C22', 'C24', 'C25')
I_ = z3.IntSort()
BASE, SUF, SFX, DIGITS = (z3.Function(x, I_, STR) for x in ('BASE', 'SUF', 'SFX', 'DIGITS'))
FD = z3.Function('firstdollar', STR, I_)
DOL = z3.Function('dollar', STR, z3.BoolSort())
OCC = z3.Function('OCC', I_, I_)
RK = z3.Function('RK', I_, z3.RealSort())
K = z3.Int('ghost_position')
SEP = z3.StringVal('$ ⟶ ')
ANYWORD = 'sstr|none|extra|int|opaque'


def fresh_entry(p):
    k = p.fresh_int('pos')
    p.assume(z3.And(k >= 0, k <= Len(p.W)))
    return (k, SStr(SUF(k)))


FRESH['sfx'] = fresh_entry


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zmax(a, b):
    return z3.If(a >= b, a, b)


LOW, HIGH = z3.RealVal(-1), z3.RealVal(2)          # RK lies between 0 and 1
ONE, ZERO = z3.IntVal(1), z3.IntVal(0)


def ordered(key):
    return ((z3.RealSort, z3.RealSort, z3.BoolSort), lambda p, a, v: (RK(key(v)), RK(key(v)), z3.BoolVal(True)),
            lambda a, b: (zmin(a[0], b[0]), zmax(a[1], b[1]), z3.And(a[2], b[2], a[1] <= b[0])), (HIGH, LOW, z3.BoolVal(True)))


def ord_facts(p, c, a, args):
    return [z3.If(p.slen[a.id] == 0, z3.And(c[0] == HIGH, c[1] == LOW, c[2]), z3.And(LOW < c[0], c[0] <= c[1], c[1] < HIGH))]


def count(key):
    return (z3.IntSort, lambda p, a, v: z3.If(zval(key(v)) == a[0], ONE, ZERO), lambda x, y: z3.simplify(zval(x) + zval(y)), ZERO)


SEQ_MEASURE['sford'], SEQ_MEASURE['siord'] = ordered(lambda v: zval(v[0])), ordered(zval)
MEASURE_FACT['sford'] = MEASURE_FACT['siord'] = ord_facts
ORDERED.update(('sford', 'siord'))
SEQ_MEASURE['cntsf'], SEQ_MEASURE['cntsi'] = count(lambda v: v[0]), count(lambda v: v)


def position(p, k):
    """what holds for the suffix at position k, 0 <= k <= |W|"""
    k = z3.simplify(zval(k))
    if k.get_id() in p.__dict__.setdefault('positions', {}):
        return p.positions[k.get_id()]
    a, b = split_str(p, p.W, k)
    p.keep.append((k, a, b))
    p.positions[k.get_id()] = b
    n = Len(p.W)
    x = cat(b, SEP, DIGITS(k))
    p.assume(z3.And(BASE(k) == b, Len(b) == n - k, SFX(k) == x, FD(SFX(k)) == n - k, DOL(SFX(k)), z3.Not(DOL(b)),
                    z3.PrefixOf(p.P, SFX(k)) == z3.PrefixOf(p.P, b)))                     # P has no '$'
    p.assume(OCC(k + 1) == OCC(k) + z3.If(z3.PrefixOf(p.P, b), ONE, ZERO))
    T.known_split(p, p.W, [a, b])
    return b


def held(p, i, s):
    """s is one of the strings SFX(0) .. SFX(i - 1)"""
    j = Len(p.W) - FD(s)
    return z3.And(DOL(s), j >= 0, j < i, s == SFX(j))


def same_dollar(p, a, b):
    """lemma about strings: one that has a '$' and what it is the beginning of have their first '$' at the same place"""
    p.assume(z3.Implies(z3.And(z3.PrefixOf(a, b), DOL(a)), z3.And(DOL(b), FD(a) == FD(b))))


def build(R):
    T.install(R)

    def me(c):
        p = c.p
        T.on(p)
        if not p.leaf:
            p.leaf, p.single, p.whole, p.W = True, False, None, z3.String('W')
            p.assume(z3.And(p.P != NIL, z3.Not(DOL(p.W)), OCC(0) == 0, Len(p.W) >= 1))
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = p.fresh_ref('SuffixTrie', nonnull=True)
        return c.locs['self']

    def junk(m):
        r = m.p.fresh_ref('dict', nonnull=True)
        return r

    def rep(m, s, i):
        """the suffix trie with the first i suffixes in it"""
        p = m.p
        i = z3.simplify(zval(i))
        f = m.cell(s, 'SuffixTrie', _word=lambda m: SStr(p.W), _rt=lambda m: p.fresh_ref('RadixTrie', nonnull=True),
                   _leaf_nodes=junk, _suffix_array=lambda m: p.fresh_ref('list', nonnull=True))
        if not (is_str(f['_word']) and isinstance(f['_rt'], Ref) and isinstance(f['_suffix_array'], Ref) and isinstance(f['_leaf_nodes'], Ref)):
            p.fail(m.label + ': an attribute has another kind of value')
        if not m.producing:
            m.p.prove(sterm(f['_word']) == p.W, m.label + ': the word')
        m.cell(f['_leaf_nodes'], 'dict', **({'misc': lambda m: True} if m.producing else {}))
        h = m.cell(f['_rt'], 'RadixTrie', _root='ref', _nodes_count='int')
        if m.producing:
            position(p, i if p.entails(i <= Len(p.W)) else Len(p.W))
        V, _, _ = T.trie(m, h['_root'])
        if m.producing:
            V.schema = lambda s: held(p, i, s)
            p.whole = V
        m.fact(V.size == zval(h['_nodes_count']))
        if 'Q' in p.aims:
            m.fact(acc(p, V, p.Q) == held(p, i, p.Q))
        if 'P' in p.aims:
            m.fact(cnt(p, V, p.P) == OCC(i))
        S = m.list_cell(f['_suffix_array'], 'sfx')
        if not m.producing:
            for a in p.norm(S).atoms:
                if isinstance(a, Unit):
                    if not (isinstance(a.v, tuple) and len(a.v) == 2 and is_int(a.v[0]) and is_str(a.v[1])):
                        p.fail('%s: entry %r of the suffix array' % (m.label, a.v))
                    k, v = zval(a.v[0]), sterm(a.v[1])
                    p.prove(z3.And(k >= 0, z3.If(k < Len(p.W), v == BASE(k), z3.And(k == Len(p.W), z3.Or(v == NIL, v == z3.StringVal('$'))))),
                            m.label + ': entry of the suffix array')
        m.fact(zval(p.measure('cntsf', (K,), S)) == z3.If(z3.And(K >= 0, K < i), ONE, ZERO))
        return V, S

    def whole(c, tracked=True):
        s = me(c)
        if c.proof:
            c.p.aims = 'QP' if tracked == 'both' else 'P' if tracked else ''
        return rep(c, s, Len(c.p.W) + 1)

    # ------------------------------------------------------------------ construction
    @R.contract('__init__', ('SuffixTrie',), props=P)
    def init(c):
        s = me(c)
        p = c.p
        w = c.arg('word', ANYWORD)
        c.cell(s, 'SuffixTrie')
        if w is None:
            c.rejects('ValueError')
        if not is_str(w):
            c.rejects('TypeError')
        if c.branch(sterm(w) == NIL):
            c.rejects('ValueError')
        if not c.proof:
            raise Unsupported('construction of a suffix trie')
        p.assume(sterm(w) == p.W)
        p.lemmas = [lambda x, y: (same_dollar(p, x, y), same_dollar(p, y, x))]
        c.locs['word'] = SStr(p.W)
        p.aims = 'Q' if p.choice() else 'P'
        yield
        rep(c, s, Len(p.W) + 1)

    @R.loop_inv('SuffixTrie.__init__', 0)
    def init_loop(L):
        s = L.const('self')
        i = L.loop.idx if L.loop.idx is not None else L.int('idx')
        L.decreases(Len(L.p.W) - zval(i))
        L.fact(z3.And(zval(i) >= 0, zval(i) <= Len(L.p.W)))
        rep(L, s, i)

    # ------------------------------------------------------------------ questions
    @R.contract('has_substring', ('SuffixTrie',), props=P)
    def has_substring(c):
        p = c.p
        c.pure()
        V, _ = whole(c, False)
        w = c.arg('substr', ANYWORD)
        if is_str(w):
            s = sterm(w)
            p.assume(z3.Not(DOL(s)))
        yield
        if not is_str(w):
            c.returns(False)
            return
        if not c.proof:
            raise Unsupported('use of has_substring')
        if not is_boolv(c.result):
            p.fail('%s: result %r is not a truth value' % (c.label, c.result))
        if p.branch(zval(c.result)):
            if p.branch(s == NIL):
                return
            x = getattr(p, 'witness', None)
            if x is None:
                p.fail(c.label + ': a substring is reported that no suffix has')
            acc(p, p.whole, x)
            j = Len(p.W) - FD(x)
            b = position(p, j)
            dollar_free(p, s, b, cat(SEP, DIGITS(z3.simplify(j))))
            p.prove(z3.PrefixOf(s, b), c.label + ': a suffix of the word starts with the substring that is reported')
        else:
            p.prove(s != NIL, c.label + ': the empty string is a substring')
            k = p.fresh_int('any')
            p.assume(z3.And(k >= 0, k <= Len(p.W)))
            b = position(p, k)
            if not p.branch(z3.PrefixOf(s, b)):
                return
            y = cat(b, SEP, DIGITS(k))
            denied(p, s, y)
            acc(p, p.whole, y)
            p.prove(z3.BoolVal(False), c.label + ': a substring of the word is denied')

    def dollar_free(p, s, b, rest):
        """lemma about strings: when s has no '$' and b + '$..' starts with s, b starts with s"""
        p.assume(z3.Implies(z3.And(z3.PrefixOf(s, cat(b, rest)), z3.Not(DOL(s))), z3.PrefixOf(s, b)))

    def denied(p, s, y):
        d = getattr(p, 'denied', None)
        if d is not None and d[1].eq(s):
            p.assume(z3.Implies(z3.PrefixOf(s, y), z3.Not(acc(p, d[0], y))))

    @R.contract('count_pattern_occurrences', ('SuffixTrie',), props=P)
    def occurrences(c):
        p = c.p
        c.pure()
        V, _ = whole(c)
        w = c.arg('pattern', ANYWORD)
        if is_str(w):
            s = sterm(w)
            if not p.branch(s == NIL):
                p.assume(s == p.P)
        yield
        if not is_str(w):
            c.returns(0)
        elif not p.branch(s == NIL):
            c.returns(OCC(z3.simplify(Len(p.W) + 1)))

    # ------------------------------------------------------------------ suffix array
    @R.contract('to_suffix_array', ('SuffixTrie',), props=P)
    def array(c):
        p = c.p
        c.pure()
        V, S = whole(c, False)
        yield
        if not c.proof:
            raise Unsupported('use of to_suffix_array')
        r = c.result
        if not (isinstance(r, Ref) and p.is_null(r) is False and c.I.cls_of(r) == 'list'):
            p.fail('%s: result %r is not a list' % (c.label, r))
        s = c.list_cell(r, 'int')
        p.prove(zval(p.measure('cntsi', (K,), s)) == z3.If(z3.And(K >= 0, K <= Len(p.W)), ONE, ZERO), c.label + ': every position once')
        p.prove(p.measure('siord', (), s)[2], c.label + ': the suffixes are in lexicographic order')

    # ------------------------------------------------------------------ built-ins
    @R.hook('builtin')
    def builtin(I, f, args, kw, fr):
        p, n = I.p, f.name
        if 'W' not in p.__dict__:
            return NotImplemented
        if n == 'str' and len(args) == 1 and is_int(args[0]):
            return SStr(DIGITS(z3.simplify(zval(args[0]))))
        if n == 'str' and len(args) == 1 and is_str(args[0]):
            return args[0]
        if n == 'str.replace' and isinstance(f.recv, SStr) and args == ['$', ''] and f.recv.t.eq(p.W):
            return f.recv
        if n == 'sorted' and len(args) == 1 and set(kw) == {'key'}:
            it = I.iterate(args[0])
            if isinstance(it, VIter) and it.bad is None and kind(p, it.seq) == 'sfx':
                x = fresh_entry(p)
                y = I.call(kw['key'], [x], {}, fr)
                if not (isinstance(y, SStr) and y.t.eq(x[1].t)):
                    raise Unsupported('sorting by %r' % (y,))
                s = p.fresh_seq('sfx')
                p.assume(zval(p.length(s)) == zval(p.length(it.seq)))
                p.assume(zval(p.measure('cntsf', (K,), s)) == zval(p.measure('cntsf', (K,), it.seq)))
                p.assume(p.measure('sford', (), s)[2])
                return I.new_list(s)
        return NotImplemented

    def kind(p, s):
        a = p.norm(s).atoms
        return a[0].kind if len(a) == 1 and isinstance(a[0], SVar) else None

    @R.hook('comp')
    def comp(I, e, fr):
        p = I.p
        if 'W' not in p.__dict__ or len(e.generators) != 1 or e.generators[0].ifs:
            return NotImplemented
        g = e.generators[0]
        it = I.iterate(I.ev(g.iter, fr))
        if not (isinstance(it, VIter) and it.bad is None and kind(p, it.seq) == 'sfx'):
            raise Unsupported('comprehension')
        sub = Frame(fr.fi, fr.selfcls, ChainLocals({}, fr.locals))
        x = fresh_entry(p)
        I.assign(g.target, x, sub)
        y = I.ev(e.elt, sub)
        if not (is_int(y) and zval(y).eq(x[0])):
            raise Unsupported('comprehension giving %r' % (y,))
        s = p.fresh_seq('int')
        p.assume(zval(p.length(s)) == zval(p.length(it.seq)))
        p.assume(zval(p.measure('cntsi', (K,), s)) == zval(p.measure('cntsf', (K,), it.seq)))
        for a, b in zip(p.measure('siord', (), s), p.measure('sford', (), it.seq)):
            p.assume(a == b)
        return s

