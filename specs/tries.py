"""Contracts of the prefix tree and the radix tree.  A trie is described by what it accepts at one arbitrary string Q
(and at the strings an operation asks about), by its number of nodes, and by what every node satisfies (pv/tries.py)."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv import tries as T
from pv.tries import (acc, cnt, cat, forbid, head, is_str, lacks, open_tv, starts, sterm, find, fresh_str, parts, NIL, STRIP, Len)

BOTH = ('Trie', 'RadixTrie')
OF = {'Trie': 'C20', 'RadixTrie': 'C21'}
P = ('C20', 'C21', 'C24', 'C25')
ANYWORD = 'sstr|none|extra|int|opaque'
ONE = z3.IntVal(1)
ZERO = z3.IntVal(0)


def build(R):
    T.install(R)

    def me(c):
        T.on(c.p)
        if not c.p.leaf:
            c.p.single = c.cls == 'Trie'
        elif c.cls != 'RadixTrie' or not c.proof and (c.spec.name + '@leaf', c.cls) not in R.specs:
            raise Unsupported('%s on a trie without word marks' % c.spec.name)
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = c.p.fresh_ref(c.cls, nonnull=True)
        return c.locs['self']

    def head_cell(m, s, cls):
        f = m.cell(s, cls, _root='ref', _nodes_count='int')
        return f['_root'], zval(f['_nodes_count'])

    def rep(c, s=None):
        """the trie: snapshot of its root"""
        root, n = head_cell(c, s or me(c), c.cls)
        V, _, _ = T.trie(c, root)
        c.fact(V.size == n)
        if not c.p.leaf:
            c.fact(z3.Not(acc(c.p, V, NIL)))
        c.root = root
        return V

    def quest(c, V):
        return acc(c.p, V, c.p.Q) if 'Q' in c.p.aims else z3.BoolVal(True)

    def many(c, V):
        return cnt(c.p, V, c.p.P) if c.p.leaf and 'P' in c.p.aims else ZERO

    def one_aim(c):
        """inside a suffix trie what is accepted and what is counted are looked at one after the other"""
        p = c.p
        if p.leaf and c.proof:
            p.aims = p.aim

    # ------------------------------------------------------------------ walking down
    @R.contract('_follow_path', BOTH, props=P)
    def follow(c):
        p = c.p
        s = me(c)
        one_aim(c)
        c.view()
        root, n = head_cell(c, s, c.cls)
        V0, _, _ = T.trie(c, root)
        a0, z0 = quest(c, V0), V0.size
        n0 = many(c, V0)
        w = c.arg('word', 'sstr')
        if not is_str(w):
            p.fail(c.label + ': precondition: a string')
        w = sterm(w)
        yield
        if c.proof:
            r = c.result
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Ref) and is_str(r[1])):
                p.fail('%s: result %r' % (c.label, r))
            node, rem = r[0], sterm(r[1])
        else:
            node, rem = p.fresh_ref(T.NODE, nonnull=True), fresh_str(p, 'rem')
            c.result = (node, SStr(rem))
        root1, n1 = head_cell(c, s, c.cls)
        c.same(root1, root)
        c.fact(n1 == n)
        of = None
        if not c.proof:
            if V0.node is None:
                of = V0
        V, Pa, sub = T.trie(c, root, node, of=of)
        if c.proof:
            p.prove(cat(Pa, rem) == w, c.label + ': the path and the rest make up the word')
            p.prove(z3.And(quest(c, V) == a0, V.size == z0), c.label + ': same trie')
            p.prove(many(c, V) == n0, c.label + ': same leaves')
            if not p.branch(rem == NIL):
                stuck(c, sub, rem)
            return
        p.assume(cat(Pa, rem) == w)
        T.known_split(p, w, parts(Pa) + [rem])
        if of is None:
            p.assume(z3.And(quest(c, V) == a0, V.size == z0, many(c, V) == n0))
        if p.branch(rem == NIL):
            return
        h = head(p, rem)[0]
        F = open_tv(p, sub)[2]
        if p.single or p.choice():
            forbid(p, F, h)
            return
        a = p.norm(F).atoms
        if len(a) != 1 or not isinstance(a[0], SVar):
            raise Unsupported('children already looked at')
        ch = T.bind_child(p, a[0], F, h)
        p.assume(z3.Not(z3.PrefixOf(ch.label, rem)))

    SStr = T.SStr

    def stuck(c, sub, rem):
        p = c.p
        if sub.node is None or sub.node[0] != 'n':
            p.fail(c.label + ': the walk stops although it could go on')
        for a in p.norm(sub.node[2]).atoms:
            if isinstance(a, Unit):
                p.prove(z3.Not(z3.PrefixOf(a.v.label, rem)), c.label + ': the walk stops although it could go on')
            else:
                ks = [zval(p.slen[a.id]) == 0] + [z3.PrefixOf(k, rem) for k in p.nokeys.get(a.id, ())]
                p.prove(z3.Or(*ks), c.label + ': the walk stops although it could go on')

    @R.loop_inv('Trie._follow_path', 0)
    def follow_loop(L):
        p = L.p
        root, n = head_cell(L, L.const('self'), L.fr.selfcls)
        root0, n0 = L.entry_val('cell', lambda: (root, n))
        L.same(root, root0)
        L.fact(n == n0)
        cur = L.ref('curr_node', T.NODE)
        w = L.local('word', is_str, lambda: SStr(fresh_str(p, 'word')))
        V, Pa, sub = T.trie(L, root, cur)
        whole = L.entry_val('word', lambda: cat(Pa, sterm(w)))
        a, z = L.entry_val('acc', lambda: (quest(L, V), V.size))
        L.fact(cat(Pa, sterm(w)) == whole)
        L.fact(z3.And(quest(L, V) == a, V.size == z))
        L.decreases(Len(sterm(w)))
        n = L.entry_val('leaves', lambda: many(L, V))
        L.fact(many(L, V) == n)

    # ------------------------------------------------------------------ questions
    @R.contract('__contains__', BOTH, props=P)
    def contains(c):
        c.pure()
        V = rep(c)
        w = c.arg('word', ANYWORD)
        yield
        c.returns(acc(c.p, V, sterm(w)) if is_str(w) else False)

    @R.contract('has_prefix', BOTH, props=P)
    def has_prefix(c):
        p = c.p
        c.pure()
        me(c)
        if p.leaf and c.proof:
            p.aims = ''
        V = rep(c)
        w = c.arg('prefix', ANYWORD)
        yield
        if not is_str(w):
            c.returns(False)
            return
        if not c.proof:
            s = sterm(w)
            c.result = p.choice()
            if not c.result:
                p.assume(s != NIL)
                p.denied = (V, s)
            elif not p.branch(s == NIL):
                p.witness = fresh_str(p, 'word')
                p.assume(z3.And(z3.PrefixOf(s, p.witness), acc(p, V, p.witness)))
            return
        if not is_boolv(c.result):
            p.fail('%s: result %r is not a truth value' % (c.label, c.result))
        s = sterm(w)
        if p.branch(zval(c.result)):
            if p.branch(s == NIL):
                return
            x = T.find_word(p, V, s)
            if x is None:
                p.fail(c.label + ': a prefix is reported that no word has')
            p.prove(z3.And(z3.PrefixOf(s, x), acc(p, V, x)), c.label + ': a stored word has the prefix that is reported')
        else:
            p.prove(s != NIL, c.label + ': the empty string is a prefix')
            p.prove(z3.Not(acc(p, V, cat(s, fresh_str(p, 'any')))), c.label + ': no stored word has a prefix that is denied')

    @R.contract('__len__', BOTH, props=P)
    def length(c):
        c.pure()
        V = rep(c)
        yield
        c.returns(V.size)

    @R.contract('is_empty', BOTH, props=P)
    def is_empty(c):
        c.pure()
        V = rep(c)
        yield
        c.returns(V.size == 1)

    # ------------------------------------------------------------------ making and emptying
    def nothing(c):
        V = rep(c)
        c.fact(V.size == 1)
        if 'Q' in c.p.aims:
            c.fact(z3.Not(acc(c.p, V, c.p.Q)))
        c.fact(many(c, V) == 0)

    @R.contract('__init__', BOTH, props=P)
    def init(c):
        s = me(c)
        c.cell(s, c.cls)
        yield
        nothing(c)

    @R.contract('clear', BOTH, props=P)
    def clear(c):
        rep(c)
        yield
        nothing(c)

    # ------------------------------------------------------------------ changing
    @R.contract('insert', BOTH, props=P)
    def insert(c):
        p = c.p
        V0 = rep(c)
        a0 = quest(c, V0)
        w = c.arg('word', ANYWORD)
        if w is None:
            c.rejects('ValueError')
        if not is_str(w):
            c.rejects('TypeError')
        w = sterm(w)
        if c.branch(z3.Or(STRIP(w) == NIL, w == NIL)):
            c.rejects('ValueError')
        yield
        V = rep(c)
        c.fact(quest(c, V) == z3.Or(a0, p.Q == w))

    @R.contract('_insert', ('RadixTrie',), props=P)
    def put(c):
        p = c.p
        s = me(c)
        one_aim(c)
        V0 = rep(c)
        root = c.root
        a0, n0 = quest(c, V0), many(c, V0)
        w = c.arg('word', 'sstr')
        if not is_str(w):
            p.fail(c.label + ': precondition: a string')
        w = sterm(w)
        if c.proof:
            p.assume(w != NIL)
        else:
            p.prove(w != NIL, c.label + ': precondition: not empty')
            if p.leaf:
                x = fresh_str(p, 'any')
                p.assume(acc(p, V0, x))
                for f in p.__dict__.get('lemmas', ()):
                    f(x, w)
                p.prove(z3.Not(z3.Or(z3.PrefixOf(x, w), z3.PrefixOf(w, x))), c.label + ': precondition: none begins with the other')
        yield
        if c.proof:
            node = c.result
            if not (isinstance(node, Ref) and p.is_null(node) is False):
                p.fail('%s: result %r' % (c.label, node))
            if p.leaf:
                T.words_seen(p, V0, w)
        else:
            node = c.result = p.fresh_ref(T.NODE, nonnull=True)
        root1, n = head_cell(c, s, c.cls)
        c.same(root1, root)
        V, _, _ = T.trie(c, root, node)
        c.fact(V.size == n)
        if not p.leaf:
            c.fact(z3.Not(acc(p, V, NIL)))
        elif 'P' in p.aims:
            c.fact(many(c, V) == n0 + z3.If(z3.PrefixOf(p.P, w), ONE, ZERO))
        if 'Q' in p.aims:
            c.fact(quest(c, V) == z3.Or(a0, p.Q == w))

    @R.loop_inv('Trie.insert', 0)
    def insert_loop(L):
        p = L.p
        root, n = head_cell(L, L.const('self'), L.fr.selfcls)
        root0 = L.entry_val('root', lambda: root)
        L.same(root, root0)
        cur = L.ref('curr_node', T.NODE)
        V, Pa, sub = T.trie(L, root, cur, dead=True)
        a = L.entry_val('acc', lambda: [acc(p, V, s) for s in (p.Q, NIL)])
        w = L.entry_val('word', lambda: cat(Pa, L.rest))
        L.fact(cat(Pa, L.rest) == w)
        L.fact(z3.And(acc(p, V, p.Q) == a[0], acc(p, V, NIL) == a[1], V.size == n))
        if not p.branch(L.rest == NIL):
            h = head(p, L.rest)[0]
            F = open_tv(p, sub)[2]
            if L.producing:
                forbid(p, F, h)
            else:
                p.prove(lacks(p, F, h), L.label + ': no child for the next character')

    @R.contract('remove', BOTH, props=P)
    def remove(c):
        p = c.p
        V0 = rep(c)
        a0 = quest(c, V0)
        w = c.arg('word', ANYWORD)
        if not is_str(w):
            yield
            V = rep(c)
            c.fact(quest(c, V) == a0)
            c.warns()
            return
        w = sterm(w)
        yield
        V = rep(c)
        c.fact(quest(c, V) == z3.And(a0, p.Q != w))

    @R.loop_inv('Trie.remove', 0)
    def remove_loop(L):
        p = L.p
        root, n = head_cell(L, L.const('self'), L.fr.selfcls)
        root0 = L.entry_val('root', lambda: root)
        L.same(root, root0)
        cur = L.ref('curr_node', T.NODE)
        V, Pa, sub = T.trie(L, root, cur, dead=True)
        a = L.entry_val('acc', lambda: [acc(p, V, s) for s in (p.Q, NIL)])
        L.fact(z3.And(acc(p, V, p.Q) == a[0], acc(p, V, NIL) == a[1], V.size == n))
        L.decreases(Len(Pa))

    # ------------------------------------------------------------------ common prefix
    @R.contract('get_lcp', (None,), props=('C21',), func=('extra/trees/radix_trie.py', 'get_lcp'))
    def lcp(c):
        p = c.p
        T.on(p)
        x, y = c.arg('word1', 'sstr'), c.arg('word2', 'sstr')
        if not (is_str(x) and is_str(y)):
            p.fail(c.label + ': precondition: strings')
        x, y = sterm(x), sterm(y)
        yield
        if c.proof:
            if not is_str(c.result):
                p.fail('%s: result %r is not a string' % (c.label, c.result))
            r = sterm(c.result)
        else:
            r = fresh_str(p, 'common')
            c.result = SStr(r)
        if c.proof:
            n = Len(r)
            p.prove(z3.And(z3.PrefixOf(r, x), z3.PrefixOf(r, y)), c.label + ': a common prefix')
            p.prove(z3.Or(n == Len(x), n == Len(y), z3.SubString(x, n, 1) != z3.SubString(y, n, 1)), c.label + ': the longest one')
            return
        a, b = fresh_str(p, 'resta'), fresh_str(p, 'restb')
        p.assume(z3.And(x == z3.Concat(r, a), y == z3.Concat(r, b)))
        T.known_split(p, x, [r, a])
        T.known_split(p, y, [r, b])
        if not p.branch(z3.Or(a == NIL, b == NIL)):
            p.assume(head(p, a)[0] != head(p, b)[0])

    @R.loop_inv('get_lcp', 0)
    def lcp_loop(L):
        p = L.p
        x, y = sterm(L.const('word1', is_str)), sterm(L.const('word2', is_str))
        i = zval(L.int('i'))
        L.fact(z3.And(i >= 0, i <= Len(x), i <= Len(y)))
        L.decreases(Len(x) - i)
        if L.producing:
            r, a, b = fresh_str(p, 'same'), fresh_str(p, 'a'), fresh_str(p, 'b')
            p.assume(z3.And(x == z3.Concat(r, a), y == z3.Concat(r, b), Len(r) == i))
        else:
            L.fact(z3.SubString(x, 0, i) == z3.SubString(y, 0, i))

    # ------------------------------------------------------------------ completion
    def strings(c, n):
        """the list of strings that is returned: how often Q is in it"""
        p = c.p
        if c.proof:
            r = c.result
            if not (isinstance(r, Ref) and p.is_null(r) is False and c.I.cls_of(r) == 'list'):
                p.fail('%s: result %r is not a list' % (c.label, r))
            s = c.list_cell(r, 'sstr')
            p.prove(p.measure('cntw', (p.Q,), s) == n, c.label + ': every completion once and nothing else')
        else:
            s = p.fresh_seq('sstr')
            p.assume(p.measure('cntw', (p.Q,), s) == n)
            c.result = c.I.new_list(s)

    def below(p, V, path):
        """1 when Q is path + an accepted string, else 0"""
        ok, r = starts(p, p.Q, path)
        return z3.If(acc(p, V, r), ONE, ZERO) if ok else ZERO

    @R.contract('_get_candidates', BOTH, props=P)
    def candidates(c):
        p = c.p
        s = me(c)
        c.pure()
        if c.proof:
            c.cell(s, c.cls)
        node, pre = c.object_arg('start_node', T.NODE), c.object_arg('prev_prefixes', 'list')
        V = T.subtrie(c, node)
        J = cat(p.measure('join', (), c.list_cell(pre, 'sstr')), V.label)
        c.decreases(V.size)
        if c.proof:
            p.base = (V, J)
        yield
        strings(c, below(p, V, J))

    def complete_loop(L):
        p = L.p
        out = L.listvar('candidates', 'sstr')
        got = p.measure('cntw', (p.Q,), out)
        n0 = L.entry_val('count', lambda: got)
        r = find(p, p.base[0], L.loop.it.owner, p.base[1])
        if r is None:
            p.fail(L.label + ': children of a node elsewhere')
        ok, r = starts(p, p.Q, r[0])
        m = p.measure('tacc', (r,), L.visited) if ok else ZERO
        L.fact(got == n0 + m)

    for q in ('Trie._get_candidates', 'Trie.auto_complete', 'RadixTrie.auto_complete'):
        R.loop_inv(q, 0)(complete_loop)

    @R.contract('auto_complete', BOTH, props=P)
    def auto_complete(c):
        p = c.p
        c.pure()
        V = rep(c)
        w = c.arg('prefix', ANYWORD, default='')
        if w is None:
            c.rejects('ValueError')
        if not is_str(w):
            c.rejects('TypeError')
        if c.proof:
            p.base = (V, NIL)
        yield
        s = sterm(w)
        ok, _ = starts(p, p.Q, s)
        strings(c, z3.If(acc(p, V, p.Q), ONE, ZERO) if ok else ZERO)

    # ------------------------------------------------------------------ leaves
    @R.contract('_count_leaf_nodes', BOTH, props=('C22',))
    def leaves(c):
        p = c.p
        s = me(c)
        c.pure()
        if c.proof:
            c.cell(s, c.cls)
        V = T.subtrie(c, c.object_arg('start_node', T.NODE))
        c.decreases(V.size)
        yield
        c.returns(V.lv)

    @R.loop_inv('Tree._count_leaf_nodes', 0, list(BOTH))
    def leaves_loop(L):
        if 'tries' not in L.p.__dict__:      # only looked at
            L.fact(zval(L.int('total_nodes')) == zval(L.p.measure('vlv', (), L.visited)))
            return
        L.fact(zval(L.int('total_nodes')) == zval(L.p.measure('tlv', (), L.visited)))

    # the same for tries the word marks of which mean nothing (inside a suffix trie)
    def unmarked(fn, aim):
        def f(c):
            T.on(c.p)
            c.p.leaf, c.p.aim = True, aim
            c.p.assume(c.p.P != NIL)
            c.p.single = False
            return fn(c)
        return f
    for name, fn in (('__init__', init), ('_insert', put), ('_follow_path', follow), ('has_prefix', has_prefix), ('_count_leaf_nodes', leaves)):
        R.contract(name + '@leaf', ('RadixTrie',), props=('C22',))(unmarked(fn, 'Q'))
        if fn in (put, follow):
            R.contract(name + '@leafcount', ('RadixTrie',), props=('C22',))(unmarked(fn, 'P'))
