"""Contracts of the tree queries (Tree, BinaryTree and the search trees that inherit them) and of inversion."""
import z3
from pv.state import *
from pv.heap import *
from pv.exec import *
from pv.contracts import *
from pv import trees as T_
from pv import views as V
from pv.views import va, look
from . import search

NODE = {'Tree': 'TreeNode', 'BinaryTree': 'BinaryTreeNode'}
for _k, _a in search.ALG.items():
    NODE[_k] = _a.cls
TRIES = ('Trie', 'RadixTrie')
ALL = ('Tree', 'BinaryTree') + search.CLS
BIN = ('BinaryTree',) + search.CLS
PLAIN = ('Tree', 'BinaryTree')
P12, P13 = ('C12', 'C25'), ('C13', 'C25')


class BTAlg(T_.Algebra):
    parent = False
    kind = 'data'

    def fresh(self, p):
        return (p.fresh_data('data'),)

    def pack(self, p, c):
        d = c.fields.get('_data')
        return (d,) if is_data(d) else None

    def facts(self, v):
        return []

    def attr_app(self, p, name, t):
        raise Unsupported('attribute %s of a mirrored tree' % name)


BT = BTAlg('BinaryTreeNode')
for _k in TRIES:
    NODE[_k] = 'TrieNode'
V.ALGS['TreeNode'] = V.ALGS['TrieNode'] = None
V.ALGS['BinaryTreeNode'] = BT
for _k, _a in search.ALG.items():
    V.ALGS[_a.cls] = _a


def build(R):
    V.install(R)

    def me(c):
        if c.proof and 'self' not in c.locs:
            c.locs['self'] = c.p.fresh_ref(c.cls, nonnull=True)
        return c.locs['self']

    def tree(c):
        """the tree that is asked; its root"""
        f = {'_root': 'ref'}
        if c.cls in search.CLS:
            f['_length'] = 'int'
        if c.cls in TRIES:
            f['_nodes_count'] = 'int'
        g = c.cell(me(c), c.cls, **f)
        r = g['_root']
        if c.cls in TRIES:          # the root is always there (and carries no character)
            if c.proof:
                c.p.nonnull_ref(r)
            elif c.p.is_null(r) is not False:
                c.p.fail(c.label + ': the root is missing')
        look(c, r, NODE[c.cls])
        if c.cls in TRIES:
            c.fact(zval(g['_nodes_count']) == size(c, r))
        return r

    def node(c, name='start_node', null=False):
        if c.proof:
            me(c)
            c.locs[name] = c.p.fresh_ref(NODE[c.cls], nonnull=not null)
        r = c.locs[name]
        if not null and c.p.ref_eq(r, None):
            c.p.fail('%s: precondition: a node' % c.label)
        look(c, r, NODE[c.cls])
        return r

    def size(c, r):
        return va(c.p, r, 'size')

    def empty(c, r):
        return c.is_null(r)

    def nat(x):
        return V.mx(x, 0)

    # ------------------------------------------------------------------ counts
    def recursive(name, quantity, classes, props=P12):
        @R.contract(name, classes, props=props)
        def f(c):
            c.pure()
            r = node(c)
            c.decreases(size(c, r))
            yield
            c.returns(va(c.p, r, quantity))

    recursive('__count_nodes', 'size', PLAIN)
    recursive('_get_height', 'H', tuple(k for k in ALL if k != 'AVL') + TRIES)
    recursive('_count_leaf_nodes', 'lv', ALL)
    recursive('_count_leaf_nodes@view', 'lv', TRIES)
    recursive('__is_subtree_strict', 'strict', BIN, P13)

    def question(name, classes, answer, props=P12):
        @R.contract(name, classes, props=props)
        def f(c):
            c.pure()
            r = tree(c)
            yield
            c.returns(answer(c, r))

    def wrapped(name, answer):
        """a suffix trie asks the radix trie it is built on"""
        @R.contract(name, ('SuffixTrie',), props=P12)
        def f(c):
            c.pure()
            s = me(c)
            g = c.cell(s, 'SuffixTrie', _rt=lambda m: c.p.fresh_ref('RadixTrie', nonnull=True))
            h = c.cell(g['_rt'], 'RadixTrie', _root='ref', _nodes_count='int')
            r = h['_root']
            if c.proof:
                c.p.nonnull_ref(r)
            look(c, r, 'TrieNode')
            c.fact(zval(h['_nodes_count']) == size(c, r))
            yield
            c.returns(answer(c, r))

    wrapped('__len__', size)
    wrapped('get_height', lambda c, r: nat(va(c.p, r, 'H')))
    wrapped('get_depth', lambda c, r: 0)
    wrapped('count_leaf_nodes', lambda c, r: z3.If(zval(size(c, r)) == 1, 0, va(c.p, r, 'lv')))

    question('__len__', PLAIN, size)
    question('__len__@view', TRIES, size)
    question('get_height', tuple(k for k in ALL if k != 'AVL') + TRIES, lambda c, r: nat(va(c.p, r, 'H')))
    question('count_leaf_nodes', ALL, lambda c, r: va(c.p, r, 'lv'))
    question('count_leaf_nodes', TRIES, lambda c, r: z3.If(zval(size(c, r)) == 1, 0, va(c.p, r, 'lv')))
    question('is_empty@view', TRIES, lambda c, r: zval(size(c, r)) == 1)
    question('is_empty', PLAIN, lambda c, r: zval(size(c, r)) == 0)
    question('is_empty@view', search.CLS, lambda c, r: zval(size(c, r)) == 0)

    @R.contract('get_depth', ALL + TRIES, props=P12)
    def depth(c):
        c.pure()
        r = tree(c)
        empty(c, r)
        yield
        c.returns(0)

    @R.contract('is_balanced', BIN, props=('C25',))
    def balanced(c):
        """a truth value; only that nothing changes is stated"""
        c.pure()
        r = tree(c)
        none = empty(c, r)
        if not none:
            V.open_view(c.p, r)
        yield
        if none:
            c.warns()
            c.returns(True)
        elif c.mode == 'call':
            c.result = c.p.fresh_bool('balanced')
        elif not is_boolv(c.result):
            c.p.fail('%s: the answer is not a truth value' % c.label)

    def children_loop(quantity, measure, start):
        """a number accumulated over the children"""
        def inv(L):
            p = L.p
            t = L.int('total')
            L.fact(zval(t) == start(p.measure(measure, (), L.visited)))
        return inv

    R.loop_inv('Tree.__count_nodes', 0, ['Tree'])(children_loop('size', 'vsize', lambda s: 1 + s))
    R.loop_inv('Tree._count_leaf_nodes', 0, ['Tree'])(children_loop('lv', 'vlv', lambda s: s))
    R.loop_inv('Tree._get_height', 0, ['Tree'] + list(TRIES))(children_loop('H', 'vh', lambda s: 1 + s))

    # ------------------------------------------------------------------ membership
    @R.contract('__contains__', PLAIN, props=P12)
    def contains(c):
        c.pure()
        r = tree(c)
        q = c.arg('value', 'data|none')
        yield
        c.returns(va(c.p, r, 'has', q))

    @R.loop_inv('Tree._search', 0, list(PLAIN))
    def search_inv(L):
        p, I = L.p, L.I
        root = I.getattr(L.const('self'), '_root')
        q = L.const('value')
        s = L.listvar('queue', kind='tree:' + NODE[L.fr.selfcls])
        L.fact(zval(va(p, root, 'has', q)) == zval(p.measure('vhas', (q,), s)))
        L.decreases(p.measure('vsize', (), s))

    # ------------------------------------------------------------------ breadth first
    def bfs(c, r):
        return EMPTY if c.p.is_null(r) is True else V.bfs_of(c.p, unit(r))

    @R.contract('__iter__', ALL, props=P12)
    def iter_(c):
        c.pure()
        r = tree(c)
        empty(c, r)
        yield
        c.yields(bfs(c, r))

    @R.loop_inv('Tree.__iter__', 0, list(ALL))
    def outer(L):
        p, I = L.p, L.I
        k = NODE[L.fr.selfcls]
        root = I.getattr(L.const('self'), '_root')
        cur = L.listvar('current_nodes', kind='tree:' + k)
        y = L.yielded(V.kind_of(k))
        B = V.bfs_of(p, cur)
        L.seqeq(V.bfs_of(p, unit(root)), y + B)
        if L.producing:
            V.bfs_unfold(p, cur)
        L.decreases(p.measure('vsize', (), cur))

    @R.loop_inv('Tree.__iter__', 1, list(ALL))
    def inner(L):
        p, I = L.p, L.I
        k = NODE[L.fr.selfcls]
        n = L.listvar('next_nodes', kind='tree:' + k)
        y = L.yielded(V.kind_of(k))
        y0 = L.entry_val('y', lambda: y)
        L.seqeq(n, p.hom('kids', (), L.visited))
        L.seqeq(y, p.norm(y0) + p.hom('mapdata', (), L.visited))

    def listing(name, classes, what, props):
        @R.contract(name, classes, props=props)
        def f(c):
            c.pure()
            r = tree(c)
            empty(c, r)
            yield
            c.returns_list(what(c, r))

    # a trie's root is left out
    def below(c, r):
        return V.bfs_of(c.p, V.kids(c.p, r))

    @R.contract('__iter__', TRIES, props=P12)
    def trie_iter(c):
        c.pure()
        r = tree(c)
        b = below(c, r)
        yield
        c.yields(b)

    @R.loop_inv('Trie.__iter__', 0, list(TRIES))
    def trie_outer(L):
        p, I = L.p, L.I
        root = I.getattr(L.const('self'), '_root')
        cur = L.listvar('current_nodes', kind='tree:TrieNode')
        y = L.yielded('data')
        B = V.bfs_of(p, cur)
        L.seqeq(V.bfs_of(p, V.kids(p, root)), y + B)
        if L.producing:
            V.bfs_unfold(p, cur)
        L.decreases(p.measure('vsize', (), cur))

    R.loop_inv('Trie.__iter__', 1, list(TRIES))(inner)
    listing('to_list', TRIES, below, P12)
    listing('to_list', ALL, bfs, P12)
    listing('breadth_first_traverse', BIN, bfs, P13)

    # ------------------------------------------------------------------ levels
    def level(c, r, e):
        return va(c.p, r, 'lev', e)

    @R.contract('_get_nodes_per_level', ALL + TRIES, props=P12)
    def per_level(c):
        p = c.p
        K = V.level_k(p)
        r = node(c)
        c.decreases(size(c, r))
        e = c.arg('level', 'int')
        c.requires(zval(e) >= 0)
        if c.proof:
            c.locs['nodes'] = p.fresh_ref('proj', nonnull=True)
            c.locs['save_data'] = True
        if c.locs['save_data'] is not True:
            raise Unsupported('a listing of node objects')
        rows = c.locs['nodes']
        n, row = V.proj(c, rows, 'rows')
        c.requires(zval(e) <= n)
        before = EMPTY if row is None else c.list_cell(row)
        yield
        n2, row2 = V.proj(c, rows, 'rows')
        c.ensures(n2 == V.mx(n, zval(e) + 1 + zval(va(p, r, 'H'))))
        want = before + level(c, r, K - zval(e))
        if row2 is None:
            c.seqeq(want, EMPTY)
        else:
            if row is not None:
                c.same(row2, row)
            c.seqeq(c.list_cell(row2), want)
        c.returns(rows)

    @R.loop_inv('Tree._get_nodes_per_level', 0, ['Tree'] + list(TRIES))
    def per_level_loop(L):
        p, I = L.p, L.I
        K = V.level_k(p)
        e = zval(L.const('level'))
        rows = L.const('nodes', lambda v: isinstance(v, Ref))
        n, row = V.proj(L, rows, 'rows')
        r0 = L.entry_val('row', lambda: row)
        n0 = L.entry_val('n', lambda: n)
        L.fact(n == V.mx(n0, e + 2 + p.measure('vh', (), L.visited)))
        more = p.hom('lev', (V.simp(K - e - 1),), L.visited)
        s = EMPTY if row is None else L.list_cell(row)
        if row is not None and r0 is not None:
            L.same(row, r0)
        s0 = L.entry_val('rowseq', lambda: s)
        L.seqeq(s, s0 + more)

    @R.contract('get_nodes_per_level', ALL, props=P12)
    def levels(c):
        p = c.p
        c.pure()
        K = V.level_k(p)
        r = tree(c)
        empty(c, r)
        yield
        n = 1 + zval(va(p, r, 'H'))
        if c.mode == 'call':
            c.result = x = p.fresh_ref('proj', nonnull=True)
            add_cell(p, Cell(x, 'proj', {'n': z3.simplify(n), 'val': None, 'kind': 'rows',
                                         'at': lambda i: c.I.new_list(level(c, r, i))}, new=True))
            return
        got = V.as_proj(c.I, c.result, 'rows') if isinstance(c.result, Ref) else None
        if got is None:
            p.fail('%s: result is not a listing by level' % c.label)
        c.fact(got[0] == n)
        if p.branch(K < got[0]):
            if got[1] is None:
                p.fail('%s: a level is missing' % c.label)
            c.seqeq(c.list_cell(got[1]), level(c, r, K))

    @R.contract('get_nodes_per_level', TRIES, props=P12)
    def trie_levels(c):
        """the levels below the root"""
        p = c.p
        c.pure()
        K = V.level_k(p)
        r = tree(c)
        yield
        if not c.proof:
            raise Unsupported('use of the levels of a trie')
        f = find_cell(p, c.result) if isinstance(c.result, Ref) else None
        if f is not None and f.cls == 'list' and not f.fields['seq'].atoms:
            c.fact(zval(va(p, r, 'H')) == 0)
            return
        if f is None or f.cls != 'tail':
            p.fail('%s: result is not a listing by level without its first' % c.label)
        c.fact(zval(f.fields['n']) == va(p, r, 'H'))
        if p.branch(z3.And(K >= 1, K - 1 < zval(f.fields['n']))):
            if f.fields['val'] is None:
                p.fail('%s: a level is missing' % c.label)
            c.seqeq(c.list_cell(f.fields['val']), level(c, r, K))

    # ------------------------------------------------------------------ shape
    def perfect(p, r):
        if p.is_null(r) is True:
            return z3.BoolVal(True)
        w, j = V.width(p, r), z3.Int('j!lvl')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= va(p, r, 'H')), z3.Select(w, j) == V.POW2(j)),
                         patterns=[z3.Select(w, j)])

    def shape(name, what):
        @R.contract(name, BIN, props=P13)
        def f(c):
            c.pure()
            r = tree(c)
            none = empty(c, r)
            want = what(c.p, r)
            yield
            if none:
                c.warns()
            c.returns(want)

    shape('is_strict', lambda p, r: zval(va(p, r, 'strict')))
    shape('is_perfect', perfect)

    @R.loop_inv('BinaryTree.is_perfect', 0, list(BIN))
    def perfect_loop(L):
        p, I = L.p, L.I
        root = I.getattr(L.const('self'), '_root')
        w, j = V.width(p, root), z3.Int('j!lvl')
        L.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zval(L.loop.idx)), z3.Select(w, j) == V.POW2(j)),
                         patterns=[z3.Select(w, j)]))

    # ------------------------------------------------------------------ depth first
    def traversal(which, order, view=''):
        @R.contract('__%sorder_traverse' % which + ('@view' if which == 'in' else ''), search.CLS, props=P13)
        @R.contract('__%sorder_traverse' % which, ('BinaryTree',), props=P13)
        def f(c):
            c.pure()
            r = node(c, null=True)
            c.decreases(size(c, r))
            yield
            c.returns_list(va(c.p, r, order))

        what = lambda c, r: va(c.p, r, order)
        if which == 'in':
            listing('inorder_traverse', ('BinaryTree',), what, P13)
            listing('inorder_traverse@view', search.CLS, what, P13)
        else:
            listing('%sorder_traverse' % which, BIN, what, P13)
        if which == 'pre':
            listing('depth_first_traverse', BIN, what, P13)

    traversal('pre', 'pre')
    traversal('post', 'post')
    traversal('in', 'in')

    @R.contract('traverse', BIN, props=P13)
    def traverse(c):
        p = c.p
        c.pure()
        r = tree(c)
        empty(c, r)
        m = c.arg('method', 'sstr|num|none|bool|opaque|extra', default='inorder')
        k = c.kind(m)
        if k != 'str':
            c.rejects('TypeError')
        is_ = (lambda s: m.lower() == s) if isinstance(m, str) else \
            (lambda s: p.branch(V.LOWER(m.t) == z3.StringVal(s)))
        if is_('inorder'):
            s = va(p, r, 'in')
        elif is_('postorder'):
            s = va(p, r, 'post')
        elif is_('preorder') or is_('depth-first'):
            s = va(p, r, 'pre')
        elif is_('breadth-first'):
            s = bfs(c, r)
        else:
            c.rejects('ValueError')
        yield
        c.returns_list(s)

    # ------------------------------------------------------------------ side views
    def view_spec(name, left):
        @R.contract(name, BIN, props=P13)
        def f(c):
            p = c.p
            c.pure()
            K = V.level_k(p)
            r = tree(c)
            empty(c, r)
            yield
            if c.mode == 'call':
                raise Unsupported('a side view as part of another operation')
            got = V.as_proj(c.I, c.result, V.item(NODE[c.cls])) if isinstance(c.result, Ref) else None
            if got is None:
                p.fail('%s: result is not a listing by level' % c.label)
            c.fact(got[0] == 1 + zval(va(p, r, 'H')))
            if p.branch(K < got[0]):
                s = p.rewrite(level(c, r, K))
                x = p.uncons(s)[0] if left else p.unsnoc(s)[1]
                p.val_prove_eq(got[1], x, c.label + ': entry of a level')

        @R.loop_inv('BinaryTree.' + name, 0, list(BIN))
        def inv(L):
            p, I = L.p, L.I
            K = V.level_k(p)
            k = NODE[L.fr.selfcls]
            root = I.getattr(L.const('self'), '_root')
            s = L.listvar('stack', kind='(tree:%s,int)' % k)
            d = L.local('levels', lambda v: isinstance(v, Ref) and p.refcls[p.rep(v)] == 'vdict',
                        lambda: p.fresh_ref('vdict', nonnull=True))
            n, val = V.proj(L, d, V.item(k), 'vdict')
            L.fact(p.measure('depths', (), s))
            L.fact(p.measure('deepest', (), s) <= n)
            L.fact(n >= 1)
            L.fact(V.mx(n, p.measure('reach', (), s)) == 1 + zval(va(p, root, 'H')))
            whole = va(p, root, 'lev', K)
            todo = p.hom('levs' if left else 'levt', (K,), s)
            if L.producing:
                # what has been seen of level K
                if p.choice():
                    done = EMPTY
                else:
                    if val is None:
                        raise Infeasible()
                    rest = p.fresh_seq(V.kind_of(k))
                    done = unit(val) + rest if left else rest + unit(val)
                p.equation(whole, todo + done if left else done + todo)
            else:
                rest = p.without(p.rewrite(whole), todo, left, L.label + ': what is still to be seen of a level')
                if not p.is_empty_seq(rest):
                    x = p.uncons(rest)[0] if left else p.unsnoc(rest)[1]
                    if val is None:
                        p.fail(L.label + ': an entry is missing')
                    p.val_prove_eq(val, x, L.label + ': entry of a level')
            L.decreases(p.measure('vsize', (), s))

    view_spec('get_leftside_view', True)
    view_spec('get_rightside_view', False)

    # ------------------------------------------------------------------ inversion, clearing
    @R.contract('_invert_subtree', ('BinaryTree',), props=('C13',))
    def invert_from(c):
        p = c.p
        if c.proof:
            me(c)
            c.locs['curr_node'] = p.fresh_ref()
        t = c.tree(c.locs['curr_node'], BT)
        c.decreases(p.length(T_.attr(p, BT, t, 'S')))
        yield
        if c.mode == 'call':
            c.result = p.fresh_ref()
        r = c.result
        if not (r is None or isinstance(r, Ref)):
            p.fail('%s: result is not a node' % c.label)
        c.same_tree(c.tree(r, BT), T_.TApp('mirror', t))

    @R.contract('invert', ('BinaryTree',), props=('C13',))
    def invert(c):
        f = c.cell(me(c), c.cls, _root='ref')
        t = c.tree(f['_root'], BT)
        yield
        f = c.cell(me(c), c.cls, _root='ref')
        c.same_tree(c.tree(f['_root'], BT), T_.TApp('mirror', t))

    @R.contract('clear', PLAIN, props=('C12',))
    def clear(c):
        f = c.cell(me(c), c.cls, _root='ref')
        yield
        f = c.cell(me(c), c.cls, _root='ref')
        c.same(f['_root'], None)

    @R.contract('__init__', PLAIN, props=('C12',))
    def init(c):
        if c.mode == 'call':
            return_cell = c.p.cells.pop(c.p.rep(me(c)), None)
        else:
            add_cell(c.p, Cell(me(c), c.cls, {}, new=True))
        yield
        f = c.cell(me(c), c.cls, _root='ref')
        c.same(f['_root'], None)
