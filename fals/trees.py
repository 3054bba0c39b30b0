"""General trees and binary trees: every question against its definition."""
import itertools
from .core import *


def facts(sh):
    """all facts of a binary shape (value, left, right) | None"""
    levels = []
    cur = [sh] if sh is not None else []
    while cur:
        levels.append([x[0] for x in cur])
        cur = [c for x in cur for c in (x[1], x[2]) if c is not None]

    def pre(t): return [] if t is None else [t[0]] + pre(t[1]) + pre(t[2])
    def ino(t): return [] if t is None else ino(t[1]) + [t[0]] + ino(t[2])
    def post(t): return [] if t is None else post(t[1]) + post(t[2]) + [t[0]]
    def leaves(t): return 0 if t is None else (1 if t[1] is None and t[2] is None else leaves(t[1]) + leaves(t[2]))
    def strict(t): return t is None or ((t[1] is None) == (t[2] is None) and strict(t[1]) and strict(t[2]))
    return {'levels': levels, 'bfs': [v for l in levels for v in l], 'pre': pre(sh), 'in': ino(sh), 'post': post(sh),
            'height': max(0, len(levels) - 1), 'leaves': leaves(sh), 'strict': strict(sh), 'zero': 0,
            'perfect': all(len(l) == 2 ** i for i, l in enumerate(levels)), 'empty': sh is None,
            'lview': [l[0] for l in levels], 'rview': [l[-1] for l in levels], 'size': sum(map(len, levels))}


def mirror(t):
    return None if t is None else (t[0], mirror(t[2]), mirror(t[1]))


class BinaryFamily(Family):
    cname = 'BinaryTree'
    tags = ('C12', 'C13', 'C24', 'C25')

    def rand(self, rng, pool, n, lean):
        if n <= 0:
            return None
        k = rng.randint(0, n - 1) if lean is None else (n - 1 if lean else 0)
        if rng.random() < 0.1:
            lean = rng.choice([None, True, False])
        return (self.val(rng, pool), self.rand(rng, pool, k, lean), self.rand(rng, pool, n - 1 - k, lean))

    def perfect(self, rng, pool, h):
        return None if h < 0 else (self.val(rng, pool), self.perfect(rng, pool, h - 1), self.perfect(rng, pool, h - 1))

    def val(self, rng, pool):
        return rng.randint(0, 5) if rng.random() < 0.8 else rng.choice(['a', 'x\ny', 1.5, True, (1, 2), '', 0])

    def gen(self, rng, pool, focus, hint=()):
        r = rng.random()
        if r < 0.2:
            t = self.perfect(rng, pool, rng.randint(0, 4))
            if rng.random() < 0.5:
                t = self.cut(rng, t)
        else:
            t = self.rand(rng, pool, min(40, pool.size(rng)), rng.choice([None, None, True, False]))
        return [('tree', t), ('all', rng.choice(['', 'levelorder', None, 3, 'INorder ', Sp('extra')]), self.val(rng, pool)),
                ('invert',), ('all', None, 3), ('invert',), ('all', 'x', 1)]

    def cut(self, rng, t):
        if t is None or rng.random() < 0.15:
            return None
        return (t[0], self.cut(rng, t[1]), self.cut(rng, t[2]))

    def shapes(self, n):
        if n == 0:
            yield None
            return
        for k in range(n):
            for l in self.shapes(k):
                for r in self.shapes(n - 1 - k):
                    yield (0, l, r)

    def number(self, t, it):
        return None if t is None else (next(it), self.number(t[1], it), self.number(t[2], it))

    def systematic(self, pool, focus):
        for n in range(0, 7):
            for t in self.shapes(n):
                t = self.number(t, itertools.count())
                yield [('tree', t), ('all', 'bad', 0), ('invert',), ('all', None, n - 1), ('invert',), ('all', 3, n)]

    def make(self, sh):
        from extra.trees.binary_tree import BinaryTree, BinaryTreeNode
        t = BinaryTree()

        def mk(x):
            n = BinaryTreeNode(x[0])
            if x[1] is not None:
                n.set_left(mk(x[1]))
            if x[2] is not None:
                n.set_right(mk(x[2]))
            return n
        if sh is not None:
            t._root = mk(sh)
        return t

    def read(self, t):
        from .search import shape
        return shape(t._root)

    def nl(self, t):
        return None if t is None else (norm(t[0]), self.nl(t[1]), self.nl(t[2]))

    def play(self, h, focus):
        sh = h[0][1]
        self.now = ({'C12', 'C13'}, 'building %r' % (sh,))
        t = self.make(sh)
        sh = self.nl(sh)
        for op in h[1:]:
            if op[0] == 'invert':
                why = 'invert of %r' % (sh,)
                self.now = ({'C13'}, why)
                r = call(t.invert)
                if r[0] != 'ok':
                    raise Bad('C13', '%s raises %s' % (why, r[1]))
                sh = mirror(sh)
                if not same(self.read(t), sh):
                    raise Bad('C13', '%s gives %r' % (why, self.read(t)))
                continue
            f = facts(sh)
            ask = [('get_height', 'height', 'C12'), ('get_depth', 'zero', 'C12'), ('count_leaf_nodes', 'leaves', 'C12'),
                   ('to_list', 'bfs', 'C12'), ('get_nodes_per_level', 'levels', 'C12'), ('is_empty', 'empty', 'C12'),
                   ('__len__', 'size', 'C12'), ('breadth_first_traverse', 'bfs', 'C13'),
                   ('preorder_traverse', 'pre', 'C13'), ('inorder_traverse', 'in', 'C13'),
                   ('postorder_traverse', 'post', 'C13'), ('depth_first_traverse', 'pre', 'C13'),
                   ('get_leftside_view', 'lview', 'C13'), ('get_rightside_view', 'rview', 'C13'),
                   ('is_perfect', 'perfect', 'C13'), ('is_strict', 'strict', 'C13')]
            for q, key, tag in ask:
                self.one(t, sh, q, getattr(t, q), (), f[key], {tag})
            self.one(t, sh, 'iter', lambda: list(t), (), f['bfs'], {'C12'})
            for m, key in (('inorder', 'in'), ('preorder', 'pre'), ('postorder', 'post'), ('breadth-first', 'bfs'),
                           ('depth-first', 'pre'), ('PreOrder', 'pre'), ('BREADTH-FIRST', 'bfs')):
                self.one(t, sh, 'traverse(%r)' % m, t.traverse, (m,), f[key], {'C13'})
            bad = special(op[1])
            r = call(t.traverse, bad)
            e = 'TypeError' if type(bad) != str else 'ValueError'
            if r[0] != 'exc' or r[1] != e:
                raise Bad('C24', 'traverse(%r) gives %r instead of %s' % (bad, r[1], e))
            for v in {op[2]} | set(f['bfs'][:6]) | {99, 'zz'}:
                self.one(t, sh, '%r in' % (v,), t.__contains__, (v,), any(x == v for x in f['bfs']), {'C12'})
            for q in ('is_balanced', '__repr__'):
                r = call(getattr(t, q))
                if r[0] != 'ok':
                    raise Bad('C25', '%s raises %s' % (q, r[1]))
                if not same(self.read(t), sh):
                    raise Bad('C25', '%s on %r changes the tree to %r' % (q, sh, self.read(t)))

    def one(self, t, sh, q, fn, args, want, tags):
        why = '%s on %r' % (q, sh)
        self.now = (tags | {'C24'}, why)
        r = call(fn, *args)
        if r[0] != 'ok':
            raise Bad(tags | {'C24'}, '%s raises %s (%s)' % (why, r[1], r[2]))
        if not same(r[1], want):
            raise Bad(tags, '%s gives %r instead of %r' % (why, r[1], want))
        now = self.read(t)
        if not same(now, sh):
            raise Bad(tags | {'C25'}, '%s changes the tree to %r' % (why, now))
        if type(r[1]) == list:
            for x in r[1]:
                if type(x) == list:
                    x.append(5)
            r[1].append(0)
            if not same(self.read(t), sh):
                raise Bad(tags | {'C25'}, '%s hands out a part of the tree' % why)


class TreeFamily(BinaryFamily):
    """ordered trees with any number of children: (value, [children])"""
    cname = 'Tree'
    tags = ('C12', 'C25')

    def rand2(self, rng, pool, n):
        kids = []
        left = n - 1
        while left > 0:
            k = rng.randint(1, left)
            kids.append(self.rand2(rng, pool, k))
            left -= k
        return (self.val(rng, pool), kids)

    def gen(self, rng, pool, focus, hint=()):
        n = min(60, pool.size(rng))
        t = None if n == 0 else self.rand2(rng, pool, n)
        return [('tree', t), ('all', self.val(rng, pool))]

    def forests(self, n):
        if n == 0:
            yield []
            return
        for k in range(1, n + 1):
            for a in self.forests(k - 1):
                for b in self.forests(n - k):
                    yield [(0, a)] + b

    def num2(self, t, it):
        return (next(it), [self.num2(c, it) for c in t[1]])

    def systematic(self, pool, focus):
        yield [('tree', None), ('all', 1)]
        for n in range(1, 7):
            for f in self.forests(n - 1):
                yield [('tree', self.num2((0, f), itertools.count())), ('all', n - 1)]

    def make(self, sh):
        from extra.trees.tree import Tree, TreeNode
        t = Tree()

        def mk(x, how=[0]):
            n = TreeNode(x[0])
            how[0] += 1
            if how[0] % 2:
                for c in x[1]:
                    n.set_child(mk(c))
            else:
                n.set_children([mk(c) for c in x[1]])
            return n
        if sh is not None:
            t._root = mk(sh)
        return t

    def read(self, t):
        def rd(n):
            return (n.get_data(), [rd(c) for c in n.get_children()])
        return None if t._root is None else rd(t._root)

    def nl(self, t):
        return None if t is None else (norm(t[0]), [self.nl(c) for c in t[1]])

    def play(self, h, focus):
        sh = h[0][1]
        self.now = ({'C12'}, 'building %r' % (sh,))
        t = self.make(sh)
        sh = self.nl(sh)
        levels, cur = [], [sh] if sh is not None else []
        while cur:
            levels.append([x[0] for x in cur])
            cur = [c for x in cur for c in x[1]]

        def leaves(x): return 1 if not x[1] else sum(map(leaves, x[1]))
        bfs = [v for l in levels for v in l]
        for q, want in (('get_height', max(0, len(levels) - 1)), ('get_depth', 0), ('count_leaf_nodes', leaves(sh) if sh else 0),
                        ('to_list', bfs), ('get_nodes_per_level', levels), ('is_empty', sh is None), ('__len__', len(bfs))):
            self.one(t, sh, q, getattr(t, q), (), want, {'C12'})
        self.one(t, sh, 'iter', lambda: list(t), (), bfs, {'C12'})
        for v in {h[1][1]} | set(bfs[:6]) | {99}:
            self.one(t, sh, '%r in' % (v,), t.__contains__, (v,), any(x == v for x in bfs), {'C12'})


FAMILIES = [BinaryFamily(), TreeFamily()]
