"""Search trees: BST, AVL, red-black, splay, treap."""
import itertools
from .core import *


def klass(n):
    import importlib
    m = {'BST': 'bst', 'AVL': 'avl', 'RedBlackTree': 'red_black_tree', 'SplayTree': 'splay_tree', 'Treap': 'treap'}[n]
    return getattr(importlib.import_module('extra.trees.' + m), n)


MAIN = {'BST': 'C14', 'AVL': 'C15', 'RedBlackTree': 'C16', 'SplayTree': 'C17', 'Treap': 'C18'}
WARN = ('insert', 'remove')


def shape(n):
    """(value, left, right) of a subtree through the node accessors"""
    if n is None:
        return None
    return (n.get_data(), shape(n.get_left()), shape(n.get_right()))


def inorder(t):
    return [] if t is None else inorder(t[1]) + [t[0]] + inorder(t[2])


def hgt(t):
    return -1 if t is None else 1 + max(hgt(t[1]), hgt(t[2]))


def sparse(rng, h):
    """values of a tree of height h with as few nodes as its balance allows, top level first; sides at random"""
    out = []

    def grow(h, at, d):
        if h <= 0:
            return at
        a, b = h - 1, h - 2
        if rng.random() < lean:
            a, b = b, a
        m = grow(a, at, d + 1)
        out.append((d, m))
        return grow(b, m + 1, d + 1)
    lean = rng.choice([0, 0.1, 0.5, 0.9, 1])
    grow(h, 0, 0)
    return [v for _, v in sorted(out)]


class SearchFamily(Family):
    def __init__(self, cname):
        self.cname = cname
        self.main = MAIN[cname]
        self.tags = (self.main, 'C24', 'C25', 'C12', 'C13')

    def big(self, rng):
        start = sparse(rng, rng.randint(5, 10))
        n = len(start)
        if rng.random() < 0.2:
            rng.shuffle(start)
        out = [start[-1], min(start), max(start), n // 2] + [rng.choice(start) for _ in range(rng.randint(1, 8))]
        if rng.random() < 0.5:
            rng.shuffle(out)
        return [('new', start, rng.randint(0, 10 ** 6), None)] + \
            [('remove', v) for v in out] + \
            [('insert', rng.choice([-1, n, v + 0.5])) + ((None,) if self.cname == 'Treap' else ()) for v in out[:3]]

    def gen(self, rng, pool, focus, hint=()):
        if focus == self.main and rng.random() < 0.04:
            return self.big(rng)
        bad = 0.3 if focus == 'C24' else 0.03
        span = rng.choice([2, 4, 6, 10, 25, 60])
        floaty = rng.random() < 0.2

        def num():
            if rng.random() < 0.88:
                return rng.randint(-span, span) / (2 if floaty else 1) if floaty else rng.randint(-span, span)
            return pool.num(rng, span)
        pr = rng.choice(['rand', 'neg', 'small', 'none', 'incr'])

        def prio(k):
            if pr == 'none':
                return None
            if pr == 'small':
                return rng.randint(0, 2)
            if pr == 'neg':
                return rng.randint(-9, 1)
            if pr == 'incr':
                return k
            return pool.num(rng) if rng.random() < 0.4 else rng.randint(-50, 100)
        n = pool.size(rng) + 2
        mode = rng.choice(['rand', 'rand', 'asc', 'desc', 'fill_drain', 'zigzag'])
        start = [num() for _ in range(pool.size(rng))] if rng.random() < 0.3 else None
        h = [('new', start, rng.randint(0, 10 ** 6), rng.choice([None, None, 1, 3]))]
        ops = ['insert'] * 5 + ['remove'] * 4 + ['contains'] * (3 if self.cname == 'SplayTree' else 1)
        if focus in ('C24', 'C25', 'C12', 'C13'):
            ops += ['ask'] * 4
        if rng.random() < 0.15:
            ops.append('clear')
        held = set(start or ())
        k = 0
        for i in range(n):
            k += 1
            o = rng.choice(ops)
            if mode == 'fill_drain':
                o = 'insert' if i < n * 0.55 else 'remove'
            b = rng.random() < bad
            if o == 'insert':
                v = num()
                if mode == 'asc':
                    v = i
                elif mode == 'desc':
                    v = -i
                elif mode == 'zigzag':
                    v = i if i % 2 else -i
                if b:
                    if self.cname == 'Treap' and rng.random() < 0.5:
                        h.append((o, v, rng.choice(['a', True, (1,), Sp('complex')])))
                    else:
                        h.append((o, pool.not_num(rng)) + ((prio(k),) if self.cname == 'Treap' else ()))
                    continue
                held.add(v)
                h.append((o, v) + ((prio(k),) if self.cname == 'Treap' else ()))
            elif o in ('remove', 'contains'):
                v = rng.choice(sorted(held)) if held and rng.random() < 0.8 else num()
                if b:
                    v = pool.not_num(rng)
                h.append((o, v))
                if o == 'remove' and not b:
                    held.discard(v)
            elif o == 'ask':
                h.append((o, rng.choice(['get_min', 'get_max', 'len', 'is_empty', 'get_height', 'get_depth', 'count_leaf_nodes',
                                         'iter', 'to_list', 'get_nodes_per_level', 'preorder_traverse', 'inorder_traverse',
                                         'postorder_traverse', 'depth_first_traverse', 'breadth_first_traverse',
                                         'get_leftside_view', 'get_rightside_view', 'is_perfect', 'is_strict',
                                         'is_balanced', 'traverse', 'traverse', 'black', 'repr']),
                          rng.choice(['inorder', 'preorder', 'POSTORDER', 'breadth-first', 'depth-first', 'Inorder'])
                          if not b else rng.choice(['', 'levelorder', None, 3, Sp('extra')])))
            else:
                h.append((o,))
        return h

    def systematic(self, pool, focus):
        if self.cname == 'Treap':
            for n in range(1, 6):
                for vs in itertools.permutations(range(n)):
                    for ps in (range(n), range(-n, 0), [0] * n, [(-1) ** i * i for i in range(n)]):
                        for d in range(n):
                            yield [('new', None, 1, None)] + [('insert', v, p) for v, p in zip(vs, ps)] + [('remove', d)]
            return
        for n in range(1, 6):
            for vs in itertools.permutations(range(n)):
                for d in range(n):
                    h = [('new', None, 1, None)] + [('insert', v) for v in vs] + [('remove', d)]
                    if self.cname == 'SplayTree':
                        h += [('contains', (d + 1) % n), ('contains', d)]
                    yield h + [('remove', (d + 1) % n)]
        # all deletion orders of some bigger trees
        for n in (7, 8):
            for i in range(n):
                for j in range(n):
                    yield [('new', None, 1, None)] + [('insert', v) for v in range(n)] + [('remove', i), ('remove', j)]
                    yield [('new', None, 1, None)] + [('insert', (3 * v) % n) for v in range(n)] + [('remove', i), ('remove', j)]

    # ------------------------------------------------------------------
    def check(self, t, M, why, tags, P=None, root=None):
        s = sorted(M)
        n = call(t.__len__)
        if n[0] != 'ok' or n[1] != len(s):
            raise Bad(tags, '%s: length %r instead of %d' % (why, n[1], len(s)))
        if t.is_empty() is not (not s):
            raise Bad(tags, '%s: is_empty gives %r' % (why, t.is_empty()))
        io = call(t.inorder_traverse)
        if io[0] != 'ok' or io[1] != s:
            raise Bad(tags, '%s: in-order listing %r instead of %r' % (why, io[1] if io[0] != 'ok' else io[1][:14], s[:14]))
        if s:
            for nm, v in (('get_min', s[0]), ('get_max', s[-1])):
                r = call(getattr(t, nm))
                if r[0] != 'ok' or r[1] != v:
                    raise Bad(tags, '%s: %s gives %r instead of %r' % (why, nm, r[1], v))
        if self.cname != 'SplayTree':
            for v in {s[0], s[-1], s[len(s) // 2], s[0] - 1, s[-1] + 1, s[len(s) // 2] + 0.25} if s else {0}:
                if v != v:
                    continue
                r = call(t.__contains__, v)
                if r[0] != 'ok' or r[1] is not (v in M):
                    raise Bad(tags, '%s: membership of %r gives %r' % (why, v, r[1]))
        try:
            rt = t._root
            sh = shape(rt)
        except AttributeError:
            return None
        if inorder(sh) != s:
            raise Bad(tags, '%s: the nodes hold %r instead of %r' % (why, inorder(sh)[:14], s[:14]))
        # parent links lead back
        self.parents(rt, None, why, tags)
        if self.cname == 'AVL':
            self.avl(sh, why, tags)
            h = call(t.get_height)
            if h[0] != 'ok' or h[1] != max(0, hgt(sh)):
                raise Bad(tags, '%s: reported height %r, true height %d' % (why, h[1], max(0, hgt(sh))))
        if self.cname == 'RedBlackTree':
            bh = self.rb(rt, None, why, tags) if rt is not None else 0
            r = call(t.get_black_height)
            # the number of black nodes on a path from the root to a missing child
            if r[0] != 'ok' or r[1] != bh:
                raise Bad(tags, '%s: black height %r instead of %d' % (why, r[1], bh))
        if self.cname == 'Treap':
            self.heap(rt, why, tags, P)
        if self.cname == 'SplayTree' and root is not None and rt.get_data() != root:
            raise Bad(tags, '%s: the root is %r, not %r' % (why, rt.get_data(), root))
        return sh

    def parents(self, n, par, why, tags):
        if n is None:
            return
        try:
            if n.get_parent() is not par:
                raise Bad(tags, '%s: the parent link of %r is wrong' % (why, n.get_data()))
        except AttributeError:
            return
        self.parents(n.get_left(), n, why, tags)
        self.parents(n.get_right(), n, why, tags)

    def avl(self, t, why, tags):
        if t is None:
            return
        if abs(hgt(t[1]) - hgt(t[2])) > 1:
            raise Bad(tags, '%s: at %r the sides have heights %d and %d' % (why, t[0], hgt(t[1]) + 1, hgt(t[2]) + 1))
        self.avl(t[1], why, tags)
        self.avl(t[2], why, tags)

    def rb(self, n, par, why, tags):
        if n is None:
            return 0
        c = n.get_color().name
        if par is None and c != 'BLACK':
            raise Bad(tags, '%s: the root is red' % why)
        if par is not None and c == 'RED' and par.get_color().name == 'RED':
            raise Bad(tags, '%s: red node %r below red node %r' % (why, n.get_data(), par.get_data()))
        a, b = self.rb(n.get_left(), n, why, tags), self.rb(n.get_right(), n, why, tags)
        if a != b:
            raise Bad(tags, '%s: below %r the sides have %d and %d black nodes' % (why, n.get_data(), a, b))
        return a + (c == 'BLACK')

    def heap(self, n, why, tags, P):
        if n is None:
            return
        p = n.get_priority()
        if P.get(n.get_data()) is not None and p != P[n.get_data()]:
            raise Bad(tags, '%s: %r has priority %r, was given %r' % (why, n.get_data(), p, P[n.get_data()]))
        if P.get(n.get_data()) is None:
            P[n.get_data()] = p
        for c in (n.get_left(), n.get_right()):
            if c is not None and c.get_priority() > p:
                raise Bad(tags, '%s: %r (priority %r) below %r (priority %r)' %
                          (why, c.get_data(), c.get_priority(), n.get_data(), p))
            self.heap(c, why, tags, P)

    def play(self, h, focus):
        with Dice(h[0][2], h[0][3]):
            self.play2(h, focus)

    def play2(self, h, focus):
        K = klass(self.cname)
        src = h[0][1]
        why = '%s(%r)' % (self.cname, src)
        self.now = ({self.main, 'C24'}, why)
        r = call(K) if src is None else call(K, list(src))
        if r[0] != 'ok':
            raise Bad({self.main, 'C24'}, '%s raises %s' % (why, r[1]))
        t, M, P = r[1], set(src or ()), {}
        if inf in M or -inf in M:
            pass
        sh = self.check(t, M, why, {self.main}, P)
        splay = self.cname == 'SplayTree'
        for op in h[1:]:
            o, a = op[0], [special(x) for x in op[1:]]
            why = '%s%r on a %s of %r' % (o, tuple(a), self.cname, sh if len(M) < 16 else len(M))
            self.now = ({self.main, 'C24'}, why)
            tags = {self.main}
            N, exp, root = M, ('val', None), None
            P2 = P
            same_shape = False
            warn = False
            if o == 'insert':
                r = call(t.insert, *a)
                v = a[0]
                pbad = self.cname == 'Treap' and a[1] is not None and type(a[1]) not in (int, float)
                if v is None:
                    exp = ('exc', ['ValueError'] + (['TypeError'] if pbad else []))
                elif type(v) not in (int, float) or pbad:
                    exp = ('exc', ['TypeError'])
                else:
                    N = M | {v}
                    root = v
                    if v in M:
                        warn = self.main == 'C14'
                        same_shape = self.cname in ('BST', 'AVL')
                    elif self.cname == 'Treap':
                        P2 = dict(P)
                        P2[v] = a[1]
            elif o == 'remove':
                r = call(t.remove, a[0])
                v = a[0]
                if type(v) in (int, float):
                    N = M - {v}
                    if v not in M:
                        warn = True
                        same_shape = self.cname in ('BST', 'AVL', 'Treap')
                    elif self.cname == 'Treap':
                        P2 = dict(P)
                        del P2[v]
                else:
                    warn = True
                    same_shape = True
                    tags = {'C24'}
            elif o == 'contains':
                v = a[0]
                r = call(t.__contains__, v)
                tags.add('C25')
                ok = type(v) in (int, float)
                if splay and not ok:
                    exp = ('exc', ['ValueError'] if v is None else ['TypeError'])
                else:
                    exp = ('val', ok and v in M)
                    root = v if ok and v in M else None
                    same_shape = not splay
            elif o == 'clear':
                r = call(t.clear)
                N, P2 = set(), {}
                if r[0] == 'ok' and len(t) != 0 and False:
                    pass
            elif o == 'ask':
                r, exp, tg = self.ask(t, a[0], a[1], sh, M)
                if r is None:
                    continue
                tags = set(tg) | {'C25'}
                same_shape = True
            if exp[0] == 'exc':
                if r[0] != 'exc' or r[1] not in exp[1]:
                    raise Bad('C24', '%s: gives %r %r instead of raising %s' % (why, r[0], r[1], exp[1]))
                tags = {'C24'}
                same_shape = True
            else:
                if r[0] == 'exc':
                    raise Bad(tags | {'C24', self.main}, '%s: raises %s (%s)' % (why, r[1], r[2]))
                if exp[0] == 'val' and not (type(r[1]) == type(exp[1]) and r[1] == exp[1]):
                    raise Bad(tags, '%s: gives %r instead of %r' % (why, r[1], exp[1]))
                if warn and not r[2]:
                    raise Bad(tags, '%s: no warning' % why)
            if o == 'clear':
                pass
            M, P = N, P2
            sh2 = self.check(t, M, 'after ' + why, tags, P, root if splay and o in ('insert', 'contains') else None)
            if same_shape and sh2 != sh:
                raise Bad(tags, '%s: the tree changes to %r' % (why, sh2))
            sh = sh2

    def ask(self, t, q, arg, sh, M):
        """result, expectation, tags"""
        from .trees import facts
        f = facts(sh)
        n = len(M)
        if q in ('get_min', 'get_max'):
            r = call(getattr(t, q))
            if not n:
                return r, ('exc', ['IndexError']), ['C24']
            return r, ('val', min(M) if q == 'get_min' else max(M)), [self.main]
        if q == 'black':
            if self.cname != 'RedBlackTree':
                return None, None, None
            return call(t.get_black_height), ('any',), [self.main]
        if q == 'len':
            return call(t.__len__), ('val', n), [self.main, 'C12']
        if q == 'repr':
            return call(t.__repr__), ('any',), ['C25']
        if q == 'is_balanced':
            r = call(t.is_balanced)
            return r, ('any',), ['C25']
        if q == 'iter':
            return call(lambda: list(t)), ('val', f['bfs']), ['C12']
        if q == 'traverse':
            r = call(t.traverse, arg)
            if type(arg) != str:
                return r, ('exc', ['TypeError']), ['C24']
            k = {'inorder': 'in', 'preorder': 'pre', 'postorder': 'post', 'breadth-first': 'bfs',
                 'depth-first': 'pre'}.get(arg.lower())
            if k is None:
                return r, ('exc', ['ValueError']), ['C24']
            return r, ('val', f[k]), ['C13']
        key, tag = {'get_height': ('height', 'C12'), 'get_depth': ('zero', 'C12'), 'count_leaf_nodes': ('leaves', 'C12'),
                    'to_list': ('bfs', 'C12'), 'get_nodes_per_level': ('levels', 'C12'), 'is_empty': ('empty', 'C12'),
                    'preorder_traverse': ('pre', 'C13'), 'inorder_traverse': ('in', 'C13'),
                    'postorder_traverse': ('post', 'C13'), 'depth_first_traverse': ('pre', 'C13'),
                    'breadth_first_traverse': ('bfs', 'C13'), 'get_leftside_view': ('lview', 'C13'),
                    'get_rightside_view': ('rview', 'C13'), 'is_perfect': ('perfect', 'C13'), 'is_strict': ('strict', 'C13')}[q]
        return call(getattr(t, q)), ('val', f[key]), [tag]


FAMILIES = [SearchFamily(k) for k in MAIN]
