"""Linked lists: random and small exhaustive histories against a plain Python list."""
import itertools
from .core import *

INS = [('add_front',), ('add_end',), ('insert',)]


def cls_of(name):
    if name == 'LinkedList':
        from extra.lists.linked_list import LinkedList as k
    elif name == 'DoublyLinkedList':
        from extra.lists.doubly_linked_list import DoublyLinkedList as k
    else:
        from extra.lists.circular_linked_list import CircularLinkedList as k
    return k


MAIN = {'LinkedList': 'C01', 'DoublyLinkedList': 'C02', 'CircularLinkedList': 'C03'}
OPPROP = {'extend': 'C06', 'init_from': 'C06', 'copy': 'C04', 'reverse': 'C04', 'slice': 'C04', 'split': 'C04',
          'rotate_left': 'C04', 'rotate_right': 'C04', 'to_list': 'C04', 'count': 'C04',
          'eq': 'C05', 'ne': 'C05', 'lt': 'C05', 'le': 'C05', 'gt': 'C05', 'ge': 'C05'}
PURE = {'copy', 'reverse', 'slice', 'split', 'to_list', 'count', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'len', 'is_empty',
        'iter', 'getitem', 'contains', 'init_from', 'repr'}


class ListFamily(Family):
    def __init__(self, cname):
        self.cname = cname
        self.main = MAIN[cname]
        self.tags = (self.main, 'C04', 'C05', 'C06', 'C23', 'C25')
        self.circ = cname == 'CircularLinkedList'

    # ------------------------------------------------------------ histories
    def ops(self, focus):
        base = ['add_front', 'add_end', 'insert', 'setitem', 'delitem', 'remove_front', 'remove_end', 'remove']
        ask = ['len', 'is_empty', 'iter', 'getitem', 'contains']
        if focus == self.main:
            return base * 2 + ask + ['clear', 'init', 'switch']
        if focus == 'C04':
            return base + ['copy', 'reverse', 'slice', 'slice', 'split', 'rotate_left', 'rotate_right', 'rotate_left',
                           'rotate_right', 'to_list', 'count', 'switch']
        if focus == 'C05':
            return base + ['eq', 'ne', 'lt', 'le', 'gt', 'ge'] * 2 + ['switch', 'other_like']
        if focus == 'C06':
            return base + ['extend'] * 4 + ['init_from'] * 3 + ['switch']
        return base + ask + ['copy', 'reverse', 'slice', 'split', 'rotate_left', 'rotate_right', 'to_list', 'count', 'eq',
                             'ne', 'lt', 'le', 'gt', 'ge', 'extend', 'init_from', 'switch', 'repr', 'clear', 'init']

    def gen(self, rng, pool, focus, hint=()):
        cmp = focus == 'C05' or rng.random() < 0.3
        tricky = rng.random() < 0.5
        kind = rng.choice(['int', 'int', 'str', 'float'])
        span = rng.choice([1, 2, 4, 8])

        def item():
            if not cmp:
                if tricky:
                    return pool.item(rng)
                return rng.randint(0, span)
            if kind == 'int':
                return rng.randint(-span, span) if rng.random() < 0.9 else rng.choice(pool.ints)
            if kind == 'float':
                return rng.choice([0.0, 0.5, 1.0, 2.0, inf, -inf, 1, 2])
            return rng.choice(['a', 'b', '', 'ab', 'a\nb', 'z'])
        n = pool.size(rng)
        bad = 0.35 if focus == 'C23' else 0.05
        start = [item() for _ in range(pool.size(rng) if rng.random() < 0.6 else 0)]
        h = [('new', start, 'cmp' if cmp else '')]
        ops = self.ops(focus)
        if hint and rng.random() < 0.6:
            extra = [o for o in ops if o in hint]
            ops = ops + extra * 6
        for _ in range(n + 1):
            o = rng.choice(ops)
            h.append(self.mk(o, rng, pool, item, bad))
        return h

    def idx(self, rng, pool):
        r = rng.random()
        if r < 0.75:
            return ('rel', rng.random())
        if r < 0.9:
            return rng.randint(-6, 9)
        return pool.int(rng)

    def mk(self, o, rng, pool, item, bad):
        b = rng.random() < bad
        it = (lambda: pool.bad_item(rng)) if b and rng.random() < 0.7 else item
        ix = (lambda: rng.choice([pool.bad_index(rng), -1, -2, 10 ** 6, ('rel', 1.2), (None, None, None)])) \
            if b else (lambda: self.idx(rng, pool))
        if o in ('add_front', 'add_end'):
            return (o, it())
        if o == 'insert':
            return (o, ix(), it())
        if o == 'setitem':
            return (o, ix(), it())
        if o == 'delitem':
            return (o, ix())
        if o == 'getitem':
            return (o, ix())
        if o == 'remove':
            return (o, it(), rng.choice([True, False]) if not b else rng.choice([0, 1, None, 'x', True]))
        if o in ('contains', 'count'):
            return (o, item() if rng.random() < 0.9 else rng.choice([None, 77, 'zz', Sp('object')]))
        if o in ('rotate_left', 'rotate_right'):
            d = rng.choice([0, 1, 2, 3, rng.randint(0, 12), ('len', 0), ('len', 1), ('len', -1), ('len2', 0)])
            if b:
                d = rng.choice([-1, -5, 1.0, None, 'a', True, d])
            return (o, d, rng.choice([True, False]) if not b else rng.choice([0, 1, None, 'x', True]))
        if o == 'split':
            return (o, ix())
        if o == 'slice':
            def e():
                return rng.choice([None, None, rng.randint(-9, 9), rng.randint(0, 4), pool.int(rng)])
            st = rng.choice([None, None, 1, -1, 2, -2, 3, -3, rng.randint(-9, 9) or 1] + ([0] if b else []))
            return (o, e(), e(), st)
        if o in ('extend', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'init_from'):
            r = rng.random()
            if b and o != 'init_from':
                return (o, rng.choice([None, 3, 'ab', ('list',), Sp('extra2')]))
            return (o, '@self' if r < 0.15 else '@other')
        if o == 'init':
            return (o, [item() for _ in range(rng.randint(0, 5))] + ([pool.bad_item(rng)] if b else []))
        if o == 'other_like':
            return (o, rng.choice(['same', 'shorter', 'longer', 'less', 'more', 'mixed']), rng.random())
        return (o,)

    def systematic(self, pool, focus):
        """every short history over a tiny alphabet, then each question on every small list"""
        base = [('add_front', 7), ('add_end', 8), ('remove_front',), ('remove_end',), ('insert', 1, 9), ('delitem', 1),
                ('remove', 8, True), ('remove', 7, False), ('setitem', 0, 5)]
        probe = {self.main: [('iter',), ('getitem', 0), ('getitem', -1), ('contains', 8), ('clear',), ('add_end', 3),
                             ('remove_end',)],
                 'C04': [('copy',), ('reverse',), ('split', 1), ('split', 0), ('rotate_left', 1, True), ('rotate_right', 1, True),
                         ('rotate_left', 1, False), ('rotate_right', 2, False), ('to_list',), ('count', 8),
                         ('slice', None, None, -1), ('slice', 1, None, None), ('slice', None, None, 2)],
                 'C05': [('eq', '@other'), ('lt', '@other'), ('le', '@other'), ('gt', '@other'), ('ge', '@other'),
                         ('ne', '@other'), ('lt', '@self')],
                 'C06': [('extend', '@other'), ('extend', '@self'), ('init_from', '@other')],
                 'C23': [('insert', -1, 1), ('add_end', None), ('setitem', 0, None), ('delitem', 99), ('rotate_left', -1, True),
                         ('remove', None, True), ('split', -1), ('getitem', 50)],
                 'C25': [('iter',), ('getitem', 0), ('contains', 8), ('copy',), ('reverse',), ('split', 1), ('count', 8),
                         ('to_list',), ('eq', '@other'), ('lt', '@other')]}.get(focus, [])
        if focus == 'C05':
            for n in range(0, 4):
                for m in range(0, 4):
                    for a in itertools.product((0, 1), repeat=n):
                        for b in itertools.product((0, 1), repeat=m):
                            yield [('new', list(a), 'cmp'), ('switch',), ('init', list(b)), ('switch',)] + \
                                [(o, '@other') for o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')]
            return
        for n in range(0, 5):
            for t in itertools.product((7, 8), repeat=n):
                for o in base + probe:
                    for q in probe[:4]:
                        yield [('new', list(t), ''), o, q]
        for k in (2, 3):
            for t in itertools.product(base, repeat=k):
                yield [('new', [], '')] + list(t) + probe[:3]
        for t in itertools.product(base[:4], repeat=4):
            for q in probe:
                yield [('new', [], '')] + list(t) + [q]
        if focus == 'C04' and not self.circ:
            R = [None, -4, -3, -1, 0, 1, 2, 3, 5]
            for n in (0, 1, 3, 4):
                for a in R:
                    for b in R:
                        for s in (None, 1, 2, 3, -1, -2, -3):
                            yield [('new', list(range(n)), ''), ('slice', a, b, s)]
        if focus == 'C04':
            for n in range(5):
                for d in range(2 * n + 2):
                    for o in ('rotate_left', 'rotate_right'):
                        for ip in (True, False):
                            yield [('new', list(range(n)), ''), (o, d, ip), ('add_end', 9), ('to_list',)]
                for i in range(n + 1):
                    yield [('new', list(range(n)), ''), ('split', i)]

    # ------------------------------------------------------------ observation
    def state(self, l, why, tags):
        """content, read in all ways, each compared with the others"""
        n = len(l)
        if type(n) != int or n < 0:
            raise Bad(tags, '%s: len() gives %r' % (why, n))
        out = []
        for x in l:
            out.append(x)
            if len(out) > n + 3:
                raise Bad(tags, '%s: iteration gives more than len()=%d items: %r' % (why, n, out[:8]))
        if len(out) != n:
            raise Bad(tags, '%s: len() is %d but iteration gives %d items' % (why, n, len(out)))
        if l.is_empty() is not (n == 0):
            raise Bad(tags, '%s: is_empty() is %r with %d items' % (why, l.is_empty(), n))
        return out

    def deep(self, l, out, why, tags):
        n = len(out)
        main = set(tags) & {self.main} or tags
        try:
            h = l._head
            h.get_next
        except AttributeError:
            return
        cur, k = h, 0
        nodes = []
        while k < n:
            if cur is None:
                raise Bad(tags, '%s: next links end after %d of %d items' % (why, k, n))
            nodes.append(cur)
            if not same(cur.get_data(), out[k]):
                raise Bad(tags, '%s: item %d is %r by links, %r by iteration' % (why, k, cur.get_data(), out[k]))
            cur = cur.get_next()
            k += 1
        if n and self.circ and cur is not h:
            raise Bad(tags, '%s: %d next links from the first element do not lead back to it' % (why, n))
        if n and not self.circ and cur is not None:
            raise Bad(tags, '%s: next links go on after the last item' % why)
        if self.cname == 'DoublyLinkedList':
            try:
                t = l._tail
                hasattr(h, 'get_prev') and (h.get_prev() if h is not None else None)
            except AttributeError:
                return
            cur, k = t, n
            if n == 0:
                return
            while k > 0:
                if cur is not nodes[k - 1]:
                    raise Bad(tags, '%s: walking back from the last element meets a different element at position %d' %
                              (why, k - 1))
                cur = cur.get_prev()
                k -= 1
            if cur is not None:
                raise Bad(tags, '%s: previous links go on before the first item' % why)

    def index_agrees(self, l, out, why, tags):
        n = len(out)
        for i in sorted({0, 1, n // 2, n - 2, n - 1}):
            if 0 <= i < n:
                r = call(l.__getitem__, i)
                if r[0] != 'ok' or not same(r[1], out[i]):
                    raise Bad(tags, '%s: [%d] gives %r, the item there is %r' % (why, i, r[1], out[i]))
                r = call(l.__contains__, out[i])
                if not (out[i] is None) and out[i] == out[i] and (r[0] != 'ok' or r[1] is not True):
                    raise Bad(tags, '%s: %r is held but membership says %r' % (why, out[i], r[1]))
        if n and not self.circ:
            r = call(l.__getitem__, -1)
            if r[0] != 'ok' or not same(r[1], out[-1]):
                raise Bad(tags, '%s: [-1] gives %r instead of %r' % (why, r[1], out[-1]))

    # ------------------------------------------------------------ play
    def play(self, h, focus):
        K = cls_of(self.cname)
        cmp = h[0][2] == 'cmp'
        why = 'new %s(%r)' % (self.cname, h[0][1])
        T0 = {self.main, 'C06', 'C23'}
        self.now = (T0, why)
        r = call(K, special(h[0][1]))
        if r[0] != 'ok':
            raise Bad(T0, '%s raises %s' % (why, r[1]))
        A, MA = r[1], [norm(x) for x in special(h[0][1])]
        B, MB = K(), []
        log = []
        # the model holds the very objects given
        src = special(h[0][1])
        for op in h[1:]:
            o = op[0]
            prop = OPPROP.get(o, self.main)
            tags = {prop}
            why = '%s%s on %s%r (other %r)' % (o, op[1:], self.cname, MA, MB) if len(MA) < 12 else \
                '%s%s on a %s of %d items' % (o, op[1:], self.cname, len(MA))
            self.now = ({prop, 'C23'}, why)
            n = len(MA)
            if o == 'switch':
                A, MA, B, MB = B, MB, A, MA
                continue
            if o == 'other_like':
                v = list(MA)
                k = int(op[2] * len(v)) if v else 0
                if op[1] == 'shorter':
                    v = v[:k]
                elif op[1] == 'longer':
                    v = v + v[:1] + v[:k]
                elif v and op[1] in ('less', 'more', 'mixed'):
                    try:
                        if type(v[k]) == str:
                            v[k] = v[k][:-1] if op[1] == 'less' else v[k] + 'b'
                        else:
                            v[k] = v[k] - 1 if op[1] == 'less' else v[k] + 1
                        if op[1] == 'mixed':
                            j = (k + 1) % len(v)
                            v[j] = v[j] - 1 if type(v[j]) != str else ''
                    except TypeError:
                        pass
                B = K(v)
                MB = v
                continue
            args = [self.fix(a, n) for a in op[1:]]
            res, exp, NA, extra = self.step(o, args, A, MA, B, MB, K, tags)
            after = None
            if exp[0] == 'exc':
                if res[0] != 'exc':
                    raise Bad(['C23'], '%s: %s is not raised' % (why, '/'.join(exp[1])))
                if res[1] not in exp[1]:
                    raise Bad(['C23'], '%s: raises %s instead of %s' % (why, res[1], '/'.join(exp[1])))
                tags = {'C23'}
            else:
                if res[0] == 'exc':
                    raise Bad(tags | {'C23'}, '%s: raises %s (%s)' % (why, res[1], res[2]))
                if exp[0] == 'val' and not same(res[1], exp[1]):
                    raise Bad(tags, '%s: gives %r instead of %r' % (why, res[1], exp[1]))
                MA = NA
                if o in PURE:
                    tags = tags | {'C25'}
                if o == 'init':
                    A = res[1]
            # both lists hold what the model says
            for l, m, nm in ((A, MA, 'list'), (B, MB, 'other list')):
                st = self.state(l, 'after ' + why, tags)
                if not same(st, m):
                    raise Bad(tags, 'after %s: the %s holds %r instead of %r' % (why, nm, st[:12], m[:12]))
                self.deep(l, st, 'after ' + why, tags)
            if focus == self.main:
                self.index_agrees(A, MA, 'after ' + why, tags)
            # the results are right and separate
            for (l, m, nm) in extra:
                self.check_result(l, m, nm, why, {prop}, A, MA, B, MB, K)
        return

    def fix(self, a, n):
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'rel':
            return int(a[1] * (n + 1))
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'len':
            return max(0, n + a[1])
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'len2':
            return 2 * n + 1
        if isinstance(a, tuple) and a == (None, None, None):
            return slice(None, None, None)
        return special(a)

    def check_result(self, l, m, nm, why, tags, A, MA, B, MB, K):
        if type(l) is not K:
            raise Bad(tags, '%s: %s is a %s' % (why, nm, type(l).__name__))
        st = self.state(l, '%s of %s' % (nm, why), tags)
        if not same(st, m):
            raise Bad(tags, '%s: %s is %r instead of %r' % (why, nm, st[:12], m[:12]))
        self.deep(l, st, '%s of %s' % (nm, why), tags)
        # edits of the result do not reach the sources, edits of the source do not reach the result
        for src, msrc, who in ((A, MA, 'source'), (B, MB, 'other list')):
            if src is l:
                raise Bad(tags, '%s: %s is the %s itself' % (why, nm, who))
            l.add_end(991); l.add_front(992)
            if len(m):
                l[0] = 993
                l[len(l) // 2] = 994
            st = self.state(src, 'edit of the %s of %s' % (nm, why), tags)
            if not same(st, msrc):
                raise Bad(tags, '%s: editing the %s changes the %s to %r' % (why, nm, who, st[:12]))
            l.remove_front(); l.remove_end()
            snap = list(l)
            src.add_front(995); src.add_end(996)
            if len(msrc):
                src[1] = 997
            st = list(l)
            if not same(st, snap):
                raise Bad(tags, '%s: editing the %s changes the %s to %r' % (why, who, nm, st[:12]))
            src.remove_front(); src.remove_end()
            if len(msrc):
                src[0] = msrc[0]
            st = self.state(src, 'after editing the %s of %s' % (who, why), tags)
            if not same(st, msrc):
                raise Quit()

    def other_edit(self, o, why, A, NA, B, MB, tags):
        """after extend: the two lists are separate"""
        if A is B:
            return
        A.add_end(981)
        if len(A) > 1:
            A[len(A) - 2] = 982
        if len(A) > 2:
            A[0] = 983
        st = self.state(B, why, tags)
        if not same(st, MB):
            raise Bad(tags, '%s: editing the extended list changes the other one to %r' % (why, st[:12]))
        A.remove_end()
        if len(NA):
            if len(A) > 1:
                A[0] = NA[0]
            if len(NA) >= 1:
                A[len(A) - 1] = NA[-1]
        B.add_end(984); B.add_front(985)
        st = self.state(A, why, tags)
        if not same(st, NA):
            raise Bad(tags, '%s: editing the other list changes the extended one to %r' % (why, st[:12]))
        B.remove_end(); B.remove_front()

    def step(self, o, a, A, MA, B, MB, K, tags):
        n, circ = len(MA), self.circ
        ok = lambda v=None: ('val', v)
        bad = lambda v: 'ValueError' if v is None else ('TypeError' if type(v).__module__.startswith('extra') else None)

        def index_err(i, upto):
            if isinstance(i, slice):
                return ['IndexError']
            if type(i) != int:
                return ['TypeError']
            if i < 0 or (not circ and i >= upto):
                return ['IndexError']
            return []
        if o in ('add_front', 'add_end'):
            e = bad(a[0])
            r = call(getattr(A, o), a[0])
            if e:
                return r, ('exc', [e]), MA, ()
            return r, ok(), ([norm(a[0])] + MA if o == 'add_front' else MA + [norm(a[0])]), ()
        if o == 'insert':
            es = index_err(a[0], n + 1) + ([bad(a[1])] if bad(a[1]) else [])
            r = call(A.insert, a[0], a[1])
            if es:
                return r, ('exc', es), MA, ()
            i = a[0] % (n + 1) if circ else a[0]
            return r, ok(), MA[:i] + [norm(a[1])] + MA[i:], ()
        if o == 'setitem':
            es = index_err(a[0], n)
            if not es and circ and n == 0:
                es = ['IndexError']
            es += [bad(a[1])] if bad(a[1]) else []
            r = call(A.__setitem__, a[0], a[1])
            if es:
                return r, ('exc', es), MA, ()
            i = a[0] % n
            return r, ok(), MA[:i] + [norm(a[1])] + MA[i + 1:], ()
        if o == 'delitem':
            es = index_err(a[0], n)
            r = call(A.__delitem__, a[0])
            if es:
                return r, ('exc', es), MA, ()
            if n == 0:
                return r, ok(), MA, ()
            i = a[0] % n
            return r, ok(), MA[:i] + MA[i + 1:], ()
        if o == 'getitem':
            i = a[0]
            r = call(A.__getitem__, i)
            if isinstance(i, slice):
                if circ:
                    return r, ('exc', ['IndexError']), MA, ()
                return r, ('any',), MA, ()
            if type(i) != int:
                return r, ('exc', ['TypeError']), MA, ()
            if circ:
                if i < 0 or n == 0:
                    return r, ('exc', ['IndexError']), MA, ()
                return r, ok(MA[i % n]), MA, ()
            if not -n <= i < n:
                return r, ('exc', ['IndexError']), MA, ()
            return r, ok(MA[i]), MA, ()
        if o in ('remove_front', 'remove_end'):
            r = call(getattr(A, o))
            return r, ok(), (MA[1:] if o == 'remove_front' else MA[:-1]), ()
        if o == 'remove':
            es = [bad(a[0])] if bad(a[0]) else []
            if type(a[1]) != bool:
                es.append('TypeError')
            r = call(A.remove, a[0], a[1])
            if es:
                return r, ('exc', es), MA, ()
            if a[1]:
                return r, ok(), [x for x in MA if not (x == a[0])], ()
            N = list(MA)
            for k, x in enumerate(N):
                if x == a[0]:
                    del N[k]
                    break
            return r, ok(), N, ()
        if o == 'clear':
            return call(A.clear), ok(), [], ()
        if o == 'init':
            r = call(K, a[0])
            for x in a[0]:
                if bad(x):
                    return r, ('exc', [bad(x)]), MA, ()
            return r, ('any',), [norm(x) for x in a[0]], ()
        if o == 'len':
            return call(A.__len__), ok(n), MA, ()
        if o == 'is_empty':
            return call(A.is_empty), ok(n == 0), MA, ()
        if o == 'iter':
            return call(lambda: [x for _, x in zip(range(n + 5), A)]), ok(MA), MA, ()
        if o == 'repr':
            return call(A.__repr__), ('any',), MA, ()
        if o == 'contains':
            if a[0] is None:
                return call(A.__contains__, None), ok(False), MA, ()
            return call(A.__contains__, a[0]), ok(any(x == a[0] for x in MA)), MA, ()
        if o == 'count':
            return call(A.count, a[0]), ok(sum(1 for x in MA if x == a[0])), MA, ()
        if o == 'to_list':
            r = call(A.to_list)
            if r[0] == 'ok' and type(r[1]) == list:
                v = list(r[1])
                r[1].append(1)
                r = ('ok', v, r[2])
            return r, ok(list(MA)), MA, ()
        if o in ('rotate_left', 'rotate_right'):
            es = []
            if type(a[1]) != bool:
                es.append('TypeError')
            if type(a[0]) != int:
                es.append('TypeError')
            elif a[0] < 0:
                es.append('ValueError')
            r = call(getattr(A, o), a[0], a[1])
            if es:
                return r, ('exc', es), MA, ()
            k = (a[0] % n if n else 0)
            k = k if o == 'rotate_left' else n - k
            N = MA[k:] + MA[:k]
            if a[1]:
                return r, ok(), N, ()
            return r, ('any',), MA, [(r[1], N, 'result')] if r[0] == 'ok' else ()
        if o == 'split':
            i = a[0]
            r = call(A.split, i)
            es = index_err(i, n + 1)
            if es:
                return r, ('exc', es), MA, ()
            i = (i % n if n else 0) if circ else i
            if r[0] == 'ok' and not (type(r[1]) == tuple and len(r[1]) == 2):
                raise Bad(tags, 'split does not give a pair')
            return r, ('any',), MA, [(r[1][0], MA[:i], 'left part'), (r[1][1], MA[i:], 'right part')] if r[0] == 'ok' else ()
        if o == 'slice':
            s = slice(*a)
            r = call(A.__getitem__, s)
            if circ:
                return r, ('exc', ['IndexError']), MA, ()
            if a[2] == 0:
                return r, ('exc', ['ValueError']), MA, ()
            return r, ('any',), MA, [(r[1], MA[s], 'slice')] if r[0] == 'ok' else ()
        if o in ('copy', 'reverse'):
            r = call(getattr(A, o))
            return r, ('any',), MA, [(r[1], MA[::-1] if o == 'reverse' else list(MA), 'result')] if r[0] == 'ok' else ()
        if o == 'init_from':
            x, mx = (A, MA) if a[0] == '@self' else (B, MB)
            r = call(K, x)
            return r, ('any',), MA, [(r[1], list(mx), 'new list')] if r[0] == 'ok' else ()
        if o == 'extend':
            x, mx = (A, MA) if a[0] == '@self' else ((B, MB) if a[0] == '@other' else (a[0], None))
            r = call(A.extend, x)
            if mx is None:
                return r, ('exc', ['TypeError']), MA, ()
            N = MA + mx
            if r[0] == 'ok':
                st = self.state(A, 'after extend', tags)
                if not same(st, N):
                    raise Bad(tags, 'extend of %r with %r gives %r' % (MA[:9], mx[:9], st[:18]))
                self.other_edit(o, 'after extend of %r with %r' % (MA[:9], mx[:9]), A, N, x, mx, tags)
            return r, ok(), N, ()
        if o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            x, mx = (A, MA) if a[0] == '@self' else ((B, MB) if a[0] == '@other' else (a[0], None))
            f = getattr(K, '__%s__' % o)
            r = call(f, A, x)
            if mx is None:
                return r, ('exc', ['TypeError']), MA, ()
            eq = len(MA) == len(mx) and all(p == q for p, q in zip(MA, mx))
            if o in ('eq', 'ne'):
                return r, ok(eq if o == 'eq' else not eq), MA, ()
            try:
                le = len(MA) <= len(mx) and all(not q < p for p, q in zip(MA, mx))
                ge = len(MA) >= len(mx) and all(not p < q for p, q in zip(MA, mx))
                # only lists whose items can all be ordered
                for p, q in zip(MA, mx):
                    p < q
            except TypeError:
                return ('ok', None, False), ok(), MA, ()
            return r, ok({'le': le, 'ge': ge, 'lt': le and not eq, 'gt': ge and not eq}[o]), MA, ()
        raise ValueError(o)


FAMILIES = [ListFamily(k) for k in MAIN]
