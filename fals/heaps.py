"""Min and max heaps."""
import itertools
from .core import *


def klass(n):
    if n == 'MinHeap':
        from extra.trees.min_heap import MinHeap as k
    else:
        from extra.trees.max_heap import MaxHeap as k
    return k


class HeapFamily(Family):
    def __init__(self, cname):
        self.cname = cname
        self.min = cname == 'MinHeap'
        self.tags = ('C19', 'C24', 'C25')

    def gen(self, rng, pool, focus, hint=()):
        bad = 0.3 if focus == 'C24' else 0.03
        span = rng.choice([2, 5, 12, 60])

        def num():
            return rng.randint(-span, span) if rng.random() < 0.88 else pool.num(rng, span)
        h = [('new', [num() for _ in range(pool.size(rng))] if rng.random() < 0.5 else None)]
        ops = ['insert'] * 5 + ['remove'] * 4 + ['remove_min', 'remove_max'] + ['get_min', 'get_max', 'len', 'iter', 'contains',
                                                                              'to_list', 'is_empty', 'repr']
        if rng.random() < 0.15:
            ops.append('clear')
        if rng.random() < 0.3:
            ops += ['insert'] * 8
        held = list(h[0][1] or [])
        for _ in range(pool.size(rng) + 2):
            o = rng.choice(ops)
            b = rng.random() < bad
            if o == 'insert':
                v = pool.not_num(rng) if b else num()
                if not b:
                    held.append(v)
                h.append((o, v))
            elif o in ('remove', 'contains'):
                v = rng.choice(held) if held and rng.random() < 0.8 else num()
                if b:
                    v = pool.not_num(rng)
                elif o == 'remove' and v in held:
                    held.remove(v)
                h.append((o, v))
            else:
                h.append((o,))
        return h

    def systematic(self, pool, focus):
        for n in range(0, 6):
            for t in itertools.product(range(min(n, 3)), repeat=n):
                for d in range(min(n, 3)):
                    yield [('new', None)] + [('insert', v) for v in t] + [('remove', d), ('remove_min',), ('remove_max',)]
        for n in range(3, 8):
            for t in itertools.permutations(range(n)):
                yield [('new', list(t)), ('remove', t[n // 2]), ('remove', t[-1])]

    def play(self, h, focus):
        K = klass(self.cname)
        src = h[0][1]
        why = '%s of %r' % (self.cname, src)
        self.now = ({'C19', 'C24'}, why)
        r = call(K) if src is None else call(K.heapify, list(src))
        if r[0] != 'ok':
            raise Bad({'C19', 'C24'}, '%s raises %s' % (why, r[1]))
        t, M = r[1], sorted(src or [])
        lay = self.check(t, M, why, {'C19'})
        for op in h[1:]:
            o, a = op[0], [special(x) for x in op[1:]]
            why = '%s%r on a %s laid out as %r' % (o, tuple(a), self.cname, lay[:20])
            self.now = ({'C19', 'C24'}, why)
            tags = {'C19'}
            N, exp, warn, keep = list(M), ('val', None), False, False
            fn = t.__len__ if o == 'len' else getattr(t, o, None)
            if o == 'insert':
                r = call(fn, a[0])
                if a[0] is None:
                    exp = ('exc', ['ValueError'])
                elif type(a[0]) not in (int, float):
                    exp = ('exc', ['TypeError'])
                else:
                    N = sorted(M + [a[0]])
            elif o == 'remove':
                r = call(fn, a[0])
                if type(a[0]) in (int, float) and a[0] in M:
                    N.remove(a[0])
                else:
                    warn, keep = True, True
                    if type(a[0]) not in (int, float):
                        tags = {'C24'}
            elif o in ('remove_min', 'remove_max'):
                if not M:
                    r = call(fn)
                    exp = ('either',)
                    keep = True
                    tags = {'C24'}
                else:
                    r = call(fn)
                    N = M[1:] if o == 'remove_min' else M[:-1]
            elif o in ('get_min', 'get_max'):
                r = call(fn)
                keep = True
                tags.add('C25')
                exp = ('exc', ['IndexError']) if not M else ('val', M[0] if o == 'get_min' else M[-1])
            elif o == 'contains':
                r = call(t.__contains__, a[0])
                keep = True
                tags.add('C25')
                exp = ('val', type(a[0]) in (int, float) and a[0] in M)
            elif o == 'clear':
                r, N = call(fn), []
            else:
                keep = True
                tags.add('C25')
                if o == 'iter':
                    r = call(lambda: sorted(t))
                    exp = ('val', M)
                elif o == 'to_list':
                    r = call(fn)
                    if r[0] == 'ok':
                        got = r[1]
                        r = ('ok', sorted(got), r[2])
                        got.append(5)
                        got.reverse()
                    exp = ('val', M)
                elif o == 'repr':
                    r, exp = call(t.__repr__), ('any',)
                else:
                    r = call(fn)
                    exp = ('val', len(M) if o == 'len' else not M)
            if exp[0] == 'exc':
                if r[0] != 'exc' or r[1] not in exp[1]:
                    raise Bad('C24', '%s: gives %r %r instead of raising %s' % (why, r[0], r[1], exp[1]))
                tags, keep = {'C24'}, True
            elif exp[0] == 'either':
                if r[0] == 'exc' and r[1] != 'IndexError':
                    raise Bad('C24', '%s: raises %s' % (why, r[1]))
            else:
                if r[0] == 'exc':
                    raise Bad(tags | {'C19', 'C24'}, '%s: raises %s (%s)' % (why, r[1], r[2]))
                if exp[0] == 'val' and r[1] != exp[1]:
                    raise Bad(tags, '%s: gives %r instead of %r' % (why, r[1], exp[1]))
                if warn and not r[2]:
                    raise Bad(tags, '%s: no warning' % why)
            M = N
            l2 = self.check(t, M, 'after ' + why, tags)
            if keep and l2 != lay:
                raise Bad(tags, '%s changes the heap to %r' % (why, l2[:20]))
            lay = l2

    def check(self, t, M, why, tags):
        lay = list(t)
        if sorted(lay) != M:
            raise Bad(tags, '%s: it holds %r instead of %r' % (why, sorted(lay)[:20], M[:20]))
        if len(t) != len(M) or t.is_empty() is not (not M):
            raise Bad(tags, '%s: length %r instead of %d' % (why, len(t), len(M)))
        for i in range(1, len(lay)):
            p = (i - 1) // 2
            if (lay[i] < lay[p]) if self.min else (lay[i] > lay[p]):
                raise Bad(tags, '%s: %r lies below %r in %r' % (why, lay[i], lay[p], lay[:20]))
        if M:
            for q, v in (('get_min', M[0]), ('get_max', M[-1])):
                r = call(getattr(t, q))
                if r[0] != 'ok' or r[1] != v:
                    raise Bad(tags, '%s: %s gives %r instead of %r' % (why, q, r[1], v))
            if not M[len(M) // 2] in t or (M[0] - 1 in t) != (M[0] - 1 in M):
                raise Bad(tags, '%s: membership' % why)
        return lay


FAMILIES = [HeapFamily('MinHeap'), HeapFamily('MaxHeap')]
