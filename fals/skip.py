"""Skip list: a sorted set for every outcome of the coin."""
import itertools
from .core import *


class SkipFamily(Family):
    cname = 'SkipList'
    tags = ('C11', 'C23', 'C25')

    def gen(self, rng, pool, focus, hint=()):
        bad = 0.25 if focus == 'C23' else 0.03
        span = rng.choice([3, 6, 12, 40])

        near = [rng.choice([0, 1, 1.0, 5, 0.1, 7.5, 1000, 2 ** 31, 2 ** 53, 2 ** 60, 10 ** 20, 10 ** 30, 1e300])
                for _ in range(2)] if rng.random() < 0.25 else None

        def num():
            if near and rng.random() < 0.8:
                b = rng.choice(near)
                return rng.choice([1, 1, -1]) * (b + rng.choice([0, 0, 1, -1, 2, 1e-12, 1e-10, 1e-8, 1e-5, 0.001, 0.25, 0.5]))
            if rng.random() < 0.85:
                return rng.randint(-span, span)
            v = pool.num(rng, span)
            return v if v != -inf else inf
        h = [('new', [num() for _ in range(pool.size(rng))] if rng.random() < 0.4 else None, rng.randint(0, 10 ** 6),
              rng.choice([None, None, 1, 2, 4, 0.5, 0.25]))]
        ops = ['insert'] * 5 + ['remove'] * 4 + ['delitem', 'contains', 'contains', 'getitem', 'len', 'iter', 'to_list', 'is_empty']
        if rng.random() < 0.2:
            ops += ['clear', 'init_from']
        if rng.random() < 0.3:
            ops += ['insert'] * 6
        for _ in range(pool.size(rng) + 2):
            o = rng.choice(ops)
            b = rng.random() < bad
            if o == 'insert':
                h.append((o, rng.choice([pool.not_num(rng), -inf]) if b else num()))
            elif o in ('remove', 'contains'):
                h.append((o, num() if not b else rng.choice([pool.not_num(rng), -inf])))
            elif o in ('delitem', 'getitem'):
                h.append((o, ('rel', rng.random()) if not b else rng.choice([-1, 'a', None, 1.0, True, 99, (None, None, None)])))
            else:
                h.append((o,))
        return h

    def systematic(self, pool, focus):
        al = [('insert', 1), ('insert', 2), ('insert', 3), ('remove', 1), ('remove', 2), ('remove', 3)]
        for k in range(1, 6):
            for s in range(3):
                for t in itertools.product(al, repeat=k):
                    yield [('new', None, s, 1 if s else 4)] + list(t) + [('to_list',), ('contains', 2)]

    def state(self, s, why, tags):
        n = s.__len__()
        out = []
        for x in s:
            out.append(x)
            if len(out) > n + 3:
                raise Bad(tags, '%s: iteration gives more than len()=%r items: %r' % (why, n, out[:8]))
        return out

    def play(self, h, focus):
        from extra.lists.skip_list import SkipList
        with Dice(h[0][2], h[0][3]):
            self.play2(h, focus, SkipList)

    def play2(self, h, focus, K):
        src = special(h[0][1])
        why = 'SkipList(%r)' % (src,)
        self.now = ({'C11', 'C23'}, why)
        r = call(K) if src is None else call(K, src)
        if r[0] != 'ok':
            raise Bad({'C11', 'C23'}, '%s raises %s' % (why, r[1]))
        s, M = r[1], sorted(set(src or []))
        self.check(s, M, why, {'C11'})
        for op in h[1:]:
            o, a = op[0], [special(x) if not (isinstance(x, tuple) and x[0] == 'rel') else x for x in op[1:]]
            a = [int(x[1] * len(M)) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'rel' else x for x in a]
            a = [slice(*x) if isinstance(x, tuple) and len(x) == 3 else x for x in a]
            why = '%s%r on a skip list of %r' % (o, tuple(a), M[:14])
            self.now = ({'C11', 'C23'}, why)
            tags = {'C11'}
            N, exp = M, ('val', None)
            if o == 'insert':
                v = a[0]
                r = call(s.insert, v)
                if v is None or (type(v) == float and v == -inf):
                    exp = ('exc', ['ValueError'])
                elif type(v) not in (int, float):
                    exp = ('exc', ['TypeError'])
                else:
                    N = sorted(set(M) | {v})
            elif o == 'remove':
                r = call(s.remove, a[0])
                if type(a[0]) in (int, float):
                    N = [x for x in M if x != a[0]]
            elif o == 'contains':
                r = call(s.__contains__, a[0])
                exp = ('val', type(a[0]) in (int, float) and a[0] in M)
                tags.add('C25')
            elif o in ('getitem', 'delitem'):
                i = a[0]
                r = call(s.__getitem__ if o == 'getitem' else s.__delitem__, i)
                if isinstance(i, slice):
                    exp = ('exc', ['IndexError'])
                elif type(i) != int:
                    exp = ('exc', ['TypeError'])
                elif not 0 <= i < len(M):
                    exp = ('exc', ['IndexError'])
                elif o == 'getitem':
                    exp = ('val', M[i])
                    tags.add('C25')
                else:
                    N = M[:i] + M[i + 1:]
            elif o == 'len':
                r, exp = call(s.__len__), ('val', len(M))
                tags.add('C25')
            elif o == 'is_empty':
                r, exp = call(s.is_empty), ('val', len(M) == 0)
                tags.add('C25')
            elif o == 'iter':
                r, exp = call(lambda: list(s)), ('val', list(M))
                tags.add('C25')
            elif o == 'to_list':
                r, exp = call(s.to_list), ('val', list(M))
                tags.add('C25')
            elif o == 'clear':
                r, N = call(s.clear), []
            elif o == 'init_from':
                r = call(K, s)
                if r[0] == 'ok':
                    t = r[1]
                    self.check(t, M, 'SkipList(%s)' % why, tags)
                    t.insert(777)
                    self.check(s, M, 'insertion into a skip list built from this one', tags)
                    t.remove(777)
                    exp = ('any',)
            if exp[0] == 'exc':
                if r[0] != 'exc' or r[1] not in exp[1]:
                    raise Bad('C23', '%s: gives %r %r instead of raising %s' % (why, r[0], r[1], exp[1]))
                tags = {'C23'}
            else:
                if r[0] == 'exc':
                    raise Bad(tags | {'C23'}, '%s: raises %s (%s)' % (why, r[1], r[2]))
                if exp[0] == 'val' and not (r[1] == exp[1] and type(r[1]) == type(exp[1])):
                    raise Bad(tags, '%s: gives %r instead of %r' % (why, r[1], exp[1]))
            M = N
            self.check(s, M, 'after ' + why, tags)

    def check(self, s, M, why, tags):
        st = self.state(s, why, tags)
        if st != M:
            raise Bad(tags, '%s: it holds %r instead of %r' % (why, st[:14], M[:14]))
        if len(s) != len(M) or s.is_empty() is not (not M):
            raise Bad(tags, '%s: length %r instead of %d' % (why, len(s), len(M)))
        ask = [M[0], M[-1], M[len(M) // 2], M[0] + 0.25] if M else [1]
        for v in ask:
            r = call(s.__contains__, v)
            if r[0] != 'ok' or r[1] is not (v in M):
                raise Bad(tags, '%s: membership of %r says %r' % (why, v, r[1]))
        for i in {0, len(M) - 1, len(M) // 2}:
            if 0 <= i < len(M):
                r = call(s.__getitem__, i)
                if r[0] != 'ok' or r[1] != M[i]:
                    raise Bad(tags, '%s: [%d] gives %r' % (why, i, r[1]))
        try:
            L = s._level_lists
            prev = None
            for l in L:
                cur, vals = l._head, []
                while cur is not None and len(vals) < 10 ** 5:
                    vals.append(cur.get_data())
                    cur = cur.get_next()
                if any(not x < y for x, y in zip(vals, vals[1:])):
                    raise Bad(tags, '%s: a level is not increasing: %r' % (why, vals[:12]))
        except AttributeError:
            pass


FAMILIES = [SkipFamily()]
