"""Stack, queue, deque, priority queue."""
import itertools
from .core import *


def klass(n):
    if n == 'Stack':
        from extra.lists.stack import Stack as k
    elif n == 'Queue':
        from extra.lists.queue import Queue as k
    elif n == 'Deque':
        from extra.lists.deque import Deque as k
    else:
        from extra.lists.priority_queue import PriorityQueue as k
    return k


MAIN = {'Stack': 'C07', 'Queue': 'C08', 'Deque': 'C09', 'PriorityQueue': 'C10'}
OPS = {'Stack': ['push'] * 5 + ['pop', 'pop', 'peek', 'len', 'is_empty', 'is_full'],
       'Queue': ['enqueue'] * 5 + ['dequeue', 'dequeue', 'top', 'len', 'is_empty', 'is_full'],
       'Deque': ['append_left'] * 3 + ['append_right'] * 3 + ['pop_left', 'pop_right', 'get_left', 'get_right', 'len',
                                                            'is_empty', 'is_full'],
       'PriorityQueue': ['enqueue'] * 5 + ['dequeue'] * 3 + ['top', 'len', 'is_empty', 'is_full']}


class QFamily(Family):
    def __init__(self, cname):
        self.cname = cname
        self.main = MAIN[cname]
        self.tags = (self.main, 'C23', 'C25')

    def gen(self, rng, pool, focus, hint=()):
        bad = 0.3 if focus == 'C23' else 0.04
        r = rng.random()
        if r < 0.25:
            cap = None
        elif r < 0.8:
            cap = rng.choice([0, 1, 2, 3, 4, 5, 0.4, 0.5, 1.5, 2.5, 3.7, 2.0, inf, 7])
        elif r < 0.9:
            cap = pool.size(rng)
        else:
            cap = rng.choice([-1, -0.5, 'a', True, None, Sp('complex'), [1], -inf, Sp('object')]) if focus == 'C23' else 2
        h = [('new', cap)]
        ops = list(OPS[self.cname])
        if rng.random() < 0.3:
            ops.append('clear')
        if hint and rng.random() < 0.5:
            ops += [o for o in ops if o in hint] * 4
        if rng.random() < 0.2:
            ops = [o for o in ops if o in ('push', 'enqueue', 'append_left', 'append_right')] * 2 + ops
        span = rng.choice([1, 2, 4, 9])
        neg = rng.random() < 0.5

        def prio():
            if rng.random() < 0.75:
                return rng.randint(-span if neg else 0, span)
            return pool.num(rng)
        k = 0
        for _ in range(pool.size(rng) + 2):
            o = rng.choice(ops)
            b = rng.random() < bad
            if o in ('push', 'enqueue', 'append_left', 'append_right'):
                k += 1
                it = pool.bad_item(rng) if b else (k if rng.random() < 0.6 else pool.item(rng))
                if self.cname == 'PriorityQueue':
                    if b and rng.random() < 0.5:
                        h.append((o, k, rng.choice(['a', True, (1,), Sp('complex')])))
                    else:
                        h.append((o, it, prio()))
                else:
                    h.append((o, it))
            elif o == 'dequeue' and self.cname == 'PriorityQueue':
                h.append((o, rng.choice([True, False])))
            else:
                h.append((o,))
        return h

    def systematic(self, pool, focus):
        n = self.cname
        if n == 'Stack':
            al = [('push', 1), ('push', 2), ('pop',), ('peek',), ('clear',)]
        elif n == 'Queue':
            al = [('enqueue', 1), ('enqueue', 2), ('dequeue',), ('top',), ('clear',)]
        elif n == 'Deque':
            al = [('append_left', 1), ('append_right', 2), ('pop_left',), ('pop_right',), ('append_right', 3)]
        else:
            al = [('enqueue', 1, 1), ('enqueue', 2, 2), ('enqueue', 3, 0), ('enqueue', 4, 1), ('dequeue', False),
                  ('dequeue', True)]
        for k in range(1, 7):
            for cap in (None, 0, 1, 2, 3):
                for t in itertools.product(al, repeat=k):
                    if k >= 5 and cap in (0, 1) and k == 6:
                        continue
                    yield [('new', cap)] + list(t)

    def content(self, q):
        """items oldest first (stack: bottom first; deque: left to right), with priorities if any; None if not readable"""
        try:
            c = q._container
            if self.cname == 'Stack':
                return list(c)
            if self.cname == 'PriorityQueue':
                out, cur, n = [], c._head, 0
                while cur is not None and n < 10 ** 5:
                    out.append((cur.get_data(), cur.get_priority()))
                    cur = cur.get_next()
                    n += 1
                return out[::-1]
            out = list(c)
            return out[::-1] if self.cname == 'Queue' else out
        except AttributeError:
            return None

    def play(self, h, focus):
        K = klass(self.cname)
        cap = special(h[0][1])
        why = '%s(%r)' % (self.cname, cap)
        self.now = ({self.main, 'C23'}, why)
        r = call(K) if cap is None else call(K, cap)
        if cap is not None and type(cap) not in (int, float):
            if r[0] != 'exc' or r[1] != 'TypeError':
                raise Bad('C23', '%s: TypeError is not raised (%r)' % (why, r[1]))
            return
        if cap is not None and cap < 0:
            if r[0] != 'exc' or r[1] != 'ValueError':
                raise Bad('C23', '%s: ValueError is not raised (%r)' % (why, r[1]))
            return
        if r[0] != 'ok':
            raise Bad({self.main, 'C23'}, '%s raises %s' % (why, r[1]))
        q = r[1]
        cap = inf if cap is None or cap == inf else round(cap)
        M = []
        check = True
        for op in h[1:]:
            o, a = op[0], [special(x) for x in op[1:]]
            why = '%s%r on %s of capacity %r holding %r' % (o, tuple(a), self.cname, cap, M[-10:])
            self.now = ({self.main, 'C23'}, why)
            tags = {self.main}
            n = len(M)
            N = list(M)
            exp = ('val', None)
            warned = None
            fn = getattr(q, o, None) if o != 'len' else q.__len__
            itemerr = None
            if o in ('push', 'enqueue', 'append_left', 'append_right'):
                if a[0] is None:
                    itemerr = ['ValueError']
                elif type(a[0]).__module__.startswith('extra'):
                    itemerr = ['TypeError']
                if o == 'enqueue' and self.cname == 'PriorityQueue' and a[1] is not None and type(a[1]) not in (int, float):
                    itemerr = (itemerr or []) + ['TypeError']
                x = norm(a[0])
                if self.cname == 'PriorityQueue':
                    x = (x, a[1])
                if o == 'push' and n == cap:
                    exp = ('exc', ['OverflowError'] + (itemerr or []))
                elif itemerr:
                    exp = ('exc', itemerr)
                elif o == 'push':
                    N = M + [x]
                elif o == 'append_left':
                    warned = n == cap
                    N = ([x] + M)[:int(min(cap, n + 1))]
                else:
                    warned = n == cap
                    N = M + [x]
                    if len(N) > cap:
                        N = N[1:] if cap > 0 else []
                r = call(fn, *a)
            elif o in ('pop', 'dequeue', 'pop_left', 'pop_right'):
                r = call(fn, *a)
                if n == 0:
                    warned = True
                elif self.cname == 'PriorityQueue':
                    best = (min if a[0] else max)(p for _, p in M)
                    exp = ('one', best)
                elif o in ('pop', 'pop_right'):
                    exp, N = ('val', M[-1]), M[:-1]
                else:
                    exp, N = ('val', M[0]), M[1:]
            elif o in ('peek', 'top', 'get_left', 'get_right'):
                r = call(fn)
                tags.add('C25')
                if n == 0:
                    exp = ('exc', ['IndexError'])
                else:
                    v = M[-1] if o in ('peek', 'get_right') else M[0]
                    exp = ('val', v[0] if self.cname == 'PriorityQueue' else v)
            elif o == 'len':
                r = call(fn)
                exp = ('val', n)
                tags.add('C25')
            elif o == 'is_empty':
                r = call(fn)
                exp = ('val', n == 0)
                tags.add('C25')
            elif o == 'is_full':
                r = call(fn)
                exp = ('val', n == cap)
                tags.add('C25')
            elif o == 'clear':
                r = call(fn)
                N = []
            if exp[0] == 'exc':
                if r[0] != 'exc' or r[1] not in exp[1]:
                    t = {'C23'} | ({self.main} if o == 'push' and n == cap else set())
                    raise Bad(t, '%s: gives %r %r instead of raising %s' % (why, r[0], r[1], exp[1]))
                tags = {'C23'} | ({self.main} if o == 'push' and n == cap else set())
            else:
                if r[0] == 'exc':
                    raise Bad(tags | {'C23'}, '%s: raises %s (%s)' % (why, r[1], r[2]))
                if exp[0] == 'one':
                    ks = [i for i, (d, p) in enumerate(M) if p == exp[1] and same(d, r[1])]
                    if not ks:
                        raise Bad(tags, '%s: gives %r, whose priority is not %r' % (why, r[1], exp[1]))
                    got = self.content(q)
                    opts = [M[:i] + M[i + 1:] for i in ks]
                    if got is not None:
                        if not any(same(got, x) for x in opts):
                            raise Bad(tags, '%s: gives %r and then holds %r' % (why, r[1], got[:12]))
                        N = got
                    elif len(ks) > 1:
                        raise Quit()
                    else:
                        N = opts[0]
                elif not same(r[1], exp[1]):
                    raise Bad(tags, '%s: gives %r instead of %r' % (why, r[1], exp[1]))
                if warned and not r[2]:
                    raise Bad(tags, '%s: no warning' % why)
                if warned is False and r[2] and False:
                    raise Bad(tags, '%s: a warning' % why)
            M = N
            got = self.content(q)
            if got is not None and not same(got, M):
                raise Bad(tags, 'after %s: it holds %r instead of %r' % (why, got[:12], M[:12]))
            for nm, v in (('__len__', len(M)), ('is_empty', len(M) == 0), ('is_full', len(M) == cap)):
                r = call(getattr(q, nm))
                if r[0] != 'ok' or not same(r[1], v):
                    raise Bad(tags, 'after %s: %s gives %r instead of %r' % (why, nm, r[1], v))
            if len(M) > cap:
                raise Bad(tags, 'after %s: more items than the capacity' % why)
        # empty it
        if focus == self.main:
            self.now = ({self.main}, 'emptying %s holding %r' % (self.cname, M[:12]))
            while M:
                if self.cname == 'Stack':
                    v, r = M.pop(), call(q.pop)
                elif self.cname == 'Queue':
                    v, r = M.pop(0), call(q.dequeue)
                elif self.cname == 'Deque':
                    v, r = M.pop(0), call(q.pop_left)
                else:
                    r = call(q.dequeue)
                    b = max(p for _, p in M)
                    ks = [i for i, (d, p) in enumerate(M) if p == b and (r[0] == 'ok' and same(d, r[1]))]
                    if not ks:
                        raise Bad(self.main, 'emptying a priority queue holding %r: dequeue gives %r' % (M[:12], r[1]))
                    if len({repr(M[i]) for i in ks}) > 1:
                        raise Quit()
                    v = M.pop(ks[0])[0]
                if r[0] != 'ok' or not same(r[1], v):
                    raise Bad(self.main, 'emptying %s: gives %r instead of %r' % (self.cname, r[1], v))
                if len(q) != len(M):
                    raise Bad(self.main, 'emptying %s: length %d instead of %d' % (self.cname, len(q), len(M)))


FAMILIES = [QFamily(k) for k in MAIN]
