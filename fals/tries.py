"""Trie, radix trie, suffix trie."""
import itertools
from .core import *


class TrieFamily(Family):
    def __init__(self, cname):
        self.cname = cname
        self.main = 'C20' if cname == 'Trie' else 'C21'
        self.tags = (self.main, 'C24', 'C25', 'C12')

    def klass(self):
        if self.cname == 'Trie':
            from extra.trees.trie import Trie as k
        else:
            from extra.trees.radix_trie import RadixTrie as k
        return k

    def gen(self, rng, pool, focus, hint=()):
        bad = 0.3 if focus == 'C24' else 0.04
        al = rng.choice(['ab', 'ab', 'abc', 'a', 'ab ', 'ab\n', 'a}', 'a$b', 'ab~', 'aé漢', 'ab{|}', 'aR O', 'ab\x00'])
        if rng.random() < 0.1:
            al = ''.join(pool.strs) or al
        words = [pool.word(rng, al) for _ in range(rng.randint(1, 6))]

        def word():
            r = rng.random()
            if r < 0.5:
                return rng.choice(words)
            if r < 0.7:
                w = rng.choice(words)
                return w[:rng.randint(0, len(w))]
            if r < 0.85:
                return rng.choice(words) + pool.word(rng, al)
            return pool.word(rng, al)
        h = [('new',)]
        ops = ['insert'] * 5 + ['remove'] * 3 + ['contains', 'has_prefix', 'auto_complete', 'auto_complete', 'len', 'is_empty']
        if rng.random() < 0.2:
            ops.append('clear')
        if focus in ('C25', 'C12'):
            ops += ['ask'] * 3
        for _ in range(min(40, pool.size(rng)) + 3):
            o = rng.choice(ops)
            b = rng.random() < bad
            if o in ('insert', 'remove', 'contains', 'has_prefix', 'auto_complete'):
                h.append((o, word() if not b else rng.choice([None, 3, 1.5, True, ['a'], ('a',), Sp('extra'), Sp('bytes'), ' ',
                                                               '\n', '', '  \t'])))
            else:
                h.append((o,))
        return h

    def systematic(self, pool, focus):
        ws = ['a', 'ab', 'abc', 'b', 'abd', 'ba']
        for k in (1, 2, 3):
            for t in itertools.permutations(ws, k):
                for d in ws[:4]:
                    yield [('new',)] + [('insert', w) for w in t] + [('remove', d)]
                for d in itertools.permutations(t):
                    yield [('new',)] + [('insert', w) for w in t] + [('remove', w) for w in d] + [('insert', t[0])]

    def walk(self, t, why, tags):
        """the words and nodes by structure; labels non-empty, siblings start differently"""
        try:
            root = t._root
            root._is_word
        except AttributeError:
            return None
        words, count = [], 0
        st = [(root, '')]
        while st:
            n, pre = st.pop()
            count += 1
            if n._is_word:
                words.append(pre)
            firsts = set()
            for ch in n.get_children():
                d = ch.get_data()
                if len(d) == 0 or (self.cname == 'Trie' and len(d) != 1):
                    raise Bad(tags, '%s: a label is %r' % (why, d))
                if d[0] in firsts:
                    raise Bad(tags, '%s: two siblings start with %r' % (why, d[0]))
                firsts.add(d[0])
                st.append((ch, pre + d))
        return sorted(words), count

    def check(self, t, M, why, tags):
        got = call(t.auto_complete)
        if got[0] != 'ok' or sorted(got[1]) != sorted(M):
            raise Bad(tags, '%s: it holds %r instead of %r' % (why, got[1] if got[0] != 'ok' else sorted(got[1])[:12], sorted(M)[:12]))
        w = self.walk(t, why, tags)
        if w is not None:
            if w[0] != sorted(M):
                raise Bad(tags, '%s: the nodes hold %r instead of %r' % (why, w[0][:12], sorted(M)[:12]))
            n = call(t.__len__)
            if n[0] != 'ok' or n[1] != w[1]:
                raise Bad(tags | {'C12'}, '%s: length %r, but there are %d nodes' % (why, n[1], w[1]))
        if self.cname == 'Trie':
            n = 1 + len({m[:i] for m in M for i in range(1, len(m) + 1)})
            if len(t) != n:
                raise Bad(tags, '%s: size %r instead of %d' % (why, len(t), n))
        if t.is_empty() is not (not M):
            raise Bad(tags, '%s: is_empty gives %r' % (why, t.is_empty()))
        ms = sorted(M)
        probe = set(ms[:5])
        for m in ms[:4]:
            probe |= {m[:-1], m + 'a', m[:len(m) // 2], m[1:], m + m[-1:]}
        for p in probe:
            for q, want in (('__contains__', p in M), ('has_prefix', p == '' or any(m.startswith(p) for m in M))):
                r = call(getattr(t, q), p)
                if r[0] != 'ok' or r[1] is not want:
                    raise Bad(tags, '%s: %s(%r) gives %r with words %r' % (why, q, p, r[1], ms[:12]))
            r = call(t.auto_complete, p)
            want = [m for m in ms if m.startswith(p)]
            if r[0] != 'ok' or sorted(r[1]) != want:
                raise Bad(tags, '%s: auto_complete(%r) gives %r with words %r' % (why, p, r[1], ms[:12]))
        return (sorted(w[0]), w[1]) if w is not None else None

    def play(self, h, focus):
        t, M = self.klass()(), set()
        for op in h[1:]:
            o, a = op[0], [special(x) for x in op[1:]]
            why = '%s%r on a %s of %r' % (o, tuple(a), self.cname, sorted(M)[:12])
            self.now = ({self.main, 'C24'}, why)
            tags = {self.main}
            N, exp, warn = M, ('val', None), False
            fn = getattr(t, o, None)
            if o == 'insert':
                r = call(fn, a[0])
                w = a[0]
                if w is None:
                    exp = ('exc', ['ValueError'])
                elif type(w) != str:
                    exp = ('exc', ['TypeError'])
                elif not w.strip():
                    exp = ('exc', ['ValueError'])
                else:
                    N = M | {w}
            elif o == 'remove':
                r = call(fn, a[0])
                if type(a[0]) == str:
                    N = M - {a[0]}
                else:
                    warn = True
                    tags = {'C24'}
            elif o in ('contains', 'has_prefix'):
                p = a[0]
                r = call(t.__contains__ if o == 'contains' else fn, p)
                tags.add('C25')
                exp = ('val', type(p) == str and (p in M if o == 'contains' else
                                                  p == '' or any(m.startswith(p) for m in M)))
            elif o == 'auto_complete':
                r = call(fn, a[0])
                tags.add('C25')
                if a[0] is None:
                    exp = ('exc', ['ValueError'])
                elif type(a[0]) != str:
                    exp = ('exc', ['TypeError'])
                else:
                    if r[0] == 'ok' and type(r[1]) == list:
                        got = sorted(r[1])
                        r[1].append('zzz')
                        r = ('ok', got, r[2])
                    exp = ('val', sorted(m for m in M if m.startswith(a[0])))
            elif o == 'clear':
                r, N = call(fn), set()
            elif o == 'len':
                r, exp = call(t.__len__), ('any',)
                tags.add('C25')
            elif o == 'is_empty':
                r, exp = call(t.is_empty), ('val', not M)
                tags.add('C25')
            elif o == 'ask':
                self.ask(t, M, why)
                r, exp = ('ok', None, False), ('any',)
                tags = {'C25'}
            if exp[0] == 'exc':
                if r[0] != 'exc' or r[1] not in exp[1]:
                    raise Bad('C24', '%s: gives %r %r instead of raising %s' % (why, r[0], r[1], exp[1]))
                tags = {'C24'}
            else:
                if r[0] == 'exc':
                    raise Bad(tags | {'C24'}, '%s: raises %s (%s)' % (why, r[1], r[2]))
                if exp[0] == 'val' and not (r[1] == exp[1] and type(r[1]) == type(exp[1])):
                    raise Bad(tags, '%s: gives %r instead of %r' % (why, r[1], exp[1]))
                if warn and not r[2]:
                    raise Bad(tags, '%s: no warning' % why)
            M = N
            self.check(t, M, 'after ' + why, tags)

    def ask(self, t, M, why):
        """counts by structure"""
        try:
            root = t._root
            root.get_children()
        except AttributeError:
            return
        levels, cur, leaves = [], [root], 0
        while cur:
            levels.append([x.get_data() for x in cur])
            leaves += sum(1 for x in cur if not x.get_children())
            cur = [c for x in cur for c in x.get_children()]
        empty = len(levels) == 1
        flat = [v for l in levels[1:] for v in l]
        for q, want in (('get_height', len(levels) - 1), ('count_leaf_nodes', 0 if empty else leaves), ('to_list', flat),
                        ('get_nodes_per_level', levels[1:]), ('get_depth', 0)):
            r = call(getattr(t, q))
            if r[0] != 'ok':
                raise Bad({'C12', 'C24'}, '%s on %s raises %s' % (q, why, r[1]))
            if want is not None and r[1] != want:
                raise Bad('C12', '%s on a %s of %r gives %r instead of %r' % (q, self.cname, sorted(M)[:9], r[1], want))
        r = call(t.__repr__)


class SuffixFamily(Family):
    cname = 'SuffixTrie'
    tags = ('C22', 'C24', 'C25', 'C12')

    def gen(self, rng, pool, focus, hint=()):
        al = rng.choice(['ab', 'ab', 'abc', 'a', 'abcd', 'a}', 'ABab', 'a~', 'é漢a', '0123', '1a', 'a⟶b', 'a,b', "%&'"])
        r = rng.random()
        if r < 0.8:
            w = ''.join(rng.choice(al) for _ in range(rng.randint(1, 14)))
        elif r < 0.9:
            p = ''.join(rng.choice(al) for _ in range(rng.randint(1, 4)))
            w = p * rng.randint(2, 6)
        else:
            w = ''.join(rng.choice(al) for _ in range(rng.randint(15, 40)))
        pats = [''.join(rng.choice(al) for _ in range(rng.randint(1, 5))) for _ in range(6)]
        for _ in range(6):
            i = rng.randrange(len(w))
            pats.append(w[i:i + rng.randint(1, 6)])
            pats.append(w[i:] + rng.choice(al))
        return [('word', w), ('ask', pats), ('bad', rng.choice([None, 3, '', Sp('extra'), ['a'], True]))]

    def systematic(self, pool, focus):
        for n in range(1, 8):
            for t in itertools.product('ab' if n > 5 else 'abc', repeat=n):
                w = ''.join(t)
                subs = sorted({w[i:j] for i in range(n) for j in range(i + 1, n + 1)})
                yield [('word', w), ('ask', subs + ['aab', 'bb', 'ba', 'c', 'abab'])]

    def play(self, h, focus):
        from extra.trees.suffix_trie import SuffixTrie
        w = h[0][1]
        why = 'SuffixTrie(%r)' % w
        self.now = ({'C22'}, why)
        r = call(SuffixTrie, w)
        if r[0] != 'ok':
            raise Bad({'C22', 'C24'}, '%s raises %s' % (why, r[1]))
        t = r[1]
        for op in h[1:]:
            if op[0] == 'bad':
                v = special(op[1])
                r = call(SuffixTrie, v)
                e = 'ValueError' if v is None or (type(v) == str and v == '') else 'TypeError'
                if r[0] != 'exc' or r[1] != e:
                    raise Bad('C24', 'SuffixTrie(%r) gives %r instead of %s' % (v, r[1], e))
                continue
            n = len(w)
            for rnd in range(2):
                for p in op[1]:
                    occ = sum(1 for i in range(n) if w.startswith(p, i))
                    self.one(t, w, 'has_substring', (p,), p in w)
                    self.one(t, w, 'count_pattern_occurrences', (p,), occ)
                self.one(t, w, 'has_substring', ('',), True)
                self.one(t, w, 'to_suffix_array', (), sorted(range(n + 1), key=lambda i: w[i:]))
                rep = {}
                for i in range(n):
                    for j in range(i + 1, n + 1):
                        rep[w[i:j]] = rep.get(w[i:j], 0) + 1
                best = max([len(s) for s, c in rep.items() if c > 1] or [0])
                want = sorted(s for s, c in rep.items() if c > 1 and len(s) == best) or ['']
                r = call(t.get_longest_repeated_substring)
                if r[0] != 'ok' or sorted(r[1]) not in ([want] if best else [[], ['']]):
                    raise Bad('C26', '%s: the longest repeated substrings are %r, not %r' % (why, want, r[1]))
                if rnd and r[0] == 'ok':
                    for q in ('get_height', 'get_depth', 'count_leaf_nodes', 'to_list', '__repr__', '__len__'):
                        x = call(getattr(t, q))
                        if x[0] != 'ok':
                            raise Bad('C25', '%s: %s raises %s' % (why, q, x[1]))
                    self.counts(t, why)

    def counts(self, t, why):
        try:
            cur = [t._rt._root]
            cur[0].get_children()
        except AttributeError:
            return
        n, h, leaves = 0, -1, 0
        while cur:
            n, h = n + len(cur), h + 1
            leaves += sum(1 for x in cur if not x.get_children())
            cur = [c for x in cur for c in x.get_children()]
        for q, want in (('__len__', n), ('get_height', h), ('count_leaf_nodes', leaves), ('get_depth', 0)):
            r = call(getattr(t, q))
            if r[:2] != ('ok', want):
                raise Bad('C12', '%s: %s gives %r instead of %r' % (why, q, r[1], want))

    def one(self, t, w, q, a, want):
        self.now = ({'C22'}, '%s%r of %r' % (q, a, w))
        r = call(getattr(t, q), *a)
        if r[0] != 'ok' or not same(r[1], want):
            raise Bad({'C22', 'C25'} if False else 'C22', 'SuffixTrie(%r).%s%r gives %r instead of %r' % (w, q, a, r[1], want))


FAMILIES = [TrieFamily('Trie'), TrieFamily('RadixTrie'), SuffixFamily()]
