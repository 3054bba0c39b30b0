"""Search for a concrete failing input on the real code.

A *history* is a list: first the configuration, then the operations, all plain Python literals (and Sp markers).
A family plays a history against the real collection and against a plain model and raises Bad(tags, message) on the
first disagreement.  Only disagreements tagged with the property under check count."""
import random, signal, sys, time, warnings, ast, os, resource

inf = float('inf')


class Sp:
    """a special argument, made on use"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Sp(%r)' % self.name

    def __eq__(self, o):
        return isinstance(o, Sp) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Bad(Exception):
    def __init__(self, tags, msg):
        self.tags, self.msg = set([tags] if isinstance(tags, str) else tags), msg
        Exception.__init__(self, msg)


class Quit(Exception):
    """stop playing this history (it left what this family describes)"""


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def special(v):
    if isinstance(v, Sp):
        if v.name == 'extra':
            from extra.lists.linked_list import LinkedList
            return LinkedList([1, 2])
        if v.name == 'extra2':
            from extra.lists.stack import Stack
            return Stack()
        if v.name == 'extra3':
            from extra.trees.min_heap import MinHeap
            return MinHeap()
        if v.name == 'object':
            return object()
        if v.name == 'type':
            return int
        if v.name == 'complex':
            return 1j
        if v.name == 'bytes':
            return b'a'
        raise ValueError(v.name)
    if isinstance(v, tuple):
        return tuple(special(x) for x in v)
    if isinstance(v, list):
        return [special(x) for x in v]
    return v


def call(fn, *a, **k):
    """('ok', value, warned) | ('exc', class name, message)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = fn(*a, **k)
            return ('ok', r, len(w) > 0)
        except (Hang, MemoryError, KeyboardInterrupt):
            raise
        except RecursionError:
            return ('exc', 'RecursionError', '')
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:100])


def same(a, b):
    """equal and of the same kind"""
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return a is b or bool(a == b)
    except Exception:
        return False


def norm(x):
    return x.replace('\n', '\\n') if type(x) == str else x


class Family:
    tags = ()

    def gen(self, rng, pool, focus, size):
        raise NotImplementedError

    def play(self, h, focus):
        raise NotImplementedError

    def systematic(self, pool, focus):
        return ()


def run(fam, h, focus, limit=8.0):
    """message or None"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    fam.now = None
    try:
        random.seed(12345)
        fam.play(h, focus)
    except Bad as b:
        return b.msg if focus in b.tags else None
    except Quit:
        return None
    except Hang:
        t = fam.now
        return ('does not terminate within %g s (%s)' % (limit, t[1])) if t and focus in t[0] else None
    except MemoryError:
        t = fam.now
        return ('uses more than the memory limit (%s)' % t[1]) if t and focus in t[0] else None
    except Exception as e:
        import traceback
        t = fam.now
        tb = traceback.extract_tb(e.__traceback__)
        if t and focus in t[0] and os.sep + 'extra' + os.sep in tb[-1].filename:
            return 'after %s: looking at the collection raises %s: %s' % (t[1], type(e).__name__, str(e)[:100])
        fam.errors = getattr(fam, 'errors', 0) + 1
        fam.last_error = ''.join(traceback.format_exception(e))[-800:]
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def shrink(fam, h, focus, limit, until):
    cur = list(h)
    msg = run(fam, cur, focus, limit)
    n = max(1, (len(cur) - 1) // 2)
    while n >= 1 and time.time() < until:
        i = 1
        changed = False
        while i < len(cur) and time.time() < until:
            c = cur[:i] + cur[i + n:]
            m = run(fam, c, focus, limit)
            if m:
                cur, msg, changed = c, m, True
            else:
                i += n
        if n == 1 and not changed:
            break
        n = max(1, n // 2) if not (n == 1 and changed) else 1
    return cur, msg


# ---------------------------------------------------------------- values
class Pool:
    def __init__(self, repo):
        ints, floats, strs = set(), set(), set()
        for d, _, fs in os.walk(os.path.join(repo, 'extra')):
            for f in fs:
                if not f.endswith('.py'):
                    continue
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except Exception:
                    continue
                doc = set()
                for n in ast.walk(t):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                        doc.add(id(n.value))
                    if isinstance(n, ast.JoinedStr):
                        for x in n.values:
                            doc.add(id(x))
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and id(n) not in doc:
                        v = n.value
                        if type(v) == int:
                            ints.add(v)
                        elif type(v) == float:
                            floats.add(v)
                        elif type(v) == str and 0 < len(v) <= 12:
                            strs.add(v)
        more = set()
        for a in ints:
            for b in (a - 1, a, a + 1, -a):
                more.add(b)
        self.ints = sorted(more)
        self.sizes = sorted(x for x in more if 4 <= x <= 300)
        self.floats = sorted(floats)
        self.strs = sorted(strs)

    def int(self, rng, lo=-3, hi=9):
        r = rng.random()
        if r < 0.8:
            return rng.randint(lo, hi)
        if r < 0.93:
            return rng.choice(self.ints)
        return rng.randint(-10 ** rng.randint(1, 12), 10 ** rng.randint(1, 12))

    def num(self, rng, spread=None):
        r = rng.random()
        s = spread or 12
        if r < 0.7:
            return rng.randint(-s, s)
        if r < 0.82:
            return rng.randint(-2 * s, 2 * s) / 2
        if r < 0.92:
            return rng.choice(self.ints)
        if r < 0.96:
            return rng.uniform(-s, s)
        return rng.choice([0.0, -0.0, 1e300, -1e300, 10 ** 20, 2 ** 53, 2 ** 53 + 1, 0.1, 1e-9] + self.floats +
                          [inf, -inf])

    def size(self, rng):
        r = rng.random()
        if r < 0.55:
            return rng.randint(0, 7)
        if r < 0.85:
            return rng.randint(4, 24)
        if r < 0.97 or not self.sizes:
            return rng.randint(15, 70)
        return rng.choice(self.sizes) + rng.randint(0, 3)

    def item(self, rng):
        r = rng.random()
        if r < 0.5:
            return rng.randint(0, 4)
        if r < 0.62:
            return rng.choice(['a', 'b', '', '\n', 'a\nb', '\\n', '\r\n', 'x\n\ny'] + self.strs)
        if r < 0.74:
            return self.int(rng)
        if r < 0.8:
            return rng.choice([0.0, 1.0, 2.5, -0.5, inf, -inf])
        if r < 0.86:
            return rng.choice([True, False])
        if r < 0.94:
            return rng.choice([(), (1, 2), (1, '\n'), (0,), (1,)])
        return rng.choice([[], [1], [1, '\n'], [None], {'a': 1}, {}])

    def bad_item(self, rng):
        return rng.choice([None, Sp('extra'), Sp('extra2'), Sp('extra3')])

    def bad_index(self, rng):
        return rng.choice([None, 1.0, '1', True, False, Sp('object'), (1,), [0]])

    def not_num(self, rng):
        return rng.choice([None, 'a', '', '1', (1,), [1], True, False, Sp('extra'), Sp('object'), Sp('complex')])

    def word(self, rng, alphabet=None):
        r = rng.random()
        al = alphabet or rng.choice(['ab', 'ab', 'abc', 'a', 'ab ', 'ab\n', 'a}', 'a$b', 'ab~', 'aé漢', 'ab{|}'])
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if r < 0.95 else rng.randint(9, 30)
        return ''.join(rng.choice(al) for _ in range(n))


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(3000)


# ---------------------------------------------------------------- scripted coin flips / random draws
class Dice:
    """replaces the draws of the random module by a reproducible stream with long runs"""
    def __init__(self, seed, bias):
        self.rng = random.Random(seed)
        self.bias = bias
        self.run = 0
        self.saved = {}

    def __enter__(self):
        for n in ('choice', 'randint', 'random', 'getrandbits', 'randrange', 'uniform'):
            self.saved[n] = getattr(random, n)
        random.choice = self.choice
        random.randint = self.randint
        random.random = self.random
        random.getrandbits = self.getrandbits
        random.randrange = self.randrange
        random.uniform = lambda a, b: a + (b - a) * self.random()
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(random, n, f)

    def unit(self):
        if self.run > 40:           # every coin shows tail sooner or later
            self.run = 0
            return 0.999
        v = self.rng.random()
        if self.bias is not None and v >= 0.02:
            v = v ** self.bias
        self.run = self.run + 1 if v < 0.5 else 0
        return v

    def choice(self, seq):
        return seq[min(len(seq) - 1, int(self.unit() * len(seq)))]

    def randint(self, a, b):
        return a + min(b - a, int(self.unit() * (b - a + 1)))

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = len(range(a, b, step))
        return a + step * min(n - 1, int(self.unit() * n))

    def random(self):
        return min(0.9999999, self.unit())

    def getrandbits(self, k):
        return int(self.unit() * (1 << k)) & ((1 << k) - 1)
