"""One symbolic execution path: decisions, facts, references, sequences and the heap.

Paths are explored by re-execution: a path is the list of outcomes of its decisions; the
explorer re-runs the function with a recorded prefix and flips the last open decision."""
import z3, itertools

Data = z3.DeclareSort('Data')
DEQ = z3.Function('py_eq', Data, Data, z3.BoolSort())
DLT = z3.Function('py_lt', Data, Data, z3.BoolSort())
NORM = z3.Function('stored', Data, Data)          # newline replacement of str items
ISTYPE = {}
PINF = z3.Real('+inf')
NINF = z3.Real('-inf')


def istype(name):
    if name not in ISTYPE:
        ISTYPE[name] = z3.Function('is_' + name, Data, z3.BoolSort())
    return ISTYPE[name]


class PathEnd(Exception):
    """this path is finished (loop iteration done, infeasible, or abandoned after a failure)"""


class Infeasible(PathEnd):
    pass


class Unsupported(Exception):
    """the construct is outside the verified subset: reported as a failed obligation"""


class Failed(PathEnd):
    pass


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return 'r%d' % self.id


NULL = Ref(0)


class Unit:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '[%s]' % (self.v,)


def same_atom(x, y):
    if isinstance(x, Unit) and isinstance(y, Unit):
        a, b = (v.v if isinstance(v.v, tuple) else (v.v,) for v in (x, y))
        return len(a) == len(b) and all(u is w or (z3.is_expr(u) and z3.is_expr(w) and u.eq(w)) for u, w in zip(a, b))
    if isinstance(x, SVar) and isinstance(y, SVar):
        return x.id == y.id
    return isinstance(x, FApp) and isinstance(y, FApp) and x.fn == y.fn and akey(x.args) == akey(y.args) and x.x.id == y.x.id


class SVar:
    """sequence variable"""
    __slots__ = ('id', 'kind')

    def __init__(self, i, kind):
        self.id, self.kind = i, kind

    def __repr__(self):
        return 'S%d' % self.id


class FApp:
    """f(args, X) for a sequence function f that is a homomorphism"""
    __slots__ = ('fn', 'args', 'x')

    def __init__(self, fn, args, x):
        self.fn, self.args, self.x = fn, args, x

    def __repr__(self):
        return '%s%s(%s)' % (self.fn, list(self.args), self.x)


class Seq:
    __slots__ = ('atoms',)

    def __init__(self, atoms=()):
        self.atoms = tuple(atoms)

    def __add__(self, o):
        return Seq(self.atoms + o.atoms)

    def __repr__(self):
        return '<' + ' '.join(map(repr, self.atoms)) + '>'


EMPTY = Seq()


def unit(v):
    return Seq((Unit(v),))


class Cell:
    kind = 'cell'

    def __init__(self, ref, cls, fields, lock=None, new=False):
        self.ref, self.cls, self.fields, self.lock, self.new = ref, cls, fields, lock, new

    def copy(self):
        return Cell(self.ref, self.cls, dict(self.fields), self.lock, self.new)

    def __repr__(self):
        return '%r:%s%r' % (self.ref, self.cls, self.fields)


# fresh values of further kinds: kind -> (path) -> value
FRESH = {}
# sequence functions that are homomorphisms: name -> (unit function, reversing?)
SEQ_HOM = {}
# kind of the items, where it is not that of the argument
HOM_KIND = {}
# those of them that drop items: name -> condition under which an item is kept
SEQ_FILTER = {}
# integer/boolean measures: name -> (sort, unit function, combine, empty value)
SEQ_MEASURE = {}
# facts that hold of every value of a measure
MEASURE_FACT = {}
# further facts about the value for a variable: (path, value, variable, args) -> formulas
MEASURE_LINK = {}
# name of the measure that is the length of a homomorphic image, where it is not len_<name>
SEQ_LEN = {}
# measure of a homomorphic image: (measure, homomorphism) -> (path, atom) -> value
MEASURE_APP = {}
# measures that depend on the order of the items
ORDERED = set()


def akey(a):
    if isinstance(a, z3.ExprRef):
        return ('z', a.get_id())
    if isinstance(a, Ref):
        return ('r', a.id)
    if isinstance(a, tuple):
        return tuple(akey(x) for x in a)
    return ('c', repr(a)) if not isinstance(a, RangeInfo) else ('o', id(a))


class Path:
    def __init__(self, prefix, engine):
        self.prefix, self.engine = prefix, engine
        self.decisions = []          # [(taken, other_feasible)]
        self.solver = z3.Solver()
        self.solver.set('timeout', engine.opts.timeout_ms)
        self.nfresh = 0
        self.nfacts = 0
        # references
        self.uf = [0]
        self.nonnull = [False]
        self.refcls = [None]
        self.neq = set()
        # sequences
        self.ssub = {}
        self.slen = {}
        self.smeas = {}              # svar id -> {key: (fn,args,term)}
        # heap
        self.cells = {}              # rep -> Cell   (only resolved reps; re-keyed on union)
        self.chunks = []             # predicate chunks
        self.seqeqs = []             # recorded equations between sequences
        self.lockdepth = 0
        self.warned = False
        self.yielded = None
        self.keep = []               # keeps z3 terms alive so ids stay unique
        self.trace = []
        self.calls_seen = []
        self.heap_hooks = []
        self.subst_hooks = []
        self.dirty = set()
        self.ranges = []
        self.dead_sel = []
        self.dead = set()            # (fn, args, svar): f(args, svar) is known to be empty
        self.line = None
        self.solver.add(NINF < PINF)

    # ---- replay / solver ------------------------------------------------
    @property
    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def name(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.nfacts += 1
        self.solver.add(f)

    def _sat(self, f=None):
        self.engine.stats.queries += 1
        if f is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(f)
            r = self.solver.check()
            self.solver.pop()
        if r == z3.unknown and 'tries' in self.__dict__:
            r = self.engine.from_scratch(self, f)
        return r

    def entails(self, f):
        """True only if the path condition implies f (solver says so)."""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self._sat(z3.Not(f)) == z3.unsat

    def pick(self, options):
        """structural choice among several labels"""
        for o in options[:-1]:
            if self.choice():
                return o
        return options[-1]

    def branch(self, f):
        """Decide a condition; explores both outcomes when both are possible."""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            t = self.prefix[i]
            self.decisions.append((t, False))
            self.assume(f if t else z3.Not(f))
            return t
        rt = self._sat(f)
        rf = self._sat(z3.Not(f))
        if rt == z3.unsat and rf == z3.unsat:
            raise Infeasible()
        if rt == z3.unsat:
            t, other = False, False
        elif rf == z3.unsat:
            t, other = True, False
        else:
            t, other = True, True
        self.decisions.append((t, other))
        self.assume(f if t else z3.Not(f))
        return t

    def choice(self, feasible_true=True, feasible_false=True):
        """Structural decision (no formula)."""
        i = len(self.decisions)
        if i < len(self.prefix):
            t = self.prefix[i]
            self.decisions.append((t, False))
            return t
        if not feasible_true and not feasible_false:
            raise Infeasible()
        t = feasible_true
        self.decisions.append((t, feasible_true and feasible_false))
        return t

    def prove(self, f, label):
        """An obligation."""
        eng = self.engine
        if self.replaying:
            if isinstance(f, bool):
                if not f:
                    raise Failed()
                return
            self.assume(f)
            return
        if isinstance(f, bool):
            eng.obligation(self, f, label, None)
            if not f:
                raise Failed()
            return
        g = z3.simplify(f)
        if z3.is_true(g):
            eng.obligation(self, True, label, None)
            return
        t0 = eng.clock()
        r = self._sat(z3.Not(g))
        if r == z3.unknown:
            r = eng.second_opinion(self, z3.Not(g))
        eng.stats.solver_s += eng.clock() - t0
        if r == z3.unsat:
            eng.obligation(self, True, label, None)
            self.assume(g)
            return
        # distinguish: is the path itself impossible?
        model = None
        if r == z3.sat:
            self.solver.push(); self.solver.add(z3.Not(g)); self.solver.check()
            try:
                model = self.solver.model()
            except z3.Z3Exception:
                model = None
            self.solver.pop()
        eng.obligation(self, False, label, model, unknown=(r == z3.unknown), info='%s\n heap: %s' % (g, self.heap_text()))
        raise Failed()

    def heap_text(self):
        return ' * '.join(['%r' % c for c in self.cells.values()] + ['%r' % c for c in self.chunks])

    def fail(self, label, info=None):
        """An obligation that does not hold on this path (unless the path is infeasible)."""
        if self.replaying:
            raise Failed()
        if self._sat() == z3.unsat:
            raise Infeasible()
        model = None
        try:
            model = self.solver.model()
        except z3.Z3Exception:
            pass
        self.engine.obligation(self, False, label, model, info='%s\n   heap: %s' % (info, self.heap_text()))
        raise Failed()

    # ---- fresh values ---------------------------------------------------
    def fresh_int(self, base='i'):
        return z3.Int(self.name(base))

    def fresh_real(self, base='x'):
        v = z3.Real(self.name(base))
        self.assume(z3.And(NINF <= v, v <= PINF))
        return v

    def fresh_bool(self, base='b'):
        return z3.Bool(self.name(base))

    def fresh_data(self, base='d'):
        return z3.Const(self.name(base), Data)

    def fresh_ref(self, cls=None, nonnull=False):
        i = len(self.uf)
        self.uf.append(i); self.nonnull.append(nonnull); self.refcls.append(cls)
        return Ref(i)

    def fresh_val(self, kind):
        if kind == 'data':
            return self.fresh_data()
        if kind in FRESH:
            return FRESH[kind](self)
        if kind == 'sdata':
            d = self.fresh_data()
            self.assume(NORM(d) == d)
            return d
        if kind == 'num':
            return self.fresh_real()
        if kind == 'int':
            return self.fresh_int()
        if kind == 'bool':
            return self.fresh_bool()
        if kind == 'ref':
            return self.fresh_ref()
        if kind.startswith('ref:'):
            return self.fresh_ref(kind[4:], nonnull=True)
        if kind.startswith('tree:'):
            from .views import view
            r = self.fresh_ref(kind[5:], nonnull=True)
            view(self, r, kind[5:])
            return r
        if kind.startswith('('):
            return tuple(self.fresh_val(k) for k in kind[1:-1].split(','))
        raise Unsupported('fresh value of kind ' + kind)

    # ---- references -----------------------------------------------------
    def rep(self, r):
        i = r.id if isinstance(r, Ref) else r
        while self.uf[i] != i:
            i = self.uf[i]
        return i

    def is_null(self, r):
        """True / False / None(unknown)"""
        if r is None:
            return True
        i = self.rep(r)
        if i == 0:
            return True
        if self.nonnull[i]:
            return False
        return None

    def known_eq(self, a, b):
        a = NULL if a is None else a
        b = NULL if b is None else b
        i, j = self.rep(a), self.rep(b)
        if i == j:
            return True
        if (i == 0 and self.nonnull[j]) or (j == 0 and self.nonnull[i]):
            return False
        if i in self.cells and j in self.cells:
            vs = self.__dict__.get('views', ())
            if not (i in vs and j in vs):
                return False
        if (min(i, j), max(i, j)) in self._neq_reps():
            return False
        ci, cj = self.refcls[i], self.refcls[j]
        if ci is not None and cj is not None and ci != cj:
            return None if (not self.nonnull[i] and not self.nonnull[j]) else False
        return None

    def _neq_reps(self):
        return {(min(self.rep(a), self.rep(b)), max(self.rep(a), self.rep(b))) for a, b in self.neq}

    def ref_eq(self, a, b):
        """Decide whether two references are the same object."""
        k = self.known_eq(a, b)
        if k is not None:
            return k
        a = NULL if a is None else a
        b = NULL if b is None else b
        t = self.choice()
        if t:
            self.union(a, b)
        else:
            self.set_neq(a, b)
        return t

    def set_neq(self, a, b):
        a = NULL if a is None else a
        b = NULL if b is None else b
        i, j = self.rep(a), self.rep(b)
        if i == j:
            raise Infeasible()
        if i == 0:
            self.nonnull[j] = True
        elif j == 0:
            self.nonnull[i] = True
        else:
            self.neq.add((i, j))
        self.heap_normalize()

    def union(self, a, b):
        a = NULL if a is None else a
        b = NULL if b is None else b
        k = self.known_eq(a, b)
        if k is True:
            return
        if k is False:
            raise Infeasible()
        i, j = self.rep(a), self.rep(b)
        if j == 0 or (j in self.cells and i not in self.cells):
            i, j = j, i
        # j -> i
        if i == 0 and self.nonnull[j]:
            raise Infeasible()
        self.uf[j] = i
        if i != 0:
            self.nonnull[i] = self.nonnull[i] or self.nonnull[j]
            if self.refcls[i] is None:
                self.refcls[i] = self.refcls[j]
        if j in self.cells:
            if i in self.cells:
                raise Infeasible()
            self.cells[i] = self.cells.pop(j)
        self.heap_normalize()

    def heap_normalize(self):
        for h in self.heap_hooks:
            h(self)

    # ---- sequences ------------------------------------------------------
    def fresh_seq(self, kind):
        i = self.nfresh = self.nfresh + 1
        v = SVar(i, kind)
        n = z3.Int('len!%d' % i)
        self.slen[i] = n
        self.assume(n >= 0)
        return Seq((v,))

    def norm(self, s):
        out = []
        changed = False
        for a in s.atoms:
            if isinstance(a, SVar) and a.id in self.ssub:
                out.extend(self.norm(self.ssub[a.id]).atoms)
                changed = True
            elif isinstance(a, FApp):
                if (a.fn, akey(a.args), a.x.id) in self.dead:
                    changed = True
                elif a.x.id in self.ssub:
                    out.extend(self.hom(a.fn, a.args, self.norm(self.ssub[a.x.id])).atoms)
                    changed = True
                else:
                    out.append(a)
            else:
                out.append(a)
        return Seq(out) if changed else s

    def hom(self, fn, args, s):
        """apply a sequence homomorphism"""
        s = self.norm(s)
        if fn == 'sel' or fn == 'rsel':
            return self.hom_sel(fn, args, s)
        f, rev = SEQ_HOM[fn]
        parts = []
        for a in s.atoms:
            if isinstance(a, Unit):
                parts.append(f(self, args, a.v))
            elif isinstance(a, SVar):
                if fn == 'mapnorm' and a.kind == 'sdata':
                    parts.append(Seq((a,)))
                else:
                    parts.append(Seq((FApp(fn, args, a),)))
            else:
                if fn == 'rev' and a.fn in ('sel', 'rsel'):
                    parts.append(Seq((FApp('rsel' if a.fn == 'sel' else 'sel', a.args, a.x),)))
                elif fn == 'mapnorm' and a.fn in ('sel', 'rsel') and a.x.kind == 'sdata':
                    parts.append(Seq((a,)))
                elif fn == 'rev' and a.fn == 'rev':
                    parts.append(self.norm(Seq((a.x,))))
                elif fn == 'mapnorm' and a.fn == 'rev':
                    parts.append(self.hom('rev', (), self.hom(fn, args, Seq((a.x,)))))
                elif fn == 'mapnorm' and a.fn in ('mapnorm', 'remall'):
                    parts.append(Seq((a,)))
                else:
                    raise Unsupported('%s of %s' % (fn, a))
        if rev:
            parts.reverse()
        out = EMPTY
        for p in parts:
            out = out + p
        return out

    def hom_sel(self, fn, args, s):
        """items whose position (counted from off) lies in a range; rsel: in reverse order"""
        rng, off = args
        out = EMPTY
        for a in s.atoms:
            if isinstance(a, Unit):
                piece = Seq((a,)) if self.branch(rng.contains(self, off)) else EMPTY
                n = 1
            else:
                if not isinstance(a, SVar):
                    raise Unsupported('selection from %r' % (a,))
                dead = any(r is rng and v == a.id and self.entails(zval(o) == zval(off)) for r, o, v in self.dead_sel)
                piece = EMPTY if dead else Seq((FApp(fn, (rng, off), a),))
                n = self.slen[a.id]
            out = out + piece if fn == 'sel' else piece + out
            off = z3.simplify(zval(off) + n)
        return out

    def sel_kill(self, a):
        self.dead_sel.append((a.args[0], a.args[1], a.x.id))
        self.dead.add((a.fn, akey(a.args), a.x.id))

    def sel_split(self, a, first):
        """bring the first / last selected item of a selection to the front / end"""
        rng, off = a.args
        if self.branch(self.atom_len(a) == 0):
            self.sel_kill(a)
            return
        P, Q = self.fresh_seq(a.x.kind), self.fresh_seq(a.x.kind)
        d = self.fresh_val(a.x.kind)
        pos = z3.simplify(zval(off) + self.length(P))
        self.assume(rng.contains(self, pos))
        if first:
            self.dead_sel.append((rng, off, P.atoms[0].id))
        else:
            self.dead_sel.append((rng, z3.simplify(pos + 1), Q.atoms[0].id))
        self.seq_bind(a.x, P + unit(d) + Q)

    def sel_empty(self, a):
        """is the selection known to be empty?"""
        rng, off = a.args
        lo, hi = rng.low(), rng.high()
        return self.entails(z3.Or(zval(rng.n) == 0, zval(off) + self.slen[a.x.id] <= lo, zval(off) > hi,
                                  self.atom_len(a) == 0))

    def length(self, s):
        s = self.norm(s)
        n = 0
        t = None
        for a in s.atoms:
            if isinstance(a, Unit):
                n += 1
            else:
                x = self.atom_len(a)
                t = x if t is None else t + x
        if t is None:
            return n
        return t + n if n else t

    def atom_len(self, a):
        if isinstance(a, SVar):
            return self.slen[a.id]
        if a.fn in ('sel', 'rsel'):
            m = self.smeas.setdefault(a.x.id, {})
            key = ('lensel', id(a.args[0]), zval(a.args[1]).get_id())
            if key not in m:
                c = z3.Int('lensel!%d!%d' % (a.x.id, len(m)))
                self.keep.append(a.args)
                m[key] = ('lensel', a.args, c)
                self.assume(z3.And(c >= 0, c <= self.slen[a.x.id]))
            return m[key][2]
        if a.fn == 'rev' or a.fn.startswith('map'):
            return self.slen[a.x.id]
        return self.measure(SEQ_LEN.get(a.fn, 'len_' + a.fn), a.args, Seq((a.x,)))

    def measure(self, fn, args, s):
        s = self.norm(s)
        sort, uf, comb, empty = SEQ_MEASURE[fn]
        acc = empty
        for a in s.atoms:
            if isinstance(a, Unit):
                t = uf(self, args, a.v)
            elif isinstance(a, SVar):
                key = (fn,) + tuple(akey(x) for x in args)
                m = self.smeas.setdefault(a.id, {})
                if key not in m and isinstance(sort, tuple):
                    c = tuple(z3.Const('%s.%d!%d!%d' % (fn, i, a.id, len(m)), x()) for i, x in enumerate(sort))
                    m[key] = (fn, args, c)
                    self.keep.append(args)
                    for f in MEASURE_FACT[fn](self, c, a, args):
                        self.assume(f)
                elif key not in m:
                    c = z3.Const('%s!%d!%d' % (fn, a.id, len(m)), sort())
                    m[key] = (fn, args, c)
                    self.keep.append(args)
                    if fn in MEASURE_LINK:
                        for f in MEASURE_LINK[fn](self, c, a, args):
                            self.assume(f)
                    if fn in MEASURE_FACT:
                        self.assume(MEASURE_FACT[fn](c))
                    if isinstance(empty, (int, bool, z3.ExprRef)):
                        self.assume(z3.Implies(self.slen[a.id] == 0, c == empty))
                    if fn.startswith('len_') or fn.startswith('cnt'):
                        self.assume(z3.And(c >= 0, c <= self.slen[a.id]))
                t = m[key][2]
            elif isinstance(a, FApp):
                if a.fn == 'rev' and fn not in ORDERED:
                    t = self.measure(fn, args, Seq((a.x,)))
                elif (fn, a.fn) in MEASURE_APP:
                    t = MEASURE_APP[(fn, a.fn)](self, a)
                else:
                    raise Unsupported('measure %s of %s' % (fn, a))
            acc = comb(acc, t)
        return acc

    def seq_bind(self, v, s):
        """substitute sequence variable v by s (v not occurring in s)"""
        s = self.norm(s)
        for a in s.atoms:
            if a is v or (isinstance(a, SVar) and a.id == v.id):
                if len(s.atoms) == 1:
                    return
                raise Unsupported('cyclic sequence equation')
        self.ssub[v.id] = s
        self.assume(self.as_z3int(self.slen[v.id]) == self.as_z3int(self.length(s)))
        for key, (fn, args, c) in list(self.smeas.get(v.id, {}).items()):
            if fn == 'lensel':
                m = self.as_z3int(self.length(self.hom('sel', args, s)))
            else:
                m = self.measure(fn, args, s)
            if isinstance(c, tuple):
                for x, y in zip(c, m):
                    self.assume(x == zval(y))
            else:
                self.assume(c == m)
        for h in self.subst_hooks:
            h(self, v)

    @staticmethod
    def as_z3int(x):
        return z3.IntVal(x) if isinstance(x, int) else x

    def is_empty_seq(self, s):
        """Decide emptiness, binding variables to empty when so."""
        s = self.norm(s)
        if not s.atoms:
            return True
        if any(isinstance(a, Unit) for a in s.atoms):
            return False
        if self.branch(self.length(s) == 0):
            for a in s.atoms:
                if isinstance(a, SVar):
                    if a.id not in self.ssub:
                        self.seq_bind(a, EMPTY)
                elif a.fn == 'rev' or a.fn.startswith('map'):
                    if a.x.id not in self.ssub:
                        self.seq_bind(a.x, EMPTY)
                elif a.fn in ('sel', 'rsel'):
                    self.sel_kill(a)
                else:
                    self.dead.add((a.fn, akey(a.args), a.x.id))
            return True
        return False

    def uncons(self, s):
        """s nonempty: returns (first, rest); unfolds a leading variable."""
        while True:
            s = self.norm(s)
            if not s.atoms:
                raise Infeasible()
            a = s.atoms[0]
            if isinstance(a, Unit):
                return a.v, Seq(s.atoms[1:])
            if isinstance(a, SVar):
                if self.is_empty_seq(Seq((a,))):
                    continue
                d = self.fresh_val(a.kind)
                r = self.fresh_seq(a.kind)
                self.seq_bind(a, unit(d) + r)
                continue
            if a.fn == 'rev':
                if self.is_empty_seq(Seq((a.x,))):
                    continue
                self.unsnoc(Seq((a.x,)))
                continue
            if a.fn.startswith('map'):
                if self.is_empty_seq(Seq((a.x,))):
                    continue
                self.uncons(Seq((a.x,)))
                continue
            if a.fn in SEQ_FILTER:
                self.filter_split(a, True)
                continue
            if a.fn in ('sel', 'rsel'):
                self.sel_split(a, (a.fn == 'sel') == True)
                continue
            if self.entails(self.slen[a.x.id] == 0):
                self.seq_bind(a.x, EMPTY)
                continue
            raise Unsupported('head of %r' % (a,))

    def unsnoc(self, s):
        while True:
            s = self.norm(s)
            if not s.atoms:
                raise Infeasible()
            a = s.atoms[-1]
            if isinstance(a, Unit):
                return Seq(s.atoms[:-1]), a.v
            if isinstance(a, SVar):
                if self.is_empty_seq(Seq((a,))):
                    continue
                d = self.fresh_val(a.kind)
                r = self.fresh_seq(a.kind)
                self.seq_bind(a, r + unit(d))
                continue
            if a.fn == 'rev':
                if self.is_empty_seq(Seq((a.x,))):
                    continue
                self.uncons(Seq((a.x,)))
                continue
            if a.fn.startswith('map'):
                if self.is_empty_seq(Seq((a.x,))):
                    continue
                self.unsnoc(Seq((a.x,)))
                continue
            if a.fn in SEQ_FILTER:
                self.filter_split(a, False)
                continue
            if a.fn in ('sel', 'rsel'):
                self.sel_split(a, (a.fn == 'sel') == False)
                continue
            if self.entails(self.slen[a.x.id] == 0):
                self.seq_bind(a.x, EMPTY)
                continue
            raise Unsupported('last of %r' % (a,))

    def filter_split(self, a, first):
        """a = filter(X): either empty, or X = P ++ [x] ++ Q with x kept and nothing of P (of Q) kept"""
        keep = SEQ_FILTER[a.fn]
        n = self.atom_len(a)
        if self.branch(n == 0):
            self.dead.add((a.fn, akey(a.args), a.x.id))
            return
        P, Q = self.fresh_seq(a.x.kind), self.fresh_seq(a.x.kind)
        d = self.fresh_val(a.x.kind)
        self.assume(keep(self, a.args, d))
        none = (P if first else Q)
        self.assume(self.as_z3int(self.measure('len_' + a.fn, a.args, none)) == 0)
        self.dead.add((a.fn, akey(a.args), none.atoms[0].id))
        self.seq_bind(a.x, P + unit(d) + Q)

    def split(self, s, k):
        """s = A ++ B with |A| == k (0 <= k <= |s| must hold on the path)."""
        s = self.norm(s)
        left = EMPTY
        k0 = k
        while True:
            s = self.norm(s)
            left = self.norm(left)
            done = self.length(left)
            rem = k0 - done
            if isinstance(rem, int):
                if rem == 0:
                    return left, s
            elif self.branch(rem == 0):
                return left, s
            if not s.atoms:
                raise Infeasible()
            a = s.atoms[0]
            if isinstance(a, Unit):
                left = left + Seq((a,))
                s = Seq(s.atoms[1:])
                continue
            n = self.atom_len(a)
            if self.branch(n <= rem):
                left = left + Seq((a,))
                s = Seq(s.atoms[1:])
                continue
            if isinstance(a, FApp):
                if a.fn == 'rev':
                    x, y = self.split(Seq((a.x,)), n - rem)
                    continue
                if a.fn.startswith('map'):
                    x, y = self.split(Seq((a.x,)), rem)
                    continue
                raise Unsupported('split of %r' % (a,))
            x = self.fresh_seq(a.kind)
            y = self.fresh_seq(a.kind)
            self.assume(self.length(x) == rem)
            self.seq_bind(a, x + y)

    def _strip(self, L, R, eqv):
        l, r = list(self.norm(L).atoms), list(self.norm(R).atoms)
        def same(a, b):
            if isinstance(a, SVar) and isinstance(b, SVar):
                return a.id == b.id
            if isinstance(a, FApp) and isinstance(b, FApp):
                if a.fn != b.fn or a.x.id != b.x.id or len(a.args) != len(b.args):
                    return False
                if a.fn in ('sel', 'rsel'):
                    return a.args[0] is b.args[0] and self.entails(zval(a.args[1]) == zval(b.args[1]))
                return all(akey(x) == akey(y) for x, y in zip(a.args, b.args))
            return False
        while l and r:
            if same(l[0], r[0]):
                l.pop(0); r.pop(0)
            elif isinstance(l[0], Unit) and isinstance(r[0], Unit):
                eqv(l[0].v, r[0].v)
                l.pop(0); r.pop(0)
                l, r = list(self.norm(Seq(l)).atoms), list(self.norm(Seq(r)).atoms)
            else:
                break
        while l and r:
            if same(l[-1], r[-1]):
                l.pop(); r.pop()
            elif isinstance(l[-1], Unit) and isinstance(r[-1], Unit):
                eqv(l[-1].v, r[-1].v)
                l.pop(); r.pop()
                l, r = list(self.norm(Seq(l)).atoms), list(self.norm(Seq(r)).atoms)
            else:
                break
        return l, r

    def seq_assume_eq(self, L, R):
        while True:
            l, r = self._strip(L, R, self.val_assume_eq)
            if not l and not r:
                return
            if not l or not r:
                for a in l or r:
                    if isinstance(a, Unit):
                        raise Infeasible()
                    self.assume(self.as_z3int(self.atom_len(a)) == 0)
                    if isinstance(a, SVar) and a.id not in self.ssub:
                        self.seq_bind(a, EMPTY)
                    elif isinstance(a, FApp) and a.fn == 'rev' and a.x.id not in self.ssub:
                        self.seq_bind(a.x, EMPTY)
                return
            L, R = Seq(l), Seq(r)
            if len(r) == 1 and isinstance(r[0], SVar) and not self._occurs(r[0], L):
                self.seq_bind(r[0], L)
                return
            if len(l) == 1 and isinstance(l[0], SVar) and not self._occurs(l[0], R):
                self.seq_bind(l[0], R)
                return
            done = False
            for u, w, W in ((l, r, R), (r, l, L)):
                if isinstance(u[-1], Unit) and isinstance(w[-1], FApp):
                    self.unsnoc(W)
                    done = True
                    break
                if isinstance(u[0], Unit) and isinstance(w[0], FApp):
                    self.uncons(W)
                    done = True
                    break
            if done:
                continue
            a, b = l[0], r[0]
            if not isinstance(a, SVar):
                a, b = b, a
            if not isinstance(a, SVar):
                # FApp against unit: unfold it
                if isinstance(a, FApp) and a.fn == 'rev':
                    if self.is_empty_seq(Seq((a.x,))):
                        continue
                    self.unsnoc(Seq((a.x,)))
                    continue
                if isinstance(b, FApp) and b.fn == 'rev':
                    if self.is_empty_seq(Seq((b.x,))):
                        continue
                    self.unsnoc(Seq((b.x,)))
                    continue
                raise Unsupported('sequence equation %r = %r' % (L, R))
            if isinstance(b, FApp) and b.fn.startswith('map'):
                # a variable against the beginning of an image: so much of the argument
                self.assume(self.as_z3int(self.length(L)) == self.as_z3int(self.length(R)))
                if self.branch(self.slen[a.id] <= self.slen[b.x.id]):
                    x, y = self.fresh_seq(b.x.kind), self.fresh_seq(b.x.kind)
                    self.assume(self.length(x) == self.slen[a.id])
                    self.seq_bind(b.x, x + y)
                    self.seq_bind(a, self.hom(b.fn, b.args, x))
                else:
                    x = self.fresh_seq(a.kind)
                    self.seq_bind(a, Seq((b,)) + x)
                continue
            if self.is_empty_seq(Seq((a,))):
                continue
            if isinstance(b, Unit):
                x = self.fresh_seq(a.kind)
                self.seq_bind(a, unit(b.v) + x)
                continue
            if isinstance(b, SVar):
                if self.is_empty_seq(Seq((b,))):
                    continue
                if self.branch(self.slen[a.id] <= self.slen[b.id]):
                    x = self.fresh_seq(b.kind)
                    self.seq_bind(b, Seq((a,)) + x)
                else:
                    x = self.fresh_seq(a.kind)
                    self.seq_bind(a, Seq((b,)) + x)
                continue
            raise Unsupported('sequence equation %r = %r' % (L, R))

    def _occurs(self, v, s):
        return any((isinstance(a, SVar) and a.id == v.id) or (isinstance(a, FApp) and a.x.id == v.id)
                   for a in s.atoms)

    def rewrite(self, L):
        """L with the recorded equations used from left to right"""
        for w, s in reversed(self.seqeqs):
            l, a = self.norm(L).atoms, self.norm(w).atoms
            for i in range(len(l) - len(a) + 1 if a else 0):
                if all(same_atom(x, y) for x, y in zip(l[i:], a)):
                    L = Seq(l[:i]) + s + Seq(l[i + len(a):])
                    break
        return self.norm(L)

    def equation(self, w, s):
        """w == s, kept as it is"""
        w = self.norm(w)
        if not w.atoms or len(w.atoms) == 1 and isinstance(w.atoms[0], SVar) and not self._occurs(w.atoms[0], self.norm(s)):
            self.seq_assume_eq(w, s)
            return
        self.assume(self.as_z3int(self.length(w)) == self.as_z3int(self.length(s)))
        self.seqeqs.append((w, s))

    def without(self, whole, part, prefix, label):
        """whole without the prefix (suffix) part"""
        part = self.norm(part)
        l, r = list(self.norm(whole).atoms), list(part.atoms)
        if not prefix:
            l.reverse()
            r.reverse()
        while r:
            if isinstance(r[0], FApp) and not (l and same_atom(l[0], r[0])) and self.entails(self.atom_len(r[0]) == 0):
                r.pop(0)
                continue
            if isinstance(r[0], Unit) and l and isinstance(l[0], Unit):
                self.val_prove_eq(l[0].v, r[0].v, label)
            elif not (l and same_atom(l[0], r[0])):
                self.fail('%s: sequences differ: %r is not a part of %r' % (label, part, self.norm(whole)))
            l.pop(0)
            r.pop(0)
        if not prefix:
            l.reverse()
        return Seq(l)

    def seq_prove_eq(self, L, R, label):
        if self.seqeqs:
            L, R = self.rewrite(L), self.rewrite(R)
        for _ in range(40):
            l, r = self._strip(L, R, lambda a, b: self.val_prove_eq(a, b, label))
            if not l and not r:
                if not self.replaying:
                    self.engine.obligation(self, True, label, None)
                return
            L, R = Seq(l), Seq(r)
            progress = False
            for a in l + r:
                if isinstance(a, Unit):
                    continue
                x = a if isinstance(a, SVar) else a.x
                if self.is_empty_seq(Seq((x,))):
                    progress = True
                    break
                if isinstance(a, FApp) and a.fn != 'rev' and not a.fn.startswith('map') and \
                        (self.sel_empty(a) if a.fn in ('sel', 'rsel') else self.entails(self.atom_len(a) == 0)):
                    L, R = Seq(y for y in l if y is not a), Seq(y for y in r if y is not a)
                    progress = True
                    break
            if progress:
                continue
            if not l or not r:
                break
            a, b = l[0], r[0]
            if isinstance(a, Unit) and isinstance(b, SVar):
                self.uncons(R); continue
            if isinstance(b, Unit) and isinstance(a, SVar):
                self.uncons(L); continue
            if isinstance(a, Unit) and isinstance(b, FApp) and (b.fn == 'rev' or b.fn.startswith('map')):
                self.uncons(R); continue
            if isinstance(b, Unit) and isinstance(a, FApp) and (a.fn == 'rev' or a.fn.startswith('map')):
                self.uncons(L); continue
            a, b = l[-1], r[-1]
            if isinstance(a, Unit) and isinstance(b, (SVar,)):
                self.unsnoc(R); continue
            if isinstance(b, Unit) and isinstance(a, (SVar,)):
                self.unsnoc(L); continue
            break
        self.fail('%s: sequences differ: %r vs %r' % (label, self.norm(L), self.norm(R)))

    # ---- values ---------------------------------------------------------
    def val_assume_eq(self, a, b):
        if a is b:
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                self.val_assume_eq(x, y)
            return
        if isinstance(a, Ref) or isinstance(b, Ref) or a is None or b is None:
            self.union(a, b)
            return
        if isinstance(a, Seq):
            self.seq_assume_eq(a, b)
            return
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            self.assume(zval(a) == zval(b))
            return
        if hasattr(a, 'strterm') or hasattr(b, 'strterm'):
            self.assume(text(a) == text(b))
            return
        if a != b:
            raise Infeasible()

    def val_prove_eq(self, a, b, label):
        if a is b:
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                self.val_prove_eq(x, y, label)
            return
        if (isinstance(a, Ref) or a is None) and (isinstance(b, Ref) or b is None):
            if not self.known_eq(a, b):
                self.fail('%s: references %r and %r not known equal' % (label, a, b))
            self.prove(True, label)
            return
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_prove_eq(a, b, label)
        if hasattr(a, 'strterm') and isinstance(b, str) or hasattr(b, 'strterm') and isinstance(a, str):
            a, b = text(a), text(b)
        za, zb = zval(a), zval(b)
        if za is None or zb is None:
            if type(a) == type(b) and a == b:
                return self.prove(True, label)
            self.fail('%s: %r is not %r' % (label, a, b))
        if za.sort() != zb.sort():
            if za.sort() in (z3.IntSort(), z3.RealSort()) and zb.sort() in (z3.IntSort(), z3.RealSort()):
                self.prove(za == zb, label)
                return
            self.fail('%s: %r (%s) is not %r (%s)' % (label, a, za.sort(), b, zb.sort()))
        self.prove(za == zb, label)




def text(a):
    return a.t if hasattr(a, 'strterm') else z3.StringVal(a)


def zval(a):
    if isinstance(a, z3.ExprRef):
        return a
    if hasattr(a, 'strterm'):
        return a.t
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, int):
        return z3.IntVal(a)
    if isinstance(a, float):
        if a == float('inf'):
            return PINF
        if a == float('-inf'):
            return NINF
        return z3.RealVal(a)
    return None


def rev_unit(path, args, v):
    return unit(v)


SEQ_HOM['rev'] = (rev_unit, True)


class RangeInfo:
    """range(lo, hi, step) with symbolic parts (step nonzero, its sign known)"""
    def __init__(self, p, lo, hi, step, up):
        self.lo, self.hi, self.step, self.up = lo, hi, step, up
        i = len(p.ranges)
        self.n, self.last = z3.Int('range_n!%d' % i), z3.Int('range_last!%d' % i)
        self.pred = z3.Function('in_range!%d' % i, z3.IntSort(), z3.BoolSort())
        lo, hi, n, last = zval(lo), zval(hi), self.n, self.last
        p.assume(n >= 0)
        p.assume((n == 0) == ((lo >= hi) if up else (lo <= hi)))
        p.assume(z3.Implies(n == 1, last == lo))
        p.assume(z3.Implies(n >= 1, z3.And(last >= lo, last < hi) if up else z3.And(last <= lo, last > hi)))
        p.assume(z3.Implies(n >= 2, last > lo if up else last < lo))
        if isinstance(step, int) and step in (1, -1):
            p.assume(z3.Implies(n >= 1, last == hi - step))
            p.assume(z3.Implies(n >= 1, n == (hi - lo) * step))

    def low(self):
        return zval(self.lo) if self.up else self.last

    def high(self):
        return self.last if self.up else zval(self.lo)

    def contains(self, p, k):
        k = zval(k)
        t = self.pred(k)
        p.assume(z3.Implies(t, z3.And(self.n > 0, k >= self.low(), k <= self.high())))
        p.assume(z3.Implies(z3.And(self.n > 0, z3.Or(k == self.last, k == zval(self.lo))), t))
        if isinstance(self.step, int) and self.step in (1, -1):
            p.assume(t == z3.And(self.n > 0, k >= self.low(), k <= self.high()))
        return t


def range_info(p, lo, hi, step):
    for r in p.ranges:
        if p.entails(z3.And(zval(r.lo) == zval(lo), zval(r.hi) == zval(hi), zval(r.step) == zval(step))):
            return r
    up = p.branch(zval(step) > 0)
    if not up and p.branch(zval(step) == 0):
        raise Unsupported('range with step zero')
    r = RangeInfo(p, lo, hi, step, up)
    p.ranges.append(r)
    return r
