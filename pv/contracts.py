"""Contracts: every specification is one generator, run in two ways.

proof : the part before `yield` creates an arbitrary state satisfying the precondition, the body of the real
        method runs at the `yield`, the part after it checks the postcondition.
call  : (a caller under proof) the part before takes the described state out of the caller's state, the part
        after puts the described result in.  The caller never sees the body."""
import ast
import z3
from .source import walk_own
from .state import *
from .heap import *
from .exec import *
from . import trees as T_
from .trees import attr, cattr, tnorm, cnorm, TNode, TPlug, LEAF


class _Forever:
    pass


FOREVER = _Forever()        # measure of a loop that ends with probability one


class Rejected(Exception):
    def __init__(self, excs, pure=True):
        self.excs, self.pure = excs, pure


class Mode:
    def __init__(self, I, producing, label):
        self.I, self.p, self.producing, self.label = I, I.p, producing, label
        self.cur_lock = set()

    def begin_op(self):
        self.cur_lock = set()

    def end_op(self):
        pass

    def op_lock(self):
        return None

    def take(self, lock):
        pass

    # ---- primitive assertions ------------------------------------------------
    def fact(self, f):
        if self.producing:
            self.p.assume(f)
        else:
            self.p.prove(f, self.label)

    def branch(self, f):
        return self.p.branch(f)

    def seqeq(self, a, b):
        if self.producing:
            self.p.seq_assume_eq(a, b)
        else:
            self.p.seq_prove_eq(a, b, self.label)

    def same(self, a, b):
        """the same object"""
        if self.producing:
            self.p.union(a, b)
        else:
            k = self.p.known_eq(a, b)
            if k is None:
                k = self.p.ref_eq(a, b)
            if not k:
                self.p.fail('%s: a link does not point where it must' % self.label)
            self.p.prove(True, self.label)

    def is_null(self, r):
        """case split"""
        return self.p.ref_eq(r, None)

    def cell(self, ref, cls, **fields):
        """ownership of an object of exact class cls; fields name=kind; returns dict of values.
        kinds: int num data bool ref ref:Cls cap any, or a callable (mode, value)->value"""
        p = self.p
        if self.producing:
            f = {}
            for k, kind in fields.items():
                f[k] = self.fresh_field(kind)
            c = Cell(ref, cls, f, lock=self.op_lock())
            add_cell(p, c)
            return dict(f)
        self.begin_op()
        c = find_cell(p, ref)
        if c is None:
            p.fail('%s: the object is not available here' % self.label)
        if c.cls != cls:
            p.fail('%s: object of class %s instead of %s' % (self.label, c.cls, cls))
        self.take(c.lock)
        out = {}
        for k, kind in fields.items():
            if k not in c.fields:
                p.fail('%s: attribute %s is missing' % (self.label, k))
            v = c.fields[k]
            if kind == 'cap' and isinstance(v, z3.ArithRef) and v.is_real() and p.entails(v == PINF):
                v = INF
            if not self.kind_ok(kind, v):
                p.fail('%s: attribute %s has value %r' % (self.label, k, v))
            out[k] = v
        del p.cells[p.rep(ref)]
        self.end_op()
        return out

    def fresh_field(self, kind):
        p = self.p
        if callable(kind):
            return kind(self)
        if kind == 'cap':
            if p.choice():
                return INF
            n = p.fresh_int('cap')
            p.assume(n >= 0)
            return n
        if kind == 'any':
            return p.fresh_data('any')
        if kind in ('list', 'array'):
            return p.fresh_ref(kind, nonnull=True)
        return p.fresh_val(kind)

    def kind_ok(self, kind, v):
        p = self.p
        if callable(kind) or kind == 'any':
            return True
        if kind == 'int':
            return is_int(v)
        if kind == 'num':
            return is_num(v)
        if kind == 'data':
            return is_data(v)
        if kind == 'bool':
            return is_boolv(v)
        if kind == 'ref':
            return v is None or isinstance(v, Ref)
        if kind == 'list':
            return isinstance(v, Ref) and p.is_null(v) is False and p.refcls[p.rep(v)] == 'list'
        if kind == 'array':
            return isinstance(v, Ref) and p.is_null(v) is False and p.refcls[p.rep(v)] in ('array', 'list')
        if kind.startswith('ref:'):
            return isinstance(v, Ref)
        if kind == 'cap':
            return is_int(v) or (isinstance(v, float) and v == INF)
        raise Unsupported('kind ' + kind)

    def list_cell(self, r, kind='data'):
        """a Python list object: its content"""
        p = self.p
        if self.producing:
            s = p.fresh_seq(kind)
            add_cell(p, Cell(r, 'list', {'seq': s}, lock=self.op_lock()))
            return s
        self.begin_op()
        c = find_cell(p, r)
        if c is None:
            p.fail('%s: the list object is not available here' % self.label)
        if c.cls != 'list':
            p.fail('%s: not a list' % self.label)
        self.take(c.lock)
        del p.cells[p.rep(r)]
        self.end_op()
        self.conform(c.fields['seq'], kind)
        return c.fields['seq']

    def conform(self, s, kind):
        """the items of s are of the kind the description promises"""
        p = self.p
        for a in p.norm(s).atoms:
            if isinstance(a, Unit):
                self.conform_value(a.v, kind)
            elif isinstance(a, SVar) or not (a.fn.startswith('map') or a.fn in ('kids', 'lev', 'levs', 'levt', 'keys')):
                k = a.kind if isinstance(a, SVar) else a.x.kind
                if not sub_kind(k, kind):
                    p.fail('%s: items of kind %s instead of %s' % (self.label, k, kind))

    def conform_value(self, v, kind):
        p = self.p
        if kind.startswith('('):
            ks = kind[1:-1].split(',')
            if not isinstance(v, tuple) or len(v) != len(ks):
                p.fail('%s: an item is not of kind %s' % (self.label, kind))
            for x, k in zip(v, ks):
                self.conform_value(x, k)
            return
        if kind.startswith('tree:'):
            ok = isinstance(v, Ref) and not p.ref_eq(v, None) and p.rep(v) in p.__dict__.get('views', ()) and \
                p.views[p.rep(v)].cls == kind[5:]
        elif kind.startswith('ref:'):
            ok = isinstance(v, Ref) and not p.ref_eq(v, None) and p.refcls[p.rep(v)] == kind[4:]
        elif kind == 'int':
            ok = is_int(v)
        elif kind == 'sstr':
            ok = isinstance(v, str) or hasattr(v, 'strterm')
        elif kind == 'num':
            ok = is_num(v)
        elif kind == 'sdata':
            ok = is_data(v) or is_num(v) or isinstance(v, str)
            if ok and is_data(v):
                p.prove(NORM(v) == v, self.label + ': an item is a stored value')
        elif kind == 'data':
            ok = not (v is None or isinstance(v, Ref) or isinstance(v, (Seq, tuple)) or not (is_data(v) or is_num(v) or isinstance(v, str)))
        else:
            ok = True
        if not ok:
            p.fail('%s: an item is not of kind %s' % (self.label, kind))

    def array(self, r):
        """a Python list of numbers: (array, length)"""
        from . import arrays as A
        p = self.p
        if self.producing:
            a, n = A.fresh_array(p)
            A.counts(p, a, n)
            add_cell(p, Cell(r, 'array', {'arr': a, 'n': n}, lock=self.op_lock()))
            return a, n
        self.begin_op()
        c = find_cell(p, r)
        if c is None:
            p.fail('%s: the list object is not available here' % self.label)
        if c.cls == 'list':
            a, n = A.of_seq(p, c.fields['seq'])
        elif c.cls == 'array':
            a, n = c.fields['arr'], c.fields['n']
        else:
            p.fail('%s: not a list' % self.label)
        self.take(c.lock)
        del p.cells[p.rep(r)]
        self.end_op()
        return a, zval(n)

    # ---- trees ---------------------------------------------------------------
    def tree(self, x, alg, px=None, valid=True, **attrs):
        """the tree rooted at x (parent link px); its term.  attrs: attributes given when producing"""
        p = self.p
        if self.producing:
            t = T_.tvar(p, alg, **attrs)
            T_.known_class(p, x, alg)
            p.chunks.append(T_.Tree(x, t, alg, px, lock=self.op_lock()))
            normalize_heap(p)
            return tnorm(t)
        self.begin_op()
        t = T_.consume_tree(p, x, alg, px, self.label, self.take, valid)
        self.end_op()
        return tnorm(t)

    def ctx(self, root, tp, x, hp, alg, valid=True, E=None):
        """everything between root and the hole x (parent link hp); its frames"""
        p = self.p
        if self.producing:
            c = T_.cvar(p, alg)
            if E is not None and alg.E:
                T_.cv(p, alg, c, 'E')
                for n in alg.E:
                    p.assume(zval(c.attrs['E'][n]) == zval(E[n]))
            for r in (root, hp):
                T_.known_class(p, r, alg)
            p.chunks.append(T_.TCtx(root, tp, x, hp, (c,), alg, lock=self.op_lock()))
            normalize_heap(p)
            return cnorm((c,))
        self.begin_op()
        C = T_.consume_ctx(p, root, tp, x, hp, alg, self.label, self.take, valid, E)
        self.end_op()
        return cnorm(C)

    def node(self, x, alg, px=None, v=None):
        """the single node x (parent link px): (payload, left, right); v: its payload when that is given"""
        p = self.p
        want = v
        if self.producing:
            v = alg.fresh(p) if want is None else want
            l, r = p.fresh_ref(), p.fresh_ref()
            f = alg.unpack(p, v)
            f['_left'], f['_right'] = l, r
            if alg.parent:
                f['_parent'] = px
            add_cell(p, Cell(x, alg.cls, f, lock=self.op_lock()))
            normalize_heap(p)
            return v, l, r
        self.begin_op()
        c = find_cell(p, x)
        if c is None:
            p.fail('%s: the node is not available here' % self.label)
        l, r = c.fields.get('_left'), c.fields.get('_right')
        v = T_.take_node(p, c, alg, px, self.label, self.take)
        self.end_op()
        if want is not None:
            for a, b in zip(v, want):
                a, b = (a.term if isinstance(a, EnumV) else a), (b.term if isinstance(b, EnumV) else b)
                p.prove(zval(a) == zval(b), self.label + ': content of a node')
        return v, l, r

    def same_tree(self, t, term):
        if self.producing:
            T_.tbind(self.p, t, term)
            normalize_heap(self.p)
        else:
            T_.teq(self.p, t, term, self.label)
            self.p.prove(True, self.label + ': same tree')

    def lseg(self, x, y, cls, dl=False, px=None, length=None, kind=None, S=None):
        """list segment; returns (S, last)"""
        p = self.p
        kind = kind or NODE_ELEM[cls][0]
        if self.producing:
            if S is None:
                S = unit(p.fresh_val(kind)) if isinstance(length, int) and length == 1 else p.fresh_seq(kind)
            last = p.fresh_ref() if dl else None
            if length is not None:
                p.assume(p.as_z3int(p.length(S)) == p.as_z3int(length))
            ch = LSeg(x, y, S, cls, dl, px, last, lock=self.op_lock())
            p.chunks.append(ch)
            normalize_heap(p)
            return p.norm(S), last
        self.begin_op()
        S, last = consume_lseg(p, x, y, cls, dl, px, length, label=self.label, take=self.take)
        self.conform(S, kind)
        if length is not None:
            p.prove(p.as_z3int(p.length(S)) == p.as_z3int(length), self.label + ': length')
        self.end_op()
        return S, last


def sub_kind(k, kind):
    if k == kind:
        return True
    if k.startswith('(') and kind.startswith('('):
        a, b = k[1:-1].split(','), kind[1:-1].split(',')
        return len(a) == len(b) and all(sub_kind(x, y) for x, y in zip(a, b))
    return kind in ('data', 'sdata') and k in ('sdata', 'num', 'pnum', 'int') or kind == 'num' and k in ('int', 'pnum')


class Ctx(Mode):
    """one use of a contract"""
    def __init__(self, I, mode, cls, fi, locs, spec):
        Mode.__init__(self, I, mode == 'proof', '%s[%s]' % (fi.qual if fi else spec.name, cls))
        self.mode, self.cls, self.fi, self.locs, self.spec = mode, cls, fi, locs, spec
        self.phase = 'pre'
        self.is_pure = False
        self.result = None
        self.has_result = False
        self.measure = None
        self.reads = []
        self.may_raise = ()
        self.pending = frozenset()

    @property
    def proof(self):
        return self.mode == 'proof'

    def object_arg(self, name, cls):
        """argument name: an object, never None (a precondition at call sites)"""
        if self.proof:
            self.locs[name] = self.p.fresh_ref(cls, nonnull=True)
        x = self.locs[name]
        if self.mode == 'call':
            label = '%s: precondition: %s is an object, not None' % (self.label, name)
            if not isinstance(x, Ref):
                self.p.fail(label)
            if self.p.ref_eq(x, None):
                self.p.prove(z3.BoolVal(False), label)
                raise Infeasible()
        return x

    viewing = False

    def view(self):
        """from here (before the body): what is described is only looked at, and may be handed back in
        another arrangement; nothing of it may be written"""
        self.viewing = True
        self.view_lock = frozenset()

    def op_lock(self):
        if not self.viewing:
            return None
        return frozenset({'ro'}) if self.mode == 'proof' else (self.view_lock or None)

    def take(self, lock):
        if self.viewing:
            if self.mode == 'call':
                self.view_lock |= lock or frozenset()
            elif self.phase == 'post' and not (lock and 'ro' in lock):
                self.p.fail(self.label + ': an object it should only look at is replaced')
            return
        if not lock:
            return
        if self.mode == 'proof':
            if 'pure' in lock or 'ro' in lock:
                self.p.fail(self.label + ': the result shares structure with an object that must stay separate')
            return
        if not self.reading:
            self.pending |= lock

    def commit(self):
        """the call goes through: judge what it may change"""
        if self.is_pure:
            return
        if 'pure' in self.pending or 'ro' in self.pending:
            self.p.fail(self.label + ' may change an object that must not change here')
        self.p.dirty |= self.pending

    reading = False

    # ---- inputs ------------------------------------------------------------
    def arg(self, name, kinds, default=NotImplemented):
        """value of parameter `name`; kinds: alternatives separated by |"""
        p = self.p
        if self.mode == 'call':
            return self.locs[name]
        if default is not NotImplemented and p.choice():
            return default          # left to the callee's own default value
        ks = kinds.split('|')
        k = p.pick(ks)
        v = self.make(k)
        self.locs[name] = v
        p.__dict__.setdefault('given', {})[name] = v
        return v

    def make(self, k):
        p = self.p
        if k == 'int':
            return p.fresh_int('arg')
        if k == 'num':
            return p.fresh_real('arg')
        if k == 'data':
            return p.fresh_data('arg')
        if k == 'none':
            return None
        if k == 'extra':
            return ExtObj()
        if k == 'opaque':
            return Opaque(False)
        if k == 'bool':
            return p.choice()
        if k == 'slice':
            g = lambda: p.fresh_int('sl') if p.choice() else None
            return VSlice(g(), g(), g())
        if k == 'str':
            return OStr()
        if k in self.spec.reg.kinds:
            return self.spec.reg.kinds[k](self)
        raise Unsupported('argument kind ' + k)

    def kind(self, v):
        p = self.p
        if v is None:
            return 'none'
        if is_boolv(v):
            return 'bool'
        if is_int(v):
            return 'int'
        if is_real(v):
            return 'num'
        if is_data(v):
            return 'data'
        if isinstance(v, VSlice):
            return 'slice'
        if isinstance(v, ExtObj):
            return 'extra'
        if isinstance(v, Opaque):
            return 'opaque'
        if isinstance(v, (str, OStr)):
            return 'str'
        if isinstance(v, VIter):
            return 'iter'
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, Ref):
            if p.is_null(v) is not False and p.ref_eq(v, None):
                return 'none'
            return 'obj:' + self.I.cls_of(v)
        return '?'

    # ---- control -------------------------------------------------------------
    def pure(self):
        """the operation changes nothing that existed before"""
        self.is_pure = True

    def rejects(self, *excs):
        """from here: the operation raises one of excs and changes nothing"""
        raise Rejected(excs)

    def fails(self, *excs):
        """a constructor raises one of excs (there is no object afterwards)"""
        raise Rejected(excs, pure=False)

    def requires(self, f):
        """precondition over values"""
        if self.mode == 'proof':
            self.p.assume(f)
        else:
            self.p.prove(f, 'precondition of ' + self.label)

    def decreases(self, m):
        p, I = self.p, self.I
        if self.mode == 'proof':
            I.measure0 = (self.fi.qual, m)
        elif I.measure0 is not None and I.measure0[0] == self.fi.qual:
            m0 = I.measure0[1]
            p.prove(z3.And(zval(m) >= 0, zval(m) < zval(m0)), self.label + ': recursion terminates')

    def read(self, pred):
        """describe an object the operation only reads"""
        p = self.p
        if self.mode == 'proof':
            before_cells = set(id(c) for c in p.cells.values())
            before_chunks = set(id(c) for c in p.chunks)
            r = pred(self)
            for c in list(p.cells.values()) + p.chunks:
                if id(c) not in before_cells and id(c) not in before_chunks:
                    c.lock = frozenset((c.lock or frozenset()) | {'ro'})
            return r
        snap = snapshot(p)
        self.reading = True
        r = pred(self)
        self.reading = False
        restore(p, snap)
        return r

    # ---- outcome ---------------------------------------------------------------
    def returns(self, v):
        if self.mode == 'call':
            self.result = v
            return
        self.check_value(self.result, v)

    def check_value(self, got, want):
        p = self.p
        if isinstance(want, bool) or isinstance(want, z3.BoolRef):
            if not is_boolv(got):
                p.fail('%s: result %r is not a truth value' % (self.label, got))
            p.prove(zval(got) == zval(want), self.label + ': result')
            return
        if want is None:
            if isinstance(got, Ref) and p.is_null(got) is not True:
                p.fail('%s: result is not None' % self.label)
            if not isinstance(got, Ref) and got is not None:
                p.fail('%s: result is not None' % self.label)
            p.prove(True, self.label + ': result')
            return
        if isinstance(want, EnumV) and isinstance(got, EnumV):
            p.prove(zval(want.term) == zval(got.term), self.label + ': result')
            return
        p.val_prove_eq(got, want, self.label + ': result')

    def returns_list(self, s):
        p = self.p
        if self.mode == 'call':
            self.result = self.I.new_list(s)
            return
        r = self.result
        if not (isinstance(r, Ref) and p.is_null(r) is False and self.I.cls_of(r) == 'list'):
            p.fail('%s: result %r is not a list' % (self.label, r))
        got = self.list_cell(r)
        p.seq_prove_eq(got, s, self.label + ': resulting list')

    def returns_object(self, cls):
        """reference to the result object (of exact class cls)"""
        p = self.p
        if self.mode == 'call':
            self.result = p.fresh_ref(cls, nonnull=True)
            return self.result
        r = self.result
        return self.check_object(r, cls)

    def check_object(self, r, cls):
        p = self.p
        if not isinstance(r, Ref) or p.is_null(r) is not False:
            p.fail('%s: result %r is not a new object' % (self.label, r))
        if self.I.cls_of(r) != cls:
            p.fail('%s: result is a %s, not a %s' % (self.label, self.I.cls_of(r), cls))
        return r

    def returns_pair(self, cls1, cls2):
        p = self.p
        if self.mode == 'call':
            self.result = (p.fresh_ref(cls1, nonnull=True), p.fresh_ref(cls2, nonnull=True))
            return self.result
        if not (isinstance(self.result, tuple) and len(self.result) == 2):
            p.fail('%s: result is not a pair' % self.label)
        return self.check_object(self.result[0], cls1), self.check_object(self.result[1], cls2)

    def yields(self, s, dep=None):
        p = self.p
        if self.mode == 'call':
            self.result = VIter(s, dep=dep)
            return
        r = self.result
        if isinstance(r, Ref):
            r = self.I.iterate(r)
        if not isinstance(r, VIter):
            p.fail('%s: result is not an iterator' % self.label)
        p.seq_prove_eq(r.seq, s, self.label + ': items produced')

    def warns(self):
        if self.mode == 'call':
            self.p.warned = True
        elif not self.p.warned:
            self.p.fail(self.label + ': no warning is given')

    def ensures(self, f):
        if self.mode == 'call':
            self.p.assume(f)
        else:
            self.p.prove(f, self.label)


class Spec:
    def __init__(self, reg, name, classes, fn, owner=None, props=(), opts=None):
        self.reg, self.name, self.classes, self.fn = reg, name, classes, fn
        self.props = props
        self.opts = opts or {}

    def drive(self, g):
        """first half of the generator"""
        next(g)

    def call(self, I, cls, fi, locs):
        p = I.p
        p.engine.used_contracts.add((self.name, cls))
        if getattr(p, 'leaf', False):
            p.engine.used_contracts |= {k for k in self.reg.specs if k[1] == cls and k[0].startswith(self.name + '@leaf')}
        c = Ctx(I, 'call', cls, fi, locs, self)
        refs = [p.rep(x) for x in locs.values() if isinstance(x, Ref)]
        for n, i in enumerate(refs):        # known to be different objects: not forgotten when the contract takes one of them
            p.neq |= {(i, j) for j in refs[:n] if i in p.cells and j in p.cells and p.known_eq(Ref(i), Ref(j)) is False}
        snap = snapshot(p)
        g = self.fn(c)
        try:
            next(g)
        except Rejected as r:
            restore(p, snap)
            raise PyRaise(r.excs[0], c.label)
        c.commit()
        if c.is_pure:
            restore(p, snap)
        c.phase = 'post'
        c.producing = True
        key, n = (tuple(d[0] for d in p.decisions), len(p.calls_seen), p.line, self.name, cls), p.nfacts
        p.calls_seen.append(key)
        try:
            next(g)
            raise Unsupported('contract with two yields')
        except StopIteration:
            p.engine.outcome(p, key, n, True)
        except PathEnd:
            p.engine.outcome(p, key, n, False)
            raise
        return c.result

    def verify_path(self, p, prog, cls, fi):
        I = Interp(p, prog, self.reg, (cls, fi))
        I.stack, I.calls = [], []
        locs = {}
        c = Ctx(I, 'proof', cls, fi, locs, self)
        names = [a.arg for a in fi.node.args.args]
        g = self.fn(c)
        expected, pure_rej = None, False
        try:
            next(g)
        except Rejected as r:
            expected, pure_rej = r.excs, r.pure
        mode = p.engine.mode
        if (mode == 'main' and expected is not None) or (mode == 'pure' and (expected is not None or not c.is_pure)):
            p.engine.skipped += 1
            return
        if pure_rej or c.is_pure:
            for x in list(p.cells.values()) + p.chunks:
                x.lock = frozenset((x.lock or frozenset()) | {'pure'})
        p.engine.reached(p, self, cls, expected)
        p.body_started = True
        raised = None
        kw = {k: v for k, v in locs.items() if k in names}
        try:
            lc = I.bind(fi, [], kw)
            c.result = I.run_locs(fi, cls, lc)
        except PyRaise as e:
            raised = e
        if expected is not None:
            if raised is None:
                p.fail('%s: %s is not raised' % (c.label, ' or '.join(expected)))
            if not any(raised.exc == x for x in expected):
                p.fail('%s: raises %s instead of %s' % (c.label, raised, ' or '.join(expected)))
            p.prove(True, '%s: raises %s and changes nothing' % (c.label, raised.exc))
            return
        if raised is not None:
            if mode == 'pure':
                return
            p.fail('%s: raises %s' % (c.label, raised))
        if mode in ('reject', 'pure'):
            p.prove(True, '%s: %s' % (c.label, 'no error escapes' if mode == 'reject' else 'nothing is changed'))
            return
        c.phase = 'post'
        c.producing = False
        p.line = (fi.qual, 'end')
        try:
            next(g)
            raise Unsupported('contract with two yields')
        except StopIteration:
            pass
        p.prove(True, c.label + ': postcondition')


class Registry:
    def __init__(self):
        self.specs = {}           # (method name, class) -> Spec
        self.loops = {}
        self.hooks = {}
        self.kinds = {}
        self.renames = {}
        self.choices = {}
        self.choice_no = 0
        self.unroll_symbolic = 8
        self.taggers = {}
        self.inline = set()
        self.not_transparent = set()    # ... except these methods
        self.transparent = set()  # (class under proof, class): bodies are executed instead of contracts used

    def contract(self, name, classes, props=(), **opts):
        def deco(fn):
            s = Spec(self, name, list(classes), fn, props=tuple(props), opts=opts)
            for k in classes:
                self.specs[(name, k)] = s
            return fn
        return deco

    def loop_inv(self, qual, no, classes=None, unit=False):
        def deco(fn):
            if unit:
                fn.unit = True
            for k in (classes or [None]):
                self.loops[(qual, no, k)] = fn
            return fn
        return deco

    def hook(self, name):
        def deco(fn):
            self.hooks.setdefault(name, []).append(fn)
            return fn
        return deco

    def tagger(self, cls):
        def deco(fn):
            self.taggers[cls] = fn
            return fn
        return deco

    def find(self, prog, cls, fi, target=None):
        nm = fi.name
        if target is not None and (target[0], cls) in self.transparent and \
                (target[0], cls, nm) not in self.not_transparent:
            return None
        s = self.specs.get((nm, cls))
        if s is None:
            return None
        if cls is None:
            return s
        # the contract belongs to the method the class resolves this name to
        if nm.startswith('__') and not nm.endswith('__'):
            return s
        first = prog.lookup(cls, nm)
        return s if first is fi else None

    def loop(self, I, fr, key):
        q, n = key
        for fi in reversed(I.calls):
            own = [k[1] for k in self.loops if k[0] == fi.qual]
            if own:
                if len(fi.loops) <= max(own):       # a loop of fi has moved to a helper: count through the calls
                    flat = self.flat_loops(I.prog, fi, fr.selfcls, [])
                    if key in flat:
                        q, n = fi.qual, flat.index(key)
                break
        return self.loops.get((q, n, fr.selfcls)) or self.loops.get((q, n, None))

    def flat_loops(self, prog, fi, cls, seen):
        """loops of fi and, in place of a call, of the helper without contract and invariants that is called"""
        out = []
        for s in walk_own(fi.body):
            if id(s) in fi.loops:
                out.append((fi.qual, fi.loops[id(s)]))
            elif isinstance(s, ast.Call):
                h = None
                if isinstance(s.func, ast.Attribute):
                    nm = s.func.attr
                    if nm.startswith('__') and not nm.endswith('__'):
                        if fi.cls and nm in fi.cls.methods:
                            h = prog.func(fi.cls.name, nm)
                    else:
                        h = prog.lookup(cls, nm) if cls in prog.classes else None
                elif isinstance(s.func, ast.Name) and (fi.module, s.func.id) in prog.functions:
                    h = prog.modfunc(fi.module, s.func.id)
                if h is not None and h.qual not in seen and h.qual != fi.qual and (h.name, cls) not in self.specs and \
                        (h.name, None) not in self.specs and not any(k[0] == h.qual for k in self.loops):
                    out += self.flat_loops(prog, h, cls, seen + [fi.qual])
        return out

    def tag_object(self, I, ref, tag):
        p = I.p
        cls = I.cls_of(ref)
        if cls == 'list':
            c = find_cell(p, ref)
            c.lock = frozenset((c.lock or frozenset()) | {tag})
            return
        f = self.taggers.get(cls)
        if f is None:
            return
        snap_cells = {id(c): c for c in p.cells.values()}
        snap = snapshot(p)
        m = Tagger(I, tag)
        f(m, ref)
        restore(p, snap)
        # tags were recorded by identity of the copies: redo on the restored state
        for c in list(p.cells.values()):
            if p.rep(c.ref) in m.reps:
                c.lock = frozenset((c.lock or frozenset()) | {tag})
        for c in p.chunks:
            if isinstance(c, (LSeg, T_.Tree, T_.TCtx)) and p.rep_any(c.bases()[0]) in m.reps:
                c.lock = frozenset((c.lock or frozenset()) | {tag})

    def choose(self, I, key, name, cands):
        """renamed local: which candidate stands for the role (the engine tries the others on failure)"""
        k = (key, name)
        if k not in self.choices:
            self.choices[k] = [0, cands]
        i, cs = self.choices[k]
        cs2 = [c for c in cs if c in cands] or cands
        r = cs2[i % len(cs2)]
        return r


class Tagger(Mode):
    def __init__(self, I, tag):
        Mode.__init__(self, I, False, 'iterated collection')
        self.reps = set()

    def cell(self, ref, cls, **f):
        p = self.p
        self.reps.add(p.rep(ref))
        return Mode.cell(self, ref, cls, **f)

    def lseg(self, x, y, cls, dl=False, px=None, length=None, kind=None, S=None):
        p = self.p
        before = {i for i in p.cells} | {p.rep_any(c.bases()[0]) for c in p.chunks}
        r = Mode.lseg(self, x, y, cls, dl, px, length, kind)
        return self.gone(before, r)

    def tree(self, x, alg, px=None, valid=True, **attrs):
        p = self.p
        before = {i for i in p.cells} | {p.rep_any(c.bases()[0]) for c in p.chunks}
        return self.gone(before, Mode.tree(self, x, alg, px, False))

    def gone(self, before, r):
        p = self.p
        after = {i for i in p.cells} | {p.rep_any(c.bases()[0]) for c in p.chunks}
        self.reps |= (before - after)
        return r
