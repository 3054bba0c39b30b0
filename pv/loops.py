"""Loops: with an invariant (unbounded), or executed iteration by iteration when the bound is concrete."""
import ast, z3
from .state import *
from .heap import normalize_heap
from .exec import *
from .contracts import Mode, FOREVER

UNROLL = 40
ABSENT = object()                    # a local that has no value when the loop starts


def loop_key(fr, s):
    return (fr.fi.qual, fr.fi.loops.get(id(s), -1))


def exec_while(I, s, fr):
    inv = I.specs.loop(I, fr, loop_key(fr, s))
    if inv is None:
        return unroll_while(I, s, fr)
    Loop(I, fr, s, inv).run()


def unroll_while(I, s, fr):
    n = 0
    while True:
        before = len(I.p.decisions)
        if not I.test(I.ev(s.test, fr)):
            I.block(s.orelse, fr)
            return
        try:
            I.block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        n += 1
        if n > UNROLL or (n > I.specs.unroll_symbolic and len(I.p.decisions) > before):
            raise Unsupported('loop without an invariant: %s loop %d' % loop_key(fr, s))


def exec_for(I, s, fr):
    it = I.iterate(I.ev(s.iter, fr))
    p = I.p
    if hasattr(it, 't'):
        inv = I.specs.loop(I, fr, loop_key(fr, s))
        if inv is None:
            raise Unsupported('loop without an invariant: %s loop %d' % loop_key(fr, s))
        Loop(I, fr, s, inv, it).run()
        return
    if isinstance(it, VRange):
        if not hasattr(it, 'item') and isinstance(it.lo, int) and isinstance(it.hi, int) and isinstance(it.step, int):
            it = VIter(Seq([Unit(i) for i in range(it.lo, it.hi, it.step)]))
    if isinstance(it, VIter):
        sq = p.norm(it.seq)
        if all(isinstance(a, Unit) for a in sq.atoms) and it.bad is None and len(sq.atoms) <= UNROLL and \
                (it.dep is None or len(sq.atoms) == 0 or p.tuple_like(it)):
            return concrete_for(I, s, fr, sq)
    inv = I.specs.loop(I, fr, loop_key(fr, s))
    if inv is None:
        if isinstance(it, VIter):
            sq = p.norm(it.seq)
            if all(isinstance(a, Unit) for a in sq.atoms) and it.bad is None and len(sq.atoms) <= UNROLL:
                return concrete_for(I, s, fr, sq, it)
        raise Unsupported('loop without an invariant: %s loop %d' % loop_key(fr, s))
    Loop(I, fr, s, inv, it).run()


def _tuple_like(self, it):
    return False


Path.tuple_like = _tuple_like


def concrete_for(I, s, fr, sq, it=None):
    tag = guard_dep(I, it)
    try:
        for a in sq.atoms:
            I.assign(s.target, a.v, fr)
            try:
                I.block(s.body, fr)
            except ContinueEx:
                pass
            check_dep(I, tag)
    except BreakEx:
        return
    finally:
        pass
    I.block(s.orelse, fr)


def guard_dep(I, it):
    """mark the collection an iterator reads from; a change of it during the iteration is noticed"""
    if it is None or it.dep is None:
        return None
    p = I.p
    tag = 'iter%d' % len(p.trace)
    p.trace.append(tag)
    I.specs.tag_object(I, it.dep, tag)
    return tag


def check_dep(I, tag):
    if tag is not None and tag in I.p.dirty:
        I.p.fail('the collection that is iterated over is changed during the iteration')


def tag_all(p, tag, only_untagged=None):
    for c in p.cells.values():
        c.lock = frozenset((c.lock or frozenset()) | {tag})
    for c in p.chunks:
        c.lock = frozenset((c.lock or frozenset()) | {tag})


def untag_all(p, tag):
    for c in list(p.cells.values()) + list(p.chunks):
        if c.lock and tag in c.lock:
            c.lock = frozenset(c.lock - {tag}) or None


class Loop:
    def __init__(self, I, fr, s, inv, it=None):
        self.I, self.fr, self.s, self.inv, self.it = I, fr, s, inv, it
        self.ghost = {}
        self.locks = []
        self.at_exit = []
        self.visited, self.rest = EMPTY, EMPTY
        self.idx = None
        self.chars = hasattr(it, 't')
        if not self.chars and it is not None and not isinstance(it, VRange):
            self.items = getattr(it, 'src', it.seq)

    def run(self):
        self.label = '%s loop %d' % loop_key(self.fr, self.s)
        self.keys = []
        p = self.I.p
        try:
            self.go()
        except PathEnd:
            self.seen_all(False)
            raise
        except BaseException:
            self.seen_all(True)
            raise
        self.seen_all(True)

    def expect(self, what):
        """from here some path must get further (see Engine.outcome)"""
        p = self.I.p
        self.keys.append(((tuple(d[0] for d in p.decisions), len(p.calls_seen), p.line, self.label + what, None), p.nfacts))
        p.calls_seen.append(self.keys[-1][0])

    def seen(self):
        self.I.p.engine.outcome(self.I.p, *self.keys.pop(), True)

    def seen_all(self, ok):
        while self.keys:
            self.I.p.engine.outcome(self.I.p, *self.keys.pop(), ok)

    def go(self):
        I, fr, s, p = self.I, self.fr, self.s, self.I.p
        p.engine.used_loops.add(self.label)
        dep_tag = guard_dep(I, self.it) if isinstance(self.it, VIter) else None
        assigned = assigned_names(s.body)
        if isinstance(s, ast.For):
            assigned |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        else:
            assigned |= {n.target.id for n in ast.walk(s.test) if isinstance(n, ast.NamedExpr)}
        self.assigned = assigned
        target = s.target.id if isinstance(s, ast.For) and isinstance(s.target, ast.Name) else None
        saved_target = fr.locals.get(target) if target else None
        if isinstance(self.it, VRange):
            self.idx = self.it.lo
            if not (isinstance(self.it.step, int) and self.it.step in (1, -1)):
                raise Unsupported('range step in ' + self.label)
        elif self.chars:
            self.visited, self.rest = z3.StringVal(''), self.it.t
        elif self.it is not None:
            self.visited, self.rest = EMPTY, self.items
        # --- holds on entry
        self.hidden(target)
        L = LoopCtx(self, False, self.label + ': invariant on entry', entry=True)
        self.inv(L)
        if getattr(self.inv, 'unit', False):
            sig = self.unit_signature()
            if sig is not None:
                p.engine.loop_units.setdefault((self.label, fr.selfcls, sig), (fr.fi, fr.selfcls, s, self.inv, self.ghost_ints()))
                return self.skip_to_exit()
        # --- arbitrary iteration
        self.expect(': it is not left')
        self.expect(': no iteration satisfies the invariant')
        for n in assigned:
            fr.locals[n] = Poison(n)
        if fr.gen is not None and 'yielded' not in self.ghost:
            pass
        tag = 'loop%d' % p.nfresh
        p.nfresh += 1
        p.dirty.discard(tag)
        tag_all(p, tag)
        if isinstance(self.it, VRange):
            self.idx = p.fresh_int('k')
            if self.it.step == 1:
                p.assume(z3.And(zval(self.it.lo) <= self.idx,
                                z3.Or(self.idx <= zval(self.it.hi), self.idx == zval(self.it.lo))))
            else:
                p.assume(z3.And(zval(self.it.lo) >= self.idx,
                                z3.Or(self.idx >= zval(self.it.hi), self.idx == zval(self.it.lo))))
        elif self.chars:
            self.visited, self.rest = z3.String(p.name('seen')), z3.String(p.name('unseen'))
            p.assume(self.it.t == z3.Concat(self.visited, self.rest))
        elif self.it is not None:
            kind = 'tn' if hasattr(self.it, 'src') else seq_kind(self.it.seq, p)
            self.visited, self.rest = p.fresh_seq(kind), p.fresh_seq(kind)
            p.seq_assume_eq(self.items, self.visited + self.rest)
        self.hidden(target)
        L = LoopCtx(self, True, self.label)
        self.inv(L)
        self.seen()
        p.dirty -= {t for t in p.dirty if t == tag}
        m0 = L.measure_v
        try:
            go = self.test(target)
            if not go:
                untag_all(p, tag)
                self.leave()
                if target is not None:
                    fr.locals[target] = Poison(target)
                I.block(s.orelse, fr)
                return
            try:
                I.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                untag_all(p, tag)
                self.leave()
                return
        except (ReturnEx, PyRaise):
            untag_all(p, tag)
            self.leave()
            raise
        # --- preserved
        check_dep(I, dep_tag)
        if isinstance(self.it, VRange):
            self.idx = self.idx + self.it.step
        elif self.chars:
            self.visited, self.rest = z3.Concat(self.visited, self.item), self.rest2
        elif self.it is not None:
            if self.on_bad:
                p.fail(self.label + ': an unusable item is accepted')
            self.visited = self.visited + unit(self.item)
            self.rest = self.rest2
        self.hidden(target)
        L = LoopCtx(self, False, self.label + ': invariant preserved')
        self.inv(L)
        if tag in p.dirty:
            p.fail(self.label + ': an iteration changes something the invariant does not describe')
        if m0 is FOREVER:
            pass                # partial correctness: the loop ends when the random choices let it
        elif m0 is not None:
            m1 = L.measure_v
            p.prove(z3.And(zval(m1) >= 0, zval(m1) < zval(m0)), self.label + ': terminates')
        elif self.it is None:
            p.fail(self.label + ': no termination measure')
        raise PathEnd()

    # --- the body verified once, on its own: nothing is known but the invariant
    def unit_signature(self):
        I, fr, p = self.I, self.fr, self.I.p
        if self.it is not None or fr.gen is not None or I.measure0 is not None or self.s.orelse or any(self.locks):
            return None
        for n in ast.walk(ast.Module(self.s.body, [])):
            if isinstance(n, (ast.Break, ast.Return, ast.FunctionDef, ast.Lambda)):
                return None
        out = []
        for n, v in sorted(fr.locals.items()):
            if n in self.assigned or n.startswith('%') or isinstance(v, Poison):
                continue
            if v is None or isinstance(v, (str, bool, int, float)):
                out.append((n, 'const', repr(v)))
            elif isinstance(v, Ref):
                c = p.refcls[p.rep_any(v)]
                out.append((n, 'ref', c, p.is_null(v)))
            elif isinstance(v, z3.ExprRef) and v.sort() in (z3.IntSort(), z3.RealSort(), z3.BoolSort()):
                out.append((n, 'z3', str(v.sort())))
            # anything else is not visible in the unit: a use of it there is an error
        return tuple(out)

    def ghost_ints(self):
        return {k: v for k, v in self.ghost.items() if not isinstance(v, Seq)}

    def skip_to_exit(self):
        """invariant holds, condition is false"""
        fr, p = self.fr, self.I.p
        self.expect(': it is not left')
        self.havoc()
        L = LoopCtx(self, True, self.label)
        self.inv(L)
        if L.measure_v is None:
            p.fail(self.label + ': no termination measure')
        if self.test(None):
            raise PathEnd()
        self.leave()

    def havoc(self):
        for n in self.assigned:
            self.fr.locals[n] = Poison(n)

    def run_unit(self):
        p = self.I.p
        self.label = '%s loop %d' % loop_key(self.fr, self.s)
        self.assigned = assigned_names(self.s.body) | {n.target.id for n in ast.walk(self.s.test) if isinstance(n, ast.NamedExpr)}
        self.havoc()
        self.keys = []
        self.expect(': no iteration satisfies the invariant')
        L = LoopCtx(self, True, self.label)
        try:
            self.inv(L)
        except PathEnd:
            self.seen_all(False)
            raise
        self.seen()
        m0 = L.measure_v
        if not self.test(None):
            return
        p.engine.unit_reach += 1
        try:
            self.I.block(self.s.body, self.fr)
        except ContinueEx:
            pass
        except PyRaise as e:
            p.fail('%s: raises %s' % (self.label, e))
        L = LoopCtx(self, False, self.label + ': invariant preserved')
        self.inv(L)
        p.prove(z3.And(zval(L.measure_v) >= 0, zval(L.measure_v) < zval(m0)), self.label + ': terminates')

    on_bad = False

    def leave(self):
        p = self.I.p
        for w, s, lazy in self.at_exit:
            if lazy:
                p.seqeqs.append((w, s))
                p.assume(zval(p.length(w)) == zval(p.length(s)))
            else:
                p.seq_assume_eq(w, s)
        self.at_exit = []

    def hidden(self, target):
        if isinstance(self.it, VRange) and target is not None and not hasattr(self.it, 'item'):
            self.fr.locals[target] = self.idx

    def test(self, target):
        I, s, fr, p = self.I, self.s, self.fr, self.I.p
        if self.it is None:
            return I.test(I.ev(s.test, fr))
        if isinstance(self.it, VRange):
            k = self.idx
            c = I.num_cmp('lt' if self.it.step == 1 else 'gt', k, self.it.hi)
            if not p.branch(c):
                return False
            I.assign(s.target, self.it.item(k) if hasattr(self.it, 'item') else k, fr)
            return True
        if self.chars:
            from .tries import head, SStr
            if p.branch(self.rest == z3.StringVal('')):
                return False
            self.item, self.rest2 = head(p, self.rest)
            I.assign(s.target, SStr(self.item), fr)
            return True
        if p.is_empty_seq(self.rest):
            if self.it.bad is not None:
                self.on_bad = True
                I.assign(s.target, None if self.it.bad is NONE_ITEM else self.it.bad, fr)
                return True
            return False
        self.item, self.rest2 = p.uncons(self.rest)
        I.assign(s.target, self.item.ref if hasattr(self.it, 'src') else self.item, fr)
        return True


CHANGING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort'}


def changed_names(stmts):
    """locals whose object the statements change in place"""
    s = set()
    for n in ast.walk(ast.Module(list(stmts), [])):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in CHANGING:
            s.add(n.func.value.id)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            s.add(n.value.id)
    return s


def seq_kind(s, p=None):
    for a in s.atoms:
        if isinstance(a, SVar):
            return a.kind
        if isinstance(a, FApp):
            return HOM_KIND.get(a.fn) or a.x.kind
        if isinstance(a, Unit):
            v = a.v
            if isinstance(v, Ref):
                if p is not None and p.rep(v) in p.__dict__.get('views', ()):
                    return 'tree:' + p.views[p.rep(v)].cls
                return 'ref'
            if is_data(v):
                return 'data'
            if is_real(v):
                return 'num'
            if is_int(v):
                return 'int'
    return 'data'


def loop_unit(p, prog, reg, target, unit, sig):
    fi, cls, s, inv, ghost = unit
    I = Interp(p, prog, reg, target)
    locs = {}
    for x in sig:
        if x[1] == 'const':
            locs[x[0]] = ast.literal_eval(x[2]) if x[2] not in ('inf', '-inf') else float(x[2])
        elif x[1] == 'ref':
            locs[x[0]] = None if x[3] is True else p.fresh_ref(x[2], nonnull=x[3] is False)
        else:
            locs[x[0]] = {'Int': p.fresh_int, 'Real': p.fresh_real, 'Bool': p.fresh_bool}[x[2]](x[0])
    fr = Frame(fi, cls, locs)
    I.stack.append((fi.qual, cls))
    I.calls.append(fi)
    lp = Loop(I, fr, s, inv)
    for k, v in ghost.items():
        lp.ghost[k] = p.fresh_int(k) if is_int(v) else p.fresh_real(k) if is_real(v) else None
    lp.run_unit()


class LoopCtx(Mode):
    """handed to a loop invariant: it is run to take the described state out of the program (consume)
    and to put an arbitrary described state in (produce)"""
    def __init__(self, loop, producing, label, entry=False):
        Mode.__init__(self, loop.I, producing, label)
        self.loop, self.fr, self.entry = loop, loop.fr, entry
        self.measure_v = None
        self.op = 0
        if entry:
            loop.locks = []
        self.taken = set()

    # tags of what an invariant takes are kept for what it puts back
    def take(self, lock):
        self.cur_lock |= (lock or frozenset())

    def begin_op(self):
        self.cur_lock = set()

    def end_op(self):
        """consume: remember the tags"""
        locks = self.loop.locks
        if self.entry:
            locks.append(frozenset(self.cur_lock))
        self.op += 1

    def op_lock(self):
        locks = self.loop.locks
        l = locks[self.op] if self.op < len(locks) else frozenset()
        self.op += 1
        return frozenset(t for t in l if not False) or None

    @property
    def visited(self):
        return self.loop.visited

    @property
    def rest(self):
        return self.loop.rest

    @property
    def locals(self):
        return self.fr.locals

    def const(self, name, ok=None):
        """a local / parameter the loop does not assign"""
        fr = self.fr
        if name not in fr.locals and name != 'self':
            cands = sorted(n for n, v in fr.locals.items() if n not in self.loop.assigned and n not in self.taken and n != 'self'
                           and not n.startswith('%') and not isinstance(v, (Poison, Unbound)) and (ok is None or ok(v)))
            if cands:
                name = self.I.specs.choose(self.I, loop_key(fr, self.loop.s), name, cands)
                self.taken.add(name)
            elif name in self.p.__dict__.get('given', ()):
                return self.p.given[name]           # what the operation was called with
        if name in self.loop.assigned:
            self.p.fail('%s: %s is assigned in the loop' % (self.label, name))
        return self.I.name(name, fr)

    def role(self, name, ok):
        """actual local standing for a role"""
        sp = self.I.specs
        m = sp.renames.setdefault((loop_key(self.fr, self.loop.s)), {})
        if name in m:
            return m[name]
        if name in self.fr.locals and not isinstance(self.fr.locals[name], (Unbound,)) and \
                (isinstance(self.fr.locals[name], Poison) or ok(self.fr.locals[name])):
            return name
        return None

    def local(self, name, ok, fresh, opt=False):
        fr = self.fr
        roles = self.loop.__dict__.setdefault('roles', {})
        r = None if self.entry else roles.get(name)
        if r is ABSENT:
            return None
        if r is None:
            r = self.role(name, ok)
        if r is None:
            cands = self.candidates(ok)
            if not cands and self.producing and (loop_key(fr, self.loop.s), name) in self.I.specs.choices:
                cands = self.I.specs.choices[(loop_key(fr, self.loop.s), name)][1]
            if cands:
                r = self.I.specs.choose(self.I, loop_key(fr, self.loop.s), name, cands)
            if r is None:
                if opt:
                    roles[name] = ABSENT
                    return None
                raise Unsupported('%s: no local plays the role of %s' % (self.label, name))
        self.taken.add(r)
        roles[name] = r
        if self.producing:
            if r in self.loop.assigned or isinstance(fr.locals.get(r), Poison):
                if isinstance(self.loop.it, VRange) and not hasattr(self.loop.it, 'item') and isinstance(self.loop.s.target, ast.Name) and r == self.loop.s.target.id:
                    return fr.locals[r]
                fr.locals[r] = fresh()
            return fr.locals[r]
        v = fr.locals.get(r)
        if isinstance(v, Poison):
            raise Unsupported('local %s has no value' % r)
        if not ok(v):
            self.p.fail('%s: %s is %r' % (self.label, r, v))
        return v

    def candidates(self, ok):
        out = []
        changed = changed_names(self.loop.s.body)
        for n, v in self.fr.locals.items():
            if n in self.taken or n.startswith('%') or n == 'self':
                continue
            if (n in self.loop.assigned or isinstance(v, Ref) and n in changed) and ok(v):
                out.append(n)
        return sorted(out)

    def int(self, name, opt=False):
        return self.local(name, is_int, lambda: self.p.fresh_int(name), opt)

    def count(self, name, value):
        """a counter local, when there is one, equals value"""
        v = self.int(name, opt=True)
        if v is not None:
            self.fact(zval(v) == zval(value))

    def num(self, name, opt=False):
        return self.local(name, is_num, lambda: self.p.fresh_real(name), opt)

    def ref(self, name, cls=None, opt=False):
        return self.local(name, lambda v: v is None or isinstance(v, Ref), lambda: self.p.fresh_ref(cls), opt)

    def flag(self, name, opt=False):
        def fresh():
            return self.p.choice()
        v = self.local(name, is_boolv, fresh, opt)
        if isinstance(v, z3.BoolRef):
            v = self.p.branch(v)
            self.fr.locals[name] = v
        return v

    def boolean(self, name, opt=False):
        return self.local(name, is_boolv, lambda: self.p.fresh_bool(name), opt)

    def value(self, name, ok, fresh):
        return self.local(name, ok, fresh)

    def listvar(self, name, kind='data'):
        """a local Python list: its content"""
        I, p = self.I, self.p

        def fresh():
            r = p.fresh_ref('list', nonnull=True)
            return r
        r = self.local(name, lambda v: isinstance(v, Ref) and p.refcls[p.rep(v)] == 'list', fresh)
        return self.list_cell(r, kind)

    def same_seq(self, key, s):
        """s does not change over the loop"""
        g = self.loop.ghost
        if self.entry:
            g[key] = s
        else:
            self.seqeq(s, g[key])
        return g[key]

    def constant_seq(self, key, s, kind, lazy=False):
        """s does not change over the loop; inside it its value on entry is not remembered
        (lazy: after it the equation is kept as it is, to be used when sequences are compared)"""
        g = self.loop.ghost
        if self.entry:
            g[key] = s
        elif self.producing:
            g[key + '#'] = w = self.p.fresh_seq(kind)
            self.p.seq_assume_eq(w, s)
            if key in g:
                self.loop.at_exit.append((w, g[key], lazy))
        else:
            self.seqeq(s, g[key + '#'])

    def entry_val(self, key, f):
        """value computed on loop entry"""
        g = self.loop.ghost
        if self.entry:
            g[key] = f()
        return g[key]

    def prefix_of(self, key, rest, kind='data'):
        """A with  ghost[key] == A ++ rest"""
        p = self.p
        whole = self.loop.ghost[key]
        if self.producing:
            a = p.fresh_seq(kind)
            p.seq_assume_eq(whole, a + rest)
            return p.norm(a)
        n, m = p.length(whole), p.length(rest)
        self.fact(p.as_z3int(n) >= p.as_z3int(m))
        a, b = p.split(whole, n - m)
        p.seq_prove_eq(b, rest, self.label + ': remaining part')
        return a

    def yielded(self, kind='data'):
        """the items a generator has yielded so far"""
        fr = self.fr
        if self.producing:
            fr.gen_seq = self.p.fresh_seq(kind)
        else:
            self.conform(fr.gen_seq, kind)
        return fr.gen_seq

    def decreases(self, m):
        self.measure_v = m
