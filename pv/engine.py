"""Explores all paths of a method against its contract; collects obligations."""
import time, z3, subprocess, os, tempfile
from .state import *
from .heap import normalize_heap
from .source import Program


def loop_unit(*a):
    from .loops import loop_unit as f
    return f(*a)


class Opts:
    timeout_ms = 10000
    max_paths = 6000
    time_limit = 240
    cvc5 = '/usr/bin/cvc5'


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0


class Obl:
    __slots__ = ('label', 'ok', 'line', 'model', 'note')

    def __init__(self, label, ok, line, model=None, note=''):
        self.label, self.ok, self.line, self.model, self.note = label, ok, line, model, note


class TooMuch(Exception):
    pass


class TimeUp(BaseException):
    pass


class Engine:
    def __init__(self, prog, reg, opts=None):
        self.prog, self.reg, self.opts = prog, reg, opts or Opts()
        self.stats = Stats()
        self.used, self.used_loops, self.used_contracts = set(), set(), set()
        self.discharged, self.failed = 0, []
        self.reach = 0
        self.reach_rejected = 0
        self.second = 0
        self.mode = 'full'
        self.skipped = 0

    def clock(self):
        return time.time()

    def obligation(self, path, ok, label, model, unknown=False, info=''):
        if ok:
            self.discharged += 1
            return
        ms = ''
        if model is not None:
            try:
                ms = ', '.join('%s=%s' % (d.name(), model[d]) for d in sorted(model.decls(), key=lambda d: d.name())
                               if d.arity() == 0)[:2000]
            except Exception as e:
                ms = '(model not printable)'
        self.failed.append(Obl(label, False, path.line, ms, ('solver: unknown ' if unknown else '') + info))

    def from_scratch(self, path, f):
        """a query about strings the incremental solver leaves open, put to a new solver"""
        s = z3.Solver()
        s.set('timeout', self.opts.timeout_ms)
        s.add(path.solver.assertions())
        if f is not None:
            s.add(f)
        return s.check()

    def outcome(self, p, key, n, ended):
        """a call has got (or, on this path, has not got) an outcome from the contract of its callee: somewhere there must be
        one, or what is assumed of the callee cannot hold where it is called"""
        if self.outcomes.get(key):
            return
        if ended and (p.replaying or p.solver.check() != z3.unsat):
            self.outcomes[key] = True
        elif key not in self.outcomes:
            s = z3.Solver()
            s.set('timeout', self.opts.timeout_ms)
            s.add(p.solver.assertions()[:n + 1])
            self.outcomes[key] = s.check() == z3.unsat      # the call is not reached at all

    def second_opinion(self, path, f):
        """cvc5 on the same query when z3 does not decide"""
        self.second += 1
        s = z3.Solver()
        s.add(path.solver.assertions())
        s.add(f)
        text = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % self.opts.timeout_ms, '--lang=smt2', '-'], input=text,
                               capture_output=True, text=True, timeout=self.opts.timeout_ms / 1000 + 5)
            out = r.stdout.strip().splitlines()
            if out and out[-1] == 'unsat':
                return z3.unsat
            if out and out[-1] == 'sat':
                return z3.sat
        except Exception:
            pass
        return z3.unknown

    def reached(self, path, spec, cls, expected):
        if self.reach >= 3 or path._sat() == z3.sat:
            self.reach += 1
            if expected is not None:
                self.reach_rejected += 1

    def explore(self, run):
        work = [[]]
        self.outcomes = {}
        t0 = time.time()
        paths0 = self.stats.paths
        while work:
            prefix = work.pop()
            p = Path(prefix, self)
            p.heap_hooks.append(normalize_heap)
            self.stats.paths += 1
            if self.stats.paths - paths0 > self.opts.max_paths or time.time() - t0 > self.opts.time_limit:
                self.failed.append(Obl('exploration limit reached', False, p.line))
                return
            try:
                run(p)
            except PathEnd:
                pass
            except Unsupported as e:
                if p.replaying or p._sat() != z3.unsat:
                    self.failed.append(Obl('outside the verified subset: %s' % e, False, p.line))
                    return
            except RecursionError:
                self.failed.append(Obl('verifier recursion limit', False, p.line))
                return
            except (KeyboardInterrupt, TimeUp):
                raise
            except Exception as e:
                if p.replaying or p._sat() != z3.unsat:
                    self.failed.append(Obl('not decided (verifier error %s: %s)' % (type(e).__name__, str(e)[:200]),
                                           False, p.line))
                    return
            for i in range(len(prefix), len(p.decisions)):
                t, other = p.decisions[i]
                if other:
                    work.append([d[0] for d in p.decisions[:i]] + [not t])
            if len(self.failed) >= 3:
                return
        for key, ok in self.outcomes.items():
            if not ok:
                self.failed.append(Obl('%s.%s is called where its contract leaves no outcome' % (key[4], key[3]) if key[4] else key[3],
                                       False, key[2]))
                return

    def verify(self, spec, cls):
        """all paths of the method `spec.name` of class `cls`"""
        fi = self.prog.modfunc(*spec.opts['func']) if cls is None else self.find(cls, spec.name.split('@')[0])
        if fi is None and spec.name.startswith('_') and not spec.name.split('@')[0].endswith('__'):
            return self         # an auxiliary contract of a private function that is not there
        if fi is None:
            self.failed.append(Obl('%s.%s does not exist' % (cls, spec.name), False, None))
            return self
        for attempt in range(24):
            self.failed, self.discharged, self.reach = [], 0, 0
            self.loop_units, self.unit_reach = {}, 0
            self.explore(lambda p: spec.verify_path(p, self.prog, cls, fi))
            done = set()
            while not self.failed and set(self.loop_units) - done:
                k = sorted(set(self.loop_units) - done, key=repr)[0]
                done.add(k)
                n = self.unit_reach
                self.explore(lambda p: loop_unit(p, self.prog, self.reg, (cls, fi), self.loop_units[k], k[2]))
            if not self.failed or not self.reg.choices:
                break
            # try another assignment of renamed locals to roles
            for k in self.reg.choices:
                self.reg.choices[k][0] += 1
                if self.reg.choices[k][0] % max(1, len(self.reg.choices[k][1])) != 0:
                    break
            else:
                break
        if not self.failed and self.reach == 0 and self.skipped:
            return self
        if not self.failed and self.reach == 0:
            self.failed.append(Obl('vacuous: no input satisfies the precondition', False, None))
        if not self.failed and self.discharged == 0:
            self.failed.append(Obl('vacuous: no obligation generated', False, None))
        return self

    def find(self, cls, name):
        if name.startswith('__') and not name.endswith('__'):
            for k in self.prog.mro(cls):
                if k in self.prog.classes and name in self.prog.classes[k].methods:
                    return self.prog.func(k, name)
            return None
        return self.prog.lookup(cls, name)
