"""Public methods without a contract, class by class."""
import sys
sys.path.insert(0, '/verif'); sys.setrecursionlimit(5000)
import importlib, plan
from pv.source import Program
from pv.contracts import Registry
prog = Program(sys.argv[1] if len(sys.argv) > 1 else "/repo")
R = Registry()
for m in plan.MODULES:
    importlib.import_module('specs.' + m).build(R)
for cls in sorted(prog.classes):
    names = set()
    for k in [x for x in prog.mro(cls) if x in prog.classes]:
        names |= {n for n in prog.classes[k].methods}
    have = {n.split('@')[0] for n, c in R.specs if c == cls}
    rest = sorted(n for n in names if n not in have and not (n.startswith('_') and not n.startswith('__')) and not (n.startswith('__') and not n.endswith('__')))
    print(cls, len(have), 'missing:', ' '.join(rest))
