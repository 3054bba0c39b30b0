import sys, time, traceback, faulthandler, os
import signal
if os.environ.get("FH"): signal.alarm(int(os.environ["FH"])); signal.signal(signal.SIGALRM, lambda *a: 1/0)
sys.path.insert(0,os.environ.get('VERIF','/verif'))
sys.setrecursionlimit(5000)
from pv.source import Program
from pv.contracts import Registry
from pv.engine import Engine, Opts
import importlib
mods = sys.argv[1].split(',')
pat = sys.argv[2:]
import os
prog = Program(os.environ.get('VREPO','/repo'))
R = Registry()
for m in mods:
    importlib.import_module('specs.'+m).build(R)
tot=time.time()
for (name, cls), spec in R.specs.items():
    q = '%s.%s' % (cls, name)
    if pat and not any(x == q or x == name or x == str(cls) for x in pat): continue
    R.renames.clear(); R.choices.clear()
    e = Engine(prog, R)
    e.mode = os.environ.get('VMODE','full')
    t=time.time()
    try:
        e.verify(spec, cls)
    except Exception as ex:
        print('CRASH', q); traceback.print_exc(limit=-16); continue
    print('%-4s %-40s %5.1fs paths=%d obl=%d reach=%d' % ('ok' if not e.failed else 'FAIL', q, time.time()-t, e.stats.paths, e.discharged, e.reach), flush=True)
    for o in e.failed: print('     ', o.label, o.line, o.note, (o.model or '')[:300], flush=True)
print('total %.1f' % (time.time()-tot))
