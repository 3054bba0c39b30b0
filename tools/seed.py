"""Make and confirm one planted bug: python3 tools/seed.py SPECFILE
SPECFILE is Python defining id, prop, needs, breaks, edits=[(file, old, new)], demo (Python source, run in the repository)."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '55bc0df'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main(path, check=True):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(VERIF, 'seeded', ns['id'])
    tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    w = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', w, symlinks=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(ns['demo'].lstrip())
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh('timeout 100 sh %s/demo.sh' % d, w)
        assert r.returncode == 0, 'demo fails on the unchanged tree:\n' + r.stdout
        for f, a, b in ns['edits']:
            s = open(os.path.join(w, f)).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(os.path.join(w, f), 'w').write(s.replace(a, b))
        diff = sh('git diff', w).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r = sh('timeout 100 sh %s/demo.sh' % d, w)
        assert r.returncode != 0, 'demo passes with the patch'
        print('demo with patch:', r.stdout.strip().splitlines()[-1:][0][:150] if r.stdout.strip() else r.returncode)
        # tests
        t = sh('sh -c "timeout 200 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3"', w)
        print('tests:', t.stdout.strip().splitlines()[-1:])
        assert ' failed' not in t.stdout and 'error' not in t.stdout.lower(), t.stdout
        # changes lines of the original repository
        orig = set()
        for f, a, b in ns['edits']:
            orig |= set(sh('git show %s:%s' % (BASE, f), w).stdout.splitlines())
        rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if not rem or not all(l in orig for l in rem):
            print('WARNING: some changed lines are not of the original repository:', [l for l in rem if l not in orig])
        if check:
            r = sh('VREPO=%s python3-vt %s/check.py %s' % (w, VERIF, ns['prop']), VERIF)
            print('check exit', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l])
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    for p in sys.argv[1:]:
        print('==', p)
        main(p)
