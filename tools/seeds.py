"""Planted bugs: writes /verif/seeded/<id>/ and validates every one of them.

usage: seeds.py [ID...]   (re)write and validate
       seeds.py --run [ID...]   also run the check of the property on each
No check reads this file or /verif/seeded.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'partitionfunctions.py'; S = 'superpositions.py'; U = 'utils.py'
C = 'cli.py'; I = 'io.py'; R = '_version.py'
SEEDS = []
HEAD = '''import contextlib, io, os, subprocess, sys, tempfile
import numpy as np
import warnings
warnings.simplefilter('ignore')
from occuprob.partitionfunctions import *
from occuprob.superpositions import SuperpositionApproximation
from occuprob import utils
E = np.array([0.3, 0.0, 0.05, 0.2])
G = np.array([1., 2., 3., 1.])
F = np.array([[3., 7., 11.], [4., 6., 12.], [5., 5., 9.], [2., 8., 10.]])
SIG = np.array([1., 2., 3., 6.])
MOM = np.array([[3., 4., 5.], [1., 8., 9.], [2., 2., 4.], [6., 7., 8.]])
T = np.array([10., 100., 300.])


def same(a, b, tol=1e-9):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=1e-14))


def sup(*pfs):
    s = SuperpositionApproximation()
    s.add_partition_functions(list(pfs))
    return s


def cli(args, cwd):
    """ Runs the command line in the directory cwd. """
    from occuprob import cli as module
    old, olddir = sys.argv, os.getcwd()
    sys.argv = ['occuprob'] + args
    os.chdir(cwd)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            module.main()
    finally:
        sys.argv = old
        os.chdir(olddir)
    return out.getvalue()


XYZ = """3
Energy=0.1 Multiplicity=3 Frequencies="3.0 4.0 5.0"
O 0.0 0.0 0.0
H 0.76 0.59 0.0
H -0.76 0.59 0.0
3
Energy=0.0 Multiplicity=1 Frequencies="2.0 6.0 7.0"
O 0.0 0.0 0.0
H 0.96 0.0 0.0
H -0.5 0.8 0.0
"""


def xyz(directory, name='mol.xyz', text=XYZ):
    path = os.path.join(directory, name)
    with open(path, 'w') as handle:
        handle.write(text)
    return path


'''
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this scenario; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
work=$(mktemp -d)
export TMPDIR="$work" MPLCONFIGDIR="$work"
"$py" "$here/demo.py"
rc=$?
rm -rf "$work"
exit $rc
'''


def seed(ident, edits, needs, breaks, demo):
    SEEDS.append((ident, edits, needs, breaks, demo))


exec(open(os.path.join(VERIF, 'tools', 'seedlist.py')).read())


def make(s):
    ident, edits, needs, breaks, demo = s
    d = os.path.join(VERIF, 'seeded', ident)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = os.path.join(w, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, old, new in edits:
            p = os.path.join(repo, 'occuprob', f)
            t = open(p).read()
            if t.count(old) < 1:
                return ident, 'EDIT FAILS ' + old[:50]
            open(p, 'w').write(t.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + demo.lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': ident.split('-')[0], 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        msg = []
        env = {**os.environ, 'PYTHONPATH': repo, 'PYTHONDONTWRITEBYTECODE': '1'}
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                            'occuprob/tests'], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode:
            msg.append('TESTS FAIL ' + r.stdout[-200:])
        b = subprocess.run([os.path.join(d, 'demo.sh')], cwd=repo, capture_output=True, text=True)
        if b.returncode == 0:
            msg.append('DEMO PASSES with the change')
        a = subprocess.run([os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        if a.returncode != 0:
            msg.append('DEMO FAILS on the unchanged tree ' + a.stderr[-300:])
        why = (b.stderr.strip().splitlines() or [''])[-1]
        if '--run' in sys.argv:
            pid = ident.split('-')[0]
            e = {**os.environ, 'OCCUSTAT_REPO': repo, 'OCCUSTAT_OUT': os.path.join(w, 'out'), 'OCCUSTAT_JOBS': '2'}
            r = subprocess.run(['python3', '-m', 'occustat', pid], cwd=VERIF, env=e, capture_output=True, text=True)
            ls = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
            msg.append(('caught ' if r.returncode == 1 else 'NOT CAUGHT rc=%d ' % r.returncode) + (ls[-1] if ls else '')[:120]
                       + ('' if r.returncode == 1 else ' ' + ls[0][:300]))
        return ident, '; '.join(msg) + '   [demo: %s]' % why[:100]
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    names = [a for a in sys.argv[1:] if not a.startswith('--')]
    todo = [s for s in SEEDS if not names or s[0] in names]
    with cf.ThreadPoolExecutor(4) as ex:
        for ident, m in ex.map(make, todo):
            print(ident, '::', m, flush=True)
