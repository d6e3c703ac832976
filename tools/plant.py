"""Confirm planted bugs.  usage: plant.py SPEC.py [id ...]
SPEC.py defines BUGS = [dict(id=, prop=, edits=[(file, old, new), ...], needs=, breaks=, demo=python source)].
For every bug: copy /repo, edit, write seeded/<id>/, run the demo both ways, the repository's tests and the check."""
import json, os, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = 'ed7868a'
DEMO = '''#!/bin/bash
# cwd: the repository; exit 0 when it behaves, nonzero when it does not
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$S" PYTHONWARNINGS=ignore OMP_NUM_THREADS=1
cd "$S" || exit 3
/opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def plant(b, tests=True):
    out, d = [], '/tmp/pl_' + b['id']
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    try:
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], ['EDIT %s matches %d times' % (f, s.count(old))], False
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=d, text=True)
        for f in {e[0] for e in b['edits']}:
            orig = subprocess.run(['git', 'show', '%s:%s' % (ROOT, f)], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.splitlines()
            dd = subprocess.check_output(['git', 'diff', '--', f], cwd=d, text=True)
            rem = [l[1:] for l in dd.splitlines() if l.startswith('-') and not l.startswith('---')]
            bad = [l for l in rem if l.strip() and l not in orig]
            if bad: out.append('not original lines: %s' % bad)
        s = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(s, exist_ok=True)
        open(s + '/patch.diff', 'w').write(diff)
        open(s + '/demo.py', 'w').write(textwrap.dedent(b['demo']).lstrip())
        open(s + '/demo.sh', 'w').write(DEMO)
        os.chmod(s + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(s + '/meta.json', 'w'), indent=1)
        ok = True
        rc, o = sh('bash %s/demo.sh' % s, '/repo')
        out.append('demo clean rc=%d' % rc)
        if rc: out.append(o[-800:]); ok = False
        rc, o = sh('bash %s/demo.sh' % s, d)
        out.append('demo patched rc=%d %s' % (rc, o.strip().splitlines()[-1][:200] if o.strip() else ''))
        if rc == 0: ok = False
        if ok and tests:
            rc, o = sh('bash /tmp/testcopy.sh %s /tmp/tc_%s.json' % (d, b['id']), '/tmp')
            os.path.exists('/tmp/tc_%s.json' % b['id']) and os.remove('/tmp/tc_%s.json' % b['id'])
            out.append(o.strip()[-400:])
            ok = 'TESTS OK' in o
        rc, o = sh('./check.sh %s quick' % b['prop'], HERE, {'E2CNN_REPO': d, 'VERIF_SEED': '1'})
        v = [l for l in o.splitlines() if l.startswith('VIOLATION') or 'FAIL' in l][:3]
        out.append('CHECK rc=%d %s %s' % (rc, 'CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'ERROR ' + o[-500:], v[:1]))
        return b['id'], out, ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = [a for a in sys.argv[2:] if not a.startswith('-')]
    for b in ns['BUGS']:
        if sel and b['id'] not in sel: continue
        i, out, ok = plant(b, '--notest' not in sys.argv)
        print('=====', i, b['prop'], 'VALID' if ok else 'INVALID')
        print('\n'.join('   ' + x for x in out), flush=True)
