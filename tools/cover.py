"""Which lines of the library do the checks execute?   cover.py run [Pnn ...]   then   cover.py report
(sitecustomize-style: sys.monitoring LINE events, switched off after the first hit)"""
import glob, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/vpcov"
SITE = '''
import sys, os, atexit
root = os.environ["E2CNN_REPO"] + "/e2cnn/"
hit = set()
m = sys.monitoring
m.use_tool_id(3, "vpcov")
def line(code, n):
    f = code.co_filename
    if f.startswith(root):
        hit.add((f[len(root):], n))
    return m.DISABLE
m.register_callback(3, m.events.LINE, line)
m.set_events(3, m.events.LINE)
def dump():
    if hit:
        open(os.path.join(os.environ["VP_COV"], "%d-%s" % (os.getpid(), os.urandom(4).hex())), "w").write("\\n".join("%s:%d" % h for h in hit))
_e = os._exit
def ex(c):
    dump(); _e(c)
os._exit = ex
atexit.register(dump)
'''
if sys.argv[1] == "run":
    os.makedirs(D + "/site", exist_ok=True)
    os.makedirs(D + "/out", exist_ok=True)
    open(D + "/site/sitecustomize.py", "w").write(SITE)
    ps = sys.argv[2:] or ["P%02d" % i for i in range(1, 22)]
    sh = open(HERE + "/check.sh").read().replace('export PYTHONPATH="$E2CNN_REPO:$PWD"', 'export PYTHONPATH="%s/site:$E2CNN_REPO:$PWD"' % D).replace('$(dirname "$0")', HERE)
    open(D + "/check.sh", "w").write(sh)
    for p in ps:
        r = subprocess.run(["bash", D + "/check.sh", p, "quick"], env=dict(os.environ, VP_COV=D + "/out"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print([l for l in r.stdout.splitlines() if "held" in l or "VIOL" in l or "ERROR" in l][:1], flush=True)
else:
    hit = {}
    for f in glob.glob(D + "/out/*"):
        for l in open(f):
            a, b = l.rsplit(":", 1)
            hit.setdefault(a, set()).add(int(b))
    root = os.environ.get("E2CNN_REPO", "/repo") + "/e2cnn/"
    tot = miss = 0
    for f in sorted(glob.glob(root + "**/*.py", recursive=True)):
        src = open(f).read()
        lines = set()
        def walk(c):
            for _, _, l in c.co_lines():
                if l: lines.add(l)
            for k in c.co_consts:
                if hasattr(k, "co_lines"): walk(k)
        walk(compile(src, f, "exec"))
        h = hit.get(f[len(root):], set())
        un = sorted(lines - h)
        tot += len(lines); miss += len(un)
        sl = src.splitlines()
        un = [u for u in un if not sl[u - 1].strip().startswith(('"""', 'r"""', "assert", "raise", '"', "f\"", "f'", "def ", "class "))]
        if un:
            print("==", f[len(root):], len(un), "of", len(lines))
            for u in un: print("   %d: %s" % (u, sl[u - 1].strip()[:150]))
    print(tot, miss)
