"""python3 tools/mkseed.py [ids...]: build /verif/seeded/<id> from tools/seeds.py and confirm each in a scratch copy."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = "/verif/seeded"
W = "/tmp/seedwt"
ENV = ". /opt/vp/env.sh >/dev/null 2>&1; "


def sh(cmd, cwd=None, timeout=400):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)


def main():
    want = sys.argv[1:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        if os.path.exists(W):
            shutil.rmtree(W)
        sh("cp -a /repo %s && cd %s && git checkout -q -- ." % (W, W))
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), f, repr(old[:60]))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            d = sh("git diff", W).stdout
            bad = []
            cur = None
            for l in d.splitlines():
                if l.startswith("--- a/"):
                    cur = l[6:]
                    orig = sh("git show fbb008b:" + cur, W).stdout.splitlines()
                elif l.startswith("-") and not l.startswith("---"):
                    if l[1:] not in orig:
                        bad.append(l)
            o = os.path.join(V, s["id"])
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(d)
            open(o + "/demo.py", "w").write("import warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\n" + s["demo"].strip() + "\n")
            open(o + "/demo.sh", "w").write('#!/bin/bash\nset -u\nD="$(cd "$(dirname "$0")" && pwd)"\n. /opt/vp/env.sh >/dev/null 2>&1\nexec env PYTHONPATH="$PWD" /opt/venv/bin/python "$D/demo.py"\n')
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
            t = sh("unset PYTHONPATH; export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0; /opt/venv/bin/python -m pytest regain -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seed.xml >/dev/null 2>&1; python3 /opt/vp/results.py /tmp/seed.json junit:/tmp/seed.xml", W)
            r = json.load(open("/tmp/seed.json"))
            miss = [x for x in base if x not in r["passed"]]
            a = sh("PYTHONPATH=%s /opt/venv/bin/python %s/demo.py" % (W, o), W)
            b = sh("bash %s/demo.sh" % o, "/repo")
            ok = not miss and a.returncode != 0 and b.returncode == 0 and not bad
            print(s["id"], s["prop"], "OK" if ok else "NOT OK", "tests missing:", miss, "demo patched rc", a.returncode, "clean rc", b.returncode, "nonbase lines:", bad, (a.stdout + a.stderr)[-160:].strip().replace("\n", " | ") if not ok or "-v" in sys.argv else "", b.stderr[-300:] if b.returncode else "")
    if os.path.exists(W):
        shutil.rmtree(W)


main()
