#!/usr/bin/env python3
"""tools/trybugs.py [ID...] : run each planted bug's check in a scratch copy of /repo (parallel); update tools/caught.json"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(H, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    s = tempfile.mkdtemp(prefix="tb-", dir="/tmp")
    try:
        r = s + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
        env = dict(os.environ, VERIF_REPO=r, VERIF_OUT=s + "/out", VERIF_EVD=s + "/ev", VERIF_SEED="1", VERIF_TIER="quick")
        q = subprocess.run(["bash", H + "/check.sh", p], env=env, capture_output=True, text=True, timeout=1500)
        o = q.stdout
        inp = re.search(r"failing input: (\S+)", o)
        ob = re.findall(r"failed obligation: (\S+ / .*?) \(", o)
        if q.returncode == 1 and "VIOLATION" in o:
            t = "; ".join((["obligation `%s`" % ob[0].replace("|", "/")] if ob else []) + (["failing input of `%s`" % inp.group(1)] if inp else ["no failing input found"]))
        else:
            t = "MISSED (rc=%d)" % q.returncode
        return i, t
    finally:
        shutil.rmtree(s)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(H + "/seeded"))
    f = H + "/tools/caught.json"
    with cf.ThreadPoolExecutor(4) as ex:
        for i, t in ex.map(one, ids):
            print(i, t[:200], flush=True)
            res = json.load(open(f)) if os.path.exists(f) else {}
            res[i] = t
            json.dump(res, open(f, "w"), indent=1, sort_keys=True)
