"""Create / confirm a planted bug from a description file (python, see seeds below).

usage: mkseed.py DESC.py   (DESC defines ID, PROPERTY, FILE, OLD, NEW, NEEDS, BREAKS, DEMO; FILE/OLD/NEW may be lists)
Works in a scratch copy /tmp/wt of /repo.  Confirms: patch applies, demo passes unpatched, fails patched.
"""
import json
import os
import subprocess
import sys

WT = "/tmp/wt"
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def sync():
    if not os.path.isdir(WT):
        sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} checkout -q -- . && git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD")
    a = sh(f"git -C {WT} rev-parse HEAD^{{tree}}").stdout
    b = sh("git -C /repo rev-parse HEAD^{tree}").stdout
    if a != b:
        raise SystemExit("scratch copy differs from /repo HEAD")


def run_demo(d):
    env = dict(os.environ, PYTHONPATH=WT, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", MKL_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2")
    return sh(f"bash {d}/demo.sh", cwd=WT, env=env)


def main(desc):
    ns = {}
    exec(open(desc).read(), ns)
    sync()
    d = os.path.join(SEED, ns["ID"])
    os.makedirs(d, exist_ok=True)
    files = ns["FILE"] if isinstance(ns["FILE"], list) else [ns["FILE"]]
    olds = ns["OLD"] if isinstance(ns["OLD"], list) else [ns["OLD"]]
    news = ns["NEW"] if isinstance(ns["NEW"], list) else [ns["NEW"]]
    if len(files) == 1:
        files = files * len(olds)
    with open(f"{d}/demo.py", "w") as f:
        f.write(ns["DEMO"].lstrip("\n"))
    with open(f"{d}/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    r0 = run_demo(d)
    for fn, o, n in zip(files, olds, news):
        p = os.path.join(WT, fn)
        s = open(p).read()
        k = s.count(o)
        nth = ns.get("NTH", None)
        if k != 1 and nth is None:
            sh(f"git -C {WT} checkout -q -- .")
            raise SystemExit(f"{fn}: {k} matches")
        if nth is None:
            s = s.replace(o, n)
        else:
            parts = s.split(o)
            s = o.join(parts[: nth + 1]) + n + o.join(parts[nth + 1 :])
        open(p, "w").write(s)
    diff = sh(f"git -C {WT} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    r1 = run_demo(d)
    sh(f"git -C {WT} checkout -q -- .")
    json.dump(
        {"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
        open(f"{d}/meta.json", "w"),
        indent=1,
    )
    ok = r0.returncode == 0 and r1.returncode != 0
    print(ns["ID"], "OK" if ok else "BAD", r0.returncode, r1.returncode)
    if not ok:
        print(r0.stdout[-1500:], r0.stderr[-1500:])
        print("patched:", r1.stdout[-800:], r1.stderr[-800:])
    else:
        print((r1.stderr or r1.stdout).strip().splitlines()[-1][:300])


if __name__ == "__main__":
    for x in sys.argv[1:]:
        main(x)
