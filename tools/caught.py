"""Development aid: run each planted bug's check (or the checks given with -c) on a patched scratch copy of /repo.

python3 tools/caught.py [-c C01,C02|all] [substring]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(name, checks):
    src = os.path.join(VERIF, "seeded", name)
    prop = json.load(open(src + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="vc_", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.run(["patch", "-p1", "-s", "-d", d, "-i", src + "/patch.diff"], check=True)
        out = []
        for c in checks or [prop]:
            r = subprocess.run([sys.executable, VERIF + "/run.py", c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"))
            last = [l for l in r.stdout.splitlines() if l.strip()]
            out.append("%s=%d %s" % (c, r.returncode, (last[0] if r.returncode else "")[:200]))
        return ("caught " if any("%s=1" % prop in o for o in out) else "MISSED ") + name + "\n      " + "\n      ".join(
            o for o in out if not checks or "=0" not in o)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    from checks.registry import CHECKS
    a = sys.argv[1:]
    c = None
    if "-c" in a:
        i = a.index("-c")
        c = sorted(CHECKS) if a[i + 1] == "all" else a[i + 1].split(",")
        del a[i:i + 2]
    names = [n for n in sorted(os.listdir(VERIF + "/seeded")) if not a or a[0] in n]
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(lambda n: run(n, c), names):
            print(r, flush=True)
