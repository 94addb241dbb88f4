"""Development aid: apply textual changes to a scratch copy of /repo and run checks on it.

python3 tools/bank.py [-k substring] [-c C01,C02] mutants|benign
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load(kind):
    import importlib.util
    spec = importlib.util.spec_from_file_location(kind, os.path.join(HERE, kind + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CASES


def run(case, checks, outdir):
    name, prop, edits = case
    d = tempfile.mkdtemp(prefix="vb_" + name, dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "src", f)
            s = open(p).read() if os.path.exists(p) else ""
            if old == "" and not s:
                open(p, "w").write(new)
                continue
            if s.count(old) < 1:
                return name, "EDIT DOES NOT APPLY %s %r" % (f, old[:50])
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run([sys.executable, "-m", "compileall", "-q", d + "/src"], capture_output=True, text=True)
        if r.returncode:
            return name, "DOES NOT COMPILE " + r.stdout[-300:]
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev")
        out = []
        for c in (checks or (list(prop) if isinstance(prop, tuple) else [prop] if prop else ALL)):
            r = subprocess.run([sys.executable, VERIF + "/run.py", c], capture_output=True, text=True, env=env)
            last = [l for l in r.stdout.splitlines() if l.strip()]
            out.append("%s=%d %s" % (c, r.returncode, (last[0] if r.returncode == 1 else last[-1] if last else r.stderr[-300:])[:230] if r.returncode else ""))
        return name, "\n      ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    from checks.registry import CHECKS
    ALL = sorted(CHECKS)
    a = sys.argv[1:]
    k = a[a.index("-k") + 1] if "-k" in a else ""
    c = a[a.index("-c") + 1].split(",") if "-c" in a else None
    kind = a[-1]
    cases = [x for x in load(kind) if k in x[0] or k == x[1]]
    if "-c" in a and kind == "mutants":
        cases = [x for x in cases if x[1] in c]
    with ThreadPoolExecutor(7) as ex:
        for name, res in ex.map(lambda x: run(x, c, None), cases):
            want = 1 if kind == "mutants" else 0
            codes = [l.strip().split("=")[1].split(" ")[0] for l in res.splitlines() if "=" in l]
            ok = (codes and all(x == "0" for x in codes)) if kind == "benign" else "1" in codes
            print(("ok   " if ok else "MISS ") + name, "" if ok and kind == "benign" else "\n      " + res, flush=True)
