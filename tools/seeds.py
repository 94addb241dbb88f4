"""Writes /verif/seeded/<id>/ from the list below, after confirming each in a scratch copy (python3 tools/seeds.py [substring])."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDS = []


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS.append((sid, prop, needs, breaks, edits, demo.strip() + "\n"))


ST, CF, CO, CM = "src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/vgm/core.py", "src/vgm/command.py"
NO, EX, MA, TO = "src/vgm/ym2151/note.py", "src/extractors.py", "src/main.py", "src/tools.py"
SER, PAT, SONG, WR = "src/xrns/xrns_serializer.py", "src/xrns/parts/pattern.py", "src/xrns/parts/song.py", "src/xrns/writer.py"
DEMO_SH = """#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec "$py" "$here/demo.py"
"""
exec(open(os.path.join(HERE, "seedlist.py")).read())


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, **kw)


def main(sub):
    for sid, prop, needs, breaks, edits, demo in SEEDS:
        if sub not in sid:
            continue
        d = tempfile.mkdtemp(prefix="vseed_", dir="/tmp")
        try:
            r = d + "/repo"
            shutil.copytree("/repo", r, symlinks=True)
            sd = d + "/s"
            os.mkdir(sd)
            open(sd + "/demo.py", "w").write(demo)
            open(sd + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(sd + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(sd + "/meta.json", "w"), indent=1)
            a = sh(["sh", sd + "/demo.sh"], r)
            for f, old, new in edits:
                p = os.path.join(r, f)
                s = open(p).read()
                assert s.count(old) >= 1, (sid, f, old)
                open(p, "w").write(s.replace(old, new, 1))
            b = sh(["sh", sd + "/demo.sh"], r)
            diff = sh(["git", "diff"], r).stdout
            open(sd + "/patch.diff", "w").write(diff)
            c = sh(["git", "apply", "--check", sd + "/patch.diff"], "/repo")
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-header", "-rA", "tests"], r,
                   env=dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1"))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            passed = set()
            for l in t.stdout.splitlines():
                if l.startswith("PASSED "):
                    f, c1, t1 = l[7:].split(" - ")[0].strip().split("::")
                    passed.add("%s.%s::%s" % (f[:-3].replace("/", "."), c1, t1))
            ok = a.returncode == 0 and b.returncode != 0 and c.returncode == 0 and base <= passed
            print(("ok  " if ok else "BAD ") + sid, a.returncode, b.returncode, c.returncode, "stable lost:", sorted(base - passed),
                  "" if ok else a.stderr[-500:] + c.stderr, (b.stderr.strip().splitlines() or [""])[-1][:100], flush=True)
            if ok:
                out = os.path.join(VERIF, "seeded", sid)
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(sd, out)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main(sys.argv[1] if len(sys.argv) > 1 else "")
