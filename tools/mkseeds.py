"""Build and try the planted bugs of /verif/seeded.

usage: mkseeds.py build [ID...]   write patch.diff, demo, meta.json; confirm tests and demo
       mkseeds.py check [ID...]   run the check of the bug's property on a patched scratch copy
       mkseeds.py table           print the table for DESIGN.md
Everything happens in scratch copies below /tmp; /repo is only read.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"
STABLE = [s.split("::") for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
RESULTS = HERE / "seeds" / "results.json"

DEMO_SH = """#!/bin/bash
# run in the repository; fails iff the guarantee is broken
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR="$scratch" DEMO_SCRATCH="$scratch"
timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
"""
DEMO_HEAD = """import os
import sys

sys.path[:0] = [os.path.join(os.getcwd(), "src"), os.path.dirname(os.path.abspath(__file__))]

"""


def defs():
    res = []
    for f in sorted((HERE / "seeds").glob("defs*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        res += m.SEEDS
    ids = [s["id"] for s in res]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return res


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", r], check=True)
    return d, r


def tests(r):
    ids = [f"{m.replace('.', '/')}.py::{t}" for m, t in STABLE]
    return sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "randomly",
               "--randomly-seed=0", "--randomly-dont-reorganize", *ids], r,
              {"PYTHONPATH": r + "/src", "MPLBACKEND": "Agg"})


def build(s):
    d, r = copy()
    try:
        for f, old, new in s["edits"]:
            p = Path(r) / "src/tvemoves_rufbad" / f
            t = p.read_text()
            if t.count(old) != 1:
                return s["id"], f"EDIT: {t.count(old)} matches in {f} for {old[:60]!r}"
            p.write_text(t.replace(old, new))
        _, diff = sh(["git", "diff"], r)
        out = SEEDED / s["id"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO_SH)
        os.chmod(out / "demo.sh", 0o755)
        body = textwrap.dedent(s["demo"]).lstrip("\n")
        (out / "demo.py").write_text(DEMO_HEAD + body)
        if "standin" in body:
            shutil.copy(HERE / "seeds" / "standin.py", out / "standin.py")
        (out / "meta.json").write_text(json.dumps(
            {"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        rc, o = tests(r)
        if rc:
            return s["id"], "TESTS " + "; ".join(l for l in o.splitlines() if l.startswith(("FAILED", "ERROR")))
        rc, o = sh(["bash", str(out / "demo.sh")], r)
        if rc == 0:
            return s["id"], "DEMO passes with the patch " + o[-500:]
        bad = o[-300:]
        sh(["git", "checkout", "--", "."], r)
        rc, o = sh(["bash", str(out / "demo.sh")], r)
        if rc:
            return s["id"], "DEMO fails without the patch\n" + o[-1500:]
        return s["id"], "ok | " + bad.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d)


def check(s, props=None, seed="1", jobs="4"):
    d, r = copy()
    try:
        rc, o = sh(["git", "apply", str(SEEDED / s["id"] / "patch.diff")], r)
        if rc:
            return s["id"], {"apply": o}
        res = {}
        for p in props or [s["prop"]]:
            rc, o = sh(["python3", str(VERIF / "run_check.py"), p], str(VERIF),
                       {"VERIF_REPO_SRC": r + "/src", "VERIF_SEED": seed, "VERIF_JOBS": jobs}, 900)
            lines = [l for l in o.splitlines() if l.strip()]
            res[p] = [rc, next((l.strip() for l in lines if l.strip().startswith("[")), lines[-1] if lines else "")[:300]]
        return s["id"], res
    finally:
        shutil.rmtree(d)


def main():
    cmd, want = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    ds = [s for s in defs() if not want or s["id"] in want or s["prop"] in want]
    if cmd == "build":
        with cf.ThreadPoolExecutor(7) as ex:
            for i, m in ex.map(build, ds):
                print(f"{i:34s} {m}", flush=True)
    elif cmd == "check":
        allp = [f"C{k:02d}" for k in range(1, 31)] if "--all" in sys.argv else None
        old = json.loads(RESULTS.read_text()) if RESULTS.exists() else {}
        with cf.ThreadPoolExecutor(3) as ex:
            for i, m in ex.map(lambda s: check(s, allp), ds):
                if allp:
                    hit = [p for p, v in m.items() if v[0] == 1]
                    print(f"{i:34s} {hit} odd={[ (p, v) for p, v in m.items() if v[0] not in (0, 1)]}", flush=True)
                    old[i] = hit
                else:
                    for p, (rc, l) in m.items():
                        had = set(old.get(i, [])) - {p}
                        old[i] = sorted(had | ({p} if rc == 1 else set()))
                        print(f"{i:34s} {p} {'CAUGHT' if rc == 1 else 'missed' if rc == 0 else 'NO ANSWER'} {l[:170]}", flush=True)
        if True:
            RESULTS.write_text(json.dumps(old, indent=0, sort_keys=True) + "\n")
    elif cmd == "table":
        old = json.loads(RESULTS.read_text()) if RESULTS.exists() else {}
        for s in defs():
            print(f"| {s['id']} | {s['prop']} | {s['needs']} | {' '.join(old.get(s['id'], ['?']))} |")


main()
