"""Framework shared by all checks: cases, monitors, verdicts, evidence.

A check consists of families. A family generates cases (JSON-able parameter dictionaries, derived
from VERIF_SEED only) and has a body that drives the real code with one case and monitors what
happens. Verdicts are three-valued: violated (exit 1), held on everything explored (exit 0), and
inconclusive (exit 2: nothing observed, a case ran into its watchdog, or the harness broke).
"""

from __future__ import annotations
import hashlib
import importlib
import json
import logging
import math
import multiprocessing as mp
import os
import pickle
import random
import re
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
# the override serves to try the checks on a scratch copy; registered commands never set it
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
KNOWN_FILE = VERIF / "known-findings.txt"


class Violation(Exception):
    """The monitored execution refutes the property."""


class Inconclusive(Exception):
    """The execution says nothing about the property."""


class CaseTimeout(BaseException):
    """The watchdog of a case fired (deliberately no Exception: bodies must not swallow it)."""


class Family:
    def __init__(self, name, gen, body, quick, thorough, weight, timeout, needs):
        self.name, self.gen, self.body = name, gen, body
        self.quick, self.thorough, self.weight = quick, thorough, weight
        self.timeout = timeout
        self.needs = needs  # counters that must be nonzero for the family to count as observed


class Check:
    """Registry of the families of one property."""

    def __init__(self, prop: str, rule: str, assumptions=(), pristine=False):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.warm: list = []  # executed before forking, must not touch the code under test
        self.pristine = pristine  # every case in a process in which no other case ran before
        self.families: list[Family] = []

    def family(self, name, gen, quick, thorough, weight=1.0, timeout=150, needs=()):
        def deco(body):
            self.families.append(
                Family(name, gen, body, quick, thorough, weight, timeout, tuple(needs))
            )
            return body

        return deco


class Ctx:
    """Handed to a body; collects what the monitors observed."""

    def __init__(self, prop, family, params, tier):
        self.prop, self.family, self.params, self.tier = prop, family, params, tier
        self.counters: dict[str, int] = {}
        self.findings: dict[str, str] = {}
        self.trivial = False
        self.sample: dict = {}
        self.rng = random.Random(params.get("seed", 0))

    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def fail(self, msg: str):
        raise Violation(msg)

    def check(self, cond, msg, n: int = 1) -> None:
        self.count("assertions", n)
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, a, b, what: str) -> None:
        self.count("assertions")
        if not a == b:
            raise Violation(f"{what}: got {_short(a)}, expected {_short(b)}")

    def close(self, a, b, what: str, atol: float = 1e-12, rtol: float = 1e-9) -> None:
        """Scalar or array comparison; NaN never passes."""
        import numpy as np

        self.count("assertions")
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if x.shape != y.shape:
            raise Violation(f"{what}: got shape {x.shape}, expected {y.shape}")
        err = np.abs(x - y)
        tol = atol + rtol * np.abs(y)
        if not bool(np.all(err <= tol)):
            k = int(np.argmax(np.where(np.isnan(err - tol), np.inf, err - tol)))
            raise Violation(
                f"{what}: got {_short(x.flat[k] if x.ndim else float(x))}, expected"
                f" {_short(y.flat[k] if y.ndim else float(y))} (error {err.flat[k]:.3g}, tolerance"
                f" {tol.flat[k]:.3g}, flat index {k})"
            )

    def raises(self, exc, fn, what: str):
        self.count("assertions")
        try:
            res = fn()
        except exc as e:
            return e
        except CaseTimeout:
            raise
        except BaseException as e:
            raise Violation(
                f"{what}: expected {_excname(exc)}, got {type(e).__name__}: {e}"
            ) from e
        raise Violation(f"{what}: expected {_excname(exc)}, got the result {_short(res)}")

    def finding(self, key: str, msg: str) -> None:
        """A violation with a stable mechanism key; silent if listed as known finding."""
        if key in known_findings(self.prop):
            self.findings[key] = known_findings(self.prop)[key]
            self.count("known_finding_hits")
        else:
            raise Violation(msg)


def _excname(exc):
    return "/".join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def _short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


_known_cache: dict[str, dict[str, str]] = {}


def known_findings(prop: str) -> dict[str, str]:
    if prop not in _known_cache:
        res = {}
        if KNOWN_FILE.exists():
            for line in KNOWN_FILE.read_text().splitlines():
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
                if m and m.group(1) == prop:
                    res[m.group(2)] = m.group(3).strip()
        _known_cache[prop] = res
    return _known_cache[prop]


def forked(fn, timeout=120):
    """Start fn() in a forked child that shares no later state; returns a function yielding its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            try:
                res = (True, fn())
            except BaseException as e:  # noqa: BLE001 - reported by the parent
                res = (False, f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)

    def result():
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise Inconclusive("a forked child gave no answer")
        ok, res = pickle.loads(data)
        if not ok:
            raise Violation(f"in a process of its own: {res}")
        return res

    return result


def case_seed(seed: int, prop: str, family: str, i: int) -> int:
    h = hashlib.sha256(f"{seed}/{prop}/{family}/{i}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def _alarm(_sig, _frm):
    raise CaseTimeout()


def run_case(check: Check, fam: Family, params: dict, tier: str) -> dict:
    """Execute one case and classify the outcome."""
    c = Ctx(check.prop, fam.name, params, tier)
    out = {"family": fam.name, "params": params, "verdict": "ok", "msg": ""}
    t0 = time.time()
    random.seed(params.get("seed", 0))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(fam.timeout)
    try:
        fam.body(c, params)
    except Violation as e:
        out.update(verdict="violation", msg=str(e))
    except Inconclusive as e:
        out.update(verdict="inconclusive", msg=str(e))
    except CaseTimeout:
        out.update(verdict="inconclusive", msg=f"watchdog of {fam.timeout} s fired")
    except MemoryError:
        out.update(verdict="inconclusive", msg="out of memory")
    except Exception as e:
        # The driven code (or what it returned) made a legitimate use fail.
        tb = traceback.format_exc()
        out.update(
            verdict="violation", msg=f"unexpected {type(e).__name__}: {e}", traceback=tb[-3000:]
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out["counters"], out["findings"] = c.counters, c.findings
    out["trivial"], out["sample"] = c.trivial, c.sample
    out["wall"] = time.time() - t0
    return out


_G: dict = {}


def _work(task):
    fi, i = task
    check, tier, seed = _G["check"], _G["tier"], _G["seed"]
    if time.time() > _G["deadline"]:
        return None
    fam = check.families[fi]
    s = case_seed(seed, check.prop, fam.name, i)
    params = fam.gen(random.Random(s), i)
    params.setdefault("seed", s)
    params = json.loads(json.dumps(params))
    return run_case(check, fam, params, tier)


def _load(prop: str) -> Check:
    sys.path.insert(0, REPO_SRC)
    import tvemoves_rufbad

    where = tvemoves_rufbad.__file__ or ""
    if not where.startswith(REPO_SRC):
        raise RuntimeError(f"tvemoves_rufbad was imported from {where}, not from {REPO_SRC}")
    return importlib.import_module(f"harness.checks.{prop.lower()}").CHECK


def _write_replay(prop, out, tier, seed) -> str:
    d = VERIF / "replays" / prop
    d.mkdir(parents=True, exist_ok=True)
    key = hashlib.sha256(json.dumps([out["family"], out["params"]]).encode()).hexdigest()[:12]
    path = d / f"{re.sub(r'[^A-Za-z0-9_.-]', '_', out['family'])}-{key}.json"
    path.write_text(
        json.dumps({**out, "property": prop, "tier": tier, "seed": seed}, indent=1, default=str)
    )
    return str(path.relative_to(VERIF))


def main(argv) -> int:
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = case_seed(0, os.environ["VERIF_SEED"], "", 0)
    t0 = time.time()
    check = _load(prop)

    if "--replay" in argv:
        rec = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        fam = next(f for f in check.families if f.name == rec["family"])
        out = run_case(check, fam, rec["params"], rec.get("tier", tier))
        print(json.dumps({k: out[k] for k in ("family", "verdict", "msg", "params")}, indent=1))
        print(out.get("traceback", ""))
        if out["verdict"] == "violation":
            print(f"VIOLATION property={prop} replay={argv[argv.index('--replay') + 1]}")
            return 1
        return 0 if out["verdict"] == "ok" else 2

    if check.pristine:
        try:
            importlib.import_module("tvemoves_rufbad.simulation")
        except Exception:
            pass  # the cases report it
        for f in check.warm:
            f()
    budget = float(os.environ.get("VERIF_BUDGET", "200" if tier == "quick" else "600"))
    _G.update(check=check, tier=tier, seed=seed, deadline=t0 + budget)
    tasks = []
    for fi, fam in enumerate(check.families):
        n = fam.quick if tier == "quick" else fam.thorough
        # interleave the families so that a run cut short has still seen all of them
        tasks += [((i + 0.5) / n, fi, i) for i in range(n)]
    tasks = [(fi, i) for _, fi, i in sorted(tasks)]

    jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    results, violations, inconclusive = [], [], []
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=1 if check.pristine else None) as pool:
        for out in pool.imap_unordered(_work, tasks, chunksize=1):
            if out is None:
                continue
            results.append(out)
            if out["verdict"] == "violation":
                violations.append(out)
                if len(violations) >= 3:
                    pool.terminate()
                    break
            elif out["verdict"] == "inconclusive":
                inconclusive.append(out)

    # ---- evidence -------------------------------------------------------------------------
    counters: dict[str, int] = {}
    per_family: dict[str, dict] = {}
    distinct, findings = set(), {}
    for out in results:
        pf = per_family.setdefault(out["family"], {"cases": 0, "wall_s": 0.0, "observed": {}})
        pf["cases"] += 1
        pf["wall_s"] = round(pf["wall_s"] + out["wall"], 3)
        for k, v in out["counters"].items():
            counters[k] = counters.get(k, 0) + v
            pf["observed"][k] = pf["observed"].get(k, 0) + v
        if out["verdict"] == "ok" and not out["trivial"]:
            q = {k: v for k, v in out["params"].items() if k != "seed" or "fixed" not in out["params"]}
            distinct.add(json.dumps([out["family"], q], sort_keys=True))
        findings.update(out["findings"])
    samples, seen = [], {}
    for out in results:
        if seen.get(out["family"], 0) < 2:
            seen[out["family"]] = seen.get(out["family"], 0) + 1
            samples.append(
                {"family": out["family"], "params": out["params"], "observed": out["counters"],
                 **out["sample"]}
            )
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(distinct),
            "rule": check.rule,
            "samples": samples,
            "planned_cases": len(tasks),
            "monitor_counters": counters,
            "families": per_family,
            "inconclusive_cases": len(inconclusive),
            "exhaustive": False,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if "VERIF_REPO_SRC" not in os.environ:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))

    # ---- verdict --------------------------------------------------------------------------
    for key, what in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if violations:
        for out in violations:
            path = _write_replay(prop, out, tier, seed)
            print(f"  [{out['family']}] {out['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    missing = []
    for fam in check.families:
        pf = per_family.get(fam.name)
        if pf is None or not pf["observed"].get("assertions"):
            missing.append(f"{fam.name}: nothing observed")
        else:
            missing += [
                f"{fam.name}: monitor '{k}' never reached" for k in fam.needs
                if not pf["observed"].get(k)
            ]
    if inconclusive or missing:
        for out in inconclusive[:5]:
            print(f"INCONCLUSIVE [{out['family']}] {out['msg']} params={_short(out['params'])}")
        for m in missing:
            print(f"INCONCLUSIVE {m}")
        return 2
    print(
        f"held property={prop} tier={tier} seed={seed} cases={len(results)}/{len(tasks)}"
        f" assertions={counters.get('assertions', 0)} wall={evidence['wall_s']}s"
    )
    return 0


def isclose(a, b, rel=1e-9, absol=0.0):
    return math.isclose(a, b, rel_tol=rel, abs_tol=absol)
