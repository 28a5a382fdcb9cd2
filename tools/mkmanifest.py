"""Regenerates MANIFEST.json. usage: python3 tools/mkmanifest.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = {
    "C01": "runtime monitoring: every constructed grid checked against an independent triangulation oracle",
    "C02": "runtime monitoring: constructed boundaries checked against an independent side/edge classification",
    "C03": "runtime monitoring: refined grids checked against an exact lattice refinement oracle",
    "C04": "runtime monitoring: coordinate maps of refinements monitored against independently recomputed physical points",
    "C05": "runtime monitoring: point location under random and hostile points, containment oracle",
    "C06": "runtime monitoring: grid comparison and lookups under renumbering and perturbation, geometric oracle",
    "C07": "runtime monitoring: tensor operations mirrored against exact linear algebra on numeric and symbolic entries",
    "C08": "runtime monitoring with fault inputs: misshaped data and indices against an acceptance table",
    "C09": "runtime monitoring: quadrature rules executed on random polynomials against exact (rational) integrals",
    "C10": "runtime monitoring: integrators executed with recording integrands against exact integrals",
    "C11": "runtime monitoring: interpolations on random meshes checked against affine references",
    "C12": "runtime monitoring: Bell elements checked against an independently derived high-precision element",
    "C13": "runtime monitoring: jumps across edges measured on random meshes and data",
    "C14": "runtime monitoring: evaluation through refinements compared with coarse evaluation",
    "C15": "runtime monitoring: Cartesian evaluation compared with the underlying interpolation",
    "C16": "runtime monitoring: potentials and derivatives against references, rotations and finite differences",
    "C17": "runtime monitoring: thermodynamic relations checked by differentiation/integration of the executed functions",
    "C18": "runtime monitoring: invariance relations on random strains, rotations and Pyomo expressions",
    "C19": "runtime monitoring: solver stand-in records each objective handed over; offline oracle re-integrates the energy",
    "C20": "runtime monitoring: solver stand-in records each objective handed over; offline oracle re-integrates the functional",
    "C21": "runtime monitoring: solver stand-in records bounds, starts, fixed flags and constraints; rank oracle for the feasible space",
    "C22": "runtime monitoring: random operation sequences on step objects against a reference state machine",
    "C23": "runtime monitoring: event log of a recording solver checked offline against the staggered scheme",
    "C24": "runtime monitoring: event log of a recording solver, load fingerprints decoded per vertex and time",
    "C25": "runtime monitoring: parameter validation against a decision table, parameters traced to the recorded models",
    "C26": "runtime monitoring: recorded steps and summaries evaluated against independent reference fields",
    "C27": "runtime monitoring: drawing calls observed on the figure, stand-in movie writer records frames",
    "C28": "runtime monitoring: real evolutions (projected Newton stand-in solver) with energy balance monitors",
    "C29": "runtime monitoring: interleaved schedules of several simulations compared with solo runs, state fingerprints",
    "C30": "runtime monitoring with fault injection: solver and load faults at every point, history monitors",
}
NOTE = (
    "Exploration: the property is decided on the executions observed (counts in the evidence file),"
    " generated from VERIF_SEED; nothing is proved beyond them. Trusts CPython, numpy, Pyomo and the"
    " reference models in /verif/harness."
)
EXTRA = {
    "C19": " The ipopt executable is not installed; a stand-in solver receives the very models the code hands over.",
    "C28": " The ipopt executable is not installed; evolutions are solved by the harness' own optimizer.",
}

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "checks", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": f"python3 run_check.py {p}",
            "thorough_cmd": f"python3 run_check.py {p} --thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": T[p],
            "level": "fault_enumeration" if p == "C30" else "exploration",
            "level_note": NOTE + EXTRA.get(p, ""),
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: everything is observed through public interfaces and a solver stand-in.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
