"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {
    "C01": "shadow interpreter (dense label model) run in lock step with "
           "random operation programs",
    "C02": "structural-invariant monitor and atomicity fingerprints over "
           "random operation histories",
    "C03": "dense einsum oracle and consumed-network monitor over random "
           "contractor calls",
    "C04": "independent ncon interpreter over random and hostile label lists",
    "C05": "dense reconstruction, isometry and truncation-error monitors over "
           "random splits",
    "C06": "cross-backend differential monitor against a numpy reference",
    "C07": "dense reference and metadata monitor over random constructions",
    "C08": "round-trip monitor over saved, loaded and copied networks",
    "C09": "state-machine monitor over traversal, replacement and subgraph "
           "operations",
    "C10": "lock-step dense + charge model over random block-sparse histories",
    "C11": "index/charge algebra monitor against integer charge models",
    "C12": "dense linear-algebra oracle and block-structure monitor",
    "C13": "layout-independence monitor over contiguous and scrambled storage",
    "C14": "dense state monitor with canonical-form invariants over random "
           "MPS histories",
    "C15": "dense expectation-value oracle with input fingerprints",
    "C16": "dense gate-application oracle over random circuit histories",
    "C17": "transfer-matrix fixed-point and invariance monitor",
    "C18": "dense Hamiltonian oracle for MPO classes",
    "C19": "online energy/normalisation/variational monitor over DMRG runs",
    "C20": "online matvec monitor and residual oracle over Krylov solvers",
    "C21": "lock-step dense operator algebra over random Qu expressions",
    "C22": "dense map / direct convolution oracle over random layer "
           "configurations",
    "C23": "stack-model monitor over random nesting, failure and thread "
           "histories",
    "C24": "snapshot monitor of every argument over the public API",
    "C25": "shape/dtype/range/statistics/seed monitor over initialisers",
    "C26": "exhaustive-order oracle and cost replay over random networks",
    "C27": "eager-versus-traced differential monitor and derivative oracle",
    "C28": "cached-versus-uncached differential monitor over histories",
    "C29": "graph-isomorphism monitor over recorded drawing events",
    "C30": "dense definition oracle over the example programs",
}
TECH["C31"] = ("allocation monitor (peak traced memory of every call) with a "
               "sparse coordinate-list oracle over large structured inputs")
TECH["C32"] = ("forced preemption inside the library (switch interval and "
               "random yields at traced lines) with the serial results as "
               "the oracle")
DEFAULT_TECH = ("runtime monitoring: reference-model oracle over randomized "
                "and hostile workloads")
checks, na = [], []
for p in props:
  pid = p["id"]
  if os.path.exists(os.path.join(ROOT, "tnv", "checks", pid.lower() + ".py")):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 -m tnv.run %s quick" % pid,
        "thorough_cmd": "python3 -m tnv.run %s thorough" % pid,
        "technique": TECH.get(pid, DEFAULT_TECH),
        "level": "exploration",
        "level_note": "Holds on the executions explored (counts in "
                      "evidence/%s.json); the monitors decide every observed "
                      "execution, nothing is claimed beyond them. Trusts "
                      "numpy/scipy as the numerical oracle and the installed "
                      "TensorFlow and JAX as the execution substrate; the "
                      "PyTorch backend cannot run here." % pid,
    })
  else:
    na.append({"property": pid, "reason": "no check has been built yet"})
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure-Python harness in tnv/; workers run /opt/venv/bin/python "
             "with PYTHONPATH=/repo, so every check sees /repo's working tree. "
             "No hooks are needed in /repo: the monitors observe through the "
             "public API only.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
