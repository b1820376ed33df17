#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitoring: forward and autograd observed against an independent torch reference",
 "C02": "runtime monitoring: online oracle on every observed jacobian() call (jacrev reference)",
 "C03": "runtime monitoring: online oracle on observed network jacobian() calls (jacrev reference)",
 "C04": "runtime monitoring: online product oracle, adjointness and large-network autograd oracle",
 "C05": "runtime monitoring: online product oracle on matrix products, stacked-vector-product oracle",
 "C06": "runtime monitoring: online oracle J M J^T on observed forward metric passes",
 "C07": "runtime monitoring: online oracle J^T M J on observed backward metric passes",
 "C08": "runtime monitoring: layer-by-layer reference recursion on observed approximate passes",
 "C09": "runtime monitoring: None-versus-identity trace pairs judged online",
 "C10": "runtime monitoring: random histories checked against a fresh replica, retained-tensor probes",
 "C11": "runtime monitoring: state snapshots before/after every monitored call",
 "C12": "runtime monitoring: metamorphic batch oracle on observed calls",
 "C13": "runtime monitoring: dtype and precision monitor on observed results",
 "C14": "runtime monitoring: weight-coordinate round-trip, aliasing and finite-step oracles",
 "C15": "runtime monitoring: likelihood value/gradient oracle (autograd in float64)",
 "C16": "runtime monitoring: GGN oracle J^T H J (autograd Hessian in float64)",
 "C17": "runtime monitoring: converted model observed side by side with the torch model",
 "C18": "runtime monitoring: online oracle on generated custom layers alone and in networks",
 "C19": "runtime monitoring: answer-or-raise oracle over non-default options and wrong sizes",
 "C20": "runtime monitoring: allocation-size monitor on every dispatched tensor operation",
 "C21": "runtime monitoring: inverse-residual oracle on observed block structures",
 "C22": "runtime monitoring: original/copy differential traces with interleaved use",
 "C23": "runtime monitoring: online product oracle after random container edits",
 "C24": "runtime monitoring: controlled line-level thread schedules judged against serial results, plus free-running threads",
 "C25": "runtime monitoring: device monitor (fake tensors on a simulated accelerator; foreign default device)",
}
NOTE = ("Held on every execution observed (counts in the evidence file); not a proof. Trusts PyTorch's forward kernels and its autograd "
        "(torch.func.jacrev, float64) as the reference, and the rounding bounds of nnjmon/oracle.py. CPU only.")
checks = []
for p, t in TECH.items():
    cmd = "/opt/venv/bin/python -m nnjmon.run %s --tier %s"
    checks.append(dict(property=p, quick_cmd=cmd % (p, "quick"), thorough_cmd=cmd % (p, "thorough"), evidence_file=f"evidence/{p}.json",
                       technique=t, level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -m nnjmon.selfcheck", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the monitor wraps the classes of nnj in the process that imports them from /repo's working tree, so every "
               "check sees the current tree and nothing has to be built. A run of a check takes 15-45 s (quick) on 8 cores.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
