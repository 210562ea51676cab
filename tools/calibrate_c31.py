#!/usr/bin/env python3
"""Measures what calls cost on the current tree and writes five times that (three times for AES blocks) as C31's budgets.

usage: calibrate_c31.py SEEDS   (after building .build/steps and .build/scalarsteps; no check runs this)
"""
import collections
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
METRICS = 6
for config, name in (("steps", "c31_budgets.inc"), ("scalarsteps", "c31_scalar_budgets.inc")):
    most, growth = {}, collections.defaultdict(float)
    for seed in range(1, int(sys.argv[1]) + 1):
        out = subprocess.run([os.path.join(VERIF, ".build", config, "bin/c31"), "--seed", str(seed), "--tier", "quick"],
                             env=dict(os.environ, C31_PRINT="1"), stdout=subprocess.PIPE, text=True, errors="replace").stdout
        for line in out.splitlines():
            if line.startswith("PER"):
                _, key, m, per_unit, g = line.split()
                e = most.setdefault(key, [0.0] * METRICS)
                e[int(m)] = max(e[int(m)], float(per_unit))
                growth[key, int(m)] = max(growth[key, int(m)], float(g))
            elif line.startswith("F\t"):
                print(line[:300])
    with open(os.path.join(VERIF, "harness", name), "w") as f:
        for key in sorted(most):
            f.write('{"%s", {%s}},\n' % (key, ", ".join("%.3g" % ((3 if m == 5 else 5) * x) for m, x in enumerate(most[key]))))
    for key in sorted(most):
        print("%-11s %-34s" % (config, key), " ".join("%9.2f" % x for x in most[key]), " growth ", " ".join("%5.2f" % growth[key, m] for m in range(METRICS)))
