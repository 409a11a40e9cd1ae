#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known_findings.jsonl from /repo's fix commits (run by hand; the JSON entries are kept)."""
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "known_findings.jsonl")
# property of each fix, by a distinctive part of the subject (default C01)
MAP = [("SPEA2", "C07"), ("KGB instance", "C07"), ("EPPSO instance", "C07"), ("CMAES evaluates designs one by one", "C09"),
       ("QuadraticInterpolation", "C14"), ("AGE-MOEA2", "C21"), ("nearest-neighbor crowding survives", "C21"),
       ("archives keep", "C02"), ("pickled by reference", "C02"), ("CMA-ES copy", "C02"), ("PINSGA2", "C21"), ("MOPSO-CD", "C05"),
       ("adaptive constraint handling", "C05"), ("joblib and ray", "C03"), ("individual forgets", "C04"),
       ("C-TAEA terminates", "C09")]


def main():
    out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "2b312e7..HEAD"], stdout=subprocess.PIPE, text=True).stdout
    lines = []
    for line in out.splitlines():
        c, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        extra = os.path.join(V, "tools", "fixmap.txt")
        m = list(MAP)
        if os.path.exists(extra):
            m += [tuple(x.rstrip("\n").split("\t")) for x in open(extra) if "\t" in x]
        p = next((p for k, p in m if k in s), "C01")
        lines.append("fixed: property=%s %s %s" % (p, c, s[5:]))
    keep = [x.rstrip("\n") for x in open(F) if x.startswith("{")] if os.path.exists(F) else []
    with open(F, "w") as f:
        f.write("\n".join(lines + keep) + "\n")
    print(len(lines), "fixed,", len(keep), "known")


main()
