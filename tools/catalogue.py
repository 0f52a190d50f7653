#!/opt/venv/bin/python
"""write CATALOGUE.md: every contract, the functions of /repo it is about, and how it is decided (from the units themselves
and, where a run left one, from the evidence)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import importlib  # noqa: E402

from pyvc import driver  # noqa: E402


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    out = ["# Contracts, per property (generated by tools/catalogue.py)", ""]
    tot = {"proved": 0, "scope": 0, "bounded": 0}
    for p in props:
        importlib.import_module("units.%s" % p["id"].lower())
    fns = {}
    for p in props:
        out += ["## %s — %s" % (p["id"], p["title"]), "", "| contract | decided by | functions of the repository | remark |", "|---|---|---|---|"]
        for u in driver.UNITS.values():
            if u.prop != p["id"]:
                continue
            scope = u.kw.get("scope")
            kind = "bounded" if u.bounded else "scope" if scope else "proved"
            tot[kind] += 1
            doc = " ".join((u.fn.__doc__ or "").split())
            rem = [doc] if doc else []
            if isinstance(u.bounded, str):
                rem.append("bounded: " + u.bounded)
            if scope:
                rem.append("scope: " + scope)
            t = ["`%s`" % x.replace("prosimos.", "", 1) for x in u.targets]
            for x in u.targets:
                fns.setdefault(x, set()).add(kind)
            out.append("| %s | %s | %s | %s |" % (u.name, {"proved": "proof", "scope": "proof within a scope", "bounded": "bounded stand-in"}[kind],
                                                  ", ".join(t), "; ".join(rem).replace("|", "\\|")))
        out.append("")
    n = len(fns)
    nb = sum(1 for k in fns.values() if k == {"bounded"})
    out.insert(2, "%d contracts: %d proved without a bound, %d proved for every value within a stated scope of shapes, %d bounded "
                  "stand-ins.  They name %d functions of the repository; %d of those are under a bounded stand-in only.\n"
               % (sum(tot.values()), tot["proved"], tot["scope"], tot["bounded"], n, nb))
    open(os.path.join(HERE, "CATALOGUE.md"), "w").write("\n".join(out) + "\n")
    print(out[2])


main()
