"""Command line: runs all units of a property in forked workers and turns the results into a verdict."""
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get("PV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spawn(job):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    os.close(r)
    os.setpgid(0, 0)
    out = {"status": "crash"}
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("PV_TRACE"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        out = job()
    except BaseException as e:
        out = {"status": "crash", "error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-700:]}
    try:
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
    finally:
        os._exit(0)


def pool(jobs, n, limit):
    """jobs: list of (key, callable, seconds); returns key -> result"""
    res, todo, live = {}, list(jobs), {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < n:
            key, fn, secs = todo.pop(0)
            pid, fd = spawn(fn)
            live[fd] = (key, pid, time.time() + secs, b"")
        rd, _, _ = select.select(list(live), [], [], .2)
        now = time.time()
        for fd in list(live):
            key, pid, dl, buf = live[fd]
            if fd in rd:
                b = os.read(fd, 1 << 16)
                if b:
                    live[fd] = (key, pid, dl, buf + b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                try:
                    res[key] = pickle.loads(buf)
                except Exception as e:
                    res[key] = {"status": "crash", "error": "no result (%r)" % e}
            elif now > dl or now - t0 > limit:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                res[key] = {"status": "timeout", "limits": ["killed at its time limit"]}
        if now - t0 > limit:
            for key, fn, s in todo:
                res[key] = {"status": "timeout", "limits": ["not started"]}
            todo = []
    return res


def setup(symbolic):
    if symbolic:
        from . import xform
        xform.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def load_units(prop):
    mod = prop.lower()
    importlib.import_module("units." + mod)
    from .driver import UNITS
    return {n: u for n, u in UNITS.items() if u.prop == prop}


def prove_job(u, tier):
    def job():
        setup(True)
        from .driver import Run
        return Run(u, tier).prove()
    return job


def search_job(u, seed, secs):
    def job():
        setup(False)
        from .driver import search
        return search(u, seed, secs)
    return job


def replay_job(u, blobs):
    def job():
        setup(False)
        from .driver import replay_model
        out = []
        for b in blobs:
            try:
                out.append(replay_model(u, b) if b else ("no model", None))
            except BaseException as e:
                out.append(("error", repr(e)))
        return {"status": "done", "out": out}
    return job


def preload():
    import numpy, pandas, z3, scipy.stats     # noqa: shared by the forked workers
    try:
        import pix_framework.statistics.distribution      # noqa
        import pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar   # noqa
    except ImportError:
        pass


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main(argv):
    prop = argv[0]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = argv[argv.index("--unit") + 1] if "--unit" in argv else None
    preload()
    units = load_units(prop)
    if only:
        units = {n: u for n, u in units.items() if only in n}
    if "--replay" in argv:
        return do_replay(argv[argv.index("--replay") + 1], units)
    verbose = "-v" in argv
    jobs = []
    mult = 1 if tier == "quick" else 6
    for n, u in units.items():
        if not u.bounded and "--search" not in argv:
            jobs.append((("p", n), prove_job(u, tier), u.secs * (1 if tier == "quick" else 4) + 60))
    for n, u in units.items():
        if "--prove" not in argv:
            jobs.append((("s", n), search_job(u, seed, u.search * mult), u.search * mult + 60))
    res = pool(jobs, 8, 640 if tier == "quick" else 7200)
    # what the verifier leaves open is searched harder on the real code before the check stays quiet
    open_ = [n for n, u in units.items() if not u.bounded and ("p", n) in res and ("s", n) in res and
             res[("p", n)].get("status") != "proved" and not res[("p", n)].get("bad") and
             res[("s", n)].get("status") == "clean" and not u.kw.get("max_iter")]
    left = lambda most: max(20, min(most, (820 if tier == "quick" else 9000) - (time.time() - t0)))
    if open_:
        per = max(1, 8 // len(open_))
        xs = pool([(("x", n, k), search_job(units[n], seed + 1000 * (k + 1), 40 * mult), 40 * mult + 60)
                   for n in open_ for k in range(per)], 8, left(300 * mult))
        for (_, n, k), r in xs.items():
            s = res[("s", n)]
            if r.get("status") == "violated" and s.get("status") != "violated":
                res[("s", n)] = s = r
            elif s.get("status") == "clean":
                for f in ("n", "ok", "checks"):
                    s[f] = s.get(f, 0) + r.get(f, 0)
    # replay the verifier's counterexamples on the real code
    rj = []
    for n, u in units.items():
        p = res.get(("p", n))
        if p and p.get("bad"):
            rj.append((("r", n), replay_job(u, [b["blob"] for b in p["bad"]]), 150))
    rres = pool(rj, 8, left(200)) if rj else {}
    viol = []
    for n, u in units.items():
        p, s = res.get(("p", n)), res.get(("s", n))
        wit = None
        if ("r", n) in rres:
            for b, (st, d) in zip(p["bad"], rres[("r", n)].get("out", [])):
                b["replay"] = st
                if st == "violated" and wit is None:
                    d = dict(d, unit=n, mode="model", blob=b["blob"], failed_obligation=b["obligation"])
                    wit = d
        if s and s.get("status") == "violated":
            w = s["witness"]
            if p and p.get("bad"):
                w["failed_obligation"] = p["bad"][0]["obligation"]
            elif p and p.get("unk"):
                w["failed_obligation"] = p["unk"][0][0]
            wit = wit or w
        if wit is not None:
            if p and p.get("bad"):
                wit["verifier"] = {k: p["bad"][0][k] for k in ("obligation", "goal", "model", "reason", "path")}
            viol.append((wit, True))
        elif p and p.get("bad"):
            # refuted without a witness: exceptions that do not replay are artefacts of the encoding
            real = [b for b in p["bad"] if not (b["reason"] and "/no " in b["obligation"])]
            real = [b for b in real if b.get("replay") not in ("ok",)] if u.kw.get("strict_replay", True) else real
            if real and not (s and s.get("status") == "unfit"):
                b = real[0]
                viol.append(({"unit": n, "mode": "no-witness", "obligation": b["obligation"], "goal": b["goal"],
                              "model": b["model"], "replay": b.get("replay"), "err": b["err"], "vals": b["vals"]}, False))
            else:
                p["status"] = "undecided"
                p.setdefault("limits", []).append("counterexample does not replay on the real code: " +
                                                  p["bad"][0]["obligation"])
    kf = known_findings()
    rc = 0
    known = 0
    lines = []
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, (w, has) in enumerate(viol):
        w["property"] = prop
        f = next((k for k in kf["findings"] if k["property"] == prop and k["unit"] == w["unit"] and
                  w["obligation"].endswith(k["obligation"])), None)
        if f is not None:
            known += 1
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
            continue
        path = os.path.join(rdir, "%s-%s.json" % (prop, w["unit"].replace("/", "_")))
        with open(path, "w") as fh:
            json.dump(w, fh, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if has else " no-failing-input-found"))
        rc = 1
    ev = evidence(prop, units, res, tier, seed, time.time() - t0, rc, known)
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    for n in units:
        p, s = res.get(("p", n)), res.get(("s", n))
        line = "%-44s" % n
        if p:
            line += " prove=%s %s/%s obl, %s paths, %ss" % (p.get("status"), p.get("discharged", 0), p.get("obligations", 0),
                                                           p.get("paths", 0), p.get("secs"))
        if s:
            line += " | search=%s n=%s ok=%s" % (s.get("status"), s.get("n"), s.get("ok"))
        print(line)
        if verbose or (p and p.get("status") != "proved"):
            for k in ("limits", "unk", "error"):
                if p and p.get(k):
                    print("      ", k, ":", str(p[k])[:1200])
            if p and p.get("bad"):
                for b in p["bad"][:3]:
                    print("       refuted:", b["obligation"], b["reason"] or "", "replay:", b.get("replay"), b["err"] or "",
                          str(b["vals"])[:600])
                    if verbose:
                        print("         goal", b["goal"][:600])
            if verbose and p and p.get("names"):
                for a, b in p["names"].items():
                    print("         ", b, a)
        if s and s.get("status") not in ("clean",):
            print("       search:", str({k: v for k, v in s.items() if k != "witness"})[:800],
                  json.dumps(s.get("witness"), default=str)[:1500] if s.get("witness") else "")
    for l in lines:
        print(l)
    for n in units:
        if (res.get(("s", n)) or {}).get("status") == "unfit":
            print("NOT DECIDED: %s does not fit the current interface" % n)
    broken = [n for n in units if res.get(("s", n), {}).get("status") in ("crash", "vacuous")]
    if broken and rc == 0 and not only:
        print("CHECK ERROR: units without a usable run: %s" % broken)
        return 3
    return rc


def do_replay(path, units):
    w = json.load(open(path))
    setup(False)
    from .driver import replay_model, search
    u = units[w["unit"]]
    if w["mode"] == "model":
        print(replay_model(u, w["blob"]))
    elif w["mode"] == "search":
        u.kw["max_iter"] = 1
        print(json.dumps(search(u, w["seed"], 60, w["iteration"], bool(w.get("absent"))), indent=1, default=str))
    else:
        print(json.dumps(w, indent=1))
    return 0


def evidence(prop, units, res, tier, seed, wall, rc, known):
    from .trust import TRUSTED
    per, tot, dis, secs = [], 0, 0, 0.0
    by = {}
    for n, u in units.items():
        p, s = res.get(("p", n)) or {}, res.get(("s", n)) or {}
        tot += p.get("obligations", 0)
        dis += p.get("discharged", 0)
        secs += p.get("solver_secs", 0) or 0
        for k, v in (p.get("by") or {}).items():
            by[k] = by.get(k, 0) + v
        proof = "bounded stand-in" if u.bounded else p.get("status")
        if proof == "proved" and u.kw.get("scope"):
            proof = "bounded: proved only within the stated scope"
        per.append({"unit": n, "functions": u.targets, "proof": proof, "scope": u.kw.get("scope", u.bounded or "all inputs"),
                    "obligations": p.get("obligations", 0), "discharged": p.get("discharged", 0),
                    "paths": p.get("paths", 0), "loops_cut_by_invariants": p.get("loops", 0),
                    "callees_under_contract": p.get("modular", []), "limits": p.get("limits", []),
                    "undischarged": p.get("unk", []), "named": p.get("names", {}),
                    "concrete_runs": s.get("ok", 0), "concrete_checks": s.get("checks", 0)})
    proved = [x["unit"] for x in per if x["proof"] == "proved"]
    return {"property": prop, "tier": tier, "seed": seed,
            "level": LEVELS.get(prop, "proof"),
            "coverage": {"obligations": tot, "discharged": dis, "proved_units": proved,
                         "bounded_units": [x["unit"] for x in per if str(x["proof"]).startswith("bounded")],
                         "undecided_units": [x["unit"] for x in per if x["proof"] != "proved" and not str(x["proof"]).startswith("bounded")],
                         "functions_under_contract": sorted({f for x in per for f in x["functions"]}),
                         "discharged_by": by, "solver_seconds": round(secs, 2),
                         "checker_cmd": "python check.py %s (z3 %s in process, cvc5 1.1.2 on what z3 leaves unknown)" % (prop, zver()),
                         "executions": sum(x["concrete_runs"] for x in per),
                         "evaluations": sum(x["concrete_checks"] for x in per),
                         "trusted_base": TRUSTED, "units": per},
            "violations": 1 if rc else 0, "known_findings": known,
            "wall_s": round(wall, 1)}


def zver():
    import z3
    return z3.get_version_string()


LEVELS = {}
