#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.

The proof jobs of the property decide.  Beside them the real program is run
against the reference assembler, which supplies failing inputs."""
import json, os, re, shutil, signal, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "replay")]
import engine, jobs, hunt, difftest

T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick") if len(sys.argv) < 3 else sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LIMIT = 780 if TIER == "quick" else 3600          # seconds for everything
EV = os.path.join(HERE, "evidence")
STRUCT = ("invariant", "candidate", "termination", "every iteration", "unwinding")


def tags(desc):
    m = re.match(r"\[([C0-9,]+)\]", desc)
    return m.group(1).split(",") if m else []


def structural(r):
    """the proof does not fit the code any more, which says nothing about the property"""
    return bool(r.error) or any(p[2].startswith(STRUCT) or "unwind" in p[0] for p in r.failed) or bool(r.unexpected) or bool(r.missing)


def main():
    os.makedirs(EV, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vpc")
    try:
        rc = decide(work)
    finally:
        for p in list(engine.RUNNING):
            engine.kill(p)
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(work):
    hints = json.load(open(os.path.join(HERE, "hints.json")))
    todo = [j for j in jobs.jobs_for(PROP, TIER) if os.environ.get("VP_ONLY", "") in j.name]     # VP_*: for development
    # ---- the real program beside the proof
    bad = None
    plain = hunt.build(engine.REPO, os.path.join(work, "gaia"), "plain")
    asan = hunt.build(engine.REPO, os.path.join(work, "gaia-asan"), "asan") if PROP in ("C13", "C06", "C09") or TIER == "thorough" else None
    bins = [b for b in ([asan] if PROP == "C13" else [plain]) if b and not os.environ.get("VP_NOHUNT")]
    cases = [0]

    side = hunt.spawn(work, PROP, bins, "corpus" if TIER == "quick" else "endless", SEED, 200 if TIER == "quick" else 1200, 2) if bins else None
    extra = jobs.extra_for(PROP, TIER)
    ex = []
    if extra:
        xt = threading.Thread(target=lambda: ex.append(extra(work)), daemon=True)
        xt.start()
    # ---- the proof
    res, fb = [], {}
    deadline = T0 + LIMIT - 120
    lock = threading.Lock()

    def done(r):
        with lock:
            res.append(r)
        r.unexpected = [d for d in r.dropped if d not in hints.get(r.job.name.split("/")[0], ())] if not r.ok else []
    w = engine.Work(work)
    engine.pool(todo, w, hints, 7, done, deadline)
    if side:
        cases[0], bad = side(max(1, T0 + LIMIT - 60 - time.time()))
    if extra:
        xt.join(max(1, T0 + LIMIT - 60 - time.time()))
        if not bad and ex and ex[0].get("bad"):
            bad = ex[0]["bad"]
    if not bad:
        # with a failing input at hand there is nothing left to decide
        for r in res:
            for f in r.job.fallback if not r.ok and structural(r) else ():
                fb[f.name] = r.job.name
        engine.pool([f for r in list(res) for f in r.job.fallback if f.name in fb], w, hints, 7, done, deadline)
    # ---- the verdict
    prim = [r for r in res if r.job.name not in fb]
    fbs = [r for r in res if r.job.name in fb]
    undecided, alarms = [], []
    for r in prim:
        if r.ok:
            continue
        mine = [f for f in fbs if fb[f.job.name] == r.job.name]
        if mine and all(f.ok for f in mine):
            continue
        judge = mine if mine else [r]
        hit = [(f, p) for f in judge for p in f.failed if PROP in tags(p[2]) or PROP == "C13" and not tags(p[2]) and not p[2].startswith(STRUCT)]
        if hit and not any(structural(f) for f in judge):
            alarms += hit
        else:
            undecided.append(r)
    if (alarms or undecided) and not bad and bins:
        srcs = []
        for f, p in alarms:
            srcs += jobs.counterexample(f, p)
        n, bad = hunt.spawn(work, PROP, bins, "list", SEED, 60, 4, srcs)(90) if srcs else (0, None)
        cases[0] += n
        if not bad:
            # no input yet: variations the quick corpus does not have
            left = T0 + LIMIT - 30 - time.time()
            n, bad = hunt.spawn(work, PROP, bins, "endless", SEED + 1, max(5, min(left - 20, 120)), 7)(max(10, left))
            cases[0] += n
    known = known_findings()
    lines = report(bad, alarms or [(r, p) for r in prim for p in r.failed], known) if bad or alarms else []
    evidence(prim, fbs, fb, undecided, alarms, cases[0], ex[0] if ex else None, lines)
    for r in prim + fbs:
        print("%-28s %s %4d obligations %6.1f s%s" % (r.job.name, "ok  " if r.ok else "FAIL", len(r.props), r.wall, "  " + r.error[:150] if r.error else ""))
    for r in undecided if not bad else ():
        print("undecided by the verifier, no failing input in %d runs: %s" % (cases[0], r.job.name))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
    for l in lines:
        print(l)
    return 1 if lines else 0


def known_findings():
    out = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) input=(\S+) (.*)", l)
        if m and m.group(1) == PROP:
            out.append({"input": m.group(2), "what": m.group(3)})
    return out


def report(bad, alarms, known):
    path = os.path.join(EV, "%s.replay.txt" % PROP)
    obl = "".join("failed obligation: %s in job %s: %s (line %d)\n" % (p[0], f.job.name, p[2], p[1]) for f, p in alarms)
    with open(path, "w") as o:
        o.write("property %s\n%s" % (PROP, obl))
        if bad:
            src, m, how = bad
            if src is not None:
                a = os.path.join(EV, "%s.replay.asm" % PROP)
                with open(a, "wb") as f:
                    f.write(src)
                o.write("failing input: %s (%d bytes)\nrun: cd %s && gaia %s -o out.bin\n" % (a, len(src), EV, os.path.basename(a)))
            o.write("how: %s\nobserved: %s: %s\n" % (how if src is None else "differs from the reference assembler", m[0], m[1]))
            if src is not None:
                o.write("source: %r\n" % src[:3000])
        for f, p in alarms:
            log = os.path.join(os.path.dirname(f.gb), "log%d" % f.rounds)
            try:
                o.write("\nverifier output of %s\ncommand: %s\n" % (f.job.name, f.cmd))
                o.write("".join(l for l in open(log) if "FAILURE" in l or "VERIFICATION" in l)[:20000])
            except OSError:
                pass
    return ["VIOLATION property=%s replay=%s%s" % (PROP, path, "" if bad else " no-failing-input-found")]


def evidence(prim, fbs, fb, undecided, alarms, cases, ex, lines):
    allr = prim + fbs
    ob = sum(len([p for p in r.props if not p[2].startswith("REACH")]) for r in prim)
    good = 0
    for r in prim:
        if r.ok:
            good += len([p for p in r.props if not p[2].startswith("REACH")])
        else:
            good += len([p for p in r.props if p[3] == "SUCCESS" and not p[2].startswith("REACH")])
    fns = sorted({f for r in prim for f in r.job.functions})
    cov = {
        "obligations": ob, "discharged": good,
        "checker_cmd": "cbmc 6.11.0 (SAT back end MiniSat/CaDiCaL built in) on /repo's sources compiled by goto-cc, one run per job; first: " +
                       next((r.cmd for r in allr if getattr(r, "cmd", None)), "none"),
        "trusted_base": jobs.TRUSTED,
        "functions_under_contract": fns,
        "jobs": [{"job": r.job.name, "ok": r.ok, "kind": r.job.bounded or "proved", "obligations": len([p for p in r.props if not p[2].startswith("REACH")]),
                  "tagged_for_property": len([p for p in r.props if PROP in tags(p[2])]), "vccs": r.vccs, "houdini_rounds": r.rounds,
                  "solver_s": round(r.solver, 2), "wall_s": round(r.wall, 2), "error": r.error, "fallback_for": fb.get(r.job.name)} for r in allr],
        "solver_time_s": round(sum(r.solver for r in allr), 2),
        "reachability_checks": sum(1 for r in allr for p in r.props if p[2].startswith("REACH")),
        "undecided_jobs": [r.job.name for r in undecided],
        "property_obligations": sorted({p[2] for r in prim for p in r.props if PROP in tags(p[2])}),
        "differential_cases": cases,
        "differential_note": "runs of the real program against an independent reference assembler; they supply failing inputs and are not counted as proof",
    }
    if ex:
        cov["fault_runs"] = ex.get("cases")
        cov["fault_note"] = ex.get("note")
    ev = {"property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": jobs.assumptions(PROP), "wall_s": round(time.time() - T0, 2), "violations": len(lines)}
    p = os.path.join(EV, PROP + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
