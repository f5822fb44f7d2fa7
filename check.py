#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--only traces|models|binding|narrow|release]
check.py --replay <file>

Decides one property: records what the real crate does, has TLC judge the
traces against /verif/spec/Trace.tla, and has TLC check the property's design
models.  Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import checks, models, narrow, refuse, run  # noqa: E402

KNOWN = os.path.join(run.VERIF, "known_findings.txt")


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith(f"known: property={prop} "):
                out.append(line.split(" ", 2)[2].strip())
    return out


def save_replay(prop, rej):
    os.makedirs(run.REPLAY, exist_ok=True)
    path = os.path.join(run.REPLAY, f"{prop}-{rej.job.name}-{rej.line}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "trace": rej.job.name,
                   "build": {True: "alloc", False: "no alloc", None: "both"}[rej.job.alloc],
                   "request": rej.request, "event": rej.event, "why": rej.explanation,
                   "storage": rej.job.storage,
                   "systems": [{"cmd": s.cmd, "rec": s.rec} for s in rej.job.systems],
                   "requests": rej.requests, "alloc": rej.job.alloc}, f, indent=1)
    return path


def replay(path):
    r = json.load(open(path))

    class Sys:
        def __init__(self, d):
            self.cmd, self.rec = d["cmd"], d["rec"]

    job = run.Job("replay", [Sys(d) for d in r["systems"]], r["requests"], r["alloc"], r["storage"])
    exes = {a: narrow.Interpreter(a) if r["trace"].endswith("-narrow") else run.build(a, r["trace"].endswith("-release"))
            for a in (True, False)}
    cwd = tempfile.mkdtemp(prefix="nominals-replay-")
    try:
        res = run.run_job(job, exes, cwd)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    if res.rejected:
        print("still rejected:", json.dumps(res.rejected.event), res.rejected.explanation)
        return 1
    print("accepted now")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", choices=("traces", "models", "binding", "narrow", "release"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    if prop not in checks.CHECKS:
        ap.error(f"unknown property {prop}")
    start = time.time()
    ctx = checks.Ctx(a.tier, a.seed)
    cwd = tempfile.mkdtemp(prefix=f"nominals-{prop}-")
    try:
        results, found, tight = [], [], {}
        if a.only != "models":
            jobs = checks.CHECKS[prop](ctx) + models.sessions(ctx, prop, cwd)
            needed = {x for j in jobs for x in ((True, False) if j.alloc is None else (j.alloc,))}
            exes = {x: run.build(x) for x in needed}
            if a.only not in ("binding", "narrow", "release"):
                results = run.run_jobs(jobs, exes, cwd)
            if ctx.deep and not a.only or a.only == "release":
                # other numbers and systems, put to an optimised build
                more = checks.CHECKS[prop](checks.Ctx("quick", a.seed + 1000))
                for j in more:
                    j.name += "-release"
                results += run.run_jobs(more, {x: run.build(x, True) for x in (True, False)}, cwd)
            if ctx.deep and not a.only or a.only == "narrow":
                results += narrow.check(ctx, jobs, cwd)
            if ctx.deep and not a.only or a.only == "binding":
                tight = refuse.check(jobs, exes, cwd)
        if a.only == "binding":
            print(f"{prop}: {tight}")
            return 0
        t_traces = time.time() - start
        done = models.check(ctx, prop, cwd) if a.only in (None, "models") else []
        proofs = models.prove(ctx, prop, cwd) if a.only in (None, "models") else []
        wall = time.time() - start
        for r in results:
            if r.rejected:
                found.append(r.rejected)
        known = known_findings(prop)
        new = [r for r in found if not any(k in (r.request, json.dumps(r.event)) for k in known)]
        for k in known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        requests = sum(len(r.job.lines) for r in results)
        cover = {
            "states": sum(r.states for r in results) + sum(m["states"] for m in done),
            "transitions": sum(r.transitions for r in results) + sum(m["transitions"] for m in done),
            "traces_validated_against_impl": sum(1 for r in results if not r.rejected),
            "trace_events": sum(r.events for r in results),
            "requests_to_the_crate": requests,
            "requests_with_a_32_bit_usize": sum(len(r.job.lines) for r in results if r.job.name.endswith("-narrow")),
            "requests_to_a_release_build": sum(len(r.job.lines) for r in results if r.job.name.endswith("-release")),
            "systems_under_test": len({s.cmd for r in results for s in r.job.systems}),
            "builds": sorted({{True: "alloc", False: "no alloc", None: "alloc against no alloc"}[r.job.alloc] for r in results}),
            "design_models": done,
            "proofs": proofs,
            "binding": tight,
            "trace_seconds": round(t_traces, 1),
            "samples": [r.sample[:1500] for r in results[::max(1, len(results) // 5)]][:6],
        }
        if not cover["samples"]:
            cover["samples"] = [json.dumps(m) for m in done[:2]]
        os.makedirs(os.path.join(run.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(run.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump({"property": prop, "tier": a.tier, "seed": a.seed, "level": "model_checking",
                       "coverage": cover,
                       "assumptions": [
                           "The driver reports the answers of the crate's public API faithfully and the Rust toolchain compiles it correctly.",
                           "TLC and the CommunityModules Json reader are correct.",
                           "Between the inputs that were run, the code behaves as the specification the design models were checked on."],
                       "wall_s": round(wall, 1), "violations": len(new)}, f, indent=1)
        print(f"{prop} {a.tier}: {len(results)} traces, {cover['trace_events']} events, {cover['states']} states, "
              f"{len(done)} design models, {wall:.1f} s")
        for r in new:
            print(f"  rejected: {r.request} [{r.job.name}] {json.dumps(r.event)[:600]}\n  {r.explanation[:600]}")
        if new:
            print(f"VIOLATION property={prop} replay={save_replay(prop, new[0])}")
            for r in new[1:]:
                save_replay(prop, r)
            return 1
        return 0
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except run.ToolError as e:
        print(f"check failed: {e}", file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
