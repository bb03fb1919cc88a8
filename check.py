#!/usr/bin/env python3
"""Decides one property: check.py <id> [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no verdict.
"""
import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build, plan, util  # noqa: E402


def load_known():
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def is_known(known, prop, v):
    for k in known:
        if k.get("status") == "finding" and k["property"] == prop and k["part"] == v["part"]:
            if re.fullmatch(k["match"], v["message"]):
                return k
    return None


def run_bin(path, prop, tier, scratch, job, wall):
    """Runs a harness program; returns its fragment."""
    d = scratch.dir("bin-%s-%s" % (os.path.basename(path), job.get("tag", "x")))
    out = os.path.join(d, "fragment.json")
    cmd = [path, "--property", prop, "--tier", tier, "--out", out, "--wall", str(wall)]
    if job.get("part"):
        cmd += ["--part", job["part"]]
    if job.get("aux"):
        cmd += ["--aux", os.path.join(d, "aux.json")]
    if job.get("threads"):
        cmd += ["--threads", str(job["threads"])]
    t0 = time.time()
    p = subprocess.Popen(
        cmd,
        cwd=d,
        env=util.clean_env(),
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        errors="replace",
        start_new_session=True,
        **util.drop(),
    )
    try:
        log, _ = p.communicate(timeout=wall * 2 + 120)
        timed_out = False
    except subprocess.TimeoutExpired:
        util.kill_group(p.pid)
        log, _ = p.communicate()
        timed_out = True
    util.kill_group(p.pid)
    sys.stderr.write(log)
    frag = None
    if os.path.exists(out):
        try:
            with open(out) as f:
                frag = json.load(f)
        except ValueError:
            frag = None
    if frag is None:
        if timed_out or p.returncode != 0:
            how = "does not end" if timed_out else "ends with status %s" % p.returncode
            # An abort (stack overflow, double panic, allocation failure) of the code under test
            # inside the harness is a crash of the code, unless the harness itself never started
            if timed_out or p.returncode < 0:
                frag = {
                    "parts": [{"part": "whole", "executions": 1, "states": 1, "transitions": 0, "truncated": True, "samples": []}],
                    "violations": [
                        {
                            "property": prop,
                            "part": "whole",
                            "message": "exploring the code under test %s: %s" % (how, log[-400:]),
                            "choices": [],
                            "detail": log[-4000:].splitlines(),
                        }
                    ],
                    "known": [],
                    "notes": {},
                }
            else:
                raise RuntimeError("%s %s without a result:\n%s" % (path, how, log[-3000:]))
    if job.get("aux"):
        try:
            with open(os.path.join(d, "aux.json")) as f:
                frag["aux"] = json.load(f)
        except (OSError, ValueError):
            frag["aux"] = None
    frag["engine"] = os.path.basename(path)
    frag["wall"] = time.time() - t0
    for v in frag["violations"]:
        v["engine"] = frag["engine"]
    return frag


def compare_digests(prop, frags):
    """Runs of the same schedules in different processes must agree."""
    a, b = (f.get("aux") or {} for f in frags)
    both = a.keys() & b.keys()
    bad = sorted(k for k in both if a[k] != b[k])
    v = []
    if bad:
        v.append(
            {
                "property": prop,
                "part": "across processes",
                "engine": "run",
                "message": "%d of %d schedules give different runs in two processes, e.g. schedule %s"
                % (len(bad), len(both), bad[0]),
                "choices": [],
                "detail": bad[:20],
            }
        )
    return {
        "engine": "run",
        "parts": [
            {
                "part": "across processes",
                "executions": len(both),
                "states": len(both),
                "transitions": 0,
                "outcomes": len(set(a.values())),
                "truncated": False,
                "samples": ["%s: %s" % (k, a[k]) for k in sorted(both)[:2]],
            }
        ],
        "violations": v,
        "known": [],
        "notes": {},
    }


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    v = r["violation"]
    eng = v["engine"]
    if eng in plan.BINS:
        b = build.harness([eng])[eng]
        cmd = [b, "--property", prop, "--tier", r["tier"], "--part", v["part"],
               "--replay", ",".join(map(str, v["choices"]))]
        env = dict(os.environ)
        if v["part"].endswith("with logging"):
            env["VHARNESS_LOG"] = "1"
        return subprocess.run(cmd, env=env).returncode
    mod = importlib.import_module("vlib." + eng)
    with util.Scratch() as scratch:
        ctx = mod.Context(prop, r["tier"], scratch, float(10**6))
        ctx.prepare()
        return mod.replay(ctx, v)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only the jobs of this engine")
    a = ap.parse_args()
    prop = a.property
    if prop not in plan.PLAN:
        print("unknown property", prop)
        return 2
    if a.replay:
        return replay(prop, a.replay)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    jobs = [j for j in plan.PLAN[prop] if not a.only or j["engine"] == a.only]
    known = load_known()

    bins = sorted({j["engine"] for j in jobs if j["engine"] in plan.BINS})
    mods = sorted({j["engine"] for j in jobs if j["engine"] not in plan.BINS})
    frags = []
    with util.Scratch() as scratch:
        paths, unbuilt = build.harness_available(bins) if bins else ({}, {})
        if mods:
            build.cli()
            build.child()
        for b in sorted(unbuilt):
            if not paths and not mods:
                raise build.BuildError(unbuilt[b])
            # the other engines still decide what they cover
            print("engine %s cannot be built:\n%s" % (b, unbuilt[b][-1500:]), file=sys.stderr)
            jobs = [j for j in jobs if j["engine"] != b]
        t_build = time.time() - t0
        for j in jobs:
            wall = j["thorough" if a.tier == "thorough" else "quick"]
            if j["engine"] in plan.BINS:
                if j.get("processes", 1) > 1:
                    pair = []
                    for k in range(j["processes"]):
                        pair.append(run_bin(paths[j["engine"]], prop, a.tier, scratch,
                                            dict(j, aux=True, tag=str(k)), wall))
                        if pair[-1]["violations"]:
                            break
                    frags += pair
                    if len(pair) == j["processes"] and not any(f["violations"] for f in pair):
                        frags.append(compare_digests(prop, pair))
                else:
                    frags.append(run_bin(paths[j["engine"]], prop, a.tier, scratch, j, wall))
            else:
                mod = importlib.import_module("vlib." + j["engine"])
                ctx = mod.Context(prop, a.tier, scratch, wall)
                ctx.listed = lambda part, m: is_known(known, prop, dict(part=part, message=m)) is not None
                ctx.prepare()
                frag = mod.run(ctx)
                frag["engine"] = j["engine"]
                for v in frag["violations"]:
                    v["engine"] = j["engine"]
                frags.append(frag)
            if any(not is_known(known, prop, v) for v in frags[-1]["violations"]):
                break

    parts, viols, seen_known, notes = [], [], {}, {}
    for f in frags:
        for p in f["parts"]:
            parts.append(dict(p, engine=f["engine"]))
        notes.update(f.get("notes") or {})
        for v in f["violations"]:
            k = is_known(known, prop, v)
            if k:
                seen_known[k["what"]] = k
            else:
                viols.append(v)
    truncated = [p["part"] for p in parts if p.get("truncated")]
    diverged = sum(p.get("diverged", 0) for p in parts)
    execs = sum(p["executions"] for p in parts)
    samples = []
    for p in parts:
        for s in p.get("samples", [])[:2]:
            samples.append("%s / %s: %s" % (p["engine"], p["part"], str(s)[:600]))
    cov = {
        "states": sum(p["states"] for p in parts),
        "transitions": sum(p["transitions"] for p in parts),
        "traces_validated_against_impl": execs,
        "exhaustive": not truncated and not viols and diverged == 0 and not unbuilt,
        "samples": samples or ["none"],
        "parts": [{k: v for k, v in p.items() if k != "samples"} for p in parts],
        "outcomes": sum(p.get("outcomes", 0) for p in parts),
        "truncated_parts": truncated,
        "engines_not_built": sorted(unbuilt),
        "diverged": diverged,
        "explanation": "states: distinct observable states reached; transitions: steps (events delivered, random "
        "choices answered, operations applied) taken; traces_validated_against_impl: complete executions of the real "
        "code that were judged by the reference model, each one trace of the enumerated space",
        "notes": notes,
        "build_s": round(t_build, 1),
    }
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": plan.COMMON_ASSUMPTIONS + plan.ASSUMPTIONS.get(prop, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s: %d executions, %d states, %d transitions in %.1f s (build %.1f s)%s"
          % (prop, execs, cov["states"], cov["transitions"], time.time() - t0, t_build,
             ", truncated: " + ", ".join(truncated) if truncated else ""))
    if viols:
        os.makedirs(os.path.join(VERIF, "build", "replays"), exist_ok=True)
        for i, v in enumerate(viols[:5]):
            path = os.path.join(VERIF, "build", "replays", "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": a.tier, "violation": v,
                           "how": "python3 check.py %s --replay %s" % (prop, path)}, f, indent=1)
            print("  %s / %s: %s" % (v["engine"], v["part"], v["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print(e)
        sys.exit(2)
