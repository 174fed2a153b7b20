#!/usr/bin/env python3
"""Decide one property:  check.py C05   (tier and seed from VERIF_TIER, VERIF_SEED)

A check is a list of stages.  An exhaustive stage lets TLC explore a model
completely.  A trace stage lets the specification generate scenarios, has a
driver execute them against the library in /repo, and lets TLC check the
recorded trace against the specification.

check.py build            compile everything
check.py replay FILE      execute the scenario of a violation again
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
SPEC = VERIF / "spec"
BUILD = VERIF / "build"
TARGET = BUILD / "target"
EVIDENCE = VERIF / "evidence"
TOOLS = Path("/opt/veriftools/tla")
CORES = os.cpu_count() or 4

sys.path.insert(0, str(VERIF))
from stages import CHECKS  # noqa: E402


class ToolError(Exception):
    """The check could not be carried out"""


class Crash(Exception):
    """The driver was ended by the library"""


def run(cmd, timeout, env=None, cwd=VERIF):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, timeout=timeout,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"timeout after {timeout} s: {' '.join(map(str, cmd))}") from e


STAGES = [s for c in CHECKS.values() for s in c["stages"] if "driver" in s]


def build(stages=STAGES):
    """Compile the operator overrides and, from /repo's working tree, the drivers

    A driver that reaches into what an engine is made of may not fit another
    version of the library: it is optional, and what does not build is returned.
    """
    classes = BUILD / "java"
    sources = sorted((VERIF / "java").glob("*.java"))
    stamp = classes / ".stamp"
    newest = max(s.stat().st_mtime for s in sources)
    if not stamp.exists() or stamp.stat().st_mtime < newest:
        classes.mkdir(parents=True, exist_ok=True)
        r = run(["javac", "-nowarn", "-d", classes, "-cp", TOOLS / "tla2tools.jar", *sources], 120)
        if r.returncode:
            raise ToolError("javac failed:\n" + r.stdout)
        stamp.touch()

    def cargo(drivers):
        return run(["cargo", "build", "--offline", "--quiet", *(x for d in drivers for x in ("--bin", d))], 800,
                   cwd=VERIF / "harness", env={"CARGO_TARGET_DIR": str(TARGET), "RUSTFLAGS": "-Awarnings"})

    required = sorted({s["driver"] for s in stages if not s.get("optional")})
    optional = sorted({s["driver"] for s in stages if s.get("optional")} - set(required))
    r = cargo(required + optional)
    if r.returncode == 0:
        return []
    r = cargo(required)
    if r.returncode:
        raise ToolError("the drivers do not build:\n" + r.stdout[-4000:])
    return [d for d in optional if cargo([d]).returncode]


def tlc(module, config, work, env, timeout, workers=1, heap="3g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=NumOverrides:tlc2.overrides.TLCOverrides",
           f"-DTLA-Library={SPEC}", "-cp",
           f"{TOOLS}/tla2tools.jar:{TOOLS}/CommunityModules-deps.jar:{BUILD}/java",
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", str(config), str(SPEC / f"{module}.tla")]
    r = run(cmd, timeout, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    return r


def tail(text, n=25):
    lines = [l for l in text.splitlines() if l.strip() and not re.match(r"Linting|Parsing|Semantic", l)]
    return "\n".join(lines[-n:])


def exhaustive(stage, tier, work):
    """Explore a model completely; it is part of the specification, so it has to hold"""
    cfg = stage["cfg"][tier] if isinstance(stage["cfg"], dict) else stage["cfg"]
    started = time.time()
    r = tlc(stage["module"], SPEC / f"{cfg}.cfg", work, {}, stage.get("timeout", 600), workers=stage.get("workers", 4),
            heap="6g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
    if r.returncode or not m or "No error has been found" not in r.stdout:
        raise ToolError(f"{stage['module']} ({cfg}) does not hold:\n" + tail(r.stdout, 60))
    return {"model": f"{stage['module']}/{cfg}", "states": int(m[2]), "transitions": int(m[1]),
            "wall_s": round(time.time() - started, 1)}


def proof(stage, work):
    """Prove the theorems of a module (TLAPS).  They are about the specification alone: what is not proved in the
    time given is reported, and is no answer about the library"""
    started = time.time()
    home = work / "proof"
    home.mkdir()
    for module in SPEC.glob("*.tla"):
        shutil.copy(module, home)
    try:
        r = run(["tlapm", "--stretch", "5", f"{stage['proof']}.tla"], 240, cwd=home)
        text = r.stdout + (r.stderr or "")
    except (ToolError, OSError, subprocess.TimeoutExpired) as e:
        text = str(e)
    done = re.search(r"All (\d+) obligations? proved", text)
    part = re.search(r"(\d+)/(\d+) obligations? failed", text)
    total = int(done[1]) if done else int(part[2]) if part else 0
    return {"proof": stage["proof"], "obligations": total, "discharged": total - (int(part[1]) if part else 0),
            "checker_cmd": f"tlapm --stretch 5 {stage['proof']}.tla", "wall_s": round(time.time() - started, 1)}


def empty_config(work):
    path = work / "empty.cfg"
    path.write_text("")
    return path


def trace(stage, shard, count, seed, prop, work):
    """Generate scenarios, execute them, check what was recorded"""
    name = f"{stage['name']}-{shard}"
    scenarios, recorded, summary = (work / f"{name}.{x}" for x in ("scenarios", "trace", "summary"))
    env = {"VERIF_SEED": str(seed), "COUNT": str(count), "FAMILY": stage["family"], "OUT": str(scenarios),
           "SHARD": str(shard), "SHARDS": str(stage.get("shards", 1))}
    r = tlc(stage["gen"], empty_config(work), work, env, 600)
    if r.returncode or not scenarios.exists():
        raise ToolError(f"generation of {name} failed:\n" + tail(r.stdout))
    extra = {"HARNESS_WORKERS": str(stage.get("threads", 2)), "HARNESS_LIMIT": str(stage.get("limit", 60)),
             **stage.get("env", {})}
    r = run([TARGET / "debug" / stage["driver"], scenarios, recorded], 800, env=extra)
    if r.returncode:
        raise Crash(f"{stage['driver']} ended with {r.returncode} on {name}\n" + r.stdout[-2000:], scenarios)
    env = {"PROP": prop, "TRACE": str(recorded), "SUMMARY": str(summary),
           "KNOWN": str(VERIF / "known_findings.json")}
    r = tlc(stage["spec"], SPEC / f"{stage['spec']}.cfg", work, env, 800)
    if not summary.exists():
        raise ToolError(f"the trace of {name} was not checked:\n" + tail(r.stdout, 40))
    result = json.loads(summary.read_text().splitlines()[0])
    if not result["bad"] and r.returncode:
        raise ToolError(f"{name}: TLC ended with {r.returncode}\n" + tail(r.stdout, 40))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    result["states"], result["transitions"] = (int(m[2]), int(m[1])) if m else (0, 0)
    lines = scenarios.read_text().splitlines()
    result["scenarios"] = len(lines)
    result["distinct"] = len(set(lines))
    result["sample"] = json.loads(lines[len(lines) // 2]) if lines else None
    for b in result["bad"]:
        b["stage"], b["shard"], b["seed"] = stage["name"], shard, seed
        b["scenario"] = json.loads(lines[b["i"]]) if 0 <= b["i"] < len(lines) else None
        if stage.get("context"):  # the scenarios before it are part of the history
            key = stage["context"]
            history = [json.loads(x) for x in lines]
            b["history"] = [x for x in history if b["scenario"] is None or x[key] == b["scenario"][key]]
    return result


def replay_file(prop, stage, violation):
    folder = EVIDENCE / "replay"
    folder.mkdir(parents=True, exist_ok=True)
    path = folder / f"{prop}-{violation['stage']}-{violation['seed']}-{violation['i']}.json"
    path.write_text(json.dumps({"property": prop, **violation, "stage_def": stage}, indent=1))
    return path.relative_to(VERIF)


def load_known():
    return json.loads((VERIF / "known_findings.json").read_text())


def check(prop):
    started = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    EVIDENCE.mkdir(exist_ok=True)
    BUILD.mkdir(exist_ok=True)
    missing = build([s for s in spec["stages"] if "driver" in s])
    if missing:
        print(f"not built against this version of the library: {', '.join(missing)}")
    work = Path(tempfile.mkdtemp(prefix=f"work-{prop}-", dir=BUILD))
    models, proofs, results, crashes = [], [], [], []
    lock = threading.Lock()

    def one(job):
        kind, stage, args = job
        with lock:
            found = any(r["bad"] for _, r in results)
        if found and time.time() - started > 240:
            return  # there is an answer: do not spend the time limit on engines that hang
        try:
            if kind == "proof":
                value = proof(stage, work)
                with lock:
                    proofs.append(value)
            elif kind == "mc":
                value = exhaustive(stage, tier, work)
                with lock:
                    models.append(value)
            else:
                value = trace(stage, *args, prop, work)
                with lock:
                    results.append((stage, value))
        except Crash as e:
            with lock:
                crashes.append((stage, e.args[0], e.args[1].read_text().splitlines()))

    try:
        jobs = []
        for stage in spec["stages"]:
            if tier not in stage.get("tiers", ("quick", "thorough")) or stage.get("driver") in missing:
                continue
            if "proof" in stage:
                jobs.append(("proof", stage, ()))
                continue
            if "cfg" in stage and "module" in stage:
                jobs.append(("mc", stage, ()))
                continue
            count, shards = stage["count"][tier]
            stage = {**stage, "shards": shards}
            for k in range(shards):
                jobs.append(("trace", stage, (k, count, (seed % 1_000_000) * 1000 + k)))
        with ThreadPoolExecutor(max_workers=max(2, CORES - 2)) as pool:
            list(pool.map(one, jobs))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    bad, known, counts = [], [], {}
    for stage, r in results:
        bad += [(stage, b) for b in r["bad"]]
        known += r["known"]
        for k, v in r["counts"].items():
            if k != "none":
                counts[f"{stage['name']}/{k}"] = counts.get(f"{stage['name']}/{k}", 0) + v
    for stage, message, lines in crashes:
        if prop == "C21":
            bad.append((stage, {"p": prop, "w": "the process was ended: " + message, "i": 0, "stage": stage["name"],
                                "shard": 0, "seed": seed, "history": [json.loads(x) for x in lines]}))
        else:
            raise ToolError(message)

    evidence(prop, tier, seed, spec, models, proofs, results, counts, len(bad), time.time() - started)
    for m in models:
        print(f"model {m['model']}: {m['states']} states, {m['transitions']} transitions, {m['wall_s']} s")
    for x in proofs:
        print(f"proof {x['proof']}: {x['discharged']} of {x['obligations']} obligations, {x['wall_s']} s")
    for key in sorted(counts):
        print(f"  {key}: {counts[key]}")
    listed = {(f["property"], f["id"]): f for f in load_known()["findings"]}
    for name in sorted({k["w"] for k in known}):
        f = listed.get((prop, name))
        if f is None:
            raise ToolError(f"{name} is not listed as a known finding of {prop}")
        print(f"KNOWN-FINDING: property={prop} {name}: {f['what']}")
    seen = set()
    for stage, b in bad:
        key = (b["stage"], b["w"])
        if key in seen:
            continue
        seen.add(key)
        if len(seen) <= 12:
            print(f"{b['stage']} scenario {b['i']} (seed {b['seed']}): {b['w']}")
    if bad:
        stage, b = bad[0]
        print(f"VIOLATION property={prop} replay={replay_file(prop, stage, b)}")
        return 1
    print(f"{prop} held ({tier}, seed {seed}, {time.time() - started:.0f} s)")
    return 0


def evidence(prop, tier, seed, spec, models, proofs, results, counts, violations, wall):
    samples = []
    for stage, r in results:
        if stage["name"] not in {s["stage"] for s in samples} and r["sample"] is not None:
            samples.append({"stage": stage["name"], "scenario": r["sample"]})
    scenarios = sum(r["scenarios"] for _, r in results)
    coverage = {"samples": samples, "counts": counts, "trace_lines_checked": sum(r["lines"] for _, r in results),
                "scenarios_executed": scenarios, "trace_states": sum(r["states"] for _, r in results)}
    if spec["level"] == "model_checking":
        coverage["states"] = sum(m["states"] for m in models)
        coverage["transitions"] = sum(m["transitions"] for m in models)
        coverage["traces_validated_against_impl"] = scenarios
        coverage["models"] = models
        coverage["exhaustive"] = bool(models)
    else:
        coverage["evaluations"] = scenarios
        coverage["distinct_nontrivial"] = sum(r["distinct"] for _, r in results)
        coverage["rule"] = spec["rule"]
        if models:
            coverage["models"] = models
    if proofs:
        coverage["proofs"] = proofs
    data = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": coverage,
            "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 1), "violations": violations}
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(data, indent=1))


def replay(path):
    data = json.loads(Path(path).read_text())
    stage, prop = data["stage_def"], data["property"]
    build([{**stage, "optional": False}])
    work = Path(tempfile.mkdtemp(prefix="replay-", dir=BUILD))
    try:
        scenarios, recorded, summary = (work / x for x in ("scenarios", "trace", "summary"))
        lines = data.get("history") or [data["scenario"]]
        scenarios.write_text("".join(json.dumps(x) + "\n" for x in lines))
        r = run([TARGET / "debug" / stage["driver"], scenarios, recorded], 800,
                env={"HARNESS_WORKERS": str(stage.get("threads", 2)), "HARNESS_LIMIT": "120", **stage.get("env", {})})
        if r.returncode:
            print(f"the driver ended with {r.returncode}\n{r.stdout[-2000:]}")
            return 1
        r = tlc(stage["spec"], SPEC / f"{stage['spec']}.cfg", work,
                {"PROP": prop, "TRACE": str(recorded), "SUMMARY": str(summary),
                 "KNOWN": str(VERIF / "known_findings.json")}, 800)
        if not summary.exists():
            raise ToolError(tail(r.stdout, 40))
        bad = json.loads(summary.read_text().splitlines()[0])["bad"]
        for b in bad:
            print(f"{b['p']}: {b['w']}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "build":
            build()
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except ToolError as e:
        print(f"error: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
