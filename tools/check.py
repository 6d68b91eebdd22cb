#!/usr/bin/env python3
"""Decide one property:  check.py <property id> [quick|thorough]

Every property is decided by the same three-step pipeline (see DESIGN.md):
  1. TLC explores a TLA+ machine from spec/, checking the specification's own invariants, and emits
     the behaviours it explored as cases;
  2. the cases are replayed into the real crate by the conformance harness (built here from
     /repo's working tree), which compares every observation with the specification's;
  3. the harness records randomised runs of the real crate, and TLC validates the recorded trace
     against the specification.

Exit status: 0 the property held on everything explored (known findings are listed),
1 a violation (with a VIOLATION line), 2 the machinery itself failed.
"""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
REPLAYS = os.path.join(ROOT, "out", "replays")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAX_REPORTED = 20


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ)
    for line in open("/opt/vp/env.sh"):
        m = re.match(r"export (\w+)=(.*)$", line.strip())
        if m:
            env[m.group(1)] = m.group(2).strip('"')
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTFLAGS"] = "-Awarnings"
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("the harness does not build against /repo:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "debug", "conformance")


def tlc(work, module, constants, out, init_next=("Init", "Next"), invariants=(), properties=(),
        postcondition=None, env=None, workers="auto", extra=(), constraints=(), timeout=800):
    cfg = os.path.join(work, os.path.basename(out) + ".cfg")
    with open(cfg, "w") as f:
        f.write(f"INIT {init_next[0]}\nNEXT {init_next[1]}\nCHECK_DEADLOCK FALSE\n")
        for i in invariants:
            f.write(f"INVARIANT {i}\n")
        for p in properties:
            f.write(f"PROPERTY {p}\n")
        for c in constraints:
            f.write(f"CONSTRAINT {c}\n")
        if postcondition:
            f.write(f"POSTCONDITION {postcondition}\n")
        for k, v in constants.items():
            f.write(f"CONSTANT {k} = {tla(v)}\n")
    meta = os.path.join(work, os.path.basename(out) + ".meta")
    gc = "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-XX:ParallelGCThreads=3", "-Xmx3500m", "-Xss256m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + work,
           "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-cp", JARS, "tlc2.TLC",
           "-workers", workers, "-nowarning", "-noTE", "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e["LC_ALL"] = "C.UTF-8"
    e.update(env or {})
    with open(out, "w") as f:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    stats = {"states": 0, "transitions": 0, "depth": 0}
    tail = []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"CASE ') or line.startswith('"MISMATCH '):
                continue
            tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                stats["transitions"], stats["states"] = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                stats["transitions"] = stats["states"] = int(m.group(1))
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                stats["depth"] = int(m.group(1))
    if r.returncode:
        first = next((i for i, l in enumerate(tail) if "rror" in l and "Semantic" not in l), 0)
        raise ToolError(f"TLC failed on {module} (exit {r.returncode}):\n" + "".join(tail[first:])[:3000])
    return stats


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ToolError(f"no TLA+ form for {v!r}")


def limits():
    # An explosion in the code under test must not take the sandbox down.
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def case_key(op, inp):
    return op + " " + json.dumps(inp, sort_keys=True, ensure_ascii=False, separators=(",", ":"))


def died(rc):
    if rc == 97:
        return "no answer within 20 s"
    if rc < 0:
        return f"killed by {signal.Signals(-rc).name}"
    return f"exit status {rc}"


def replay(binary, path, work):
    """Replay a case file; returns (summary, mismatches)."""
    r = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, preexec_fn=limits, errors="replace")
    if r.returncode:
        # The code under test took the whole process down: find out on which case.
        journal = path + ".journal"
        r2 = subprocess.run([binary, "replay", path, journal], stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, preexec_fn=limits, errors="replace")
        if r2.returncode == 0:
            r = r2
        else:
            try:
                case = json.load(open(journal))
            except (OSError, ValueError):
                raise ToolError(f"harness died ({died(r2.returncode)}): {r2.stderr[-2000:]}")
            case["got"] = {"process": died(r2.returncode)}
            return {"cases": 0, "mismatches": 1, "ops": {}, "samples": []}, [case]
    mismatches, summary = [], None
    for line in r.stdout.split("\n"):  # (not splitlines(): texts may hold other line separators)
        if line.startswith("SUMMARY "):
            summary = json.loads(line[8:])
        elif line:
            mismatches.append(json.loads(line))
    if summary is None:
        raise ToolError("harness gave no summary")
    if summary["undecoded"]:
        raise ToolError(f"{summary['undecoded']} cases could not be decoded or executed")
    return summary, mismatches


def record(binary, area, seed, count, path):
    """Record a random run of the real code; returns None or the operation that killed it."""
    with open(path, "w") as f:
        r = subprocess.run([binary, "record", area, str(seed), str(count)], stdout=f,
                           stderr=subprocess.PIPE, text=True, preexec_fn=limits, errors="replace")
    if r.returncode == 0:
        return None
    if r.returncode not in (97,) and r.returncode > 0 and r.returncode != 134:
        raise ToolError(f"recording {area} failed (exit {r.returncode}): {r.stderr[-2000:]}")
    inputs = subprocess.run([binary, "inputs", area, str(seed), str(count)], stdout=subprocess.PIPE,
                            text=True, errors="replace").stdout.split("\n")[:-1]
    for line in inputs:
        r2 = subprocess.run([binary, "observe"], input=line + "\n", stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, preexec_fn=limits, errors="replace")
        if r2.returncode:
            case = json.loads(line)
            case["out"], case["got"] = "an outcome", {"process": died(r2.returncode)}
            return case
    raise ToolError(f"recording {area} died ({died(r.returncode)}) but no single operation does")


def abnormal(log, counts):
    """Take panics and self-contradictions out of a recorded log: no step of the specification has
    such an outcome, and the rest of the log is left for TLC to judge."""
    bad, keep = [], []
    with open(log) as f:
        for line in f:
            if '"panic":' in line or '"disagreement":' in line or '"out":{"refused":' in line:
                case = json.loads(line)
                bad.append({"op": case["op"], "in": case["in"], "out": "an outcome without contradiction or panic",
                            "got": case["out"]})
            else:
                keep.append(line)
            op = re.search(r'"op":"([^"]*)"', line).group(1)
            counts[op] = counts.get(op, 0) + 1
    with open(log, "w") as f:
        f.writelines(keep)
    return bad


def mismatches_in(path):
    found, lines = [], None
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith('"MISMATCH '):
                found.append(json.loads(json.loads(line)[9:]))
            elif line.startswith('"TRACE-LINES '):
                lines = int(json.loads(line).split()[1])
    return found, lines


def known_findings(prop):
    keys = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(.*?) \|\| (.*)$", line.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def main():
    if sys.argv[1:] == ["--build"]:
        try:
            print("built", build())
            return 0
        except ToolError as e:
            print(f"ERROR: {e}", file=sys.stderr)
            return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = PLAN[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return run(prop, tier, seed, plan, work, t0)
    except ToolError as e:
        print(f"ERROR: {prop}: {e}", file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print(f"ERROR: {prop}: timeout: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, plan, work, t0):
    binary = build()
    t_build = time.time() - t0
    bad = []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "machines": [], "operations": {}}

    def account(summary):
        cov["samples"] += summary["samples"]
        for op, c in summary["ops"].items():
            o = cov["operations"].setdefault(op, {"replayed": 0, "accepted_by_spec": 0, "recorded": 0})
            o["replayed"] += c["cases"]
            o["accepted_by_spec"] += c["accepted"]

    jobs = []
    for n, stage in enumerate(plan["stages"]):
        if stage["kind"] == "explore":
            for k, split in enumerate(stage.get("split", [{}])):
                jobs.append((n, k, stage, split))
        elif stage["kind"] == "record":
            for k in range(stage.get("runs", {}).get(tier, 1)):
                jobs.append((n, k, stage, {}))
        else:
            raise ToolError(f"unknown stage kind {stage['kind']}")

    def job(args):
        n, k, stage, split = args
        t = time.time()
        out = os.path.join(work, f"{n}.{k}.out")
        res = {"n": n, "module": stage.get("module", "Trace"), "bad": [], "summary": None, "recorded": {},
               "stats": {"states": 0, "transitions": 0, "depth": 0}, "lines": 0}
        if stage["kind"] == "explore":
            constants = {"Tier": tier, **stage.get("constants", {}), **split}
            extra = []
            if "simulate" in stage:
                num, depth = stage["simulate"][tier]
                extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed * 1000 + k)]
            res["stats"] = tlc(work, stage["module"], constants, out,
                               invariants=stage.get("invariants", ()), properties=stage.get("properties", ()),
                               constraints=stage.get("constraints", ()), extra=extra,
                               workers="1" if "simulate" in stage or "split" in stage else "3")
            res["summary"], res["bad"] = replay(binary, out, work)
        else:
            log = os.path.join(work, f"{n}.{k}.ndjson")
            killer = record(binary, stage["area"], seed * 1000 + k, stage["count"][tier], log)
            if killer:
                res["bad"].append(killer)
            else:
                res["bad"] += abnormal(log, res["recorded"])
                res["stats"] = tlc(work, stage.get("module", "Trace"), {}, out, postcondition="Complete",
                                   env={"TRACE": log}, workers="1")
                mism, lines = mismatches_in(out)
                if lines is None:
                    raise ToolError("trace validation did not finish")
                res["lines"] = lines
                res["bad"] += mism
            if os.path.exists(log):
                os.unlink(log)
        if os.path.exists(out):
            os.unlink(out)
        res["wall"] = time.time() - t
        return res

    def guarded(args):
        try:
            return job(args)
        except (ToolError, subprocess.TimeoutExpired) as e:
            return e

    with ThreadPoolExecutor(max_workers=8) as pool:
        results = list(pool.map(guarded, jobs))
    failed = [r for r in results if isinstance(r, Exception)]
    results = [r for r in results if not isinstance(r, Exception)]
    # What one part cannot decide does not hide what another part found.
    if failed and not any(r["bad"] for r in results):
        raise failed[0]
    for e in failed:
        print(f"ERROR: {prop}: {e}", file=sys.stderr)

    for n, stage in enumerate(plan["stages"]):
        mine = [r for r in results if r["n"] == n]
        if not mine:
            continue
        entry = {"module": mine[0]["module"], "states": 0, "transitions": 0, "depth": 0, "processes": len(mine),
                 "cpu_s": round(sum(r["wall"] for r in mine), 1)}
        cases = lines = 0
        for r in mine:
            bad += r["bad"]
            for k in ("states", "transitions"):
                entry[k] += r["stats"][k]
                cov[k] += r["stats"][k]
            entry["depth"] = max(entry["depth"], r["stats"]["depth"])
            lines += r["lines"]
            if r["summary"]:
                account(r["summary"])
                cases += r["summary"]["cases"]
            for op, c in r["recorded"].items():
                cov["operations"].setdefault(op, {"replayed": 0, "accepted_by_spec": 0, "recorded": 0})["recorded"] += c
        cov["traces_validated_against_impl"] += cases + lines
        if stage["kind"] == "explore":
            if cases == 0 and not bad and not failed:
                raise ToolError(f"{stage['module']} emitted no cases")
            entry["cases_replayed"] = cases
        else:
            entry["area"], entry["recorded_lines_validated"] = stage["area"], lines
        cov["machines"].append(entry)

    known = known_findings(prop)
    seen_known, violations = {}, {}
    for m in bad:
        key = case_key(m["op"], m["in"])
        if key in known:
            seen_known[key] = m
        else:
            violations.setdefault(key, m)

    cov["known_findings_seen"] = len(seen_known)
    cov["violations"] = len(violations)
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                "wall_s": round(time.time() - t0, 1), "build_s": round(t_build, 1)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for key, what in known.items():
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {what}")
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        order = sorted(violations.values(), key=lambda m: len(json.dumps(m)))
        for i, m in enumerate(order[:MAX_REPORTED]):
            h = hashlib.sha256(case_key(m["op"], m["in"]).encode()).hexdigest()[:12]
            path = os.path.join(REPLAYS, f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(m, f, ensure_ascii=False)
                f.write("\n")
            if i < 5:
                print(f"  {m['op']} {json.dumps(m['in'], ensure_ascii=False)[:400]}\n"
                      f"    specification: {json.dumps(m['out'], ensure_ascii=False)[:600]}\n"
                      f"    code:          {json.dumps(m['got'], ensure_ascii=False)[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        print(f"{len(violations)} violating cases")
        return 1
    print(f"{prop}: held on {cov['traces_validated_against_impl']} cases "
          f"({cov['states']} states, {cov['transitions']} transitions) in {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
