#!/usr/bin/env python3
"""Plant a bug:  plant.py make FILE.py...   verify and store the bugs defined in FILE.py under seeded/
                 plant.py catch [ID...]     run each stored bug's check with the bug applied (in a namespace)
FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust main())].
"""
import json, os, re, runpy, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SCRATCH = "/tmp/plant"

DEMO_SH = r'''#!/bin/bash
# Exit 0 when the property holds for the demonstrated case, nonzero otherwise. Runs in the repository.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp "$repo/Cargo.lock" "$work/Cargo.lock" || exit 2
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
compose_spec = { path = "$repo" }
indexmap = "2"
serde = "1"
serde_yaml = "0.9"
[workspace]
[profile.dev]
debug = false
incremental = false
TOML
cd "$work" && CARGO_TARGET_DIR="$work/target" RUSTFLAGS=-Awarnings timeout 240 cargo run --offline --quiet
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def blamed(patch):
    """The lines which the patch removes and which do not come from the original commit."""
    base = sh("git rev-list --max-parents=0 HEAD", SCRATCH).stdout.strip()
    bad, removed, f, n = [], 0, None, 0
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and f and not line.startswith("---"):
            removed += 1
            if not sh(f"git blame -l -s -L {n},{n} HEAD -- {f}", SCRATCH).stdout.lstrip("^").startswith(base[:39]):
                bad.append(line)
            n += 1
        elif not line.startswith("+"):
            n += 1
    return bad or (["nothing removed"] if not removed else [])


def make(bugs):
    if not os.path.isdir(SCRATCH):
        subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for b in bugs:
        sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SCRATCH)
        if sh("git diff --quiet HEAD", SCRATCH).returncode:
            raise SystemExit("scratch copy is dirty")
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{b['id']}: {f}: text occurs {s.count(old)} times: {old!r}")
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        patch = sh("git diff", SCRATCH).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"].strip() + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH.replace("serde_yaml = ", b.get("deps", "") + "serde_yaml = "))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        blame = blamed(patch)
        if blame:
            print("BAD ", b["id"], "changes lines of later commits:", blame)
        t = sh(". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --include-ignored 2>&1", SCRATCH)
        failed = re.findall(r"^test (.*) \.\.\. FAILED", t.stdout, re.M)
        ok = len(re.findall(r"^test .* \.\.\. ok", t.stdout, re.M))
        compiled = "could not compile" not in t.stdout
        bad = sh(os.path.join(d, "demo.sh"), SCRATCH)
        sh("git checkout -q -- .", SCRATCH)
        good = sh(os.path.join(d, "demo.sh"), "/repo")
        verdict = not blame and compiled and not failed and ok and bad.returncode and good.returncode == 0
        print(("OK  " if verdict else "BAD ") + b["id"], f"tests ok={ok} failed={failed} compiled={compiled}",
              f"demo patched={bad.returncode} clean={good.returncode}", flush=True)
        if not verdict:
            print(t.stdout[-2000:] if not compiled else "", bad.stdout[-500:] if not failed else "", good.stdout[-500:])
            shutil.rmtree(d)
        else:
            last = [l for l in bad.stdout.splitlines() if l.strip()][:3]
            print("    ", " / ".join(last)[:300])
            if "error: could not compile" in bad.stdout:
                print("     demo does not compile!")


def catch(ids):
    """In a mount namespace in which copies stand in for /repo and /verif, so that nothing else notices."""
    repo, verif = "/tmp/catch/repo", "/tmp/catch/verif"
    os.makedirs("/tmp/catch", exist_ok=True)
    sh(f"rm -rf {repo} && cp -a /repo {repo} && git checkout -q HEAD -- .", "/")
    sh(f"mkdir -p {verif} && rsync -a --delete --exclude /.git --exclude /out --exclude /evidence /verif/ {verif}/ || "
       f"(rm -rf {verif} && cp -a /verif {verif})", "/")
    missed = []
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        sh("git checkout -q -- .", repo)
        t0 = time.time()
        a = sh(f"git apply {d}/patch.diff", repo)
        if a.returncode:
            print("BAD ", i, "does not apply", a.stdout)
            continue
        r = sh(f"unshare -m sh -c 'mount --bind {repo} /repo && mount --bind {verif} /verif && cd /verif && python3 tools/check.py {prop} quick'", "/")
        hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        print(("CAUGHT " if hit else "MISSED ") + i, prop, f"exit {r.returncode} {time.time()-t0:.0f} s", flush=True)
        first = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith("KNOWN-FINDING")][:3]
        print("      ", "\n       ".join(l[:220] for l in first), flush=True)
        if not hit:
            missed.append(i)
    print("missed:", missed)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            make(runpy.run_path(f)["BUGS"])
    else:
        catch(sys.argv[2:])
