#!/usr/bin/env python3
"""plant.py SPEC...  Confirms a planted bug in scratch copies of /repo and writes /verif/seeded/<id>.

A spec is a Python file that defines: property, needs, breaks, edits = [(file, old, new)],
main (the driver's main.rs) or files ({path: text}), and optionally args and run (lines of
demo.sh). Nothing here is read by a check."""
import json, os, re, shutil, subprocess, sys, tempfile

TOOLS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(TOOLS)

def sh(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def plant(path):
    ident = os.path.basename(path)[:-3]
    spec = {}
    exec(open(path).read(), spec)
    top = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = f"{top}/repo"
        subprocess.check_call(f"git clone -q /repo {repo}", shell=True)
        for f, old, new in spec["edits"]:
            p = f"{repo}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return ident, f"FAIL: {f}: {s.count(old)} occurrences of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output("git diff", shell=True, cwd=repo, text=True)
        base = {}
        out = f"{top}/out"
        os.makedirs(out)
        for d in ("shims",):
            shutil.copytree(f"{VERIF}/{d}", f"{out}/{d}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        shutil.copytree(f"{TOOLS}/demo/real", f"{out}/real")
        shutil.copytree(f"{TOOLS}/demo/driver", f"{out}/driver")
        if "main" in spec:
            open(f"{out}/driver/src/main.rs", "w").write(spec["main"].lstrip())
        for f, text in spec.get("files", {}).items():
            os.makedirs(os.path.dirname(f"{out}/{f}"), exist_ok=True)
            open(f"{out}/{f}", "w").write(text.lstrip())
        main = open(f"{out}/driver/src/main.rs").read()
        if "mod cairo" not in main:
            os.remove(f"{out}/driver/src/cairo.rs")
        demo = open(f"{TOOLS}/demo/demo.sh").read()
        demo = demo.replace("@ARGS@", spec.get("args", "")).replace("@RUN@", spec.get("run", '"$W/target/debug/driver"'))
        open(f"{out}/demo.sh", "w").write(demo)
        os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/patch.diff", "w").write(diff)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        runs = spec.get("runs", 1)
        for _ in range(runs):
            rc, log = sh(f"timeout 280 bash {out}/demo.sh", repo)
            if rc == 0 or rc == 99:
                return ident, f"FAIL: with the patch the demo exits {rc}\n{log[-3000:]}"
        bad = log[-300:]
        subprocess.check_call("git checkout -q -- .", shell=True, cwd=repo)
        for _ in range(runs):
            rc, log = sh(f"timeout 280 bash {out}/demo.sh", repo)
            if rc != 0:
                return ident, f"FAIL: without the patch the demo exits {rc}\n{log[-3000:]}"
        dst = f"{VERIF}/seeded/{ident}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return ident, "ok: " + bad.strip().replace("\n", " | ")
    finally:
        shutil.rmtree(top, ignore_errors=True)

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for ident, msg in ex.map(plant, sys.argv[1:]):
            print(ident, msg, flush=True)
