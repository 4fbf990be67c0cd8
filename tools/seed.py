#!/usr/bin/env python3
"""Makes and tries the planted bugs of seeds.py: seeded/<id>/ with patch, demonstration and description.

    seed.py make [id...]     write the folders
    seed.py try [id...]      demo on the unchanged tree and with the patch, build, stable tests, and the property's check
                             (in /repo itself, undone afterwards)
    seed.py demo [id...]     the demos only, in scratch copies
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS

DEMO_SH = r'''#!/bin/bash
# Builds demo.cpp with the sources of the repository (current directory) and stand-ins for ROS 2, and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
tar xzf "$D/kit.tgz" -C "$T"
K=$T/kit
python3 "$K/msggen.py" "$T/gen" "ndt_2d=$R" $(for p in "$K"/stubs/msgs/*/; do p=${p%%/}; echo "$(basename "$p")=$p"; done)
F="-std=c++17 -w -pthread -I$K/stubs/include -I$T/gen -I$R/include -I$K -isystem /usr/include/eigen3 @FLAGS@"
mkdir "$T/o"
pids=()
for s in @SOURCES@; do
  case $s in
    demo.cpp) p=$D/$s ;;
    det_rng.cpp) p=$K/$s ;;
    *) p=$R/src/$s; [ -f "$p" ] || continue ;;
  esac
  g++ $F -c "$p" -o "$T/o/$s.o" &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ $F "$T"/o/*.o @LINK@ -o "$T/demo"
cd "$T"
@ENV@timeout 120 "$T/demo"
'''
WRAP = "-Wl,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock -lceres -lglog"
SETS = {
    "ndt": ["ndt_model.cpp", "scan.cpp"],
    "scan": ["scan.cpp", "constraint.cpp"],
    "ceres": ["ceres_solver.cpp", "scan.cpp", "constraint.cpp"],
    "filter": ["motion_model.cpp", "particle_filter.cpp", "scan.cpp", "det_rng.cpp"],
    "matcher": ["scan_matcher_ndt.cpp", "ndt_model.cpp", "scan.cpp"],
    "occ": ["occupancy_grid.cpp", "scan.cpp"],
    "graph": ["graph.cpp", "scan.cpp", "constraint.cpp"],
    "mapper": None,
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def kit():
    t = tempfile.mkdtemp()
    k = t + "/kit"
    os.makedirs(k)
    shutil.copytree(V + "/stubs", k + "/stubs")
    for f in ("vh.hpp", "vt.hpp", "mw.hpp", "geom.hpp", "det_rng.cpp"):
        shutil.copy(V + "/harness/" + f, k)
    shutil.copy(V + "/lib/msggen.py", k)
    shutil.copy(V + "/tools/seedkit/demo.hpp", k)
    subprocess.check_call("tar --sort=name --mtime=2026-01-01 --owner=0 --group=0 -cf - kit | gzip -9n > kit.tgz", shell=True, cwd=t)
    return t, t + "/kit.tgz"


def check_original(wt, sid):
    """Every line a planted bug replaces stands in the first commit already."""
    base = subprocess.check_output(["git", "-C", wt, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    diff = subprocess.check_output(["git", "-C", wt, "diff", "-U0"], text=True)
    f, removed = None, 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
            blame = [b.lstrip("^") for b in subprocess.check_output(["git", "-C", wt, "blame", "-l", "HEAD", "--", f], text=True).splitlines()]
        elif l.startswith("@@"):
            at = l.split()[1][1:].split(",")
            n = int(at[1]) if len(at) > 1 else 1
            for i in range(n):
                removed += 1
                if not base.startswith(blame[int(at[0]) - 1 + i].split()[0][:38]):
                    print("WARNING", sid, "replaces a line of a fix:", f, int(at[0]) + i)
    if not removed:
        print("WARNING", sid, "replaces no line")


def make(ids):
    kt, kz = kit()
    wt = tempfile.mkdtemp() + "/r"
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: %d occurrences in %s of:\n%s" % (s["id"], t.count(old), f, old))
            open(p, "w").write(t.replace(old, new))
        check_original(wt, s["id"])
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        if "script" in s:
            open(d + "/demo.sh", "w").write(s["script"])
            for n, c in s.get("files", {}).items():
                open(os.path.join(d, n), "w").write(c)
        else:
            src = SETS[s["set"]]
            link, flags = "", s.get("flags", "-O1")
            if src is None:
                src = "ALL"
            srcs = "demo.cpp " + (" ".join(src) if src != "ALL" else "det_rng.cpp $(cd \"$R/src\" && ls *.cpp)")
            if s["set"] == "mapper":
                link = WRAP
            if s["set"] == "ceres":
                link = "-lceres -lglog"
            t = DEMO_SH.replace("@SOURCES@", srcs).replace("@LINK@", link).replace("@FLAGS@", flags).replace("@ENV@", s.get("env", ""))
            t = t.replace("${p%%/}", "${p%/}")
            open(d + "/demo.sh", "w").write(t)
            open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
            shutil.copy(kz, d + "/kit.tgz")
        os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(kt)
    shutil.rmtree(os.path.dirname(wt))


def demo(ids):
    import concurrent.futures as cf
    def one(s):
        d = os.path.join(V, "seeded", s["id"])
        t = tempfile.mkdtemp()
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/repo"])
        a = sh(["bash", d + "/demo.sh"], cwd=t + "/repo")
        p = sh(["git", "apply", d + "/patch.diff"], cwd=t + "/repo")
        b = sh(["bash", d + "/demo.sh"], cwd=t + "/repo")
        shutil.rmtree(t)
        ok = a.returncode == 0 and p.returncode == 0 and b.returncode != 0 and ": error:" not in b.stdout
        return "%s: %s (clean %d, patched %d)%s" % (s["id"], "ok" if ok else "BAD", a.returncode, b.returncode,
            "\n" + a.stdout[-1500:] + "\n---\n" + p.stdout + b.stdout[-1500:] if not ok else "  | " + " ".join(b.stdout.strip().splitlines()[-1:])[:150])
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, [s for s in SEEDS if not ids or s["id"] in ids]):
            print(r, flush=True)


def attempt(ids):
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", s["id"])
        try:
            r = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            if r.returncode:
                print(s["id"], "does not apply", r.stdout)
                continue
            t = sh(["bash", "/opt/vp/test.sh", "/tmp/o.json"])
            o = json.load(open("/tmp/o.json"))
            tests = t.returncode == 0 and not o["failed"] and len(o["passed"]) >= 5
            dm = "-"
            res = []
            for q in [s["prop"]] + s.get("also", []):
                c = sh([sys.executable, V + "/lib/check.py", q], cwd=V)
                lines = [l for l in c.stdout.splitlines() if l.startswith("  case")]
                res.append("%s=%s %s" % (q, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(c.returncode, c.returncode), (lines[0][:110] if lines else c.stdout[-300:] if c.returncode == 2 else "")))
            print("%-28s tests %s | %s" % (s["id"], "pass" if tests else "FAIL " + str(o["failed"]), " | ".join(res)), flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])


if __name__ == "__main__":
    dict(make=make, demo=demo)[sys.argv[1]](sys.argv[2:]) if sys.argv[1] != "try" else attempt(sys.argv[2:])
