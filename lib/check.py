#!/usr/bin/env python3
"""Builds a harness from /repo's working tree and lets its monitors judge it.

    check.py C01              run one check (tier from VERIF_TIER, seed from VERIF_SEED)
    check.py C01 --replay F   run again the one case a replay file names
    check.py --setup          build everything once

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself failed (build error, harness error, nothing observed).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 1)

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-Wall", "-Wextra", "-pthread"]
ASAN = ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
TSAN = ["-O1", "-fsanitize=thread"]
GLIBCXX = ["-D_GLIBCXX_ASSERTIONS"]
# std::normal_distribution asserts a positive deviation; a deviation of zero is how
# "no noise" is configured here, so these two files are built without the assertions.
NO_ASSERT = {"motion_model.cpp", "particle_filter.cpp"}

LIBS = ["-lceres", "-lglog"]
WRAP = ["-Wl,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"]

# harness -> file, needed repo sources (None = all), mode, extra flags
H = {
    "ndt":     dict(src="h_ndt.cpp", repo=["ndt_model.cpp", "scan.cpp"]),
    "scan":    dict(src="h_scan.cpp", repo=["scan.cpp", "constraint.cpp"]),
    "ceres":   dict(src="h_ceres.cpp", repo=["ceres_solver.cpp", "scan.cpp", "constraint.cpp"], libs=LIBS),
    "filter":  dict(src="h_filter.cpp", more=["det_rng.cpp"], repo=["motion_model.cpp", "particle_filter.cpp", "scan.cpp"]),
    "matcher": dict(src="h_matcher.cpp", repo=["scan_matcher_ndt.cpp", "ndt_model.cpp", "scan.cpp"]),
    "occ":     dict(src="h_occ.cpp", repo=["occupancy_grid.cpp", "scan.cpp"]),
    "graph":   dict(src="h_graph.cpp", repo=["graph.cpp", "scan.cpp", "constraint.cpp"]),
    "mapper":  dict(src="h_mapper.cpp", more=["det_rng.cpp"], repo=None, libs=LIBS, link=WRAP),
    "system":  dict(src="h_system.cpp", more=["det_rng.cpp"], repo=None, libs=LIBS, link=WRAP),
    "race":    dict(src="h_race.cpp", more=["det_rng.cpp"], repo=None, libs=LIBS, link=WRAP),
    "race_t":  dict(src="h_race.cpp", more=["det_rng.cpp"], repo=None, libs=LIBS, link=WRAP, mode="tsan"),
}
# property -> list of (harness, property name inside the harness, timeout factor)
P = {
    "C01": ["ndt"], "C02": ["ndt"], "C03": ["ndt"], "C04": ["scan"], "C05": ["scan"],
    "C06": ["ceres"], "C07": ["ceres"], "C08": ["filter"], "C09": ["filter"], "C10": ["filter"],
    "C11": ["filter"], "C12": ["filter"], "C13": ["matcher"], "C14": ["matcher"], "C15": ["matcher"],
    "C16": ["occ"], "C17": ["occ"], "C18": ["graph"], "C19": ["graph"], "C20": ["graph"],
    "C21": ["race_t", "race"], "C22": ["mapper"], "C23": ["mapper"], "C24": ["mapper"],
    "C25": ["mapper"], "C26": ["mapper"], "C27": ["mapper"], "C28": ["mapper"], "C29": ["system"],
    "C30": ["scripts"], "C31": ["system"], "C32": ["system"],
}


class HarnessError(Exception):
    pass


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree(*dirs, exts=(".h", ".hpp", ".msg", ".srv")):
    out = []
    for d in dirs:
        for base, _, files in os.walk(d):
            for f in files:
                if f.endswith(exts):
                    out.append(os.path.join(base, f))
    return sorted(out)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(struct.pack("<Q", len(p)))
        h.update(p)
    return h.hexdigest()[:24]


def digest_files(files):
    return digest(*[x for f in files for x in (f, read(f))])


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        msgs = tree(os.path.join(VERIF, "stubs", "msgs"), os.path.join(REPO, "msg"), os.path.join(REPO, "srv"))
        gen_py = os.path.join(VERIF, "lib", "msggen.py")
        self.gen = os.path.join(BUILD, "gen-" + digest(digest_files(msgs), read(gen_py)))
        if not os.path.isdir(self.gen):
            tmp = tempfile.mkdtemp(dir=BUILD)
            pk = os.path.join(VERIF, "stubs", "msgs")
            r = run([sys.executable, gen_py, tmp, "ndt_2d=" + REPO] +
                    ["%s=%s" % (p, os.path.join(pk, p)) for p in sorted(os.listdir(pk))])
            if r.returncode:
                raise HarnessError("message generation failed:\n" + r.stdout)
            try:
                os.rename(tmp, self.gen)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.inc = ["-I" + os.path.join(VERIF, "stubs", "include"), "-I" + self.gen, "-I" + os.path.join(REPO, "include"),
                    "-I" + os.path.join(VERIF, "harness"), "-isystem", "/usr/include/eigen3"]
        self.headers = digest(self.gen, digest_files(tree(os.path.join(VERIF, "stubs", "include"),
                              os.path.join(REPO, "include"), os.path.join(VERIF, "harness"))))

    def obj(self, src, flags):
        key = digest(" ".join(flags), self.headers, src, read(src))
        out = os.path.join(BUILD, "obj-" + key + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = run(["g++"] + COMMON + flags + self.inc + ["-c", src, "-o", tmp])
            if r.returncode:
                raise HarnessError("cannot compile %s:\n%s" % (src, r.stdout[-6000:]))
            os.rename(tmp, out)
        return out

    def harness(self, name, repo=None):
        h = H[name]
        mode = TSAN if h.get("mode") == "tsan" else ASAN
        extra = list(h.get("flags", []))
        allsrc = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
        want = repo if repo is not None else (h["repo"] or allsrc)
        want = [w for w in want if w in allsrc]
        if h["repo"] is not None:   # new files may hold code moved out of these
            known = {f for x in H.values() for f in (x["repo"] or [])} | {"ndt_mapper.cpp"}
            want += [f for f in allsrc if f not in known and f not in want]
        jobs = []
        for s in want:
            fl = list(mode) + ([] if s in NO_ASSERT else GLIBCXX) + extra
            jobs.append((os.path.join(REPO, "src", s), fl))
        hs = [h["src"]] + h.get("more", [])
        for s in hs:
            jobs.append((os.path.join(VERIF, "harness", s), list(mode) + GLIBCXX + extra + h.get("hflags", [])))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda j: self.obj(*j), jobs))
        exe = os.path.join(BUILD, "bin-" + name + "-" + digest(" ".join(objs), " ".join(mode), repr(h)))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = run(["g++"] + COMMON + mode + objs + h.get("link", []) + h.get("libs", []) + ["-o", tmp])
            if r.returncode:
                if "undefined reference" in r.stdout and h["repo"] is not None and repo is None:
                    h["libs"] = LIBS
                    return self.harness(name, repo=allsrc)
                raise HarnessError("cannot link %s:\n%s" % (name, r.stdout[-6000:]))
            os.rename(tmp, exe)
        return exe


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=12000",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0:detect_deadlocks=1",
    "GLOG_minloglevel": "2",
}


class Shard:
    """One process working through part of the cases, with a per-case watchdog."""

    def __init__(self, exe, prop, tier, seed, i, n, work, case=None, start=0):
        self.args = (exe, prop, tier, seed, i, n, work, case)
        tag = "%s.%d.%s" % (os.path.basename(exe), i, "x" if case is None else case)
        self.progress = os.path.join(work, tag + ".progress")
        self.hashes = os.path.join(work, tag + ".%d.hashes" % start)
        self.out = os.path.join(work, tag + ".%d.out" % start)
        with open(self.progress, "wb") as f:
            f.write(struct.pack("<q", -1))
        cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(i), "--nshards", str(n),
               "--progress", self.progress, "--hashes", self.hashes, "--start", str(start)]
        if case is not None:
            cmd += ["--case", str(case)]
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["TMPDIR"] = work
        self.f = open(self.out, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                                  cwd=work, start_new_session=True)
        self.last, self.stalled, self.seen, self.hung = None, 0.0, time.monotonic(), False

    def case(self):
        with open(self.progress, "rb") as f:
            b = f.read(8)
        return struct.unpack("<q", b)[0] if len(b) == 8 else -1

    def poll(self, limit):
        if self.p.poll() is not None:
            self.f.close()
            return True
        c = self.case()
        # a pause of the whole machine does not count
        self.stalled += min(0.5, time.monotonic() - self.seen)
        self.seen = time.monotonic()
        if c != self.last:
            self.last, self.stalled = c, 0.0
        elif self.stalled > limit:
            self.hung = True
            try:
                os.killpg(self.p.pid, signal.SIGABRT)
                self.p.wait(10)
            except Exception:
                pass
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.f.close()
            return True
        return False

    def text(self):
        return read(self.out).decode("utf-8", "replace")


def frame_key(text):
    """Functions of the code under test in the innermost stack of a sanitizer report, without lines."""
    names = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+", text):
        if "/src/" in m[2] or "/include/ndt_2d/" in m[2]:
            n = re.sub(r"\(.*", "", m[1]).strip()
            if n not in names:
                names.append(n)
        if len(names) >= 2:
            break
    return ",".join(names)


def crash_key(text, rc):
    m = re.search(r"runtime error: (.+)", text)
    if m:
        return "ub: " + re.sub(r"-?\b(?:nan|inf|[0-9][0-9.e+-]*)", "N", m[1])[:80] + " @ " + frame_key(text)
    m = re.search(r"ERROR: (?:Address|Leak|Thread)Sanitizer: (\S+)", text)
    if m:
        return "asan: " + m[1] + " @ " + frame_key(text)
    m = re.search(r"WARNING: ThreadSanitizer: (.+?) \(pid", text)
    if m:
        return "tsan: " + m[1] + " @ " + frame_key(text)
    m = re.search(r"Assertion '(.+?)' failed", text)
    if m:
        return "assertion: " + m[1][:80]
    m = re.search(r"terminate called after throwing an instance of '(.+?)'", text)
    if m:
        return "terminate: " + m[1]
    m = re.search(r"Check failed: (.{0,80})", text)
    if m:
        return "check failed: " + re.sub(r"0x[0-9a-f]+", "P", m[1])
    return "killed by %s" % (signal.Signals(-rc).name if rc < 0 else "exit %d" % rc)


def tsan_reports(text):
    return re.findall(r"={10,}\nWARNING: ThreadSanitizer: .*?SUMMARY: ThreadSanitizer: [^\n]*", text, re.S)


def run_harness(exe, prop, tier, seed, work, case=None, hang=None, threads=False):
    """Returns (violations, stats). A violation: dict(case, key, msg)."""
    n = 1 if case is not None else JOBS
    limit = hang or (60 if tier == "quick" else 240)
    todo = [Shard(exe, prop, tier, seed, i, n, work, case) for i in range(n)]
    viol, stats, hashes = [], dict(evaluations=0, counters={}, samples=[], rule=""), set()
    while todo:
        time.sleep(0.02)
        nxt = []
        for s in todo:
            if not s.poll(limit):
                nxt.append(s)
                continue
            text, rc = s.text(), s.p.returncode
            for line in text.splitlines():
                if line.startswith("@@VIOLATION "):
                    v = json.loads(line[12:])
                    if not any(x["key"] == v["key"] for x in viol):
                        viol.append(v)
            for rep in tsan_reports(text):
                k = crash_key(rep, 66)
                if not any(x["key"] == k for x in viol):
                    viol.append(dict(case=s.case(), key=k, msg=rep[:6000]))
            m = re.search(r"^@@DONE (.*)$", text, re.M)
            if m:
                d = json.loads(m[1])
                stats["evaluations"] += d["evaluations"]
                stats["rule"] = d["rule"]
                for k, v in d["counters"].items():
                    stats["counters"][k] = stats["counters"].get(k, 0) + v
                stats["samples"] += d["samples"]
                if os.path.exists(s.hashes):
                    b = read(s.hashes)
                    hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                if rc not in (0, 3, 66):
                    viol.append(dict(case=-1, key="exit: " + crash_key(text, rc), msg=text[-4000:]))
            elif s.hung:
                c = s.case()
                # with real threads, a deadlock need not happen again; such cases take milliseconds
                if hang is None and c >= 0 and not threads:
                    # once more, alone, before it counts
                    v2, _ = run_harness(exe, prop, tier, seed, work, case=c, hang=limit * 1.5)
                    if v2:
                        for v in v2:
                            if not any(x["key"] == v["key"] for x in viol):
                                viol.append(v)
                        continue
                    print("note: case %d stalled once and passed when repeated" % c)
                    nxt.append(Shard(exe, prop, tier, seed, s.args[4], n, work, case, start=c + 1))
                else:
                    viol.append(dict(case=c, key="hang", msg="no progress for %d s\n%s" % (limit, text[-3000:])))
            elif rc == 2 or "unknown property" in text:
                raise HarnessError("harness refused to run:\n" + text[-3000:])
            elif rc == -9:
                raise HarnessError("harness was killed (memory?), case %d\n%s" % (s.case(), text[-3000:]))
            else:
                k = crash_key(text, rc)
                if not any(x["key"] == k for x in viol):
                    at = text.find("runtime error:")
                    at = max(0, at - 200) if at >= 0 else max(0, text.find("ERROR: "))
                    viol.append(dict(case=s.case(), key=k, msg=text[at:at + 6000]))
        todo = nxt
        if len(viol) >= 8:
            for s in todo:
                try:
                    os.killpg(s.p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                s.p.wait()
                s.f.close()
            break
    stats["distinct"] = len(hashes)
    return viol, stats


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^finding: property=(\S+) key=(.+?) :: (.+)$", line.strip())
            if m:
                out.append((m[1], m[2], m[3]))
    return out


def main():
    t0 = time.time()
    if "--setup" in sys.argv:
        b = Builder()
        for name in H:
            if os.path.exists(os.path.join(VERIF, "harness", H[name]["src"])):
                b.harness(name)
        print("built in %.0f s" % (time.time() - t0))
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        viol, stats = [], dict(evaluations=0, counters={}, samples=[], rule="", distinct=0)
        if P[prop] == ["scripts"]:
            import scripts_check
            viol, stats = scripts_check.run(REPO, VERIF, tier, seed, work)
        else:
            b = Builder()
            for hn in P[prop]:
                if replay and replay.get("harness") not in (None, hn):
                    continue
                exe = b.harness(hn)
                t1 = time.time()
                v, s = run_harness(exe, prop, tier, seed, work, case=replay["case"] if replay else None,
                                   threads=hn.startswith("race"))
                for x in v:
                    x["harness"] = hn
                viol += v
                pre = "" if len(P[prop]) == 1 else hn + "."
                stats["evaluations"] += s["evaluations"]
                stats["distinct"] += s["distinct"]
                stats["rule"] = s["rule"] or stats["rule"]
                stats["samples"] += s["samples"]
                for k, c in s["counters"].items():
                    stats["counters"][pre + k] = c
                print("%s: %s, %d cases, %d distinct, %.1f s" % (prop, hn, s["evaluations"], s["distinct"], time.time() - t1))
        if not viol and stats["evaluations"] == 0:
            raise HarnessError("no case was run")
        if not viol and not replay and stats["distinct"] == 0:
            raise HarnessError("nothing was observed")
    except HarnessError as e:
        print("ERROR of the check: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        clean()
    new, known = [], []
    kf = known_findings()
    for v in viol:
        hit = next((k for k in kf if k[0] == prop and k[1] == v["key"]), None)
        (known if hit else new).append((v, hit))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct"],
                            rule=stats["rule"] or "n/a", samples=stats["samples"][:6] or ["none"],
                            observed=stats["counters"]),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for v, hit in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[2]))
    for v, _ in new:
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, digest(v["key"])[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, harness=v.get("harness"), case=v["case"], key=v["key"],
                           msg=v["msg"], rerun="python3 lib/check.py %s --replay %s" % (prop, path)), f, indent=1)
        print("  case %s: %s\n  %s" % (v["case"], v["key"], v["msg"][:700].replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not new:
        print("%s held: %s" % (prop, json.dumps(dict(evaluations=stats["evaluations"], distinct=stats["distinct"],
                                                     observed=stats["counters"]))))
    return 1 if new else 0


def clean(keep=400, bins=80):
    """Old build products go, so that the folder stays bounded."""
    for pre, k in (("obj-", keep), ("bin-", bins)):
        try:
            fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith(pre)]
            fs.sort(key=os.path.getmtime, reverse=True)
            for f in fs[k:]:
                os.unlink(f)
        except OSError:
            pass


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main())
