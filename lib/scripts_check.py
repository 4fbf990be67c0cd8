"""Runs the operator scripts against a stand-in for ROS and judges what they asked of the service (C30)."""
import concurrent.futures as cf
import json, os, random, re, subprocess, sys

SCRIPTS = {"enable_mapping.py": "ENABLE_MAPPING", "disable_mapping.py": "DISABLE_MAPPING",
           "load_map.py": "LOAD_FROM_FILE", "save_map.py": "SAVE_TO_FILE"}
CODES = list(SCRIPTS.values())


def constants(repo):
    out = {}
    for line in open(os.path.join(repo, "srv", "Configure.srv")):
        m = re.match(r"^\s*\S+\s+([A-Z][A-Z0-9_]*)\s*=\s*(-?\w+)", line.split("#")[0])
        if m:
            out[m[1]] = int(m[2], 0)
    return out


def filename(r):
    k = r.randrange(8)
    base = "".join(r.choice("abcxyz_09") for _ in range(r.randrange(1, 20)))
    if k == 0:
        return "/maps/" + base
    if k == 1:
        return "/maps/with space/" + base + " 2.bag"
    if k == 2:
        return "relative/" + base
    if k == 3:
        return "/" + "/".join(base for _ in range(r.randrange(1, 40)))
    if k == 4:
        return "/m\u00e4ps/\u5730\u56fe-" + base
    if k == 5:
        return "~/" + base + "'\"$x;*"
    if k == 6:
        return "../" + base + ".."
    return "C:\\" + base + "\\n"


def one(repo, verif, work, i, name, cfg, args):
    out = os.path.join(work, "s%d.json" % i)
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": os.path.join(verif, "stubs", "py"), "LC_ALL": "C.UTF-8",
           "PYTHONDONTWRITEBYTECODE": "1", "HOME": work,
           "VROS_CFG": json.dumps(cfg), "VROS_OUT": out, "VROS_SRV": os.path.join(repo, "srv", "Configure.srv")}
    text, rc = "", None
    for _ in range(2):
        if os.path.exists(out):
            os.unlink(out)
        try:
            p = subprocess.run([sys.executable, "-S", "-c", "import sitecustomize, runpy, sys; sys.argv = sys.argv[1:]; runpy.run_path(sys.argv[0], run_name='__main__')",
                                os.path.join(repo, "scripts", name)] + args, env=env, cwd=work, timeout=60,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            rc, text = p.returncode, p.stdout
            break
        except subprocess.TimeoutExpired:
            rc, text = "timeout", "did not end within 60 s"
    ev = json.load(open(out)) if os.path.exists(out) else []
    return rc, text, ev


def judge(name, consts, cfg, args, rc, text, ev):
    want = consts[SCRIPTS[name]]
    bad = []
    if rc == "timeout":
        return [("does not end", text)]
    reqs = [e for e in ev if e["kind"] == "request"]
    if rc != 0:
        bad.append(("fails", "exit %s: %s" % (rc, text[-600:])))
    if len(reqs) != 1:
        bad.append(("number of requests", "%d requests" % len(reqs)))
    for q in reqs:
        if q["service"] != "configure":
            bad.append(("service", q["service"]))
        if not q["ready"]:
            bad.append(("request before the service is available", "at %g s, available at %g s" % (q["t"], cfg["up_at"])))
        if q["action"] != want:
            bad.append(("action", "%d instead of %d (%s)" % (q["action"], want, SCRIPTS[name])))
        if args and q["filename"] != args[0]:
            bad.append(("file name", "%r instead of %r" % (q["filename"], args[0])))
        if not args and q["filename"] != "":
            bad.append(("file name", "%r where none was given" % q["filename"]))
    if len(reqs) == 1 and reqs[0]["ready"]:
        i = next((k for k, e in enumerate(ev) if e["kind"] == "reply_arrived"), None)
        j = next((k for k, e in enumerate(ev) if e["kind"] in ("shutdown", "destroy_node")), None)
        if i is None or (j is not None and j < i):
            bad.append(("did not wait for the reply", "reply due %g s after the request" % cfg["reply_after"]))
    return bad


def run(repo, verif, tier, seed, work):
    r = random.Random(seed)
    consts = constants(repo)
    viol, counters, seen, samples = [], {}, set(), []

    def add(case, key, msg):
        if not any(v["key"] == key for v in viol):
            viol.append(dict(case=case, key=key, msg=msg))
    for c in CODES:
        if c not in consts:
            add(-1, "action code missing", c)
            return viol, dict(evaluations=1, counters={}, distinct=1, samples=[c], rule="")
    for a in CODES:
        if consts[a] <= 0 or any(consts[a] & consts[b] for b in CODES if b != a):
            add(-1, "action codes overlap", json.dumps(consts))
    jobs = []
    for i in range(480 if tier == "quick" else 6000):
        name = list(SCRIPTS)[i % 4]
        up = r.choice([0.0, 0.0, r.uniform(0, 3), r.uniform(0, 100), r.uniform(100, 5000)])
        reply = r.choice([0.0, r.uniform(0, 1), r.uniform(1, 30), r.uniform(30, 3000)])
        jobs.append((i, name, dict(up_at=up, reply_after=reply), [filename(r)] if SCRIPTS[name].endswith("FILE") else []))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: one(repo, verif, work, *j), jobs))
    for (i, name, cfg, args), (rc, text, ev) in zip(jobs, res):
        for e in ev:
            counters[e["kind"]] = counters.get(e["kind"], 0) + 1
        if any(e["kind"] == "request" for e in ev):
            seen.add((name, json.dumps(cfg), tuple(args)))
        if i < 4:
            samples.append("%s %s: %s" % (name, args, json.dumps(ev)))
        for key, msg in judge(name, consts, cfg, args, rc, text, ev):
            add(i, name + ": " + key, "%s; service available after %g s, reply after %g s, arguments %r" % (msg, cfg["up_at"], cfg["reply_after"], args))
    return viol, dict(evaluations=len(jobs), counters=counters, distinct=len(seen), samples=samples,
                      rule="each script run as a process with random file names, service start-up delays and reply delays; every request, reply and shutdown is recorded; distinct by script, delays and file name")
