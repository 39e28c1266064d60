#!/usr/bin/env python3
"""Deterministic simulation of chrono-cpp: builds /repo's working tree into the simulator and
searches seeded executions for violations of one property.

  check.py PROPERTY [--tier quick|thorough]     exit 0 held, 1 violation, 2 no answer
  check.py replay FILE                          re-executes a replay file
  check.py build                                builds every variant
"""
import array, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CHRONO_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CORES = max(1, min(8, os.cpu_count() or 1))


def die(msg):
    print(msg, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- build
def repo_sources():
    out = [os.path.join(REPO, "time.cpp")]
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        out += [os.path.join(d, f) for f in sorted(files) if f.endswith((".cpp", ".cc", ".cxx", ".c", ".hpp", ".h", ".hh", ".ipp", ".inc"))]
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in repo_sources() + sorted(glob.glob(SIM + "/*")) + [os.path.abspath(__file__)]:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


VARIANTS = {
    "plain": [],
    "zero": ["-ftrivial-auto-var-init=zero"],
    "pattern": ["-ftrivial-auto-var-init=pattern"],
    # every access of the code under test calls the scheduler (sched.cpp), whose names replace the C library's
    # (clang's instrumentation also sees what is stored by copying the result of a call; gcc's is the second choice)
    "threads": ["-O1", "-g1", "-fsanitize=thread", "-include", SIM + "/instrument.hpp", "-no-pie", "-fno-pie", "-fcf-protection=none"],
}


def build(variants):
    """Builds the named variants; returns {variant: binary}."""
    d = os.path.join(BUILD, tree_hash())
    bins = {v: os.path.join(d, "sim-" + v) for v in variants}
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if all(os.path.exists(b) for b in bins.values()):
            os.utime(d)
            return bins
        keep = sorted((x for x in glob.glob(BUILD + "/*") if os.path.isdir(x) and x != d), key=os.path.getmtime)
        for old in keep[:-2]:
            shutil.rmtree(old, ignore_errors=True)
        base = ["-std=c++17", "-w", "-I" + REPO, "-I" + SIM]
        lib = [f for f in repo_sources() if f.endswith((".cpp", ".cc", ".cxx")) and f != os.path.join(REPO, "time.cpp")]
        jobs, links = {}, {}

        def job(out, cmd):
            jobs.setdefault(os.path.join(d, out), cmd)
            return os.path.join(d, out)

        for v in variants:
            if os.path.exists(bins[v]):
                continue
            objs = []
            fl = ["-O2"] + VARIANTS[v]
            cxx = "clang++" if v == "threads" and shutil.which("clang++") else "g++"
            objs.append(job(v + "-sut.o", [cxx] + base + fl + ["-c", SIM + "/sut.cpp"]))
            for i, f in enumerate(lib):
                objs.append(job("%s-lib%d.o" % (v, i), [cxx] + base + fl + ["-c", f]))
            for m in ("main", "exec", "trace", "props", "sched" if v == "threads" else "sched_none"):
                objs.append(job("sim-%s.o" % m, ["g++"] + base + ["-O2" if m == "sched" else "-O1", "-c", "%s/%s.cpp" % (SIM, m)]))
            objs.append(job("sim-rt.o", ["g++"] + base + ["-O2", "-fno-builtin", "-c", SIM + "/rt.cpp"]))
            links[v] = objs
        # the long ones first
        todo = sorted((o for o in jobs if not os.path.exists(o)), key=lambda o: ("sut" not in o, "props" not in o, o))
        run = []
        failed = None
        while todo or run:
            while todo and len(run) < CORES + 2:
                o = todo.pop(0)
                log = open(o + ".log", "w")
                run.append((o, subprocess.Popen(jobs[o] + ["-o", o + ".tmp"], stdout=log, stderr=log)))
            for o, p in run:
                if p.poll() is not None:
                    run.remove((o, p))
                    if p.returncode and jobs[o][0] == "clang++":
                        jobs[o][0] = "g++"
                        todo.insert(0, o)
                    elif p.returncode:
                        failed = failed or o
                    else:
                        os.rename(o + ".tmp", o)
                    break
            else:
                time.sleep(0.02)
        if failed:
            die("build failed:\n" + open(failed + ".log").read()[-3000:])
        for v, objs in links.items():
            extra = []
            if v == "threads":
                extra = ["-no-pie", "-lpthread"]
                for i, o in enumerate(objs):
                    if os.path.basename(o).startswith("threads-"):
                        objs[i] = o[:-2] + ".renamed.o"
                        r = subprocess.run(["objcopy", "--redefine-syms=" + SIM + "/redefine.txt", o, objs[i]], capture_output=True, text=True)
                        if r.returncode:
                            die("objcopy failed:\n" + r.stderr[-3000:])
            # the code under test comes first: its instances of templates are the instrumented ones
            r = subprocess.run(["g++"] + objs + ["-o", bins[v] + ".tmp", "-lboost_date_time"] + extra, capture_output=True, text=True)
            if r.returncode:
                die("link failed:\n" + r.stderr[-3000:])
            os.rename(bins[v] + ".tmp", bins[v])
    return bins


# ---------------------------------------------------------------- properties
# runs and seconds of each tier; variants
CONF = {
    "C01": dict(runs=4000, cap=70), "C02": dict(runs=30000, cap=70, main="threads"), "C03": dict(runs=9000, cap=70),
    "C04": dict(runs=22500, cap=70), "C05": dict(runs=1750, cap=70, peers=["zero", "pattern"]),
    "C06": dict(runs=12500, cap=70), "C07": dict(runs=12500, cap=70), "C08": dict(runs=12500, cap=70), "C09": dict(runs=12500, cap=70),
    "C10": dict(runs=12500, cap=70), "C11": dict(runs=5500, cap=70), "C12": dict(runs=12500, cap=70), "C13": dict(runs=4250, cap=70),
    "C14": dict(runs=12500, cap=70), "C15": dict(runs=12500, cap=70), "C16": dict(runs=10000, cap=70), "C17": dict(runs=6000, cap=70),
}
THOROUGH_SECONDS = 720

RULES = {
    "C01": "one execution is a process history over a pool of texts, instants and parser objects that collide on purpose; every answer is compared with the answer of the same request alone in a new process. Counted: distinct (parser, text, instant, failing allocation) requests whose answer was compared.",
    "C02": "one execution is 2 to 4 threads under the seeded scheduler; every answer is compared with the answer of the request alone, every access with the accesses of the other threads. Counted: distinct (parser, text, instant) requests served by a thread next to others.",
    "C03": "one execution is a history in which chosen allocations fail; failed requests must fail or be complete, all others answer as alone. Counted: distinct (parser, text, instant, failing allocation).",
    "C04": "one execution starts the program with a clock that moves when it is read; its output is compared with runs given each instant the clock showed. Counted: distinct (text, local instant).",
    "C05": "one execution fills stack, fresh and freed memory with patterns and places heap blocks upwards, downwards or shuffled; answers are compared with the request alone and with builds that initialise automatic variables otherwise. Counted: distinct (parser, text, instant).",
    "C17": "one execution is a history in which the host program's locale, errno, rounding mode, standard streams and (for the program) locale variables and standard error vary from request to request; answers are compared with the request alone in a plain process, and the host's state before and after each request. Counted: distinct (parser, text, instant).",
    "C15": "one execution is a history of hostile texts, extreme instants and numbers, each judged for an end, a living process and dates that exist. Counted: distinct (parser, text, instant).",
}
SEM_RULE = "one execution is a history of phrases with answers predicted by the reference calendar, asked at instants of a simulated clock or given ones, with disturbing requests, failing allocations, filled memory, clock jumps and restarts in half of the executions. Counted: distinct (parser, text, instant) requests whose answer was compared with the model."


def sim_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    e["LC_ALL"] = "C"
    return e


def trace_prop(path):
    m = re.search(r"^property (\S+)", open(path, errors="replace").read(), re.M)
    return m.group(1) if m else "C01"


def command(prop):
    c = CONF[prop]
    mainv = c.get("main", "plain")
    bins = build([mainv] + c.get("peers", []))
    return [bins[mainv]], sum((["--peer", bins[p]] for p in c.get("peers", [])), [])


def replay_once(prop, path):
    exe, peers = command(prop)
    r = subprocess.run(exe + ["replay", path] + peers, capture_output=True, env=sim_env())
    return r.returncode, r.stdout.decode("latin1")


def union(files):
    s = set()
    for f in files:
        if os.path.exists(f):
            a = array.array("Q")
            data = open(f, "rb").read()
            a.frombytes(data[:len(data) // 8 * 8])
            s.update(a)
    return len(s)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) trace=(\S+) message=(.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CONF[prop]
    exe, peers = command(prop)
    built = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    last = c["runs"] if tier == "quick" else 10 ** 9
    cap = c["cap"] if tier == "quick" else int(os.environ.get("VERIF_SECONDS", THOROUGH_SECONDS))
    t1 = time.time()
    procs = []
    for k in range(CORES):
        procs.append(subprocess.Popen(exe + ["explore", "--prop", prop, "--seed", str(seed), "--first", str(k), "--stride", str(CORES),
                                             "--last", str(last), "--seconds", str(cap), "--out", "%s/w%d" % (work, k)] + peers,
                                      stdout=subprocess.DEVNULL, stderr=open("%s/w%d.err" % (work, k), "w"), env=sim_env()))
    stopped = None
    while any(p.poll() is None for p in procs):
        if stopped is None and any(p.poll() == 1 for p in procs):
            stopped = time.time()
        # after the first violation the others get a moment to find an earlier one
        if stopped and time.time() - stopped > 5:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            for p in procs:
                p.wait()
            break
        if time.time() - t1 > cap + 300:
            for p in procs:
                p.kill()
            die("a worker did not end")
        time.sleep(0.05)
    wall_explore = time.time() - t1
    stats = []
    for k, p in enumerate(procs):
        f = "%s/w%d.json" % (work, k)
        if p.returncode in (0, 1) and os.path.exists(f):
            stats.append((k, json.loads(open(f, "rb").read().decode("latin1"))))
        elif p.returncode != -9:
            die("simulator worker failed (%s): %s" % (p.returncode, open("%s/w%d.err" % (work, k), errors="replace").read()[-2000:]))
    bad = sorted((s["badrun"], k) for k, s in stats if s["violation"])
    violation = None
    if bad:
        violation = confirm(prop, exe, peers, work, bad, tier)
    tot = {}
    fams = {}
    for _, s in stats:
        for a, b in s.items():
            if isinstance(b, (int, float)) and a != "badrun":
                tot[a] = tot.get(a, 0) + b
        for a, b in s["families"].items():
            fams[a] = fams.get(a, 0) + b
    distinct = union("%s/w%d.req" % (work, k) for k in range(CORES))
    situations = union("%s/w%d.sit" % (work, k) for k in range(CORES))
    inter = union("%s/w%d.int" % (work, k) for k in range(CORES))
    samples = [x for _, s in stats for x in s["samples"]][:8]
    runs = int(tot.get("runs", 0))
    per_hour = int(runs * 3600 / max(wall_explore, 0.001))
    faults = {
        "failed allocations": tot.get("oom", 0), "clock moved between or after readings": tot.get("ticks", 0),
        "clock set backwards": tot.get("jump_back", 0), "clock set forwards by more than a day": tot.get("jump", 0),
        "process killed and started again": tot.get("restarts", 0), "heap filled with a pattern (requests)": tot.get("fills", 0),
        "stack filled with a pattern (requests)": tot.get("stacks", 0), "processes with another order of heap addresses": tot.get("layouts", 0),
        "requests under another global locale": tot.get("host_locale", 0), "requests with errno set beforehand": tot.get("host_errno", 0),
        "requests under another rounding mode": tot.get("host_rounding", 0), "requests with failing or altered standard streams": tot.get("host_streams", 0),
        "worlds also run in a build with other leftovers": tot.get("peer", 0),
        "thread switches": tot.get("switches", 0),
    }
    cov = {
        "evaluations": int(tot.get("asserted", 0)),
        "distinct_nontrivial": distinct,
        "rule": RULES.get(prop, SEM_RULE),
        "samples": samples or ["none"],
        "simulated_runs": runs,
        "runs_per_hour": per_hour,
        "seed": "VERIF_SEED %d; execution number i of property %s is generated from (seed, property, i)" % (seed, prop),
        "seeds_per_hour": per_hour,
        "fault_free_runs": int(tot.get("clean", 0)), "runs_with_faults": int(tot.get("faulty", 0)),
        "requests": int(tot.get("requests", 0)), "processes_started": int(tot.get("processes", 0)), "reference_processes": int(tot.get("solo", 0)),
        "same_seed_reruns_with_equal_digest": int(tot.get("reruns", 0)),
        "simulated_clock_years": round(tot.get("simtime", 0) / 31556952.0, 1),
        "reference_instants_span_years": round(tot.get("reftime", 0) / 31556952.0, 1),
        "clock_readings": int(tot.get("clockreads", 0)),
        "faults_that_happened": {k: int(v) for k, v in faults.items() if v},
        "distinct_situations": situations,
        "situation_rule": "phrase family, parser, month, kind of day in the month, weekday, leap year, kind of hour",
        "families": fams,
        "components": {"real": "all of /repo: parsers, refiners, results, tables and the program's main(), compiled from the working tree; boost::date_time, libstdc++ (regex included), the C library's time zones",
                       "simulated": "operator new/delete, time(), clock_gettime(), gettimeofday(), process start and end" + (", thread scheduling" if prop == "C02" else ""),
                       "stub": "none"},
        "explore_wall_s": round(wall_explore, 1), "build_wall_s": round(built, 1),
    }
    if prop == "C02":
        cov["distinct_interleavings"] = inter
        cov["interleaving_rule"] = "hash of the sequence of (thread, accesses since its last switch)"
        cov["scheduling_steps"] = int(tot.get("steps", 0))
        cov["accesses_checked_for_races"] = int(tot.get("race_checks", 0))
        cov["waits_for_another_thread"] = int(tot.get("blocked", 0))
        cov["directed_runs"] = int(tot.get("directed", 0))
        cov["directed_rule"] = "requests of earlier runs put together: a cycle of lock orders, or a write to memory that was there before the threads"
        cov["lock_order_cycles_seen"] = int(tot.get("cycles", 0))
        cov["requests_kinds_that_write_shared_memory"] = int(tot.get("writers", 0))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["a search: what no execution reached is not covered", "gcc -O2 on x86-64 stands for the shipped build",
                          "executions are repeatable: a share of them is run twice and must give the same digest"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for pr, tr, msg in known_findings():
        if pr == prop:
            code, out = replay_once(prop, os.path.join(VERIF, tr))
            if code == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, msg))
    if violation:
        path, msg = violation
        print("violation: " + msg)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print("property %s held: %d executions, %d requests judged, %d distinct, %d situations, %.0f s" %
          (prop, runs, cov["evaluations"], distinct, situations, time.time() - t0))
    return 0


def confirm(prop, exe, peers, work, bad, tier):
    """Minimises and replays in new processes; only what reproduces exactly is a violation."""
    known = {(p, open(os.path.join(VERIF, t)).read().split("\n", 3)[-1]) for p, t, _ in known_findings()}
    for run, k in bad:
        src = "%s/w%d.trace" % (work, k)
        small = "%s/w%d.min" % (work, k)
        cands = []
        try:
            r = subprocess.run(exe + ["minimise", src, small, "--seconds", "40" if tier == "quick" else "120"] + peers, capture_output=True, env=sim_env(), timeout=400)
            if r.returncode == 1 and os.path.exists(small):
                cands.append(small)
        except subprocess.TimeoutExpired:
            pass
        cands.append(src)
        for f in cands:
            a = replay_once(prop, f)
            b = replay_once(prop, f)
            if a[0] == 1 and a == b:
                text = open(f).read()
                if (prop, text.split("\n", 3)[-1]) in known:
                    break
                m = re.search(r"^message (.*)", a[1], re.M | re.S)
                kind = re.search(r"^kind (.*)$", a[1], re.M).group(1)
                msg = kind + ": " + (m.group(1).strip() if m else "?")
                dst = os.path.join(EVID, "replays", "%s-%s.trace" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
                with open(dst, "w") as o:
                    o.write(text)
                    for l in msg.splitlines():
                        o.write("# " + l + "\n")
                    o.write("# replay: python3 %s replay %s\n" % (os.path.join(VERIF, "check.py"), dst))
                return dst, msg
        else:
            die("execution %d reported a violation that its replay does not reproduce: %s" % (run, open(src, errors="replace").read()[:2000]))
    return None


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if a[0] == "build":
        vs = set()
        for c in CONF.values():
            vs.add(c.get("main", "plain"))
            vs.update(c.get("peers", []))
        build(sorted(vs))
        print("built")
        return 0
    if a[0] == "replay" and len(a) == 2:
        code, out = replay_once(trace_prop(a[1]), a[1])
        print(out, end="")
        if code == 1:
            print("VIOLATION property=%s replay=%s" % (trace_prop(a[1]), a[1]))
        return code
    if a[0] not in CONF:
        die("unknown property " + a[0])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], "thorough" if tier == "thorough" else "quick")


sys.exit(main())
