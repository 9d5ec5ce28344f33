#!/usr/bin/env python3
"""Deterministic-simulation check driver.

  check.py <property> [--tier quick|thorough]     run the check of one property
  check.py replay <file>                          replay a recorded violation

Exit codes: 0 the property held on everything explored; 1 a violation that was
reproduced from its replay file (line "VIOLATION property=<id> replay=<path>");
2 the machinery could not decide (build failure, harness error)."""
import os, sys, json, re, time, subprocess, hashlib, glob, tempfile, shutil, collections

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from props import PROPS

REPLAYS = os.path.join(VERIF, ".build", "replays")
EVID = os.path.join(VERIF, "evidence")
WORKERS = int(os.environ.get("VP_JOBS", str(min(8, os.cpu_count() or 8))))


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- simulator runs
class Sim:
    def __init__(self, d):
        self.d = d
        self.tmp = tempfile.mkdtemp(prefix="vp_sim_")
        self.n = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def env(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("SIM_", "OMP_", "KMP_", "LD_"))}
        return e

    def gen(self, profile, seed, sos):
        return subprocess.run([self.d + "/simhost", "gen", "--profile", profile, "--seed", str(seed), "--so", ",".join(sos), "--so-dir", self.d],
                              stdout=subprocess.PIPE, check=True, env=self.env()).stdout.decode()

    def run(self, text, trace=None, trace_out=None, timeout=300):
        self.n += 1
        f = "%s/s%d.txt" % (self.tmp, self.n)
        with open(f, "w") as o:
            o.write(text)
        c = [self.d + "/simhost", "run", "--scenario", f, "--so-dir", self.d]
        if trace is not None:
            t = f + ".t"
            with open(t, "w") as o:
                o.write("\n".join(trace) + "\n")
            c += ["--trace", t]
        if trace_out:
            c += ["--trace-out", trace_out]
        try:
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=self.env())
            return json.loads(p.stdout.decode().strip().split("\n")[-1])
        except Exception as e:
            return {"status": 2, "hash": "", "cls": "harness", "msg": repr(e), "ntrace": 0, "cnt": {}}

    def batch(self, profile, seed, count, secs, sos, out, maxranks, stop_after):
        c = [self.d + "/simhost", "batch", "--profile", profile, "--seed", str(seed), "--count", str(count), "--secs", str(secs),
             "--workers", str(WORKERS), "--so", ",".join(sos), "--so-dir", self.d, "--out", out, "--maxranks", str(maxranks),
             "--stop-after", str(stop_after), "--dup-every", "25"]
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env())
        if p.returncode != 0:
            raise RuntimeError("simulator failed: rc=%d %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:]))
        return [json.loads(l) for l in open(out, errors="replace") if l.strip()]


def sig(r):
    """What kind of failure it is (numbers and places removed)."""
    m = re.sub(r"0x[0-9a-f]+", "#", r["msg"])
    m = re.sub(r"-?\d+(\.\d+)?(e[+-]\d+)?", "#", m)
    m = re.sub(r"\[r#.*", "", m)
    m = re.sub(r"'[^']*'", "'..'", m)
    return (r["cls"], m[:60])


# ---------------------------------------------------------------- minimisation
NEUTRAL = [("mode", 0), ("net", 0), ("lazy_pct", 0), ("late_pct", 0), ("testfail_pct", 0), ("stall_pct", 0), ("tstall_pct", 0),
           ("clock", 0), ("fewer_threads_pct", 0), ("layout", 0)]
DROPPABLE = {"check", "reduce", "par", "tune", "tunenow", "stats", "clearstats", "xchg", "badget", "badset", "barrier", "fuse"}


def parse(text):
    head, ops = [], []
    for l in text.strip().split("\n"):
        (ops if l.startswith("op ") else head).append(l)
    return head, ops


def unparse(head, ops):
    return "\n".join(head + ops) + "\n"


def opts_of(line):
    """Splits an option op into (prefix, [[opt, val...], ...])."""
    pre, s = line.split(" | ", 1)
    groups = []
    for w in s.split():
        if re.match(r"^-[A-Za-z]", w) or not groups:
            groups.append([w])
        else:
            groups[-1].append(w)
    return pre, groups


def minimise(sim, text, want, deadline):
    """Simplest scenario, then fewest non-default choices, with the same kind of failure."""
    tried = [0]

    def fails(t, trace=None):
        if time.time() > deadline:
            return None
        tried[0] += 1
        r = sim.run(t, trace)
        return r if r["status"] == 1 and sig(r) == want else None

    head, ops = parse(text)
    best = fails(text)
    if not best:
        return text, None, None, tried[0]
    # 1. drop everything after the failing operation
    m = re.search(r"op (\d+) \(", best["msg"])
    if m and int(m.group(1)) + 1 < len(ops):
        o2 = ops[:int(m.group(1)) + 1]
        r = fails(unparse(head, o2))
        if r:
            ops, best = o2, r
    # 2. neutral environment
    for k, v in NEUTRAL:
        h2 = [("param %s %d" % (k, v)) if l.startswith("param %s " % k) else l for l in head]
        if h2 != head:
            r = fails(unparse(h2, ops))
            if r:
                head, best = h2, r
    # 3. fewer operations and options
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for i in range(len(ops) - 1, -1, -1):
            kind = ops[i].split()[1]
            if kind in DROPPABLE and i != len(ops) - 1:
                o2 = ops[:i] + ops[i + 1:]
                r = fails(unparse(head, o2))
                if r:
                    ops, best, changed = o2, r, True
                    continue
            if kind == "opt":
                pre, g = opts_of(ops[i])
                for j in range(len(g) - 1, -1, -1):
                    g2 = g[:j] + g[j + 1:]
                    o2 = ops[:i] + [pre + " | " + " ".join(" ".join(x) for x in g2)] + ops[i + 1:]
                    r = fails(unparse(head, o2))
                    if r:
                        g, ops, best, changed = g2, o2, r, True
    text = unparse(head, ops)
    # 4. fewest choices that differ from the default
    tf = sim.tmp + "/trace"
    r = sim.run(text, trace_out=tf)
    trace = [l for l in open(tf).read().split("\n") if l.strip()] if os.path.exists(tf) else []
    if not fails(text, trace):
        return text, None, best, tried[0]
    n = 2
    if fails(text, []):
        trace = []
    while len(trace) >= 2 and time.time() < deadline:
        size = max(1, len(trace) // n)
        red = False
        for k in range(0, len(trace), size):
            t2 = trace[:k] + trace[k + size:]
            if fails(text, t2):
                trace, n, red = t2, max(n - 1, 2), True
                break
        if not red:
            if size == 1:
                break
            n = min(n * 2, len(trace))
    best = sim.run(text, trace)
    return text, trace, best, tried[0]


def write_replay(prop, seed, text, trace, r):
    os.makedirs(REPLAYS, exist_ok=True)
    p = "%s/%s-%s.replay" % (REPLAYS, prop, seed)
    with open(p, "w") as f:
        f.write("# property %s seed %s\n# cls %s\n# hash %s\n# msg %s\n" % (prop, seed, r["cls"], r["hash"], r["msg"]))
        f.write(text)
        if trace is not None:
            f.write("usetrace\n")
            for t in trace:
                f.write("choice " + t + "\n")
    return p


def write_reject(prop, so, msg):
    os.makedirs(REPLAYS, exist_ok=True)
    p = "%s/%s-%s.replay" % (REPLAYS, prop, so)
    with open(p, "w") as f:
        f.write("# property %s\n# cls compiler\n# msg %s\nso %s\ncompile\n" % (prop, msg.strip().split("\n")[-1], so))
    return p


def read_replay(p):
    info, text, trace = {}, [], None
    for l in open(p):
        l = l.rstrip("\n")
        if l.startswith("# "):
            w = l[2:].split(" ", 1)
            info[w[0]] = w[1] if len(w) > 1 else ""
        elif l == "usetrace":
            trace = []
        elif l.startswith("choice "):
            trace.append(l[7:])
        else:
            text.append(l)
    return info, "\n".join(text) + "\n", trace


def do_replay(p):
    info, text, trace = read_replay(p)
    so = re.search(r"^so (\S+)", text, re.M).group(1)
    if re.search(r"^compile$", text, re.M):
        B.build([so], tolerate=True)
        log(B.REJECTED.get(so, "compiled")[-600:])
        return 1 if so in B.REJECTED else 0
    sim = Sim(B.build([so]))
    try:
        r = sim.run(text, trace)
    finally:
        sim.close()
    log(json.dumps({k: r[k] for k in ("status", "cls", "msg", "hash")}))
    if r["status"] == 1:
        same = r["hash"] == info.get("hash")
        log("replayed: %s (%s the recorded execution)" % (r["cls"], "exactly" if same else "differs from"))
        return 1
    return 0 if r["status"] == 0 else 2


# ---------------------------------------------------------------- known findings
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def known_match(prop, r, text):
    for f in known()["findings"]:
        if f["property"] == prop and f["cls"] == r["cls"] and re.search(f["msg"], r["msg"]) and all(re.search(x, text, re.M) for x in f.get("scenario", [])):
            return f
    return None


# ---------------------------------------------------------------- one check
def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    if "custom" in P:
        import importlib
        return importlib.import_module(P["custom"]).check(prop, tier, seed, t0)
    sos = P["sos"] + (P.get("sos_thorough", []) if tier == "thorough" else [])
    if tier == "thorough":      # random programs
        sos = sos + ["vr_%d.%s" % (seed * 10000 + k, "aaafi"[k % 5]) for k in range(P.get("random", 0))]
    rejected = {}
    try:
        d = B.build(sos, tolerate=P.get("compiler", False))
        rejected = dict(B.REJECTED)
    except B.BuildError as e:
        log("cannot build the code under test:", str(e)[-1500:])
        return 2
    sos = [s for s in sos if s not in rejected]
    if not sos:
        log("no program could be built:", list(rejected.values())[0][-1500:])
        return 2
    # programs that are rejected with a message are not legal, unless they are known to be
    broken = {s: m for s, m in rejected.items() if P.get("compiler") and (s in P["sos"] or "YASK error" not in m)}
    P = dict(P, broken=broken, rejected=len(rejected))
    tb = time.time() - t0
    sim = Sim(d)
    try:
        return explore(prop, P, tier, seed, sos, sim, t0, tb)
    finally:
        sim.close()


def explore(prop, P, tier, seed, sos, sim, t0, tb):
    secs = float(os.environ.get("VP_SECS", P["secs"][0 if tier == "quick" else 1]))
    count = P.get("count", [100000, 10000000])[0 if tier == "quick" else 1]
    base = seed * 1000003 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16)
    rows, corpus, t1 = [], [], time.time()
    # scenarios that failed in the past come first
    for f in sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.txt"))):
        info, text, trace = read_replay(f)
        so = re.search(r"^so (\S+)", text, re.M).group(1)
        if so in sos:
            r = sim.run(text, trace)
            corpus.append((f, text, trace, r))
    profs = P.get("profiles", [[prop, 1.0]])
    for k, (prof, share) in enumerate(profs):
        rows += [dict(x, prof=prof) for x in sim.batch(prof, base + k * 100000007, count, secs * share, P.get("sos_" + prof, sos), sim.tmp + "/out", P.get("maxranks", 6), 4)]
    wall = time.time() - t1
    runs = [x for x in rows if "dup" not in x]
    dups = [x for x in rows if "dup" in x]
    bad = [x for x in runs if x["r"]["status"] == 1]
    herr = [x for x in runs if x["r"]["status"] == 2]
    incon = [x for x in runs if x["r"]["status"] == 3]
    cnt = collections.Counter()
    for x in runs:
        cnt.update({k: v for k, v in x["r"]["cnt"].items() if v})
    hashes = {x["r"]["hash"] for x in runs if x["r"]["ntrace"] > 0 or x["nranks"] > 1}
    # decide
    rc, viols, knownhits, notes = 0, [], [], []
    cands = [(os.path.basename(f), text, trace, r) for f, text, trace, r in corpus if r["status"] == 1]
    bad.sort(key=lambda x: x["r"]["cnt"].get("accesses", 0))
    seen = set()
    todo = cands[:]
    for x in bad:
        s = sig(x["r"])
        if s in seen and len(seen) >= 1:
            continue
        seen.add(s)
        todo.append((x["seed"], (x["prof"], x["seed"]), None, x["r"]))
    for s, m in sorted(P.get("broken", {}).items()):
        rp = write_reject(prop, s, m)
        rc = 1
        viols.append({"program": s, "cls": "compiler", "msg": m[-400:], "replay": rp})
        log("compiler: the program of %s is legal but was not compiled: %s" % (s, m[-300:]))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
    deadline = time.time() + (90 if tier == "quick" else 300)
    unrepro = 0
    for sd, text, trace, r0 in todo:
        if isinstance(text, tuple):
            text = sim.gen(text[0], text[1], P.get("sos_" + text[0], sos))
        ra, rb = sim.run(text, trace), sim.run(text, trace)
        if not (ra["status"] == 1 and rb["status"] == 1 and ra["hash"] == rb["hash"] and ra["cls"] == r0["cls"]):
            unrepro += 1
            notes.append("seed %s did not reproduce (%s)" % (sd, r0["cls"]))
            continue
        kf = known_match(prop, ra, text)
        if kf:
            knownhits.append(kf["what"])
            continue
        if rc == 1:
            viols.append({"seed": sd, "cls": ra["cls"], "msg": ra["msg"]})
            continue
        mt, mtr, mr, tried = (text, trace, ra, 0) if trace is not None else minimise(sim, text, sig(ra), deadline)
        if mr is None:
            mt, mtr, mr = text, None, ra
        rp = write_replay(prop, sd, mt, mtr, mr)
        i2, t2, tr2 = read_replay(rp)
        rc1, rc2 = sim.run(t2, tr2), sim.run(t2, tr2)
        if not (rc1["status"] == 1 and rc1["hash"] == rc2["hash"] == mr["hash"]):
            mt, mtr, mr = text, trace, ra      # fall back to the unreduced run
            rp = write_replay(prop, sd, mt, mtr, mr)
            i2, t2, tr2 = read_replay(rp)
            rc1 = sim.run(t2, tr2)
            if not (rc1["status"] == 1 and rc1["hash"] == ra["hash"]):
                unrepro += 1
                notes.append("replay file of seed %s did not reproduce" % sd)
                continue
        rc = 1
        viols.append({"seed": sd, "cls": mr["cls"], "msg": mr["msg"], "replay": rp, "choices": None if mtr is None else len(mtr), "minimise_runs": tried})
        log("%s: %s" % (mr["cls"], mr["msg"]))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
    for w in sorted(set(knownhits)):
        log("KNOWN-FINDING: property=%s %s" % (prop, w))
    ndiff = sum(1 for x in dups if not x["same"])
    if rc == 0:
        if unrepro or ndiff:
            log("not deterministic: %d violations did not reproduce, %d of %d repeated runs differ; %s" % (unrepro, ndiff, len(dups), notes))
            rc = 2
        elif not runs or len(herr) > max(2, len(runs) // 100):
            log("harness errors in %d of %d runs: %s" % (len(herr), len(runs), herr[0]["r"]["msg"] if herr else ""))
            rc = 2
        for f, text, trace, r in corpus:
            if r["status"] == 2:
                log("corpus scenario %s: harness error %s" % (f, r["msg"]))
    faults = {k: cnt.get(k, 0) for k in ("preemptions", "messages", "lazy_sends", "late_completions", "spurious_test_failures", "rank_stalls", "thread_stalls",
                                         "cross_channel_reorders", "clock_jumps", "fewer_threads", "alloc_failures", "io_faults")}
    outc = collections.Counter(x["r"]["cls"] or "ok" for x in runs)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": len(runs), "distinct_nontrivial": len(hashes),
              "rule": "one evaluation = one simulated run of a generated scenario (program of API calls + run-time options + rank/node layout) under one seeded schedule and fault sequence; "
                      "distinct = different hash over every scheduling decision, message, fault and observed value; non-trivial = at least one non-default scheduling/fault choice was taken or more than one rank ran",
              "samples": [{"seed": x["seed"], "solution": x["so"], "ranks": x["nranks"], "schedule_mode": x["mode"], "choices": x["r"]["ntrace"], "program": x["sc"][:600], "outcome": x["r"]["cls"] or "ok"} for x in runs[:6]],
              "seeds": [base, base + len(runs) - 1], "runs_per_hour": int(len(runs) / max(wall, .01) * 3600), "explore_wall_s": round(wall, 2), "build_wall_s": round(tb, 2),
              "simulated_seconds": round(cnt.get("simulated_us", cnt.get("sim_us", 0)) / 1e6, 6), "outcomes": dict(outc),
              "faults_injected": faults, "counters": {k: v for k, v in sorted(cnt.items())},
              "scenarios_by_solution": dict(collections.Counter(x["so"] for x in runs)), "scenarios_by_ranks": dict(collections.Counter(str(x["nranks"]) for x in runs)),
              "scenarios_by_schedule_mode": dict(collections.Counter(str(x["mode"]) for x in runs)),
              "programs_built": len(sos), "programs_rejected_by_compiler": P.get("rejected", 0), "corpus_scenarios": len(corpus), "repeated_runs": len(dups), "repeated_runs_identical": len(dups) - ndiff,
              "harness_errors": len(herr), "inconclusive": len(incon), "known_findings_hit": len(knownhits),
              "real_code": ["the whole YASK kernel library and YASK compiler output for every listed solution, built from /repo with -fsanitize=thread instrumentation",
                            "the YASK compiler (yc) and the loop/layout generators that produced that code"],
              "stubs": ["MPI (simulated network and shared windows)", "libgomp (simulated threads and work sharing)", "clocks and sleeps", "malloc/posix_memalign/mmap (checked arena)"],
          },
          "assumptions": P.get("assumptions", []) + ["the simulated MPI and OpenMP runtimes allow exactly the behaviours the MPI 3.1 and OpenMP 4.5 specifications allow"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viols), "violation_list": viols, "notes": notes}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d runs (%d distinct), %d ranks-runs>1, %.1f s (build %.1f s), %d violation(s)" %
        (prop, tier, len(runs), len(hashes), sum(1 for x in runs if x["nranks"] > 1), time.time() - t0, tb, len(viols)))
    return rc


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "replay":
        sys.exit(do_replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        sys.exit(check(a[0], tier))
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
