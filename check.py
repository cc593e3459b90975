#!/usr/bin/env python3
"""check.py <property>: build from /repo, explore seeded simulated runs, gate, minimise and report violations, write evidence."""
import json, os, re, signal, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
# property -> (quick runs, thorough runs, quick time cap s, thorough time cap s)
BUDGET = json.load(open(os.path.join(VERIF, "budget.json")))
NW = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 8)

def run(cmd, timeout=180):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"

def replay(binary, text, record=None, tmp=None):
    f = tmp or os.path.join(B.OUT, "tmp_replay_%d.plan" % os.getpid())
    with open(f, "w") as h: h.write(text)
    cmd = [binary, "replay", "--file", f]
    if record: cmd += ["--record", record]
    rc, out, err = run(cmd)
    try:
        return json.loads(out.strip().split("\n")[-1])
    except Exception:
        return {"status": 3, "kind": "harness", "msg": "no result: " + err[-300:], "hash": ""}

class Plan:
    def __init__(self, text):
        self.head, self.ops, self.pre, self.fixed = [], [], [], False
        for l in text.split("\n"):
            if l.startswith("op "): self.ops.append(l)
            elif l.startswith("pre "): self.pre.append(l)
            elif l == "fixed": self.fixed = True
            elif l and not l.startswith("#"): self.head.append(l)
    def text(self, ops=None, pre=None, fixed=None, head=None):
        o = list(self.head if head is None else head) + list(self.ops if ops is None else ops)
        if self.fixed if fixed is None else fixed: o.append("fixed")
        if self.fixed if fixed is None else fixed: o += list(self.pre if pre is None else pre)
        return "\n".join(o) + "\n"

def minimise(binary, text, kind, budget=60.0):
    """returns (plan text, number of replays). Only accepts candidates that show the same kind of violation."""
    t0 = time.time(); n = [0]
    rec = os.path.join(B.OUT, "tmp_rec_%d.plan" % os.getpid())
    def bad(t, record=None):
        n[0] += 1
        r = replay(binary, t, record)
        return r["status"] == 2 and r["kind"] == kind
    left = lambda: budget - (time.time() - t0)
    best = text
    if bad(text, rec):
        f = open(rec).read()
        if bad(f): best = f
        else: return text, n[0]
    else:
        return text, n[0]
    P = Plan(best)
    def try_ops(ops):
        nonlocal P
        t = P.text(ops=ops)
        if bad(t): P = Plan(t); return True
        if P.pre and left() > budget * 0.4:      # the schedule shifted: search a new one for the smaller plan
            for k in range(4):
                head = [("par sseed %d" % (1000 + k)) if l.startswith("par sseed ") else l for l in P.head]
                t = P.text(ops=ops, fixed=False, head=head)
                if bad(t, rec):
                    f = open(rec).read()
                    if bad(f): P = Plan(f); return True
        return False
    def ddmin(get, attempt):
        size = max(1, len(get()) // 2)
        while size >= 1 and left() > 0:
            i, changed = 0, False
            while i < len(get()) and left() > 0:
                items = get()
                cand = items[:i] + items[i + size:]
                if attempt(cand): changed = True
                else: i += size
            if size == 1 and not changed: break
            size = max(1, size // 2) if not changed or size > 1 else 1
            if not changed and size == 1 and len(get()) <= 1: break
    ddmin(lambda: P.ops, try_ops)
    def try_pre(pre):
        nonlocal P
        t = P.text(pre=pre)
        if bad(t): P = Plan(t); return True
        return False
    if P.pre:
        if not try_pre([]): ddmin(lambda: P.pre, try_pre)
    # drop faults, shrink numbers
    for i in range(len(P.ops)):
        if left() <= 0: break
        w = P.ops[i].split()
        if w[4] != "fail=0":
            w2 = list(w); w2[4] = "fail=0"
            ops = list(P.ops); ops[i] = " ".join(w2)
            if try_ops(ops): w = P.ops[i].split()
        for k in range(5, len(w)):
            for v in ("0", "1", str(int(w[k]) // 2)):
                if left() <= 0 or w[k] == v or abs(int(v)) >= abs(int(w[k])): continue
                w2 = list(w); w2[k] = v
                ops = list(P.ops); ops[i] = " ".join(w2)
                t = P.text(ops=ops)
                if bad(t): P = Plan(t); w = w2; break
    if P.pre and left() > 0: ddmin(lambda: P.pre, try_pre)
    return P.text(), n[0]

def symbolise(binary, pcs):
    if not pcs: return []
    a = ["0x%x" % (int(p, 16) - 1) for p in pcs]
    rc, out, _ = run(["addr2line", "-Cfpie", binary] + a, 60)
    res = []
    for l in out.split("\n"):
        l = l.strip()
        if not l or l.startswith("(inlined") and "engine" in l: continue
        if "/verif/engine" in l or "??" in l: continue
        l = re.sub(r"discriminator \d+", "", l).replace("(inlined by) ", "  ")
        res.append(l[:220])
    return res[:14]

def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) binary=(\S+) plan=(\S+) kind=(\S+) where=(\S+) (.*)", l)
            if m and m.group(1) == prop: res.append(dict(binary=m.group(2), plan=m.group(3), kind=m.group(4), where=m.group(5), text=m.group(6)))
    return res

def read_u64(f):
    try:
        d = open(f, "rb").read()
        return struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8])
    except OSError:
        return ()

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        bins = B.build([b for b, _ in B.PROPERTY[prop]])
    except RuntimeError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e)); return 2
    tb = time.time() - t0
    bud = BUDGET[prop]
    total = bud["runs"] if tier == "quick" else bud["thorough_runs"]
    cap = float(os.environ.get("VERIF_CAP", "0")) or (bud.get("cap", 240) if tier == "quick" else bud.get("thorough_cap", 1500))
    shares = B.PROPERTY[prop]; tot = sum(s for _, s in shares)
    outdir = os.path.join(B.OUT, "out_" + prop); os.makedirs(outdir, exist_ok=True)
    agg = dict(runs=0, nontrivial=0, steps=0, switches=0, preempts=0, syncs=0, allocs=0, shared_accesses=0, detchecks=0, faulty_runs=0, virtual_s=0.0)
    maps = dict(faults={}, fault_runs={}, probes={}, scenarios={}, strategies={})
    hashes, sigs, viol, herr, maxthr = set(), set(), [], [], 0
    known = known_findings(prop)
    texp = time.time()
    for b, share in shares:
        cnt = max(NW, int(total * share / tot)); capb = cap * share / tot
        procs = []
        for w in range(NW):
            o = os.path.join(outdir, "%s_%d.json" % (b, w))
            procs.append((o, subprocess.Popen([bins[b], "batch", "--prop", prop, "--seed", str(seed), "--first", str(w), "--stride", str(NW), "--count", str(cnt), "--time", str(capb), "--out", o,
                                               "--maxviol", "200" if known else "3"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for o, p in procs:
            try:
                _, err = p.communicate(timeout=capb + 200)
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate(); herr.append("worker did not finish"); continue
            if p.returncode: herr.append("worker exit %d: %s" % (p.returncode, err[-300:]))
            for l in open(o):
                d = json.loads(l)
                if "summary" in d:
                    for k in agg: agg[k] += d[k]
                    maxthr = max(maxthr, d["max_threads"])
                    for k in maps:
                        for x, y in d[k].items(): maps[k][x] = maps[k].get(x, 0) + y
                elif "harness" in d: herr.append("%s: seed %s scenario %s" % (d["harness"], d["seed"], d["scenario"]))
                elif d["status"] == 2: d["bin"] = b; viol.append(d)
                else: herr.append("harness: %s seed %s %s" % (d["msg"], d["seed"], d["scenario"]))
            hashes.update((b, h) for h in read_u64(o + ".hash")); sigs.update((b, h) for h in read_u64(o + ".sig"))
            for sfx in ("", ".hash", ".sig"):
                try: os.remove(o + sfx)
                except OSError: pass
    texp = time.time() - texp
    # known findings: reproduce each from its committed plan
    for k in known:
        r = replay(bins[k["binary"]], open(os.path.join(VERIF, k["plan"])).read())
        if r["status"] == 2 and r["kind"] == k["kind"]: print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    def is_known(d):
        for k in known:
            if k["kind"] == d["kind"] and k["binary"] == d["bin"]:
                if k["where"] == "-" or any(k["where"] in s for s in symbolise(bins[d["bin"]], d["pcs2"] + d["pcs"])): return True
        return False
    fresh = [d for d in viol if not is_known(d)] if known else viol
    # report the distinct kinds, smallest runs first
    fresh.sort(key=lambda d: (d["steps"], d["seed"]))
    reported, seen, gate_errors = 0, set(), []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for d in fresh:
        key = (d["kind"], d["scenario"], d["bin"])
        if key in seen or reported >= 3: continue
        binary = bins[d["bin"]]
        # gate 1: same seed twice, same behaviour
        rc, text, err = run([binary, "plan", "--prop", prop, "--seed", d["seed"]])
        a = replay(binary, text); b2 = replay(binary, text)
        if not (a["status"] == b2["status"] == 2 and a["kind"] == b2["kind"] == d["kind"] and a["hash"] == b2["hash"] == d["hash"]):
            gate_errors.append("seed %s (%s, %s): violation does not repeat exactly" % (d["seed"], d["scenario"], d["kind"])); continue
        mtext, nrep = minimise(binary, text, d["kind"], 60 if tier == "quick" else 180)
        # gate 2: the minimised file reproduces in fresh processes, exactly
        r1 = replay(binary, mtext); r2 = replay(binary, mtext)
        if not (r1["status"] == r2["status"] == 2 and r1["kind"] == r2["kind"] == d["kind"] and r1["hash"] == r2["hash"]):
            mtext = text; r1 = a
        path = os.path.join(VERIF, "replays", "%s-%s-%s.plan" % (prop, d["kind"], d["seed"]))
        P = Plan(mtext)
        with open(path, "w") as f:
            f.write("# property %s binary %s\n# violation: %s: %s\n# hash %s; minimised with %d replays from seed %s to %d operations, %d forced schedule decisions\n" % (prop, d["bin"], r1["kind"], r1["msg"], r1["hash"], nrep, d["seed"], len(P.ops), len(P.pre)))
            for t, pcs in (("at", r1.get("pcs2", [])), ("stack", r1.get("pcs", []))):
                for s in symbolise(binary, pcs): f.write("# %s: %s\n" % (t, s))
            f.write("# replay: python3 %s/replay.py %s\n" % (VERIF, path)); f.write(mtext)
        seen.add(key); reported += 1
        print("%s: %s: %s (scenario %s, seed %s, %d operations, %d preemptions)" % (prop, r1["kind"], r1["msg"], d["scenario"], d["seed"], len(P.ops), len(P.pre)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    # samples for the evidence: actual cases of this run
    samples = []
    for b, _ in shares:
        for i in (0, 1):
            ph = 1469598103934665603
            for c in prop.encode(): ph = ((ph ^ c) * 1099511628211) & (2**64 - 1)
            rc, text, _ = run([bins[b], "plan", "--prop", prop, "--seed", str(B_mix(B_mix(seed, ph), i) >> 1)])
            lines = text.strip().split("\n")
            samples.append({"binary": b, "index": i, "plan": lines[:14] + (["... %d more lines" % (len(lines) - 14)] if len(lines) > 14 else [])})
    cov = dict(evaluations=agg["runs"], distinct_nontrivial=len(hashes),
        rule="One evaluation is one complete simulated run in its own process; its operations, parameters, initial memory contents, faults and every scheduling decision follow from one seed. "
             "Distinct: different hash of the run's whole event sequence (accesses, synchronisation, task switches, faults, results). Non-trivial: the scenario itself reports that the run exercised the property (e.g. at least two blocks released, two tasks overlapping, a fault that fired).",
        samples=samples, nontrivial_runs=agg["nontrivial"], distinct_schedules=len(sigs), distinct_schedules_measure="hash of the order of task switches and synchronisation events, runs with more than one task",
        runs_per_hour=int(agg["runs"] / max(texp, 0.01) * 3600), seeds_per_hour=int(agg["runs"] / max(texp, 0.01) * 3600), simulated_steps=agg["steps"], simulated_time_s=round(agg["virtual_s"], 6),
        simulated_time_note="the code reads no clock; simulated progress is counted in steps (instrumented accesses and synchronisation operations)",
        task_switches=agg["switches"], forced_preemptions=agg["preempts"], sync_operations=agg["syncs"], race_checked_accesses=agg["shared_accesses"], heap_allocations=agg["allocs"], max_tasks=maxthr,
        faults_injected=maps["faults"], runs_with_fault_kind=maps["fault_runs"], runs_with_faults=agg["faulty_runs"], runs_without_faults=agg["runs"] - agg["faulty_runs"],
        probes=maps["probes"], scenarios=maps["scenarios"], schedule_strategies=maps["strategies"], determinism_checks=agg["detchecks"], workers=NW, build_s=round(tb, 1), explore_s=round(texp, 1),
        binaries=[b for b, _ in shares], real_components=bud.get("real", []), stub_components=bud.get("stub", []))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=bud.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=reported)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial, %d distinct schedules), %d with faults, %d violations, %.1f s build, %.1f s exploration" % (prop, tier, agg["runs"], len(hashes), len(sigs), agg["faulty_runs"], len(viol), tb, texp))
    if reported: return 1
    for e in gate_errors + herr: print("HARNESS-ERROR property=%s %s" % (prop, e))
    if gate_errors or herr: return 2
    if agg["runs"] == 0: print("HARNESS-ERROR no runs"); return 2
    missing = [p for p in bud.get("must_probe", []) if not maps["probes"].get(p) and not maps["faults"].get(p)]
    if missing and not viol and tier == "quick" and agg["runs"] >= total * 0.9: print("note: never reached: %s" % ", ".join(missing))
    return 0

def B_mix(a, b):
    M = 2**64 - 1
    s = (a * 0x9E3779B97F4A7C15 + b) & M
    def nxt():
        nonlocal s
        s = (s + 0x9E3779B97F4A7C15) & M
        z = s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
        return z ^ (z >> 31)
    nxt()
    return (nxt() ^ b) & M

if __name__ == "__main__":
    sys.exit(main())
