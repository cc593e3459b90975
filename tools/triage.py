"""Development aid: runs seeded batches and groups the violations. usage: triage.py PROP BINARY [count] [seed]"""
import sys, subprocess, json, re, collections, os
prop, binary = sys.argv[1], sys.argv[2]
count = sys.argv[3] if len(sys.argv) > 3 else "800"
seed = sys.argv[4] if len(sys.argv) > 4 else "1"
B = os.environ.get("VERIF_BUILD", "/verif/build")
ps = []
for k in range(8):
    o = "/tmp/triage.%s.%s.%d" % (prop, binary, k)
    ps.append((o, subprocess.Popen([B + "/bin_" + binary, "batch", "--prop", prop, "--seed", seed, "--first", str(k), "--stride", "8", "--count", count, "--maxviol", "100000", "--time", "300", "--out", o], stderr=subprocess.DEVNULL)))
syms = {}
def sym(pc):
    if pc not in syms:
        r = subprocess.run(["addr2line", "-e", B + "/bin_" + binary, pc], stdout=subprocess.PIPE, text=True).stdout.strip()
        syms[pc] = re.sub(r" \(discr.*", "", r).replace("/repo/anifem++/", "").replace("/verif/scen/", "scen/").replace("/verif/engine/", "")
    return syms[pc]
g = collections.defaultdict(list); runs = 0; probes = collections.Counter(); wall = 0
for o, p in ps:
    p.wait()
    for l in open(o):
        d = json.loads(l)
        if "summary" in d:
            runs += d["runs"]; wall = max(wall, d["wall"])
            for a, b in d["probes"].items(): probes[a] += b
            continue
        m = d.get("msg") or d.get("harness") or str(d)
        frames = []
        for pc in d.get("pcs", [])[:8]:
            f = sym(pc)
            if not any(x in f for x in ("sim.cpp", "driver.cpp", "fem_scen.cpp", "/usr/", "??", "sysdeps", "libsupc")) and len(frames) < 3: frames.append(f)
        m2 = re.sub(r"0x[0-9a-f]+", "#", m); m2 = re.sub(r"\((plain arrays|raw buffer|pool|stack|array of \w+)", "(W", m2)
        if "results differ" in m2: m2 = re.sub(r", number.*", "", m2)
        key = d.get("kind", "?") + " | " + re.sub(r"-?\d+(\.\d+)?(e[-+]?\d+)?", "#", m2)[:150] + " | " + " < ".join(frames)
        g[key].append((d.get("seed"), m))
print("runs", runs, "wall", wall, dict(probes))
for k, v in sorted(g.items(), key=lambda t: -len(t[1]))[:40]:
    print(len(v), k, "\n     e.g. seed", v[0][0], v[0][1][:300])
