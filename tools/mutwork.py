#!/usr/bin/env python3
"""mutwork.py LIST K OF BINS PROPS SECONDS RESULT : one worker of mutrun.sh; runs in a mount namespace with its own /repo and /verif"""
import json, os, subprocess, sys, time, hashlib
sys.path.insert(0, "/verif")
import build as B
lst, k, of, bins, props, secs, res = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(","), sys.argv[5].split(","), float(sys.argv[6]), sys.argv[7]
muts = json.load(open(lst))
def sha(p): return hashlib.sha256(open(p, "rb").read()).hexdigest()
B.build(bins, 1); base = {b: sha("/verif/build/bin_" + b) for b in bins}
def one(m):
    p = "/repo/" + m["file"]; src = open(p).read().split("\n")
    assert src[m["line"] - 1] == m["old"]
    keep = open(p).read(); src[m["line"] - 1] = m["new"]; open(p, "w").write("\n".join(src))
    try:
        B._filehash.clear()
        try: out = B.build(bins, 1)
        except RuntimeError: return "nocompile", ""
        if all(sha(out[b]) == base[b] for b in bins): return "NOCODE", ""
        for prop in props:
            for b in bins:
                if b not in [x for x, _ in B.PROPERTY[prop]]: continue
                o = "/verif/build/mut.json"
                try:
                    q = subprocess.run([out[b], "batch", "--prop", prop, "--seed", "1", "--first", "0", "--stride", "1", "--count", "1000000", "--time", str(secs), "--out", o, "--maxviol", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=secs + 120)
                except subprocess.TimeoutExpired: return "timeout", prop
                n = 0
                for l in open(o):
                    d = json.loads(l)
                    if "summary" in d: n = d["runs"]; continue
                    if d.get("status") == 2: return "killed", "%s %s %s" % (prop, d.get("kind"), str(d.get("msg"))[:100])
                    return "harness", "%s %s" % (prop, str(d)[:300])
        if os.environ.get("MUT_NOTEST"): return "SURVIVED", ""
        q = subprocess.run("bash /opt/vp/test.sh /tmp/mwt_%d.json > /tmp/mwt_%d.log 2>&1; python3 -c \"import json; print(len(json.load(open('/tmp/mwt_%d.json'))['passed']))\"" % (k, k, k), shell=True, stdout=subprocess.PIPE, text=True, timeout=1500)
        n = q.stdout.strip()
        return ("SURVIVED" if n.isdigit() and int(n) >= 73 else "tests-kill"), n
    finally:
        open(p, "w").write(keep)
done = {json.loads(l)["i"] for l in open(res)} if os.path.exists(res) else set()
for i in range(k, len(muts), of):
    if i in done: continue
    t = time.time()
    try: r = one(muts[i])
    except Exception as e: r = ("error", repr(e)[:200])
    with open(res, "a") as f: f.write(json.dumps(dict(i=i, r=r[0], why=r[1], t=round(time.time() - t), m=muts[i])) + "\n")
