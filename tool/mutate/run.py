#!/usr/bin/env python3
# run.py MUTATE WV OUT.jsonl [-j N] [-f regexp]: try every mutant: first the
# checks, then (if they stay quiet) the package tests.
import json, os, re, subprocess, sys, tempfile, shutil, concurrent.futures as cf, threading, queue
mut, wv, outp = sys.argv[1:4]
jobs = int(sys.argv[sys.argv.index("-j")+1]) if "-j" in sys.argv else 7
pat = re.compile(sys.argv[sys.argv.index("-f")+1]) if "-f" in sys.argv else None
ids = set(open(sys.argv[sys.argv.index("-i")+1]).read().split()) if "-i" in sys.argv else None
ms = json.loads(subprocess.run([mut, "-repo", "/repo"], capture_output=True, text=True).stdout)
def boring(m):
    if re.match(r'^\s*(engine\.config|config|catacomb|runner|c|\w+)?\.?(params\.|config\.)?[lL]ogger\.\w+f\(', m["Old"]) and m["Op"] in ("delete",): return True
    return False
ms = [m for m in ms if not boring(m)]
if pat: ms = [m for m in ms if pat.search("%s:%d %s %s" % (m["File"], m["Line"], m["Op"], m["ID"]))]
if ids: ms = [m for m in ms if m["ID"] in ids]
base = tempfile.mkdtemp(prefix="mut.")
dirs = queue.Queue()
for i in range(jobs):
    d = os.path.join(base, "w%d" % i); shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    v = os.path.join(base, "v%d" % i); os.makedirs(v); shutil.copy("/verif/known-findings.txt", v)
    dirs.put((d, v))
def sh(c, d, t=400):
    try:
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export GOSUMDB=off; " + c], cwd=d, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
lock = threading.Lock()
out = open(outp, "a")
def one(m):
    d, v = dirs.get()
    try:
        p = os.path.join(d, m["File"]); orig = open("/repo/" + m["File"], "rb").read()
        open(p, "wb").write(orig[:m["Off"]] + m["New"].encode() + orig[m["End"]:])
        m["det"] = []; m["res"] = ""
        rc, o = sh("go build ./...", d)
        if rc: m["res"] = "nobuild"; return m
        rc, o = sh("%s -p %s -verif %s -repo %s" % (wv, os.environ.get("PROPS","all"), v, d), d)
        m["det"] = re.findall(r"VIOLATION property=(\w+)", o)
        if rc not in (0, 1): m["det"].append("rc%d" % rc)
        if m["det"]: m["res"] = "detected"; return m
        rc, o = sh("go test -vet=off -timeout 100s ./...", d)
        m["res"] = "killed" if rc else "SURVIVES"
        return m
    finally:
        open(p, "wb").write(orig)
        dirs.put((d, v))
n = 0
with cf.ThreadPoolExecutor(jobs) as ex:
    for m in ex.map(one, ms):
        n += 1
        out.write(json.dumps(m) + "\n"); out.flush()
        if m["res"] == "SURVIVES": print(n, m["ID"], "%s:%d" % (m["File"], m["Line"]), m["Op"], repr(m["Old"]), "->", repr(m["New"]), flush=True)
shutil.rmtree(base)
print("done", len(ms))
