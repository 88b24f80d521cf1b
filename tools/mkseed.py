#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS (--script FILE --expect EXPR | --main FILE)
Keeps the change in the scratch copy /tmp/seed/repo as a planted bug. EXPR is a python expression over
T, the list of recorded runs; it must be true on the unchanged tree."""
import json, os, re, shutil, subprocess, sys, tarfile, io
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seed/repo"
BASE = "444a385"

sid, prop, needs, breaks = sys.argv[1:5]
opt = dict(zip(sys.argv[5::2], sys.argv[6::2]))
d = os.path.join(ROOT, "seeded", sid)
if os.path.isdir(d):
    shutil.rmtree(d)
os.makedirs(d)
diff = subprocess.check_output(["git", "-C", WT, "diff", "HEAD"], text=True)
assert diff.strip(), "no change"
# at least one removed line must be an original one
orig = False
cur = None
old = 0
for l in diff.splitlines():
    if l.startswith("--- a/"):
        cur = l[6:]
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", cur], capture_output=True, text=True).stdout.splitlines()
        base = subprocess.run(["git", "-C", "/repo", "rev-parse", BASE], capture_output=True, text=True).stdout.strip()
        anc = set(subprocess.run(["git", "-C", "/repo", "rev-list", BASE], capture_output=True, text=True).stdout.split())
    m = re.match(r"@@ -(\d+)", l)
    if m:
        old = int(m.group(1))
        continue
    if l.startswith("---") or l.startswith("+++"):
        continue
    if l.startswith("-"):
        h = blame[old - 1].split()[0].lstrip("^")
        if any(a.startswith(h[:39]) for a in anc):
            orig = True
        old += 1
    elif l.startswith(" "):
        old += 1
print("changes an original line:", orig)
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\nexec python3 \"$(dirname \"$0\")/demo.py\"\n")
os.chmod(os.path.join(d, "demo.sh"), 0o755)
COMMON = '''import json, os, subprocess, sys, tarfile, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory() as w:
    with tarfile.open(os.path.join(here, "kit.tgz")) as t:
        t.extractall(w)
    toml = open(w + "/Cargo.toml").read().replace("/repo/anothertls", repo + "/anothertls")
    open(w + "/Cargo.toml", "w").write(toml)
    env = dict(os.environ, CARGO_TARGET_DIR=w + "/t", RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
    subprocess.run(["cargo", "build", "-q", "--offline", "--bin", BIN], cwd=w, env=env, check=True)
'''
def kit(files):
    with tarfile.open(os.path.join(d, "kit.tgz"), "w:gz") as t:
        for name, path in files:
            def flt(ti):
                ti.mtime = 0; ti.uid = ti.gid = 0; ti.uname = ti.gname = ""
                return ti
            t.add(path, name, filter=flt)
H = os.path.join(ROOT, "harness")
if "--script" in opt:
    shutil.copy(opt["--script"], os.path.join(d, "script.ndjson"))
    kit([("Cargo.toml", H + "/Cargo.toml"), ("Cargo.lock", H + "/Cargo.lock"), ("src", H + "/src")])
    open(os.path.join(d, "demo.py"), "w").write(COMMON.replace("BIN", '"hs"') + '''    out = w + "/out.ndjson"
    subprocess.run([w + "/t/debug/hs", here + "/script.ndjson", out, w, "4", "1"], check=True, timeout=200, stdout=subprocess.DEVNULL)
    T = [json.loads(l) for l in open(out)]
T.sort(key=lambda t: t["idx"])
def ev(t, kind): return [e for e in t["ev"] if e["t"] == kind]
def res(t): return [e["res"] for e in ev(t, "hsres")]
def read(t): return sum(e["len"] for e in ev(t, "eut") if e["op"] == "r" and e["res"] == "ok")
ok = bool(%s)
print("as it should be" if ok else "broken")
sys.exit(0 if ok else 1)
''' % opt["--expect"])
else:
    tmp = "/tmp/seed/kit"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + "/src")
    open(tmp + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n[dependencies]\nanothertls = { path = "/repo/anothertls" }\nibig = "0.3.6"\n')
    shutil.copy(opt["--main"], tmp + "/src/main.rs")
    kit([("Cargo.toml", tmp + "/Cargo.toml"), ("Cargo.lock", H + "/Cargo.lock"), ("src", tmp + "/src")])
    open(os.path.join(d, "demo.py"), "w").write(COMMON.replace("BIN", '"demo"') + '''    r = subprocess.run([w + "/t/debug/demo"], timeout=200)
sys.exit(0 if r.returncode == 0 else 1)
''')
print(d, sorted(os.listdir(d)))
