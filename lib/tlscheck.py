"""Machinery shared by all checks: build, TLC generation, replay, TLC judging, evidence."""
import concurrent.futures, fcntl, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.environ.get("HARNESS_TARGET", os.path.join(VERIF, "harness", "target"))
BIN = os.path.join(TARGET, "debug")


class ToolError(Exception):
    pass


def note(*a):
    print(*a, file=sys.stderr, flush=True)


def build(bins=("hs",)):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(VERIF, "harness", "build.sh")] + [x for b in bins for x in ("--bin", b)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stdout[-4000:])


def hooks():
    try:
        return open(os.path.join(TARGET, "hooks")).read().strip() == "1"
    except OSError:
        return False


def tlc(module, cfg, env, work, workers=8, args=(), timeout=600, heap="6g"):
    meta = tempfile.mkdtemp(prefix="meta-", dir=work)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss32m" % heap
    cmd = ["tlc", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, code = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        code = -1
    shutil.rmtree(meta, ignore_errors=True)
    return code, out


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r"states checked[^\d]*(\d[\d,]*)", out) or re.findall(r"(\d[\d,]*) states checked", out)
    n = int(m[-1].replace(",", "")) if m else 0
    return n, n


UNQ = re.compile(r'^<<"(\w+)", "(.*)">>$')


def printed(out, tag):
    """JSON values printed by PrintT(<<tag, ToJson(..)>>)"""
    res = []
    for line in out.splitlines():
        if line.startswith('<<"' + tag + '"'):
            m = UNQ.match(line)
            if m:
                res.append(json.loads(json.loads('"' + m.group(2) + '"')))
    return res


def generate(module, cfg, env, work, sim=0, depth=30, seed=1, workers=8, timeout=600, tag="SCRIPT"):
    """Scripts from the specification: exhaustive (sim=0) or sampled by several TLC processes."""
    def one(n, sd, w):
        args = ["-seed", str(sd)] + (["-simulate", "num=%d" % n, "-depth", str(depth)] if n else [])
        code, out = tlc(module, cfg, env, work, workers=w, args=args, timeout=timeout)
        if "is violated" in out or "Error:" in out:
            raise ToolError("specification %s: TLC reports\n%s" % (module, trim(out)))
        if code not in (0,):
            raise ToolError("TLC failed on %s (%s)\n%s" % (module, code, trim(out)))
        return printed(out, tag), tlc_counts(out)

    if not sim:
        return one(0, seed, workers)
    k = 1 if sim < 400 else 4
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        parts = list(ex.map(lambda i: one(sim // k, seed * 97 + i, 1), range(k)))
    return [s for p in parts for s in p[0]], tuple(sum(p[1][j] for p in parts) for j in (0, 1))


def trim(out):
    l = [x for x in out.splitlines() if not x.startswith(('<<"', "Parsing file", "Semantic proc", "Linting of", "Progress"))]
    k = next((i for i, x in enumerate(l) if "rror" in x), 0)
    return "\n".join(l[k:k + 3] + l[-60:])[-3000:]


def replay(scripts, work, seed, binary="hs", budget=300, threads=8, env=None):
    """Run the scripts against the library; returns the list of recorded traces.  A script that ends the
    process (abort, exhausted memory or stack) gives a trace with the single event 'crash'."""
    res, left, crashed = [], list(range(len(scripts))), []
    for attempt in range(6):
        code, out, traces, at = replay1([scripts[i] for i in left], work, seed, binary, budget, threads, env)
        if code == 0:
            for t in traces:
                t["idx"] = left[t["idx"]]
            return sorted(res + traces, key=lambda t: t["idx"])
        if code != "timeout" and code >= 0:
            raise ToolError("%s failed (%s): %s" % (binary, code, out[-2000:]))
        # which of the scripts that were under way is it?
        guilty = []
        for i in sorted({left[k] for k in at if k < len(left)}):
            c2, _, _, _ = replay1([scripts[i]], work, seed, binary, 60, 1, env)
            if c2 == "timeout" or c2 < 0:
                guilty.append(i)
                res.append({"idx": i, "id": scripts[i].get("id", ""), "fam": scripts[i].get("fam", ""), "ms": 0,
                            "cfg": scripts[i].get("cfg", {}), "role": scripts[i].get("role", ""),
                            "ev": [{"t": "crash", "code": str(c2)}]})
                break
        if not guilty:
            raise ToolError("%s failed (%s): %s" % (binary, code, out[-2000:]))
        crashed += guilty
        left = [i for i in left if i not in guilty]
        if len(crashed) >= 2:       # enough to report
            return sorted(res, key=lambda t: t["idx"])
    return sorted(res, key=lambda t: t["idx"])


def replay1(scripts, work, seed, binary, budget, threads, env):
    d = tempfile.mkdtemp(prefix="run-", dir=work)
    inp, outp = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
    with open(inp, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    e = dict(os.environ)
    e["HS_BUDGET"] = str(budget)
    e.update(env or {})

    def limits():
        m = (14 if binary == "hs" else 4) << 30
        resource.setrlimit(resource.RLIMIT_AS, (m, m))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    code, out, traces = 0, "", []
    try:
        r = subprocess.run([os.path.join(BIN, binary), inp, outp, d, str(threads), str(seed)], env=e, preexec_fn=limits,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=budget + 120)
        code, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        code = "timeout"
    at = []
    if code == 0:
        traces = [json.loads(l) for l in open(outp)]
    else:
        for f in os.listdir(d):
            if f.startswith("at-"):
                at.append(int(open(os.path.join(d, f)).read() or 0))
    shutil.rmtree(d, ignore_errors=True)
    return code, out, traces, at


def judge(traces, views, work, module="TlsTrace", diag=False, timeout=600, chunk=8000, extra=None):
    """TLC decides which traces are behaviours of the specification.
    Returns (set of accepted indexes, states, transitions, at) where at[i] = longest matched prefix."""
    acc, states, trans, at = set(), 0, 0, {}
    lo = 0
    while lo < len(traces):
        part, size = [], 0
        while lo + len(part) < len(traces) and len(part) < chunk and size < 20e6:
            part.append(json.dumps(traces[lo + len(part)]))
            size += len(part[-1])
        d = tempfile.mkdtemp(prefix="judge-", dir=work)
        tp, vp = os.path.join(d, "t.ndjson"), os.path.join(d, "v.json")
        with open(tp, "w") as f:
            for t in part:
                f.write(t + "\n")
        with open(vp, "w") as f:
            f.write(json.dumps({"views": views}) + "\n")
        env = {"TRACE": tp, "VIEWS": vp}
        env.update(extra or {})
        if diag:
            env["DIAG"] = "1"
        code, out = tlc(module + ".tla", module + ".cfg", env, work, timeout=timeout)
        if code != 0:
            if diag and "is violated" not in out:
                pass
            elif "is violated" in out:
                # a recorded behaviour violates a safety property of the machine: everything not
                # accepted so far has to be judged one by one
                note("judge: safety property violated in a recorded behaviour")
            else:
                raise ToolError("TLC failed on traces (%s)\n%s" % (code, trim(out)))
        for m in re.finditer(r'^<<"ACC", (\d+)>>', out, re.M):
            acc.add(lo + int(m.group(1)) - 1)
        for m in re.finditer(r'^<<"AT", (\d+), (\d+), "(\w+)"', out, re.M):
            i = lo + int(m.group(1)) - 1
            at.setdefault(i, {}).setdefault(int(m.group(2)), set()).add(m.group(3))
        s, t = tlc_counts(out)
        states += s
        trans += t
        lo += len(part)
        shutil.rmtree(d, ignore_errors=True)
    return acc, states, trans, at


def known_findings():
    """Lines 'known: property=<id> match=<json>' of the known-findings file."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) match=(\{.*?\}) (.*)$", l.strip())
            if m:
                res.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return res


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.violations = []
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.detail = {}
        self.assumptions = []
        old = os.path.join(VERIF, "evidence", "replay")
        for f in os.listdir(old) if os.path.isdir(old) else []:
            if f.startswith("%s-%s-" % (prop, tier)):
                os.unlink(os.path.join(old, f))

    # ------------------------------------------------------------------
    def count(self, states, trans):
        self.states += states
        self.trans += trans

    def gen(self, profile, k, sim=0, module="TlsGen", **kw):
        env = {"PROFILE": profile, "K": k, "TIER": self.tier, "SIM": 1 if sim else 0}
        env.update(kw.pop("env", {}))
        more = kw.pop("note", "")
        s, (st, tr) = generate(module + ".tla", module + ".cfg", env, self.work, sim=sim, seed=self.seed, **kw)
        self.count(st, tr)
        self.detail.setdefault("generated", {})["%s%s K=%s %s" % (profile, " " + more if more else "", k, "sampled %d" % sim if sim else "exhaustive")] = len(s)
        return s

    def run(self, scripts, views, name, module="TlsTrace", binary="hs", budget=300, timeout=600, extra=None, threads=8):
        """Replay scripts and judge the traces; violations are recorded."""
        if not scripts:
            return []
        if len([p for _, p in self.violations if p]) >= 5:
            self.detail.setdefault("not run after violations", []).append(name)
            return []
        scripts = dedupe(scripts)
        for i, s in enumerate(scripts):
            s.setdefault("id", "%s-%d" % (name, i))
            s.setdefault("seed", (self.seed * 7919 + zlib.crc32(key(s).encode()) * 31) % 1000000007)
        traces = replay(scripts, self.work, self.seed, binary=binary, budget=budget, threads=threads)
        if os.environ.get("KEEP"):
            with open(os.environ["KEEP"] + "/" + name + ".ndjson", "w") as f:
                for t in traces:
                    f.write(json.dumps(dict(t, script=slim(scripts[t.get("idx", 0)]))) + "\n")
        acc, st, tr, _ = judge(traces, views, self.work, module, timeout=timeout, extra=extra)
        self.count(st, tr)
        rej = [i for i in range(len(traces)) if i not in acc]
        # runs that ran into time limits are repeated, alone, before they count
        slow = [i for i in rej if traces[i].get("ms", 0) > 3000][:12]
        for i in slow:
            t2 = replay([scripts[traces[i].get("idx", i)]], self.work, self.seed, binary=binary, budget=60, threads=1)
            a2, _, _, _ = judge(t2, views, self.work, module, extra=extra)
            if t2 and 0 not in a2:
                traces[i] = t2[0]
            else:
                rej.remove(i)
        rej = [i for i in rej if traces[i].get("ms", 0) <= 3000 or i in slow]
        self.traces += len(traces)
        self.detail.setdefault("runs", {})[name] = {"scripts": len(scripts), "replayed": len(traces), "accepted": len(acc)}
        if len(traces) < len(scripts):
            note("%s: %d of %d scripts were not run (time budget or hangs)" % (name, len(scripts) - len(traces), len(scripts)))
        if traces and len(self.samples) < 3:
            k = (self.seed * 31) % len(traces)
            self.samples.append({"script": slim(scripts[traces[k].get("idx", k)]), "trace": traces[k]["ev"][:12] if "ev" in traces[k] else traces[k]})
        for i in rej[:5]:
            self.report(name, scripts[traces[i].get("idx", i)], traces[i], views, module, extra)
        self.violations += [("%s: %d further" % (name, len(rej) - 5), None)] if len(rej) > 5 else []
        return traces

    def report(self, name, script, trace, views, module, extra=None, why=None):
        for p, match, text in known_findings():
            if p == self.prop and all(script.get(k) == v for k, v in match.items()):
                print("KNOWN-FINDING: property=%s %s" % (p, text))
                return
        info = {"property": self.prop, "batch": name, "spec": module, "views": views, "script": script, "trace": trace}
        if why:
            info["why"] = why
        else:
            try:
                _, _, _, at = judge([trace], views, self.work, module, diag=True, extra=extra)
                ok = at.get(0, {})
                n = max(ok) if ok else 0
                info["matched_events"] = n
                if "ev" in trace and n < len(trace["ev"]):
                    info["first_unexplained_event"] = trace["ev"][n]
                    info["machine_states_before"] = sorted(ok.get(n, []))
            except ToolError as e:
                info["diagnosis"] = str(e)[:500]
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, len(self.violations)))
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append((name, path))

    def fail(self, name, info):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "batch": name, **info}, f, indent=1)
        self.violations.append((name, path))

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.trans,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples or ["none"], **self.detail},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [{"batch": n, "replay": p} for n, p in self.violations],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        bad = [p for _, p in self.violations if p]
        for p in bad:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if not bad:
            print("%s %s: held on %d traces, %d specification states, %.1f s" %
                  (self.prop, self.tier, self.traces, self.states, time.time() - self.t0))
        return 1 if bad else 0


def slim(s):
    return {k: v for k, v in s.items() if k in ("role", "cfg", "steps", "ops", "conns", "seg", "sops", "cops", "cut", "want")}


def key(s):
    return json.dumps({a: b for a, b in s.items() if a not in ("id", "seed")}, sort_keys=True)


def dedupe(scripts):
    """Without repetitions, in an order that does not depend on TLC's scheduling."""
    d = {key(s): s for s in scripts}
    return [d[k] for k in sorted(d)]


def sample(scripts, n, seed):
    scripts = dedupe(scripts)
    if len(scripts) <= n:
        return scripts
    r = random.Random(seed)
    return r.sample(scripts, n)
