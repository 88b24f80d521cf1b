"""What is generated, replayed and judged for each property."""
import json, time
import tlscheck as T

OPS = [{"op": "w", "n": 5}, {"op": "rerr", "n": 20000, "max": 2}]


def prep(scripts, ops=None, seg=None):
    """Scripts of TlsGen -> runs of the harness."""
    for s in scripts:
        s.setdefault("ops", ops or OPS)
        s["seg"] = seg or s["cfg"].get("seg", "whole")
    return scripts


def core(c, profile, views, k2=0, k3=0, thorough=(20000, 20000), limit=10**9):
    """All scripts with one edit, samples with two and three."""
    runs = prep(c.gen(profile, 1))
    if c.tier == "quick":
        runs = T.sample(runs, limit, c.seed)
    n2, n3 = (k2, k3) if c.tier == "quick" else thorough
    if n2:
        runs += prep(c.gen(profile, 2, sim=n2))
    if n3:
        runs += prep(c.gen(profile, 3, sim=n3))
    c.detail["expected"] = tally(runs)
    c.run(runs, views, profile, budget=300 if c.tier == "quick" else 1500, timeout=600 if c.tier == "quick" else 3000)


def tally(runs):
    t = {}
    for r in runs:
        k = "/".join(sorted(r.get("want", [])))
        t[k] = t.get(k, 0) + 1
    return t


def pairs_of_edits(c, profile, views):
    """Every pair of edits over a smaller menu."""
    n = tiers(c, 0, 8000)
    runs = prep(c.gen(profile, 2))
    if n:
        runs += prep(c.gen(profile, 4, sim=n))
    c.run(runs, views, profile, budget=tiers(c, 300, 1500), timeout=tiers(c, 600, 3000))


def s01(c):
    core(c, "S01", ["est", "rd", "live"], 1500, 1500)


def s02(c):
    core(c, "S02", ["est", "vfn", "live"], 2000, 2000)
    pairs_of_edits(c, "PairS", ["est", "vfn", "live"])


def s03(c):
    core(c, "S03", ["est", "nofin", "dat", "live"], 1500, 1500)
    pairs_of_edits(c, "PairC", ["est", "nofin", "dat", "live"])


def h01(c):
    core(c, "H01", ["est", "live"], 2000, 1000)


def h03(c):
    core(c, "H03", ["est", "sh", "code", "ch", "msg"], 1000, 0)


def h04(c):
    core(c, "H04", ["est", "code", "msg", "ch"], 0, 0, (0, 0))


def a01(c):
    core(c, "A01", ["est", "code", "msg", "rcode"], 2000, 1000)


def a02(c):
    """Anything the peer sends: every call returns."""
    v = ["est", "live"]
    core(c, "A02", v, tiers(c, 1500, 0), tiers(c, 1500, 0), limit=6000)
    runs = prep(c.gen("A02s", 1))
    c.run(runs, v, "A02-every", budget=tiers(c, 200, 1500), timeout=3000)
    n = tiers(c, 4000, 40000)
    runs = prep(c.gen("A02m", 3, sim=n))
    c.run(runs, v, "A02-random", budget=tiers(c, 200, 1500), timeout=3000)
    app(c, "R02", v, 10, tiers(c, 1500, 20000), k=3)


def l01(c):
    """Histories of connections of one server / one client configuration."""
    v = ["est", "msg", "code", "vfn", "klog", "rd", "dat", "rec", "live"]
    for prof, n, k, num in (("L01", 2, 1, tiers(c, 1500, 15000)), ("L01s", 2, 1, tiers(c, 800, 8000)), ("L01", 4, 2, tiers(c, 600, 8000)), ("L01", 14, 2, tiers(c, 60, 1000))):
        runs = c.gen(prof, k, sim=num, module="TlsMulti", env={"N": n}, depth=16 * n, note="N=%d" % n)
        for r in runs:
            for x in r["conns"]:
                x["ops"], x["seg"] = OPS, "whole"
        c.run(runs, v, "%s-%d" % (prof, n), budget=tiers(c, 200, 1500), timeout=3000)
    # several connections at the same time
    runs = c.gen("H02", 0)
    par = []
    for i, r in enumerate(runs):
        for j in range(tiers(c, 2, 20)):
            par.append({"role": r["role"], "cfg": r["cfg"], "par": True, "rep": j,
                        "conns": [{"steps": r["steps"], "ops": OPS, "seg": ["whole", "rand"][j % 2]}] * 4})
    c.run(par, v, "L01-parallel", budget=tiers(c, 200, 1500), timeout=3000)


def k01(c):
    """The key log file after every kind of handshake."""
    v = ["est", "klog", "live"]
    core(c, "K01", v, tiers(c, 1500, 0), tiers(c, 500, 0), limit=6000)
    # default file, one run at a time
    runs = prep(c.gen("K01", 0))
    dflt = [dict(r, cfg=dict(r["cfg"], keylog="default", logging=True)) for r in runs]
    c.run(dflt, v, "K01-default", threads=1)
    # several connections into one file, one after the other and at once
    runs = c.gen("L01", 1, sim=tiers(c, 800, 8000), module="TlsMulti", env={"N": 3}, depth=48, note="N=3")
    for r in runs:
        for x in r["conns"]:
            x["ops"], x["seg"] = OPS, "whole"
    c.run(runs, v, "K01-multi", budget=tiers(c, 200, 1500), timeout=3000)
    par = []
    for r in c.gen("H02", 0):
        for j in range(tiers(c, 2, 20)):
            par.append({"role": r["role"], "cfg": r["cfg"], "par": True, "rep": j,
                        "conns": [{"steps": r["steps"], "ops": OPS, "seg": "whole"}] * 5})
    c.run(par, v, "K01-parallel", budget=tiers(c, 200, 1500), timeout=3000)
    pairs(c, 3, tiers(c, 400, 4000))


def app(c, profile, views, n, num, k=0, name=None, budget=300):
    runs = c.gen(profile, k, sim=num, module="TlsApp", depth=n + 3, env={"N": n}, note="N=%d" % n)
    for r in runs:
        r["seg"] = r["cfg"].get("seg", "whole")
    c.run(runs, views, name or "%s-app-%d" % (profile, n), budget=budget if c.tier == "quick" else 1500,
          timeout=600 if c.tier == "quick" else 3000)


def pairs(c, n, num, name="pair"):
    """Library client against library server."""
    runs = c.gen("pair", 0, sim=num, module="TlsPair", depth=n + 3, env={"N": n}, note="N=%d" % n)
    c.run(runs, ["all"], "%s-%d" % (name, n), module="TlsPairTrace", budget=300 if c.tier == "quick" else 1500,
          timeout=600 if c.tier == "quick" else 3000)


def h02(c):
    """Honest peers, many random values; and the library against itself."""
    runs = prep(c.gen("H02", 0))
    many = [dict(json.loads(json.dumps(r)), rep=i) for r in runs for i in range(tiers(c, 80, 1200))]
    c.run(many, ["est", "msg", "klog", "rec", "rd", "dat", "live"], "H02-many", budget=300 if c.tier == "quick" else 2400, timeout=3000)
    core(c, "H02", ["est", "msg", "klog", "rec", "rd", "dat", "live"], tiers(c, 1500, 0), 0)
    pairs(c, 6, tiers(c, 800, 10000))
    pairs(c, 30, tiers(c, 200, 3000))


def tiers(c, quick, thorough):
    return quick if c.tier == "quick" else thorough


def r01(c):
    n = tiers(c, 1500, 20000)
    app(c, "R01", ["est", "rec", "msg", "dat", "live"], 12, n)
    app(c, "R01", ["est", "rec", "msg", "dat", "live"], 45, n // 5)
    if T.hooks():
        app(c, "R01J", ["est", "rec", "dat", "rd"], 14, n)
    else:
        c.assumptions.append("sequence numbers beyond the first hundred are not reached: the hook is not available")
    core(c, "R01", ["rec", "live"], 0, 0)


def r02(c):
    n = tiers(c, 4000, 40000)
    app(c, "R02", ["est", "rd", "rcode", "dat", "live"], 8, n, k=1)
    app(c, "R02", ["est", "rd", "rcode", "dat", "live"], 14, n // 2, k=2)


def r03(c):
    n = tiers(c, 3000, 30000)
    app(c, "R03", ["est", "rd", "rdall", "dat", "live"], 12, n)
    app(c, "R03", ["est", "rd", "rdall", "dat", "live"], 40, n // 8)


def r04(c):
    core(c, "R04", ["est", "msg", "rd", "rdall", "dat", "live"], 0, 0, limit=14000)
    app(c, "R04", ["est", "msg", "rd", "rdall", "dat", "live"], 8, tiers(c, 2000, 20000))


def prim(c, profile, n=0, num=0, k=0, budget=300, timeout=600):
    """Operation sequences on the primitives' objects, from PrimGen, judged by PrimTrace."""
    runs = c.gen(profile, k, sim=num, module="PrimGen", env={"N": n}, depth=n + 3, note="N=%d" % n)
    c.run(runs, [], "%s-%d" % (profile, n), module="PrimTrace", binary=BINS[c.prop][0],
          budget=budget if c.tier == "quick" else 2000, timeout=timeout if c.tier == "quick" else 3000)


def p01(c):
    prim(c, "P01L", tiers(c, 300, 2100))
    prim(c, "P01H")
    prim(c, "P01", tiers(c, 3, 4))
    prim(c, "P01", 12, tiers(c, 1500, 20000))
    prim(c, "P01", 30, tiers(c, 300, 4000))


def p05(c):
    prim(c, "P05L")
    prim(c, "P05E")
    prim(c, "P05", 10, tiers(c, 1500, 20000))


def p02(c):
    prim(c, "P02L", tiers(c, 300, 2100))
    prim(c, "P02X")
    prim(c, "P02F")
    prim(c, "P02", 10, tiers(c, 1000, 15000))
    prim(c, "P02", 25, tiers(c, 200, 3000))


def p04(c):
    prim(c, "P04", tiers(c, 0, 6))


def p03(c):
    prim(c, "P03", tiers(c, 0, 4))
    for p in ("P03M", "P03B", "P03W", "P03N", "P03E", "P03D"):
        prim(c, p, tiers(c, 3, 40))


def n01(c):
    prim(c, "N01L", tiers(c, 12, 60))
    prim(c, "N01", 10, tiers(c, 1500, 20000))
    # servers configured with each generator
    runs = [json.loads(json.dumps(r)) for r in prep(c.gen("H02", 0)) if r["role"] == "server"]
    many = [dict(r, rep=i, cfg=dict(r["cfg"], prng=p)) for r in runs for p in ("simple", "urandom") for i in range(tiers(c, 6, 60))]
    c.run(many, ["est", "msg", "rec", "rd", "dat", "live"], "N01-server")


def x01(c):
    c.gen("CAL", 0, module="CalGen", note="(calendar, one state per day)", workers=2)
    runs = [r for p in ("DAYS", "PAIR", "BAD") for r in c.gen(p, 0, module="CalGen")]
    if c.tier == "quick":
        runs += T.sample(c.gen("HOUR", 0, module="CalGen"), 3, c.seed)
    else:
        runs += c.gen("HOUR", 0, module="CalGen")
    runs += c.gen("RND", 0, sim=tiers(c, 20, 2000), module="CalGen", depth=3)
    c.run(runs, [], "X01", module="CalTrace", binary="u_time", budget=tiers(c, 300, 1500), timeout=tiers(c, 600, 3000))


def x02(c):
    runs = c.gen("SIZE", 0, module="DerGen")
    runs += c.gen("BYTE", 0, module="DerGen")
    runs += c.gen("RND", 0, sim=tiers(c, 150, 8000), module="DerGen", depth=3)
    c.run(runs, [], "X02", module="DerTrace", binary="u_cert", budget=tiers(c, 300, 1500), timeout=tiers(c, 600, 3000))


def x03(c):
    runs = [r for p in ("ENC", "STR", "CHAR", "LAYOUT", "ORDER", "EDIT", "LINE", "KEY", "KEYED") for r in c.gen(p, 0, module="PemGen")]
    runs += c.gen("RND", 0, sim=tiers(c, 200, 8000), module="PemGen", depth=3)
    c.run(runs, [], "X03", module="PemTrace", binary="u_pem", budget=tiers(c, 300, 1500), timeout=tiers(c, 600, 3000))


def g01(c):
    runs = c.gen("ANY", 0, module="BuilderGen", env={"N": tiers(c, 3, 4)})
    runs += c.gen("FULL", 0, module="BuilderGen", env={"N": tiers(c, 2, 3)})
    runs += c.gen("SPOIL", 0, module="BuilderGen", env={"N": tiers(c, 1, 2)})
    runs += c.gen("ANY", 0, module="BuilderGen", env={"N": 9}, sim=tiers(c, 3000, 30000), depth=12, note="N=9")
    runs += c.gen("FULL", 0, module="BuilderGen", env={"N": 9}, sim=tiers(c, 2000, 30000), depth=14, note="N=9")
    c.run(runs, [], "G01", module="BuilderTrace", binary="u_cfg", budget=tiers(c, 300, 1500), timeout=tiers(c, 600, 3000))


BATCH = 400


def k02(c):
    """Everything random in many handshakes, of two processes, while the clock stands still."""
    runs = prep(c.gen("H02", 0))
    many = [dict(json.loads(json.dumps(r)), rep=i) for r in runs for i in range(tiers(c, 14, 200))]
    for r in c.gen("L01", 1, sim=tiers(c, 400, 4000), module="TlsMulti", env={"N": 3}, depth=48, note="N=3"):
        for x in r["conns"]:
            x["ops"], x["seg"] = OPS, "whole"
        many.append(r)
    for r in runs:
        for j in range(tiers(c, 2, 10)):
            many.append({"role": r["role"], "cfg": r["cfg"], "par": True, "rep": j,
                         "conns": [{"steps": r["steps"], "ops": OPS, "seg": "whole"}] * 4})
    many = [r for r in T.dedupe(many) if r["cfg"].get("prng") != "simple"]
    now = str(int(time.time()))
    vals, n = [], {}
    for p in range(2):
        for i, r in enumerate(many):
            r["id"], r["seed"] = "K02-%d" % i, c.seed * 7919 + i
        traces = T.replay(many, c.work, c.seed, budget=tiers(c, 200, 1500), env={"HS_CLOCK": now})
        c.traces += len(traces)
        for t in sorted(traces, key=lambda t: t["idx"]):
            for o in t["obs"]:
                for k in ("random", "sid", "share", "ctx", "nonce", "r"):
                    if o.get(k):
                        vals.append({"k": k, "b": list(bytes.fromhex(o[k])), "from": "process %d run %d connection %d" % (p, t["idx"], o["c"])})
                        n[t["role"] + "-" + k] = n.get(t["role"] + "-" + k, 0) + 1
    c.detail["values"] = n
    trace = {"id": "K02", "ev": [{"t": "vals", "v": [{"k": v["k"], "b": v["b"]} for v in vals[i:i + BATCH]]} for i in range(0, len(vals), BATCH)] + [{"t": "end"}]}
    acc, st, tr, _ = T.judge([trace], [], c.work, "FreshTrace", timeout=tiers(c, 600, 3000))
    c.count(st, tr)
    c.samples.append({"values": vals[:4]})
    if 0 not in acc:
        _, _, _, at = T.judge([trace], [], c.work, "FreshTrace", diag=True, timeout=tiers(c, 600, 3000))
        k = max(at.get(0, {0: 0}))
        seen, rep = {}, []
        for v in vals[:(k + 1) * BATCH]:
            for i in range(len(v["b"]) - 7):
                w = bytes(v["b"][i:i + 8])
                if w in seen:
                    rep.append({"part": w.hex(), "first": seen[w], "again": "%s of %s" % (v["k"], v["from"])})
                seen.setdefault(w, "%s of %s" % (v["k"], v["from"]))
        c.fail("K02", {"spec": "FreshTrace", "matched_events": k, "of": len(trace["ev"]), "repeated": rep[:20],
                       "clock": now, "note": "no repetition listed: a position of some kind of value is predictable"})


CHECKS = {"K02": k02, "G01": g01, "X03": x03, "X02": x02, "X01": x01, "P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "N01": n01, "S01": s01, "S02": s02, "S03": s03, "H01": h01, "H02": h02, "H03": h03, "H04": h04,
          "R01": r01, "R02": r02, "R03": r03, "R04": r04, "A01": a01, "A02": a02, "L01": l01, "K01": k01}

BINS = {"P01": ("u_hash",), "P02": ("u_aead",), "P03": ("u_sig",), "P04": ("u_dh",), "P05": ("u_hmac",), "N01": ("u_rng", "hs"),
        "X01": ("u_time",), "X02": ("u_cert",), "X03": ("u_pem",), "G01": ("u_cfg",)}

FUN = "operation sequences enumerated by TLC from the ideal functionality are executed on the library's objects and the recorded results are validated by TLC against it"
TEXT = "inputs enumerated by TLC from a byte-level specification of the format are given to the library and every result is validated by TLC against the specified meaning"
TECHNIQUE = {
    "P01": FUN, "P02": FUN, "P03": FUN, "P04": FUN, "P05": FUN, "N01": FUN,
    "X01": TEXT, "X02": TEXT, "X03": TEXT,
    "G01": "every sequence of builder calls up to a length, enumerated by TLC from the builder machine, is executed and the resulting configurations are validated by TLC against it",
    "K02": "values observed in handshakes generated by TLC are validated by TLC against an ideal source that never repeats itself, not even in part",
}
UNIT = "the specification is an ideal functionality over symbolic contents; concrete values come from an independent reference implementation; "
NOTES = {
    "P01": UNIT + "every length up to 300 (thorough 2100), all programs of 3 (4) operations, long random programs",
    "P02": UNIT + "every length up to 300 (thorough 2100), all single-field changes, every flipped bit of tag and short ciphertexts",
    "P03": UNIT + "edge-case digests, keys and nonces, every single-byte change of encodings; sampled values otherwise",
    "P04": UNIT + "edge-case scalars and points including all low-order and non-canonical encodings; sampled values otherwise",
    "P05": UNIT + "every key length around the block sizes and every output length up to the limit",
    "N01": UNIT + "every size up to a bound and long random call sequences; servers configured with either generator",
    "X01": "every day from 1970 to 2049 model-checked and replayed with chosen seconds; malformed times; the clock of the library is replaced",
    "X02": "all sizes of every field across the length-encoding boundaries, every single-byte change of two certificates; random shapes and changes",
    "X03": "all layouts, block orders, single-character and single-line changes of three files, all base64 strings of up to 8 characters over 3 symbols, all private-key shapes",
    "G01": "all call sequences of length 3 (thorough 4), plus all of length 2 (3) on top of a complete configuration; long random ones",
    "K02": "several thousand values per kind from two processes with the clock standing still; a repetition needs 8 aligned equal bytes",
    "H02": "every configuration with many random values each; library against itself in sampled histories",
    "H04": "every name of the enumerated set against every configuration, exhaustive over single deviations",
    "R01": "sampled histories of sends of up to 45 operations in all suites; sequence numbers set near every power of 256 through the hook",
    "R02": "sampled histories of genuine and manipulated records, with one or two manipulations among up to 14 operations",
    "R03": "sampled histories of up to 40 reads and writes with boundary sizes in all suites and both roles",
    "R04": "every configuration and single deviation under byte-wise, random and merged segmentation; sampled data phases",
    "L01": "sampled histories of 2 to 4 connections with deviations in each; four connections at a time",
    "A02": "every message replaced, truncated or mutated at enumerated positions; sampled random mutations; bounded sizes and times",
}
