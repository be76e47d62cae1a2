"""engine E1: symbolic execution of the LLVM IR of the crate (lsym)"""
import concurrent.futures, fcntl, json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LHARN = "release/deps/lharn.ll"


def crate(m, name, extra=None):
    """build one of lsym, lrun (cargo), or the IR (lir); lrunb and lirb have the language bindings as well"""
    bind = ["--features", "bindings"] if name.endswith("b") else []
    os.makedirs(m.TGT, exist_ok=True)
    tgt = os.path.join(m.TGT, name)
    e = m.env()
    e["RUSTUP_TOOLCHAIN"] = "1.99.1"
    with open(tgt + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if name in ("lir", "lirb"):
            e.pop("RUSTFLAGS")
            r = subprocess.run(["sh", os.path.join(V, "driver", "lir.sh"), tgt] + bind, env=e, capture_output=True, text=True, timeout=800)
            out = os.path.join(tgt, LHARN)
        else:
            e["CARGO_TARGET_DIR"] = tgt
            src = "lrun" if bind else name
            r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"] + bind, cwd=os.path.join(V, src), env=e,
                               capture_output=True, text=True, timeout=800)
            out = os.path.join(tgt, "release", src)
    if r.returncode != 0 or not os.path.exists(out):
        raise m.Broken("building %s failed:\n%s" % (name, r.stderr[-4000:]))
    return out


def build(m, prop=""):
    b = "b" if prop in ("C17", "C18") else ""
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        return list(ex.map(lambda n: crate(m, n), ("lsym", "lir" + b, "lrun" + b)))


def one(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "no answer within %d s" % timeout
    try:
        return json.loads(r.stdout), ""
    except ValueError:
        return None, "lsym failed (%d): %s" % (r.returncode, (r.stdout[-300:] + r.stderr[-600:]))


def job(lsym, ll, lrun, j, limit, selftest):
    """j: (harness, args, options)"""
    h, args, opt = j
    a = [str(x) for x in args]
    d, err = one([lsym, ll, h] + a + ["time=%d" % limit, "viol=3"] + opt, limit + 120)
    if d is None:
        return j, None, [err], []
    bad = list(d["incomplete"])
    notes = []
    # (natively, threads interleave as they like)
    if selftest and not h.endswith("_threads") and not d["violations"] and not bad:
        # completed paths, run concretely by the engine and natively, must agree
        for reached, w in d["witness"][:2]:
            c, err = one([lsym, ll, h] + a + ["input=" + w, "time=%d" % limit], limit + 60)
            if c is None:
                bad.append("self-test: " + err)
                continue
            r = subprocess.run([lrun, h, w] + a, capture_output=True, text=True, timeout=200)
            want = "END reached=%d emitted=[%s]" % (c["reached"], ",".join(map(str, c["emitted"])))
            got = (r.stdout.strip().splitlines() or [""])[-1]
            if r.returncode != 0 or got != want or c["reached"] != reached or c["violations"]:
                bad.append("self-test: native run of %s %s on %s: %d %s, expected %s" % (h, a, w[:80], r.returncode, got[-200:], want))
            else:
                notes.append("native")
    return j, d, bad, notes


def reach_table():
    with open(os.path.join(V, "driver", "reach.json")) as f:
        return json.load(f)


def run(m, prop, tier, work):
    t0 = time.time()
    lsym, ll, lrun = build(m, prop)
    jobs = JOBS[prop](tier)
    limit = 400 if tier == "quick" else 5000
    total = 700 if tier == "quick" else 13000
    want = reach_table()
    count = {"jobs": len(jobs), "paths": 0, "solver_obligations": 0, "assertions_proved": 0, "queries": 0,
             "instructions": 0, "assertions_decided_without_solver": 0, "native_agreements": 0}
    viol, inc, funcs, samples, solver_s = [], [], set(), [], 0.0
    seen = set()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = []
        for j in jobs:
            fs.append(ex.submit(job, lsym, ll, lrun, j, limit, j[0] not in seen))
            seen.add(j[0])
        for f in concurrent.futures.as_completed(fs):
            j, d, bad, notes = f.result()
            name = "%s(%s)" % (j[0], ",".join(map(str, j[1])))
            inc += ["%s: %s" % (name, b[:600]) for b in bad]
            if d is None:
                continue
            count["paths"] += d["paths"]
            count["solver_obligations"] += d["checks_solver"]
            count["assertions_proved"] += d["checks_solver"] - len(d["violations"])
            count["assertions_decided_without_solver"] += d["checks_const"]
            count["queries"] += d["queries"]
            count["instructions"] += d["steps"]
            count["native_agreements"] += len(notes)
            solver_s += d["solver_s"]
            funcs.update(d["functions"])
            if len(samples) < 6:
                samples.append({k: d[k] for k in ("harness", "args", "paths", "queries", "checks_solver", "solver_s")})
            for v in d["violations"]:
                viol.append({"kind": v["kind"], "what": "%s in %s" % (v["msg"], (v["trace"] or [""])[0][-60:]), "spec": name,
                             "harness": j[0], "args": j[1], "input": v["input"], "trace": v["trace"], "replay_exe": lrun})
            w = want.get(name)
            if w is not None and not bad and not d["violations"] and d["reached"] & w != w:
                inc.append("%s: situations %d expected, %d met" % (name, w, d["reached"]))
            if viol and time.time() - t0 > 120:
                for g in fs:
                    g.cancel()
                break
            if time.time() - t0 > total:
                for g in fs:
                    g.cancel()
                inc.append("out of time")
                break
    if viol:
        # a violation needs no complete exploration
        inc = []
    return {"violations": viol, "inconclusive": inc, "count": count, "samples": samples, "solver_s": solver_s,
            "functions": sorted(pretty(f) for f in funcs)}


def pretty(f):
    """crate path of a mangled name, roughly"""
    out, i = [], 0
    while i < len(f):
        if f[i].isdigit() and (i == 0 or not f[i - 1].isdigit()):
            k = i
            while k < len(f) and f[k].isdigit():
                k += 1
            n = int(f[i:k])
            s = f[k:k + n + (f[k:k + 1] == "_")]
            if n > 1 and len(s) >= n and s.replace("_", "a").isalnum():
                out.append(s.lstrip("_"))
                i = k + len(s)
                continue
        i += 1
    if "cosmian_abe_gpsw" in out:
        out = out[out.index("cosmian_abe_gpsw") + 1:]
    return "::".join(out)


def J(h, *args, opt=()):
    return (h, list(args), list(opt))


# ------------------------------------------------------------------ what each property runs
def c06(tier):
    q = tier == "quick"
    sizes = [0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 20, 24, 31, 32, 33, 40, 47, 48, 49, 52, 63, 95, 96, 97, 100, 104, 150]
    if not q:
        sizes = list(range(0, 200))
    js = []
    for k in range(16):
        for n in sizes + ([287, 288, 289, 292, 300] if q else [287, 288, 289, 292, 300, 350, 400]):
            if k in (6, 7) and n > (150 if q else 200):
                continue
            js.append(J("h_c06_read", k, n))
    for k in (0, 1):
        for n in (list(range(0, 9)) + [35, 36, 37, 38, 40, 80, 120] if q else list(range(0, 160))):
            js.append(J("h_c06_header", k, n))
    for k in (0, 1, 2):
        for n in (list(range(0, 9)) + [12, 27, 28, 29, 40, 60, 100, 120] if q else list(range(0, 200)) + [300, 450]):
            js.append(J("h_c06_open", k, n))
    js.sort(key=lambda j: -j[1][-1])
    return js


def c07(tier):
    q = tier == "quick"
    us, ads = ([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 33], [0, 1, 2, 3, 4, 8, 12, 15, 16, 17]) if q else (list(range(0, 36)) + [64, 128, 200], list(range(0, 36)) + [65, 130])
    js = [J("h_c07_header", 0, 0, 0)]
    js += [J("h_c07_header", 1, u, a) for u in us for a in ads]
    js += [J("h_c07_tamper", u, a) for u in us for a in ads]
    js += [J("h_c07_clear", u, a) for u in us for a in ads]
    js += [J("h_c07_many", n) for n in (20, 300, 1400)]
    # long metadata
    for u, a in ((300, 5), (5, 301), (65535, 3), (65536, 0), (3, 65537), (70000, 70001)) + (() if q else ((1 << 20, 2), (0, 1 << 20))):
        js += [J("h_c07_header", 1, u, a), J("h_c07_tamper", u, a), J("h_c07_clear", u, a)]
    return js


def c08(tier):
    q = tier == "quick"
    ns = list(range(0, 34)) + [48] if q else list(range(0, 100))
    us = [0, 1, 2, 4, 5, 8, 16, 33] if q else list(range(0, 40))
    js = [J("h_c08_block", n, u) for n in ns for u in us]
    js += [J("h_c08_wide", n, u) for n, u in ((255, 3), (256, 0), (300, 4), (4096, 2), (65535, 4), (65536, 3), (65537, 1), (70000, 0), (70001, 1),
                                              (5, 255), (5, 256), (5, 300), (5, 65536), (5, 70000))]
    k = 6 if q else 16
    js += [J("h_c08_ids", u, v) for u in range(k) for v in range(k)]
    js += [J("h_c08_tamper", n) for n in ([1, 2, 3, 8, 16, 23, 24] if q else range(1, 25))]
    return js


def c09(tier):
    q = tier == "quick"
    js = [J("h_c09_encrypt_header", c, 0, 0, 500) for c in (0, 1)]
    js += [J("h_c09_encrypt_header", 0, 1, 0, 500)]
    js += [J("h_c09_encrypt_header", c, w, 0, 500) for c in (0, 1) for w in (2, 3)]
    js += [J("h_c09_decrypt_header", c, 0, ad) for c in (0, 1) for ad in (0, 4, 12)]
    js += [J("h_c09_decrypt_header", c, 1, 4) for c in (0, 1)]
    js += [J("h_c09_decrypt_header", 0, 2, 4)]
    js += [J("h_c09_keys", f, 0, n) for f in (0, 1, 2) for n in (40, 800, 1500)]
    js += [J("h_c09_keys", 1, 1, 800)]
    js += [J("h_c09_caches", f, w, 0) for f in (0, 1) for w in (0, 1)]
    js += [J("h_c09_block", f, w, n) for f in (0, 1) for w in (0, 9) for n in ((1, 5) if q else (1, 2, 5, 9, 16))]
    js += [J("h_c09_block", 1, 4, n) for n in ((1, 28, 29, 31) if q else range(1, 60))]
    js += [J("h_c09_size", n) for n in (0, 3, 4, 5, 9)]
    for n in ((0, 1, 2) if q else (0, 1, 2, 3)):
        js += [J("h_c09_keys", 0, 101, n)] + [J("h_c09_keys", f, 100 + t, n) for f in (1, 2) for t in (1, 2)]
        js += [J("h_c09_caches", 0, 101, n), J("h_c09_encrypt_header", 1, 101, n, 500)]
        js += [J("h_c09_encrypt_header", 0, t, n, 500) for t in (101, 102)]
    return js


def c10(tier):
    q = tier == "quick"
    js = []
    for e in (0, 1):
        js += [J("h_c10_history", e, 1, 0), J("h_c10_history", e, 2, 0)]
        for a in ((0,) if q else (0, 1)):
            for o in range(4):
                for o3 in range(4):
                    js.append(J("h_c10_history", e, 5 if q else 6, a + 1 + 5 * (o + 1) + 25 * (o3 + 1)))
        # using and destroying what was never created
        js += [J("h_c10_history", e, 2, o + 1) for o in (2, 3)]
        js.append(J("h_c10_failed", e))
        js.append(J("h_c10_many", e, 300 if q else 1000))
    js.append(J("h_c10_kinds"))
    for e in (0, 1):
        for o, p in ((0, 0), (0, 1), (0, 3), (1, 1), (1, 2), (1, 3), (1, 4), (3, 3), (3, 4)):
            js.append(J("h_c10_threads", e, o, p, 2 if q or o == p == 0 else 3))
    return js


def c11(tier):
    q = tier == "quick"
    js = [J("h_c11_text", n, 0, 0) for n in range(0, 5)]
    for n in ((5, 6, 7) if q else (5, 6, 7, 8)):
        js += [J("h_c11_text", n, 0, f) for f in range(1, 8)] if n < 8 else [
            J("h_c11_text", n, 0, f + 8 * g) for f in range(1, 8) for g in range(1, 8)]
    js += [J("h_c11_text", n, 1, 0) for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4))]
    js += [J("h_c11_text", n, 2, 0) for n in ((3, 4) if q else (3, 4, 5))]
    js += [J("h_c11_deep", k, n) for k in range(4) for n in ((20, 100 if k else 200) if q else (20, 100, 200, 500)) ]
    js += [J("h_c11_deep", 0, 1500), J("h_c11_deep", 1, 5000), J("h_c11_deep", 1, 20000)]
    js += [J("h_c11_number", k) for k in range(0, 4)]
    js += [J("h_c11_tree", n) for n in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6))]
    js.reverse()
    return js


def c16(tier):
    q = tier == "quick"
    js = [J("h_c16_null"), J("h_c16_text")] + [J("h_c16_threads", o, 2 if q else 3) for o in range(4)]
    js += [J("h_c16_long", n, s) for n in (30, 120, 300, 1100, 5000, 65540) for s in (0, 10, 11, 25)]
    for o in range(7):
        for n in ((0, 1, 2) if q else (0, 1, 2, 3)):
            if (o in (0, 2, 6) and n) or (o == 5 and n > (1 if q else 2)):
                continue
            for cap in (0, 1, 2, 12, 20, 90):
                js.append(J("h_c16_last", o, n, cap))
    return js


def c17(tier):
    q = tier == "quick"
    L = (0, 1, 2)
    js = [J("h_c17_keys", l, a) for l in L for a in range(7)]
    js += [J("h_c17_rotate", l, n) for l in L for n in ((0, 1, 2, 3, 4) if q else (0, 1, 2, 3, 4, 5, 6))]
    js += [J("h_c17_policy", n) for n in ((0, 1, 2) if q else (0, 1, 2, 3))]
    ns = (0, 1, 2, 5) if q else (0, 1, 2, 3, 4, 5, 8, 12, 20)
    js += [J("h_c17_seal", l, c, u, a) for l in (0, 1) for c in ((0, 1) if l == 0 else (0,)) for u in ns for a in ns]
    js += [J("h_c17_seal", 2, c, u, 0) for c in (0, 1) for u in ns if u]
    js += [J("h_c17_open", l, c, 1, u, a) for l in L for c in ((0, 1) if l != 1 else (0,)) for u in ns for a in ns]
    js += [J("h_c17_open", l, c, 0, 0, 0) for l in L for c in ((0, 1) if l != 1 else (0,))]
    bs = (0, 1, 2, 3, 8, 16, 17, 33) if q else list(range(0, 40)) + [64, 100]
    js += [J("h_c17_block", l, n, u) for l in L for n in bs for u in ((0, 1, 5) if q else (0, 1, 2, 3, 4, 5, 8, 16))]
    js += [J("h_c17_value", n, u, a) for n in (0, 1, 3, 17) for u in (0, 1, 3) for a in (0, 1, 3)]
    # long metadata and clear texts
    for u, a in ((300, 5), (3, 300), (65536, 2)) + (() if q else ((1, 65537), (70000, 70000))):
        js += [J("h_c17_seal", l, c, min(u, 3000 if l == 1 else u), a if l < 2 else 0) for l in L for c in ((0, 1) if l != 1 else (0,))]
        js += [J("h_c17_open", l, c, 1, u, a) for l in L for c in ((0, 1) if l != 1 else (0,))]
        js.append(J("h_c17_value", 3, min(u, 3000), a))
    js += [J("h_c17_block", l, n, u) for l in L for n, u in ((300, 2), (65536, 1), (70000, 0), (5, 300), (5, 65536))]
    js += [J("h_c17_value", n, 2, 1) for n in (300, 65535, 65536)]
    js += [J("h_c17_garbage", n) for n in (list(range(0, 24)) + [40, 64, 100] if q else list(range(0, 160)))]
    js += [J("h_c17_size", l, n) for l in L for n in range(0, 8)]
    js.sort(key=lambda j: j[0] != "h_c17_policy")
    return js


def c18(tier):
    q = tier == "quick"
    # what each function's arguments are: j(son), t(ext), k(ey), h(eader), v(alue), f(ree), s(ymmetric key), b(lock)
    fs = {0: "j", 1: "ktj", 2: "kktj", 3: "j", 4: "jj", 5: "f", 6: "jjjk", 7: "kh", 8: "sff", 9: "sfb", 10: "jjjkf", 11: "kv",
          20: "j", 21: "ktj", 22: "jj", 23: "f", 24: "jktf", 25: "jk", 26: "tf", 27: "sff", 28: "kh", 29: "k", 30: "kh", 31: "sfb"}
    size = {"j": 120 if q else 240, "t": 12, "k": 400 if q else 1500, "h": 140 if q else 250, "v": 180 if q else 250, "f": 0, "s": 32, "b": 40}
    step = {"j": 7, "t": 1, "k": 23, "h": 9, "v": 9, "f": 1, "s": 7, "b": 3}
    js = []
    for f, ks in fs.items():
        for i, k in enumerate(ks):
            ns = {"j": (0, 1, 2), "t": (0, 1, 2, 3), "s": (0, 5, 31, 32, 33), "f": (0, 1, 2, 3, 4, 5)}.get(k, (0, 1, 3, 4, 8, 32, 80))
            if not q:
                ns = {"j": (3,), "t": (4,), "s": range(36), "f": range(20)}.get(k, tuple(range(2, 100))) + ns if k in "jt" else range(100 if k in "khvb" else 36)
            js += [J("h_c18_any", f, i, n) for n in ns]
            js += [J("h_c18_byte", f, i, p) for p in range(0, size[k], step[k] if q else 1)]
            if k in "jkhvbt":
                js.append(J("h_c18_cut", f, i))
    js += [J("h_c18_number", f) for f in (8, 9, 27, 31)]
    js += [J("h_c18_policy", l, k) for l in (1, 2) for k in range(9)]
    for e in (0, 1):
        js += [J("h_c18_history", e, 1, 0), J("h_c18_history", e, 2, 0)]
        js += [J("h_c18_history", e, 5 if q else 6, a + 1 + 5 * (o + 1) + 25 * (o3 + 1)) for a in ((0,) if q else (0, 1))
               for o in range(4) for o3 in range(4)]
        js += [J("h_c18_history", e, 2, o + 1) for o in (2, 3)]
        js.append(J("h_c18_many", e, 300 if q else 1000))
    js += [J("h_c18_apart", k) for k in range(5)]
    js.sort(key=lambda j: (j[0] != "h_c18_history", j[0]))
    return js


JOBS = {"C18": c18, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C16": c16, "C17": c17}

if __name__ == "__main__":
    # lsymeng.py PROP TIER: run by hand, times; with "save", remember what is reached
    import main as m
    lsym, ll, lrun = build(m, sys.argv[1])
    tab = {}
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, d, bad, notes in ex.map(lambda j: job(lsym, ll, lrun, j, 400, True), JOBS[sys.argv[1]](sys.argv[2])):
            name = "%s(%s)" % (j[0], ",".join(map(str, j[1])))
            if d is None or bad or d["violations"] or d["time_s"] > 20:
                print(name, d and (d["time_s"], d["paths"], d["queries"], d["solver_s"]), bad[:2], d and [(v["kind"], v["id"], v["msg"], v["input"][:60]) for v in d["violations"]])
            if d is not None:
                tab[name] = d["reached"]
    print("wall", time.time() - t0)
    if len(sys.argv) > 3:
        p = os.path.join(V, "driver", "reach.json")
        old = json.load(open(p)) if os.path.exists(p) else {}
        old.update(tab)
        json.dump(dict(sorted(old.items())), open(p, "w"), indent=0)
