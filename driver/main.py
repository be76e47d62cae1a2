import fcntl, hashlib, json, os, subprocess, sys, time
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TGT = os.path.join(V, "target")
T0 = time.time()


PROVED = ("equalities_proved", "encodings_proved", "span_program_sides_proved",
          "secrecy_proved", "refusals_proved", "assertions_proved")


class Broken(Exception):
    """the check cannot give an answer"""


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = ""
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build(crate, release, bindings=False):
    """(re)build one of our crates from /repo's working tree, with the language bindings if wanted"""
    tgt = os.path.join(TGT, crate + ("b" if bindings else ""))
    os.makedirs(TGT, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    with open(tgt + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["cargo", "+1.99.1", "build", "--offline", "--locked"] + (["--release"] if release else []) + (
            ["--features", "bindings"] if bindings else [])
        r = subprocess.run(cmd, cwd=os.path.join(V, crate), env=e, capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        raise Broken("building %s failed:\n%s" % (crate, r.stderr[-4000:]))
    return os.path.join(tgt, "release" if release else "debug", crate)


def known(prop):
    """spec texts listed as findings for this property"""
    p = os.path.join(V, "known_findings.json")
    d = json.load(open(p))
    return {f["spec"]: f["what"] for f in d["findings"] if f["property"] == prop}


def replay_one(exe, path):
    try:
        r = subprocess.run([exe, path], env=env(), capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None, "replay timed out"
    out = (r.stdout + r.stderr).strip()
    if r.returncode == 0:
        return False, out
    if r.returncode == 1 and "REPRODUCED" in r.stdout:
        return True, out
    if r.returncode < 0:
        return True, "REPRODUCED the process died with signal %d\n%s" % (-r.returncode, out)
    return None, "replay failed (%d): %s" % (r.returncode, out[-500:])


def run(prop, tier):
    out = os.path.join(V, "evidence")
    os.makedirs(out, exist_ok=True)
    ev_path = os.path.join(out, prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    try:
        return decide(prop, tier, ev_path)
    except Broken as b:
        print("ERROR property=%s %s" % (prop, b))
        return 2
    except subprocess.TimeoutExpired as b:
        print("ERROR property=%s timed out: %s" % (prop, b.cmd))
        return 2


def decide(prop, tier, ev_path):
    P = props.PROPS[prop]
    work = os.path.join(TGT, "run", prop)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    results = []
    for eng in P["engines"]:
        results.append(props.ENGINES[eng](sys.modules[__name__], prop, tier, work))
    viol, inconc, count, samples, solver_s, notes = [], [], {}, [], 0.0, []
    for r in results:
        viol += r["violations"]
        inconc += r["inconclusive"]
        for k, n in r["count"].items():
            count[k] = count.get(k, 0) + n
        samples += r["samples"]
        solver_s += r["solver_s"]
        notes += r.get("functions", [])
    kn = known(prop)
    seen_known, fresh = {}, []
    for v in viol:
        if v["spec"] in kn and v["kind"] in ("equality",):
            seen_known[v["spec"]] = v
        else:
            fresh.append(v)
    reproduced = []
    tried = 0
    unrepro = []
    if fresh:
        # one of every kind of failure first
        order, heads = [], set()
        for v in fresh:
            h = (v["kind"], v["what"][-60:])
            (order.insert(len(heads), v) if h not in heads else order.append(v))
            heads.add(h)
        for v in order:
            if len(reproduced) >= 3 or tried >= 60 or time.time() - T0 > 800:
                break
            tried += 1
            path = os.path.join(work, "violation_%d.json" % tried)
            json.dump(dict(v, property=prop), open(path, "w"), indent=1)
            exe = v.get("replay_exe") or build("replay", False, prop == "C17")
            ok, text = replay_one(exe, path)
            v["replay"] = text
            json.dump(dict(v, property=prop), open(path, "w"), indent=1)
            if ok:
                reproduced.append((v, path, text))
            else:
                unrepro.append((v, text))
    for s in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[s], s))
    wall = time.time() - T0
    ob = count.get("solver_obligations", 0) + count.get("encoding_obligations", 0)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": P["explanation"],
            "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"],
            "functions_encoded": notes,
            "obligations": ob,
            "discharged": sum(count.get(k, 0) for k in PROVED),
            "solver_seconds": round(solver_s, 2),
            "counts": count,
            "samples": samples[:6],
            "known_findings_seen": len(seen_known),
            "inconclusive": inconc[:20],
        },
        "assumptions": P["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(fresh) if reproduced else 0,
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    if reproduced:
        for v, path, text in reproduced:
            print("  %s: %s\n  %s" % (v["kind"], v["spec"][:300], text.splitlines()[0][:300] if text else ""))
        print("VIOLATION property=%s replay=%s" % (prop, reproduced[0][1]))
        return 1
    if fresh:
        v, text = unrepro[0]
        raise Broken("%d counterexample(s) did not reproduce natively, e.g. %s %s: %s | %s"
                     % (len(fresh), v["kind"], v["spec"], v["what"], text[:300]))
    if inconc:
        raise Broken("%d undecided, e.g. %s" % (len(inconc), inconc[0]))
    if count.get("jobs_not_run_out_of_time"):
        if tier == "quick":
            raise Broken("%d jobs did not fit in the time budget" % count["jobs_not_run_out_of_time"])
    print("OK property=%s tier=%s: %s, solver %.1fs, wall %.1fs"
          % (prop, tier, ", ".join("%s=%d" % kv for kv in sorted(count.items())), solver_s, wall))
    return 0
