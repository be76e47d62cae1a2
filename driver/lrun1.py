"""one line per lsym run (by hand): lrun1.py HARNESS ARG.. [key=value]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = subprocess.run([V + "/target/lsym/release/lsym", V + "/target/" + os.environ.get("LIR", "lir") + "/release/deps/lharn.ll"] + sys.argv[1:], capture_output=True, text=True)
sys.stderr.write(p.stderr[-3000:])
try:
    r = json.loads(p.stdout)
except Exception:
    print("no output", p.returncode, p.stdout[-500:])
    sys.exit(2)
print(r["harness"], r["args"], *["%s=%s" % (k, r[k]) for k in "paths killed steps checks_const checks_solver queries repaired solver_s time_s reached nfuncs".split()], "emit", r["emitted"][:6], "cosmian", len(r["functions"]))
for x in r["incomplete"]:
    print("  INCOMPLETE", x[:1500])
for v in r["violations"]:
    print("  VIOL", v["kind"], v["id"], v["msg"][:200], v["input"][:200], "\n     ", "\n      ".join(t[-110:] for t in v["trace"][:9]))
