#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the planted bugs described in buglist*.py and
tries them out.   bugs.py make ID... | demo ID... | check ID... [seconds] | all
Everything is built in a scratch worktree of /repo under /tmp/bugs."""
import glob, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEED = VERIF + "/seeded"
WORK = "/tmp/bugs"
BUGS = {}

def bug(id, prop, edits, needs, breaks, sc, check, pre=None):
    if sc is None: return
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, sc=sc, check=check)

# ---- scenario helpers -------------------------------------------------------
SP = "/xyz/openbmc_project/sensors/"
PW = "/xyz/openbmc_project/control/fanpwm/"
HW = "xyz.openbmc_project.HwmonTempSensor"
def pid(**k):
    p = {"samplePeriod": 1.0, "proportionalCoeff": 0, "integralCoeff": 0, "feedFwdOffsetCoeff": 0, "feedFwdGainCoeff": 0,
         "integralLimit_min": 0, "integralLimit_max": 0, "outLim_min": 0, "outLim_max": 100, "slewNeg": 0, "slewPos": 0}
    p.update(k)
    return p
def fanpid(name, *ins, **k):
    fs = k.pop("fs", None)
    r = {"name": name, "type": "fan", "inputs": list(ins), "setpoint": 0, "pid": pid(feedFwdGainCoeff=1.0, **k)}
    if fs is not None: r["FailSafePercent"] = fs
    return r
def thermal(name, type, *ins, sp=0, fs=None, gain=1.0, missing=None, **k):
    """output = gain * (input - setpoint) for a temperature"""
    p = pid(proportionalCoeff=-gain if type != "margin" else -gain); p.update(k)
    r = {"name": name, "type": type, "inputs": list(ins), "setpoint": sp, "pid": p}
    if fs is not None: r["FailSafePercent"] = fs
    if missing: r["missingIsAcceptable"] = missing
    return r
def stepw(name, pts, *ins, ceiling=False, pos=0, neg=0, fs=None):
    r = {"name": name, "type": "stepwise", "inputs": list(ins), "setpoint": 0,
         "pid": {"samplePeriod": 1.0, "isCeiling": ceiling, "positiveHysteresis": pos, "negativeHysteresis": neg,
                 "reading": {str(i): p[0] for i, p in enumerate(pts)}, "output": {str(i): p[1] for i, p in enumerate(pts)}}}
    if fs is not None: r["FailSafePercent"] = fs
    return r
def zone(id, *pids, min=0, fs=75, cyc=100, th=200, **k):
    z = {"id": id, "minThermalOutput": min, "failsafePercent": fs, "pids": list(pids)}
    if cyc is not None: z["cycleIntervalTimeMS"] = cyc
    if th is not None: z["updateThermalsTimeMS"] = th
    z.update(k)
    return z
class W:
    """one scenario"""
    def __init__(s, dur, **k):
        s.d = {"cfg": [{"sensors": [], "zones": []}], "cfgpath": "$R/etc/cfg.json", "dur": dur, "seed": 1, "dbus": False,
               "sched": {}, "variant": 0, "sensors": [], "pwms": [], "ev": [], "pwmfiles": []}
        s.d.update(k)
    def fan(s, name, n, timeout=0, w=None, **k):
        s.d["cfg"][0]["sensors"].append({"name": name, "type": "fan", "readPath": SP + "fan_tach/" + name, "writePath": w or PW + "Pwm_%d" % n, "min": 0, "max": 255, "timeout": timeout})
        s.d["sensors"].append(dict({"name": name, "path": SP + "fan_tach/" + name, "svc": HW, "type": "fan", "base": 3000, "amp": 0, "step": 0, "period": 1000, "seed": 3}, **k))
        if not w: s.d["pwms"].append({"path": PW + "Pwm_%d" % n, "svc": HW, "init": 0})
        return s
    def sensor(s, name, base, type="temp", timeout=0, cfg={}, **k):
        s.d["cfg"][0]["sensors"].append(dict({"name": name, "type": type, "readPath": SP + "temperature/" + name, "timeout": timeout, "ignoreDbusMinMax": True}, **cfg))
        s.d["sensors"].append(dict({"name": name, "path": SP + "temperature/" + name, "svc": HW, "type": type, "base": base, "amp": 0, "step": 0, "period": 1000, "seed": 4}, **k))
        return s
    def ext(s, name, timeout=0, **cfg):
        p = "/xyz/openbmc_project/extsensors/temperature/" + name
        s.d["cfg"][0]["sensors"].append(dict({"name": name, "type": "temp", "readPath": p, "timeout": timeout}, **cfg))
        s.d["sensors"].append({"name": name, "path": p, "ext": True, "type": "temp", "period": 0})
        return s
    def zone(s, *a, **k):
        s.d["cfg"][0]["zones"].append(zone(*a, **k))
        return s
    def ev(self, t, k, **a):
        self.d["ev"].append(dict({"t": t, "k": k}, **a))
        return self

PRELUDE = '''import json, sys
R = []
for l in open(sys.argv[1]):
    try: R.append(json.loads(l))
    except ValueError: pass
P = "/xyz/openbmc_project/control/fanpwm/Pwm_"
def bad(m):
    print("DEMO: " + m)
    sys.exit(1)
def writes(n, a=0, b=1e9): return [(r["t"], r["v"]) for r in R if r["k"] == "pwm" and r["p"] == P + str(n) and r["ok"] and a <= r["t"] <= b]
def level(n, t):
    w = writes(n, 0, t)
    return w[-1][1] * 100.0 / 255 if w else -1
def near(x, y, e=1.0): return abs(x - y) <= e
def fs(z, t):
    v = None
    for r in R:
        if r["t"] > t: break
        if r["k"] == "fs" and r["z"] == z: v = r["v"]
        if r["k"] == "zonegone" and r["z"] == z: v = None
    return v
def kind(k): return [r for r in R if r["k"] == k]
def expect(c, m):
    if not c: bad(m)
expect(len(kind("start")) > 0, "the service did not start")
'''
for f in sorted(glob.glob(HERE + "/buglist*.py")): exec(open(f).read())

def sh(c, **k): return subprocess.run(c, shell=True, **k)
def worktree(name):
    d = f"{WORK}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    sh(f"git -C /repo worktree prune; git clone -q --no-hardlinks /repo {d}", check=True)
    return d
def make(id):
    b = BUGS[id]
    d = worktree("make_" + id)
    for f, o, n in b["edits"]:
        s = open(f"{d}/{f}").read()
        assert s.count(o) == 1, (id, f, s.count(o), o)
        open(f"{d}/{f}", "w").write(s.replace(o, n))
    o = f"{SEED}/{id}"
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + "/patch.diff", "w").write(subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    if isinstance(b["sc"], str): # standalone demo program
        open(o + "/demo.cpp", "w").write(b["sc"])
        open(o + "/demo.sh", "w").write(b["check"])
        os.chmod(o + "/demo.sh", 0o755)
    else:
        sh(f"{HERE}/mkdemo.sh {o}", check=True)
        sc = b["sc"].d if isinstance(b["sc"], W) else b["sc"]
        json.dump(sc, open(o + "/scenario.json", "w"), indent=1)
        open(o + "/check.py", "w").write(PRELUDE + b["check"].strip() + "\n")
    shutil.rmtree(d)
def apply(id):
    d = worktree("try_" + id)
    sh(f"git -C {d} apply {SEED}/{id}/patch.diff", check=True)
    return d
def demo(id):
    d = worktree("base")
    sh(f"cp -a /repo/_build {d}/ 2>/dev/null")
    t0 = time.time()
    a = sh(f"{SEED}/{id}/demo.sh", cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    t1 = time.time()
    sh(f"git -C {d} apply {SEED}/{id}/patch.diff", check=True)
    b = sh(f"{SEED}/{id}/demo.sh", cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = a.returncode == 0 and b.returncode not in (0, 9)
    print(f"{id}: demo {'OK' if ok else 'BAD'}: {a.returncode} ({a.stdout.strip()[-200:]}) / {b.returncode} ({b.stdout.strip()[-200:]}) {t1-t0:.0f} s", flush=True)
    shutil.rmtree(d)
    return ok
def check(id, secs=None, prop=None):
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    env = dict(os.environ)
    p = prop or BUGS[id]["prop"]
    t0 = time.time()
    sh(f"git -C /repo apply {SEED}/{id}/patch.diff", check=True)
    try:
        r = sh(f"{VERIF}/bin/check {p} quick", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        sh("git -C /repo checkout -q -- .")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "viol" in l.lower()]
    print(f"{id}: check {p}: exit {r.returncode} {time.time()-t0:.0f} s: {' | '.join(v)[:500] or r.stdout[-300:]}", flush=True)
    return r.returncode == 1
if __name__ == "__main__":
    c, ids = sys.argv[1], sys.argv[2:]
    ids = [i for i in BUGS if not ids or any(i.startswith(x) for x in ids)]
    for i in ids:
        if c in ("make", "all"): make(i)
        if c in ("demo", "all"): demo(i)
        if c in ("check", "all"): check(i)
