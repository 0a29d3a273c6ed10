#!/usr/bin/env python3
"""Builds the simulator and the daemon variants from /repo's working tree.

Every object goes to /verif/build (git-ignored).  Nothing is written in /repo.
usage: build.py [--variants 0,1,2,12,15] [--copies N]
"""
import argparse, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

ap = argparse.ArgumentParser()
ap.add_argument("--variants", default="0,1,2,12,15")
ap.add_argument("--copies", type=int, default=8)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
variants = [int(x) for x in a.variants.split(",")]

meson = open(os.path.join(REPO, "meson.build")).read()
def srclist(name):
    m = re.search(r"%s\s*=\s*(?:files\()?\[(.*?)\]" % name, meson, re.S)
    return [s for s in re.findall(r"'([^']+\.(?:cpp|cc))'", m.group(1))] if m else []
swampd = srclist("libswampd_sources")
ipmi = srclist("libmanualcmds_sources")
# a source file a change may have added without listing it in that array
for extra in re.findall(r"'((?:[\w]+/)*[\w]+\.cpp)'", meson):
    if extra not in swampd + ipmi and extra != "setsensor.cpp" and not extra.startswith("test") and os.path.exists(os.path.join(REPO, extra)):
        swampd.append(extra)

os.makedirs(BUILD, exist_ok=True)
def put(path, text):
    try:
        if open(path).read() == text: return
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)

for v in range(16):
    put(f"{BUILD}/cfg{v}/config.h", "#define STRICT_FAILSAFE_PWM %d\n#define OFFLINE_FAILSAFE_PWM %d\n#define UNC_FAILSAFE %d\n#define HANDLE_MISSING_OBJECT_PATHS %d\n" % (v & 1, v >> 1 & 1, v >> 2 & 1, v >> 3 & 1))

incs = " ".join("-I%s" % os.path.join(REPO, d) for d in [".", "buildjson", "dbus", "errors", "ipmi", "notimpl", "pid", "sensors", "sysfs"])
shim = f"-I{HERE}/sim/shim -I{HERE}/sim"
# (no -Werror: an edit that only adds a warning must not break the check)
dflags = "-std=c++23 -O1 -fPIC -fno-gnu-unique -ftrivial-auto-var-init=pattern -w -pipe"
n = []
n.append("ninja_required_version = 1.3")
n.append(f"builddir = {BUILD}")
n.append("rule so_cc\n  command = g++ %s $defs -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out" % dflags)
n.append("rule exe_cc\n  command = g++ -std=c++23 -O2 -g1 -Wall -fno-gnu-unique -pipe %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out" % shim)
n.append("rule so_ld\n  command = g++ -shared -Wl,-Bsymbolic -Wl,--wrap=exit -Wl,--wrap=_exit -Wl,--wrap=quick_exit -o $out $in\n  description = LD $out")
n.append("rule cp\n  command = cp $in $out\n  description = CP $out")
n.append("rule exe_ld\n  command = g++ -rdynamic -o $out $in -ldl -lpthread\n  description = LD $out")

# which configuration bits does each source see?  Decide from the text of the
# source and every repo header: anything that may include config.h is built
# per full variant unless only known bits matter -- simply build per variant.
needs_cfg = {}
def uses_cfg(path, seen):
    if path in seen: return False
    seen.add(path)
    try: t = open(path, errors="replace").read()
    except OSError: return False
    if re.search(r'STRICT_FAILSAFE_PWM|OFFLINE_FAILSAFE_PWM|UNC_FAILSAFE|HANDLE_MISSING_OBJECT_PATHS', t): return True
    for inc in re.findall(r'#\s*include\s*"([^"]+)"', t):
        for d in [os.path.dirname(path)] + [os.path.join(REPO, x) for x in [".", "buildjson", "dbus", "errors", "ipmi", "notimpl", "pid", "sensors", "sysfs"]]:
            p = os.path.normpath(os.path.join(d, inc))
            if os.path.exists(p):
                if uses_cfg(p, seen): return True
                break
    return False
def bits_used(path):
    seen = set(); bits = 0
    def rec(p):
        nonlocal bits
        if p in seen: return
        seen.add(p)
        try: t = open(p, errors="replace").read()
        except OSError: return
        for b, k in enumerate(["STRICT_FAILSAFE_PWM", "OFFLINE_FAILSAFE_PWM", "UNC_FAILSAFE", "HANDLE_MISSING_OBJECT_PATHS"]):
            if k in t: bits |= 1 << b
        for inc in re.findall(r'#\s*include\s*["<]([^">]+)[">]', t):
            for d in [os.path.dirname(p)] + [os.path.join(REPO, x) for x in [".", "buildjson", "dbus", "errors", "ipmi", "notimpl", "pid", "sensors", "sysfs"]]:
                q = os.path.normpath(os.path.join(d, inc))
                if os.path.isfile(q): rec(q); break
    rec(path)
    return bits
objs = {}
def obj(src, v, extra=""):
    full = os.path.join(REPO, src)
    eff = v & bits_used(full)
    o = f"{BUILD}/obj/{src.replace('/', '_')}.{eff}.o"
    if o not in objs:
        objs[o] = 1
        defs = f"{shim} -I{BUILD}/cfg{eff} {incs}"
        if src == "main.cpp": defs += " -Dmain=swampd_main"
        n.append(f"build {o}: so_cc {full}\n  defs = {defs}")
    return o
n.append(f"build {BUILD}/obj/sowrap.o: so_cc {HERE}/sim/sowrap.cpp\n  defs = {shim}")
outs = []
for v in variants:
    os_ = [obj(s, v) for s in swampd] + [f"{BUILD}/obj/sowrap.o"]
    so = f"{BUILD}/swampd_{v}_0.so"
    n.append(f"build {so}: so_ld {' '.join(os_)}")
    outs.append(so)
    for k in range(1, a.copies):
        c = f"{BUILD}/swampd_{v}_{k}.so"
        n.append(f"build {c}: cp {so}")
        outs.append(c)
iso = f"{BUILD}/ipmid.so"
n.append(f"build {iso}: so_ld {' '.join(obj(s, 0) for s in ipmi)} {BUILD}/obj/sowrap.o")
outs.append(iso)
exe_src = sorted(f for f in os.listdir(f"{HERE}/sim") if f.endswith(".cpp") and f != "sowrap.cpp")
eo = []
for s in exe_src:
    o = f"{BUILD}/obj/exe_{s}.o"
    n.append(f"build {o}: exe_cc {HERE}/sim/{s}")
    eo.append(o)
n.append(f"build {BUILD}/sim: exe_ld {' '.join(eo)}")
outs.append(f"{BUILD}/sim")
n.append("default " + " ".join(outs))
put(f"{BUILD}/build.ninja", "\n".join(n) + "\n")
r = subprocess.run(["ninja", "-C", BUILD] + (["-v"] if a.v else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode or a.v: sys.stdout.write(r.stdout[-20000:])
sys.exit(2 if r.returncode else 0)
