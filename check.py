#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]  - build /repo's working tree and decide one property
   check.py --replay <file>        - re-run a replay file written by a failing check
   check.py --setup                - sanity check of the toolchain
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: could not build/run (no answer)."""
import os, re, shutil, subprocess, sys, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
JOBS = str(os.cpu_count() or 8)
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=165"}

TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_signal_unsafe=0:suppressions=" + os.path.join(H, "mt", "tsan.supp")}

def build(variant, names):
    """variant: rel, san (NTL half) or fl-<rel|san>-<scalar|avx2|avx512> (FLINT half)"""
    b = os.path.join(HERE, "build", variant); fl = variant.split("-")
    d, o = (os.path.join(H, "fl"), ["V=" + fl[1], "S=" + fl[2]]) if fl[0] == "fl" else (H, ["V=" + variant])
    r = subprocess.run(["make", "-s", "-C", d, "-j" + JOBS, "B=" + b] + o + [os.path.join(b, "bin", n) for n in names],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD-FAILED variant=%s" % variant)
        sys.exit(2)
    return b

def known_entries():
    out = {}
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out

def run(exe, prop, tier, seed, budget, evid, variant, extra=()):
    env = dict(os.environ); env["MALLOC_PERTURB_"] = "165"; env.update(TSAN_ENV if variant == "tsan" else SAN_ENV if "san" in variant else {})
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    cmd = (VG if "vg" in variant else []) + [exe, "--prop", prop, "--tier", tier, "--seed", seed, "--budget", str(budget), "--variant", variant,
           "--evidence", evid, "--replay-dir", os.path.join(HERE, "replays")] + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if "vg" in variant else None, text=True, env=env, cwd=HERE)
    return r.returncode, r.stdout

# quick counts are multiplied by these factors, so that each check runs for about the same time
QUICK = dict(C01=8, C02=3, C03=3, C04=9, C05=5, C06=12, C07=10, C08=9, C09=15, C10=8, C11=7, C12=16, C13=11, C14=6, C15=10, C17=3, C18=8, C19=5, C20=16, C21=3, C22=4, C23=4, C24=5, C25=2, C27=6, C28=6, C29=9, C30=3, C33=16, C34=16)
def decide(prop, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit(): seed = "1"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evid = os.path.join(HERE, "evidence", prop + ".json")
    known = known_entries()
    bad = False; errs = False
    if prop == "C31":
        return sanitize(tier, seed, evid)
    if prop in FL or prop == "C39":
        return flint(prop, tier, seed, evid)
    if prop == "C41":
        return parallel(tier, seed, evid)
    b = build("rel", [prop])
    rc, out = run(os.path.join(b, "bin", prop), prop, tier, seed, 360 if tier == "quick" else 2700, evid, "rel", ["--scale", str(QUICK.get(prop, 1))] if tier == "quick" else [])
    for l in out.splitlines():
        m = re.match(r"KNOWNSTATUS (\S+) (\d)", l)
        if m:
            k = (prop, m.group(1))
            if m.group(2) == "1":
                if k in known: print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
                else:
                    rp = os.path.join(HERE, "replays", "%s-%s.known" % (prop, m.group(1)))
                    open(rp, "w").write("# fixed reproduction %s in harness/props/%s.cpp (KNOWN table)\n" % (m.group(1), prop))
                    print("VIOLATION property=%s replay=%s" % (prop, rp)); bad = True
            else: print("NOTE listed finding %s no longer reproduces" % m.group(1))
        else: print(l)
    if rc == 1: bad = True
    elif rc != 0: errs = True; print("RUN-ERROR rc=%d" % rc)
    return 1 if bad else 2 if errs else 0

def sanitize(tier, seed, evid):
    names = sorted(f[:-4] for f in os.listdir(os.path.join(H, "props")) if re.match(r"C\d+\.cpp$", f) and f != "C31.cpp")
    tot = dict(evaluations=0, distinct_nontrivial=0); samples = []; per = {}; viol = 0; t0 = time.time(); bad = errs = False
    runs = [("san", n) for n in names]
    if shutil.which("valgrind"): runs += [("vg", n) for n in names]
    b = {"san": build("san", names)}
    for v, n in runs:
        if v not in b: b[v] = build("rel", names)
        e = evid + ".part"
        scale = SCALE[v] * (1 if tier == "quick" else 1)
        rc, out = run(os.path.join(b[v], "bin", n), "C31", tier, seed, 40 if tier == "quick" else 300, e, v,
                      ["--scale", str(scale), "--tag", n, "--no-known", "--memonly"])
        for l in out.splitlines():
            if not l.startswith("KNOWNSTATUS"): print(n + ": " + l if not l.startswith("VIOLATION") else l)
        if rc == 1: bad = True
        elif rc != 0: errs = True; print("RUN-ERROR %s rc=%d" % (n, rc))
        try:
            d = json.load(open(e)); os.remove(e)
            for k in tot: tot[k] += d["coverage"][k]
            samples += ["%s/%s/%s" % (v, n, x) for x in d["coverage"]["samples"][:2]]; per[v + "/" + n] = d["coverage"]["evaluations"]; viol += d["violations"]
        except Exception as x: errs = True; print("EVIDENCE-ERROR %s %s" % (n, x))
        if bad: break
    json.dump({"property": "C31", "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": dict(tot, rule="cases of the other properties' generators re-run (san) on an AddressSanitizer + UBSan (overflow, shift, division) build with NTL_RANGE_CHECK bounds checks and (vg) on the release build under valgrind memcheck; an abnormal end, a memory report, a changed modulus or a changed input counts, a wrong value does not; non-trivial by each property's own rule", samples=samples[:60], cases_per_property=per),
        "assumptions": ["undefined behaviour that neither AddressSanitizer, NTL's range checks nor memcheck observe is out of reach"], "wall_s": time.time() - t0, "violations": viol}, open(evid, "w"), indent=1)
    return 1 if bad else 2 if errs else 0
def cpus():
    """instruction sets flint-extras has code paths for and this machine can run"""
    try: fl = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception: fl = set()
    r = ["scalar"]
    if {"avx2", "fma"} <= fl: r.append("avx2")
    if {"avx2", "fma", "avx512f", "avx512dq", "avx512ifma", "avx512bw", "avx512vl", "avx512cd"} <= fl: r.append("avx512")
    return r

def flint(prop, tier, seed, evid):
    mem = prop == "C39"; names = FL if mem else [prop]; cs = ["scalar"] if prop in NOSIMD else cpus(); tot = dict(evaluations=0, distinct_nontrivial=0); samples = []; per = {}; viol = 0; t0 = time.time(); bad = errs = False; rule = ""; asm = []
    runs = [("fl-%s-%s" % ("san" if mem else "rel", c), n, (0.15 if mem else 1.0) if c == "scalar" else 0.5 * (0.15 if mem else 1)) for c in cs for n in names]
    if mem: runs += [("fl-rel-" + cs[-1], n, 0.2) for n in names]
    if mem and shutil.which("valgrind"): runs += [("fl-vg-scalar", n, FLVG) for n in names]
    b = {}
    for v, n, scale in runs:
        if bad: break
        if v not in b: b[v] = build(v.replace("-vg-", "-rel-"), names)
        e = evid + ".part"
        rc, out = run(os.path.join(b[v], "bin", n), prop, tier, seed, max(20, (300 if tier == "quick" else 2700) // len(runs)), e, v, ["--scale", str(scale)] + (["--tag", n, "--memonly"] if mem else []))
        for l in out.splitlines(): print(l if l.startswith("VIOLATION") else v + "/" + n + ": " + l)
        if rc == 1: bad = True
        elif rc != 0: errs = True; print("RUN-ERROR %s %s rc=%d" % (v, n, rc))
        try:
            d = json.load(open(e)); os.remove(e)
            for k in tot: tot[k] += d["coverage"][k]
            samples += ["%s/%s/%s" % (v, n, x) for x in d["coverage"]["samples"][:3 if mem else 20]]; per[v + "/" + n] = d["coverage"]["evaluations"]; viol += d["violations"]; rule = d["coverage"]["rule"]; asm = d["assumptions"]
        except Exception as x: errs = True; print("EVIDENCE-ERROR %s %s" % (n, x))
    if mem:
        rule = "cases of the other flint-extras properties' generators re-run on an AddressSanitizer + UBSan (overflow, shift, division) build on the release build with freed memory poisoned and every allocation counted, and on the release build under valgrind memcheck; an abnormal end, a memory report, memory not given back, or a changed input counts, a wrong value does not; non-trivial by each property's own rule"
        asm = asm[:1] + ["undefined behaviour that neither AddressSanitizer nor memcheck observes is out of reach (memcheck runs the scalar build)"]
    json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": dict(tot, rule=rule, samples=samples[:60], cases_per_build=per), "assumptions": asm, "wall_s": time.time() - t0, "violations": viol}, open(evid, "w"), indent=1)
    return 1 if bad else 2 if errs else 0
def parallel(tier, seed, evid):
    """C41: the release build, then the threads part with PML compiled under ThreadSanitizer"""
    tot = dict(evaluations=0, distinct_nontrivial=0); samples = []; per = {}; viol = 0; t0 = time.time(); bad = errs = False; rule = ""; asm = []; extra = []
    for v in ("rel", "tsan"):
        if bad: break
        exe = os.path.join(build(v, ["C41"]), "bin", "C41")
        if v == "tsan" and subprocess.run([exe, "--probe"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, **TSAN_ENV)).returncode != 0:
            print("NOTE ThreadSanitizer does not run on this machine: its part is left out"); extra.append("ThreadSanitizer part not run (it does not start on this machine)"); continue
        e = evid + ".part"
        rc, out = run(exe, "C41", tier, seed, 240 if tier == "quick" else 2000, e, v, ["--only", "threads"] if v == "tsan" else [])
        for l in out.splitlines(): print(l if l.startswith("VIOLATION") else v + ": " + l)
        if rc == 1: bad = True
        elif rc != 0: errs = True; print("RUN-ERROR %s rc=%d" % (v, rc))
        try:
            d = json.load(open(e)); os.remove(e)
            for k in tot: tot[k] += d["coverage"][k]
            samples += [v + "/" + x for x in d["coverage"]["samples"]]; per.update({v + "/" + k: n for k, n in d["coverage"]["cases_per_subcheck"].items()}); viol += d["violations"]; rule = d["coverage"]["rule"]; asm = d["assumptions"]
        except Exception as x: errs = True; print("EVIDENCE-ERROR %s %s" % (v, x))
    json.dump({"property": "C41", "tier": tier, "seed": int(seed), "level": "exploration", "coverage": dict(tot, rule=rule, samples=samples[:60], cases_per_subcheck=per), "assumptions": asm + extra, "wall_s": time.time() - t0, "violations": viol}, open(evid, "w"), indent=1)
    return 1 if bad else 2 if errs else 0
NOSIMD = {"C42", "C43", "C44"}   # code without vector instructions: one build is enough
FL = sorted(f[:-4] for f in os.listdir(os.path.join(H, "fl", "props")) if re.match(r"C\d+\.cpp$", f))
SCALE = {"san": 0.1, "vg": 0.004}
FLVG = 0.02
VG = ["valgrind", "-q", "--error-exitcode=99"]

def replay(path):
    prop = None; variant = "rel"; memonly = False
    for l in open(path):
        m = re.match(r"# property (\S+) variant (\S+)(?: exe (\S+))?", l)
        if m: prop, variant, memonly = m.group(3) or m.group(1), m.group(2), m.group(1) in ("C31", "C39")
    b = build(variant.replace("-vg-", "-rel-") if variant.startswith("fl-") else variant if variant in ("san", "tsan") else "rel", [prop]); env = dict(os.environ); env["MALLOC_PERTURB_"] = "165"; env.update(TSAN_ENV if variant == "tsan" else SAN_ENV)
    return subprocess.run((VG if "vg" in variant else []) + [os.path.join(b, "bin", prop), "--replay", os.path.abspath(path)] + (["--memonly"] if memonly else []), env=env).returncode

if __name__ == "__main__":
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        sys.exit(subprocess.run(["bash", "-c", "command -v g++ make python3 ar >/dev/null"]).returncode)
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(decide(sys.argv[1], "thorough" if tier == "thorough" else "quick"))
