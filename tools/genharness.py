#!/usr/bin/env python3
"""Writes /verif/HARNESSES.md: every harness with its comment and its bounds (quick / thorough), taken from the sources."""
import glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Harnesses and bounds", "",
       "Generated by tools/genharness.py from harness/. Each harness is one symbolic program; numbers are",
       "the quick / thorough bounds it declares (sizes, counts, forced thread switches, timers that expire early).",
       "Values without a bound range over their whole type.", ""]
for d in sorted(glob.glob(root + "/harness/c[0-9]*")):
    body = []
    for p in sorted(glob.glob(d + "/*.go")):
        src = open(p).read()
        fs = list(re.finditer(r"((?:^//[^\n]*\n)*)^func (?:\([^)]*\) )?(\w+)\(([^)]*)\)([^\n]*)\{", src, re.M))
        helpers = {}
        for i, m in enumerate(fs):
            text = src[m.start():fs[i + 1].start() if i + 1 < len(fs) else len(src)]
            bounds = ["%s %s/%s" % b for b in re.findall(r'sym\.Bound\("([^"]*)", *([^,()]+), *([^,()]+)\)', text)]
            if m[2][0].isupper() and not m[3] and not m[4].strip():
                c = " ".join(l[2:].strip() for l in m[1].strip().split("\n") if l) or m[2] + "."
                body.append("- " + c + (" *[" + "; ".join(bounds) + "]*" if bounds else ""))
    head = re.search(r"^// Package \w+: (.*)", open(sorted(glob.glob(d + "/*.go"))[0]).read(), re.M)
    out += ["## %s: %s" % (os.path.basename(d).upper(), head[1]), ""] + body + [""]
open(root + "/HARNESSES.md", "w").write("\n".join(out))
