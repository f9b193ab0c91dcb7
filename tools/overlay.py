#!/usr/bin/env python3
"""overlay.py OUT WORKDIR HOOK... - writes the build overlay of the accessors harness/hooks/<package>__<item>.go.txt.

A line "//verif:rename Type method newname" in an accessor renames a method in a copy of the sources, so that the accessor
may put a test double in its place. Exits with 3 when there is not exactly one such method."""
import glob, json, os, re, sys
out, work, hooks = sys.argv[1], sys.argv[2], sys.argv[3:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = {"binary": "encoding/binary"}
rep, edited = {}, {}
for h in hooks:
    pkg = h.split("__")[0]
    d = "/repo/" + DIRS.get(pkg, pkg)
    src = "%s/harness/hooks/%s.go.txt" % (V, h)
    rep["%s/zz_verif_%s.go" % (d, h)] = src
    for typ, name, new in re.findall(r"(?m)^//verif:rename (\S+) (\S+) (\S+)$", open(src).read()):
        pat = re.compile(r"(?m)^(func \(\w+ \*?%s\) )%s(\()" % (typ, name))
        found = 0
        for f in sorted(glob.glob(d + "/*.go")):
            if f.endswith("_test.go"):
                continue
            t = edited.get(f) or open(f).read()
            t, n = pat.subn(r"\g<1>%s\2" % new, t)
            found += n
            if n:
                edited[f] = t
        if found != 1:
            sys.exit(3)
os.makedirs(work, exist_ok=True)
for f, t in edited.items():
    p = os.path.join(work, f.strip("/").replace("/", "__"))
    with open(p, "w") as o:
        o.write(t)
    rep[f] = p
with open(out, "w") as o:
    json.dump({"Replace": rep}, o)
