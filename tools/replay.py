#!/usr/bin/env python3
"""replay.py DRIVER TRACEMODULE REPLAYFILE: runs the case of a replay file again and validates it."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
t = open(sys.argv[3]).read()
if sys.argv[1] == "multi":
    import area_worlds
    m = re.search(r"----- script\n(group .*?\nend)\n-----", t, re.S)
    head, *ws = re.split(r"^world ", m.group(1)[:-4], flags=re.M)
    _, name, mode, order = (head.split() + [""])[:4]
    g = lib.Group(name, mode, order, [(w.split("\n")[0], lib.Case("w", w.strip("\n").split("\n")[1:])) for w in ws])
    files, out = lib.drive_multi(lib.build_multi(sorted(area_worlds.MODULES)), [g], "replay", stderr=True)
    print(out)
    for d, f in sorted(files.items()):
        sys.stdout.write(open(f).read())
        x = lib.check_trace(f, area_worlds.MODULES[d])["rejected"]
        print("%s REJECTED at line %d: %s" % (d, x["line"], x["event"]) if x else d + " accepted")
    sys.exit(0)
m = re.search(r"----- script\n(case (\S+)\n(.*?)\n)?end\n-----", t, re.S)
c = lib.Case(m.group(2), m.group(3).split("\n"))
exe = lib.build(sys.argv[1])
tp, out = lib.drive(exe, [c], "replay", stderr=True)
print(out)
sys.stdout.write(open(tp).read())
r = lib._validate(exe, sys.argv[2], "Trace.cfg", [c], "replay2", "2g", None)
print("REJECTED at line %d: %s" % (r["rejected"]["line"], r["rejected"]["event"]) if r["rejected"] else "accepted")
