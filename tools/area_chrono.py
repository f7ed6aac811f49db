"""C13, C14: the chronometer, under a clock that the script moves."""
from lib import Case

NOTE = ["the clock of the library is replaced by one that moves only by the script",
        "single intervals up to about four months; the clock never runs backwards",
        "mean, variance and deviation are compared to a millionth with exact fractions"]


def tick(r, scale):
    return r.choice([0, r.randrange(1000), 999, 1000, 1001, r.randrange(10 ** 4), r.randrange(10 ** 6), r.randrange(10 ** scale)])


def hexs(t):
    return t.encode().hex() or "-"


NAMES = ["x", "y", "phase one", "0", "1", "a" * 40, " ", "\xff\x01"]


def ask(r, g, names, stats, n):
    """Questions about a chronometer that has taken about n times."""
    ops = []
    ns = [0, 1, 2, max(0, n - 1), n, n + 1, r.randrange(n + 2), 1 << 31, 1 << 32, (1 << 64) - 1, (1 << 64) - 2]
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if k < 0.25:
            ops.append("bench %s %s" % (g, r.choice(["x", str(r.choice(ns)), str(r.choice(ns))])))
        elif k < 0.45:
            ops.append("benchs %s %s" % (g, r.choice(names + ["-"])))
        elif k < 0.75:
            ops.append("cum %s %s %s" % (g, r.choice(["x", str(r.choice(ns)), str(r.choice(ns))]), r.choice("x01")))
        else:
            ops.append("cums %s %s %s" % (g, r.choice(names + ["-"]), r.choice("x01")))
    if r.random() < stats:
        ops += ["stat %s %s" % (g, r.choice("x1")), "stat %s 0" % g]
    return ops


def sweep(r, g, names, n):
    """Everything that can be asked."""
    ops = []
    for c in names + ["-"]:
        ops += ["benchs %s %s" % (g, c), "cums %s %s 0" % (g, c), "cums %s %s 1" % (g, c)]
    for i in range(n + 2):
        ops += ["bench %s %d" % (g, i), "cum %s %d 0" % (g, i), "cum %s %d 1" % (g, i)]
    return ops + ["stat %s 0" % g, "stat %s 1" % g]


def cases_(ctx, stats):
    r = ctx.rng
    ctx.model("GenChrono", "MCChronoQ.cfg" if ctx.quick else "MCChrono.cfg", workers=6, coverage=False)
    if not ctx.quick:
        ctx.model("GenChrono", "MCChrono2.cfg", workers=6, coverage=False)
    cases = []
    n, d = (60, 60) if ctx.quick else (500, 110)
    for i, h in enumerate(ctx.behaviours("GenChrono", n, d, cfg="GenChrono.cfg")):
        scale = r.choice([4, 6, 9, 11, 12, 13, 14, 16])
        ns = [hexs(x) for x in r.sample(NAMES, 3)]
        nm = {"x": ns[0], "y": ns[1], "z": ns[2], "": "x"}
        ops, k = ["tick %d" % r.randrange(10 ** 18)] if r.random() < 0.5 else [], 0
        for o in h:
            t, g = o["op"], o.get("g")
            if t == "tick":
                ops.append("tick %d" % tick(r, scale))
            elif t == "new":
                ops.append("new %s %s" % (g, r.choice(["x", "0", "1", "3", "100"])))
            elif t in ("copy", "assign"):
                ops.append("%s %s %s" % (t, g, o["h"]))
            elif t in ("step", "pause", "stop"):
                ops.append("%s %s %s" % (t, g, nm[o["c"]] if o["c"] else r.choice("x-")))
                k += 1
            elif t == "ask":
                ops += ask(r, g, ns, stats, min(k, 12))
            else:
                ops.append("%s %s" % (t, g))
        cases.append(Case("life%d" % i, ops))
    # long timelines, with everything asked at the end
    for i in range(40 if ctx.quick else 300):
        scale = r.choice([4, 5, 6, 8, 10, 12, 13, 14, 16])
        names = [hexs(x) for x in r.sample(NAMES, 4)]
        ops = ["new a %s" % r.choice(["x", "0", "2"])]
        n, mode = 0, r.choice(["steps", "mixed", "mixed", "pauses", "equal"])
        first = r.choice(["start a", "step a x", "step a " + names[0], "reset a"])
        ops.append(first)
        size = r.randrange(0, 14) if ctx.quick else r.randrange(0, 40)
        for _ in range(size):
            ops.append("tick %d" % (7000 if mode == "equal" else tick(r, scale)))
            c = r.choice(names + ["x"] * 4)
            if mode in ("steps", "equal"):
                ops.append("step a " + c)
            elif mode == "pauses":
                ops.append(r.choice(["pause a " + c, "cont a", "step a " + c]))
            else:
                ops.append(r.choice(["step a " + c, "step a " + c, "step a x", "pause a " + c, "cont a", "pause a x"]))
            n += 1
            if r.random() < stats / 3:
                ops += ask(r, "a", names, stats, n)
        if r.random() < 0.6:
            ops += ["tick %d" % tick(r, scale), "stop a " + r.choice(names + ["x"])]
            n += 1
            if r.random() < 0.5:
                ops += ["tick %d" % tick(r, scale), r.choice(["stop a x", "step a x", "pause a x", "cont a", "step a " + names[1]])]
        ops += sweep(r, "a", names, n + 1)
        if r.random() < 0.4:
            ops += [r.choice(["start a", "reset a"]), "tick 5000", "stat a 1", "stop a x", "stat a 0", "cum a x x"]
        cases.append(Case("line%d" % i, ops))
    # very long ones, with a part of what can be asked
    for i in range(4 if ctx.quick else 30):
        scale = r.choice([3, 4, 6])
        names = [hexs(x) for x in r.sample(NAMES, 4)]
        size = r.choice([254, 255, 256, 257, 300]) if i % 2 else r.choice([1000, 1023, 1024, 1025] if not ctx.quick else [400, 511, 512, 513])
        ops = ["new a x", "start a"]
        for k in range(size):
            if r.random() < 0.9:
                ops.append("tick %d" % tick(r, scale))
            c = r.choice(names + ["x"] * 6)
            ops.append(r.choice(["step a " + c] * 8 + (["pause a " + c, "cont a"] if i % 4 > 1 else [])))
        ops += ["tick 1000", "stop a x", "stat a 0", "stat a 1"]
        for k in {0, 1, 127, 128, 255, 256, size // 2, size - 1, size, size + 1, size + 2, r.randrange(size)}:
            ops += ["bench a %d" % k, "cum a %d 0" % k, "cum a %d 1" % k]
        for c in names + ["-"]:
            ops += ["benchs a " + c, "cums a %s 0" % c, "cums a %s 1" % c]
        cases.append(Case("huge%d" % i, ops))
    # a great many names, some given twice, and a new start that forgets them
    for i in range(3 if ctx.quick else 12):
        size = r.choice([[65, 70, 100], [129, 140, 200], [257, 270, 300]][i % 3])
        names = [hexs("%s %d" % (r.choice(["phase", "x"]), k)) for k in range(size)]
        ops = ["new a x", "start a"]
        for c in names:
            ops += ["tick %d" % tick(r, 7), r.choice(["step a ", "step a ", "step a ", "pause a "]) + c]
            if r.random() < 0.1:
                ops += ["tick %d" % tick(r, 5), "cont a", "step a " + r.choice(names)]
        if i % 2:
            ops += ["copy b a", "new c 3", "assign c a"]
        look = lambda g, k: [o for c in r.sample(names, k) + [names[0], names[-1]] for o in ("benchs %s %s" % (g, c), "cums %s %s %d" % (g, c, r.randrange(2)))]
        ops += ["tick 999999", "stop a x"] + look("a", 30)
        if i % 2:
            ops += look("b", 6) + look("c", 6)
        ops += [["start a", "reset a", "start a"][i % 3], "tick 4000", "step a " + names[3], "tick 5000"] + ["step a x", "tick 6000"] * 3 + ["stop a x"] + look("a", 30)
        cases.append(Case("names%d" % i, ops))
    # more times than small counters hold
    for i, size in enumerate([65540] if ctx.quick else [32770, 65540, 131080]):
        names = [hexs(x) for x in r.sample(NAMES, 3)]
        ops = ["new a x", "start a", "tick 5001", "step a " + names[0], "tick 70000", "pause a " + names[1], "tick 9000", "cont a", "many a %d %d" % (size, r.choice([1001, 2500, 4999])),
               "tick 123456", "step a " + names[1], "tick 7777000", "step a " + names[2], "tick 88000", "pause a x", "tick 5000", "stop a x", "stat a 1"]
        ops += [o for c in names for o in ("benchs a " + c, "cums a %s %d" % (c, r.randrange(2)))]
        ops += ["bench a %d" % k for k in (0, 2, 3, 4, 5, size - 65530, size + 2, size + 3, size + 4, size + 5, size + 6, size + 7, size + 8)] + ["cum a %d 0" % (size + 5), "cum a %d 1" % (size - 65530)]
        cases.append(Case("counted%d" % size, ops))
    return cases


def C13(ctx):
    cs = cases_(ctx, 0.1)
    for c in cs:
        c.ops = [o for o in c.ops if not o.startswith("stat")]
    ctx.conform("chrono", "TraceChrono", cs, need=("Tick", "New", "Copy", "Assign", "Start", "Reset", "Cont", "Step", "Many", "Pause", "Stop", "Bench", "BenchS", "Cum", "CumS"))
    return "model_checking", NOTE


def C14(ctx):
    cs = cases_(ctx, 0.9)
    for c in cs:
        c.ops = [o for o in c.ops if not o.startswith(("bench", "cum"))]
    ctx.conform("chrono", "TraceChrono", cs, need=("Tick", "New", "Start", "Step", "Many", "Pause", "Stop", "Stat"))
    return "model_checking", NOTE
