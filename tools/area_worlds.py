"""C20: separate worlds in one program."""
import concurrent.futures as cf
import importlib, json, os, random
import lib
from lib import Case, Group
import area_proto as ap

MODULES = dict(proto="TraceProtocol", prf="TraceGenerators", table="TraceTables", poly="TracePolyBatch", digest="TraceDigests", strint="TraceByteNumbers",
               chrono="TraceChrono", bignum="TraceHelpers", party="TraceParties")
FROM = dict(prf=["C10", "C11"], table=["C08", "C09"], poly=["C15"], digest=["C16"], strint=["C12"], chrono=["C13", "C14"], bignum=["C17"], party=["C19"], proto=["C02", "C07"])
NOTE = ["each world is recorded by itself and must be a behaviour of its own specification",
        "in one thread the field of each world is set again before its operations, as NTL requires of its users",
        "threads on the loose: the schedules that occur; the other two ways: all orders of short worlds, random ones of long worlds",
        "operations that print are not performed by threads on the loose (the standard output is one for all)"]


# operations that can be repeated without effect, and how often they are
PURE = dict(prf=("gen", "auto", "genp", "getmod"), digest=("hash", "el", "readable", "info"), bignum=("log2", "blocks", "bytesn", "bytesz", "bytesp", "pad", "padto", "twos", "conv"),
            strint=("set", "rem", "lsb", "size", "str", "bytes"), poly=("whole", "find", "factor"),
            chrono=("bench", "benchs", "cum", "cums", "stat"), table=("get", "dump"))
TIMES = dict(chrono=400, table=100, prf=600, digest=600, bignum=300, strint=400, poly=20)


class Collect:
    """stands in for the context of another check: takes its cases"""

    def __init__(self, ctx, pid):
        self.quick, self.cases = True, []
        self.rng = random.Random("%s/%s" % (ctx.seed_text, pid))
        self.tier = "quick"

    def model(self, *a, **k):
        pass

    def behaviours(self, module, num, depth, **kw):
        return lib.behaviours(module, min(num, 16), depth, self.rng.randrange(1, 1 << 30), **kw)[0]

    def conform(self, driver, module, cases, **kw):
        self.cases += [(driver, c) for c in cases]


def pools(ctx):
    """short cases of every kind that end well"""
    src = open(os.path.join(lib.VERIF, "tools", "check.py")).read()
    area = dict(C10="area_prf", C11="area_prf", C08="area_table", C09="area_table", C15="area_poly", C16="area_values", C12="area_values", C17="area_values",
                C13="area_chrono", C14="area_chrono", C19="area_proto", C02="area_proto", C07="area_proto")

    def one(pid):
        c = Collect(ctx, pid)
        getattr(importlib.import_module(area[pid]), pid)(c)
        return c.cases
    with cf.ThreadPoolExecutor(lib.NPROC) as ex:
        got = dict(zip(area, ex.map(one, area)))
    pool = {}
    for d, pids in FROM.items():
        r = random.Random("%s/%s" % (ctx.seed_text, d))
        cs = [c for p in pids for e, c in got[p] if e == d and len(c.ops) <= 160 and sum(map(len, c.ops)) < 20000 and not c.name.startswith(("counted", "amass"))]
        for c in cs:
            c.ops = [o for o in c.ops if not o.startswith(("srand", "keylike"))]      # these set what is common to all worlds of a process
        r.shuffle(cs)
        pool[d] = cs[:40 if ctx.quick else 160]
    # only what ends well by itself
    built = lib.build_multi(sorted(MODULES))
    gs = [Group("%s-%d" % (d, i), "one", "", [(d, c)]) for d in pool for i, c in enumerate(pool[d])]

    def ends(i):
        files, _ = lib.drive_multi(built, gs[i::lib.NPROC], "alone%d" % i)
        ok = set()
        for f in files.values():
            for line in open(f):
                if line.startswith('{"e":"Case"'):
                    name = json.loads(line)["name"].split("/")[0]
                elif line.startswith('{"e":"Exit"'):
                    e = json.loads(line)
                    if e["code"] == 0 and e["sig"] == 0 and e["op"]["e"] == "End":
                        ok.add(name)
            os.remove(f)
        return ok
    with cf.ThreadPoolExecutor(lib.NPROC) as ex:
        ok = set().union(*ex.map(ends, range(lib.NPROC)))
    for d in pool:
        pool[d] = [c for i, c in enumerate(pool[d]) if "%s-%d" % (d, i) in ok]
    return pool


def order(r, n, k):
    """k turns of n worlds: now and then, in streaks, or one long before the other"""
    how = r.choice(["even", "streaks", "lagging"])
    if how == "even":
        return "".join(str(r.randrange(n)) for _ in range(k))
    if how == "streaks":
        s = ""
        while len(s) < k:
            s += str(r.randrange(n)) * r.choice([1, 2, 3, 8, 20])
        return s
    return "".join("0" if r.random() < 0.9 else str(r.randrange(n)) for _ in range(k))


def short_run(r, w, os_, names, secrets, sets):
    """a short world of two clients and a cloud, in four blocks"""
    a, b, s = os_
    make = [w.ctx()] + ["client %s %s zz %d" % (o, ap.hx(n), x) for o, n, x in zip((a, b), names, secrets)] + ["server %s %s" % (s, ap.hx(names[2]))]
    ap.everyone(make, os_)
    put = ["data %s %d x %s" % (o, w.bits, " ".join(map(str, v))) for o, v in zip((a, b), sets)]
    out = ["send %s %s 0 = blind %s" % (o, s, o) for o in (a, b)]
    ask = ["send %s %s 1 = req %s" % (a, b, a), "send %s %s 1 = req %s" % (b, a, b)]
    return [make, put, out, ask]


def twins(r, what):
    """two worlds that have nearly everything in common"""
    while True:
        w = ap.World(r, r.choice(["large", "large", "small"]), maxl=2, maxh=2, extra=r.choice([0, 1]))
        v = ap.World(r, w.kind, maxl=2, maxh=2, extra=0)
        v.seed, v.alg = w.seed, w.alg
        if what == "field" and v.p != w.p and v.p.bit_length() > w.bits + 1 and (w.kind == "small" or v.p.bit_length() - w.bits > 41):
            v.L, v.h, v.D, v.bits, v.pad = w.L, w.h, w.D, w.bits, v.p.bit_length() - w.bits - 1
        elif what == "points":
            v.p, v.L, v.h, v.D, v.bits, v.pad = w.p, w.L, w.h, w.D + r.choice([1, 2]), w.bits, w.pad
        elif what == "shape":
            v.p, v.L, v.h, v.D, v.bits, v.pad = w.p, w.L + 1, w.h, w.D, w.bits, w.pad
        elif what == "load" and w.h > 1:
            v.p, v.L, v.h, v.D, v.bits, v.pad = w.p, w.L, w.h - 1, w.D, w.bits, w.pad
        elif what == "hash":
            v.p, v.L, v.h, v.D, v.bits, v.pad = w.p, w.L, w.h, w.D, w.bits, w.pad
            v.alg = r.choice([x for x in ("sha1", "sha256", "murmur") if x != w.alg])
            if w.alg == "murmur" and v.alg == "murmur":
                v.seed = w.seed + 1
        elif what in ("sets", "secrets", "names", "same"):
            v.p, v.L, v.h, v.D, v.bits, v.pad = w.p, w.L, w.h, w.D, w.bits, w.pad
        else:
            continue
        if ap.distinct_points(v.p, v.D) and ap.distinct_points(w.p, w.D) and v.D < v.p and w.D < w.p:
            break
    na = ap.names(r, 3)
    sec = [ap.secret(r, w.p) for _ in range(2)]
    one = w.pair()
    two = v.pair() if what in ("sets", "shape", "load", "hash", "field", "points") else one
    nb = ap.names(r, 3) if what == "names" else na if r.random() < 0.7 else [na[1], na[0], na[2]]
    sec2 = [ap.secret(r, w.p) for _ in range(2)] if what == "secrets" else sec
    return short_run(r, w, "abs", na, sec, one), short_run(r, v, "abs", nb, sec2, two)


WHAT = ["field", "points", "shape", "load", "hash", "sets", "secrets", "names", "same"]


def C20(ctx):
    r = ctx.rng
    ctx.seed_text = "C20/%s/%s" % (ctx.tier, r.random())
    ctx.model("Worlds", "MCWorldsQ.cfg" if ctx.quick else "MCWorlds.cfg", workers=6, coverage=False)
    if not ctx.quick:
        ctx.model("Worlds", "MCWorlds3.cfg", workers=6, coverage=False)
    orders = lib.printed(ctx.model("GenWorlds", "GenWorlds.cfg", workers=1, coverage=False)["out"])
    orders3 = lib.printed(ctx.model("GenWorlds", "GenWorlds3.cfg", workers=1, coverage=False)["out"])
    assert len(orders) == 70 and len(orders3) == 90, (len(orders), len(orders3))
    gs = []
    # all orders of the blocks of two short worlds that have nearly everything in common
    r.shuffle(orders)
    for n in range(1 if ctx.quick else 8):
        for i, o in enumerate(orders if not ctx.quick else orders[:36]):
            a, b = twins(r, WHAT[(i + n) % len(WHAT)])
            at, turns = [0, 0], ""
            for k in o:
                turns += str(k) * len((a, b)[k][at[k]])
                at[k] += 1
            flat = [Case("w", sum(x, [])) for x in (a, b)]
            gs.append(Group("blocks%d-%d" % (n, i), ["one", "token"][(i + n) % 2], turns, [("proto", c) for c in flat]))
    # any worlds, of any kinds, in any order
    pool = pools(ctx)
    empty = [d for d in pool if not pool[d]]
    kinds = [d for d in pool if pool[d]]
    if empty:
        ctx.notes.append("no case of these ends well by itself: %s" % empty)

    def pick(d, free=False):
        c = r.choice(pool[d])
        return (d, Case(c.name, [o for o in c.ops if not (free and o.split()[0] in ("stats", "print"))]))
    for i in range(6 if ctx.quick else 40):
        for d in kinds:            # two or three of one kind
            mode = ["one", "token", "free"][(i + len(d)) % 3]
            n = r.choice([2, 2, 3])
            ws = [pick(d, mode == "free")] * 2 if r.random() < 0.3 else [pick(d, mode == "free") for _ in range(n)]
            gs.append(Group("%s%d" % (d, i), mode, order(r, len(ws), sum(len(c.ops) for _, c in ws)), ws))
    for i in range(18 if ctx.quick else 200):
        mode = ["one", "token", "free"][i % 3]
        ws = [pick(d, mode == "free") for d in r.sample(kinds, min(len(kinds), r.choice([2, 3, 4])))]
        gs.append(Group("mixed%d" % i, mode, order(r, len(ws), sum(len(c.ops) for _, c in ws)), ws))
    # worlds that are busy for long, so that threads on the loose meet within the operations
    for i in range(6 if ctx.quick else 40):
        n = r.choice([2, 3, 4])
        ws = []
        for k in range(n):
            if ws and r.random() < 0.25:
                ws.append(ws[-1])
            else:
                ws.append(("proto", ap.large(r, "busy", r.choice([40, 80, 120]), r.choice([1, 2]), r.choice([5, 6, 7]), r.choice([4, 8]), again=True)))
        gs.append(Group("busy%d" % i, "free", "", ws))
    # the same questions over and over, so that threads on the loose meet within short operations too
    for i in range(2 if ctx.quick else 12):
        for d in sorted(PURE):
            if pool[d]:
                ws = []
                for k in range(r.choice([3, 4])):
                    c = r.choice(pool[d])
                    ws.append((d, Case(c.name, ["rep %d %s" % (TIMES[d], "sets" + o[3:] if d == "strint" and o.startswith("set ") else o) if o.split()[0] in PURE[d] else o for o in c.ops[:60] if o.split()[0] not in ("print", "stats")])))
                gs.append(Group("often-%s%d" % (d, i), "free", "", ws))
    r.shuffle(gs)
    lib.conform_multi(ctx, gs, MODULES)
    if not ctx.violations and (empty or ctx.counts.get("Out", 0) == 0):
        raise lib.ToolError("vacuous: %s" % empty)
    return "model_checking", NOTE
