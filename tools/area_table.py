"""C08, C09: the hash tables and their concealing."""
import hashlib
from lib import Case
import rare
from area_values import PRIMES, hx, text

ALGS = ["sha1", "sha256", "murmur", "sha1", "sha256", "murmur", "none"]
NOTE = ["digests, positions and generator values come from the exact layers of the specification",
        "geometries up to 64 buckets; elements drawn at random with repetitions",
        "printed statistics are compared to the printed precision (six digits)"]


def element(r, p, k=None):
    return r.choice([0, p - 1, r.randrange(p), r.randrange(p), r.randrange(min(p, 100))])


def mapped(r, h, i, txt):
    """A symbolic history on real tables, with room enough (no fatal operation)."""
    p = r.choice(PRIMES[4:])
    els = [hx(text(r, r.randrange(0, 30))) for _ in range(8)] if txt else [element(r, p) for _ in range(8)]
    ks = [1, 2, r.choice([3, 5, 7]), r.choice([8, 16, 29, 30, 31]), r.choice([33, 64, 100])]
    room = 60
    hs = [room, room + 1, room + 7, room + 2, room + 3]
    m = [p, r.choice([p, max(2, p >> 1), (1 << 64) - 1])]
    ops, ngen = ["srand %d" % r.randrange(1 << 30), "ctx %d" % p], 0
    for o in h:
        k, t = o["op"], o.get("t")
        if k == "new":
            al = r.choice(ALGS) if o["a"] else "none"
            if txt and al == "murmur":
                al = "sha1"
            ops.append("new %s %s %d %d %s %d" % (t, "text" if txt else "zz", ks[o["k"] - 1], hs[o["h"]], al, r.choice([0, 1, r.getrandbits(32)])))
        elif k == "alg":
            ops.append("alg %s %s %d" % (t, r.choice(["sha1", "sha256"]) if o["a"] else "none", 0))
        elif k == "add":
            ops.append("add %s %s" % (t, els[o["el"]]))
        elif k == "addto":
            ops.append("addto %s %d %s" % (t, 0 if o["i"] == 0 else 0, els[o["el"]]))
        elif k == "list":
            ops.append("list %s %s %s" % (t, els[o["els"][0]], els[o["els"][1]]))
        elif k == "newp":
            ops.append("newp %s %d" % (o["g"], m[ngen % 2]))
            ngen += 1
        elif k == "stats":
            ops.append("stats %s %d" % (t, r.randrange(2)))
        elif k == "dump":
            ops.append("dump " + t)
        elif k == "get":
            ops.append("get %s 0" % t)
        elif k == "del":
            ops += ["dump " + t, "del " + t]
    return Case("life%d" % i, ops)


def bucket(al, seed, el, k):
    if al == "sha1":
        return int.from_bytes(hashlib.sha1(str(el).encode()).digest(), "little") % k
    if al == "sha256":
        return int.from_bytes(hashlib.sha256(str(el).encode()).digest(), "little") % k
    return None


def C09(ctx):
    r = ctx.rng
    ctx.model("GenTables", "MCTables1.cfg" if ctx.quick else "MCTables.cfg", workers=6)
    cases = []
    n, d = (24, 50) if ctx.quick else (160, 110)
    hs = ctx.behaviours("GenTables", n, d, cfg="GenTables.cfg")
    for i, h in enumerate(hs):
        h = [o for o in h if o["op"] not in ("conceal", "newp")]
        cases.append(mapped(r, h, i, i % 4 == 3))
    # fill small tables until something does not fit, in every way
    for i in range(90 if ctx.quick else 900):
        p = r.choice(PRIMES[4:])
        k, hh = r.choice([1, 1, 2, 3, 5, 8]), r.choice([0, 1, 1, 2, 3])
        txt = r.random() < 0.2
        al = r.choice(["sha1", "sha256"] if txt else ALGS)
        el = (lambda: hx(text(r, r.randrange(0, 20)))) if txt else (lambda: str(element(r, p)))
        ops = ["ctx %d" % p, "new a %s %d %d %s %d" % ("text" if txt else "zz", k, hh, al, r.getrandbits(32))]
        for _ in range(r.randrange(0, 2 * k * (hh + 1) + 2)):
            q = r.random()
            if q < 0.5:
                ops.append("add a " + el())
            elif q < 0.75:
                ops.append("addto a %d %s" % (r.randrange(k), el()))
            elif q < 0.85:
                ops.append("list a " + " ".join(el() for _ in range(r.randrange(0, 4))))
            elif q < 0.93:
                ops.append("get a %d" % r.randrange(k))
            elif hh > 0:
                ops.append("stats a %d" % r.randrange(2))
        ops.append("dump a")
        ops.append(r.choice(["get a %d" % r.choice([k, k + 1, 1 << 20, 1 << 31, 1 << 32, 1 << 63, (1 << 64) - 1, k + (1 << 32)]),
                             "addto a %d %s" % (r.choice([k, k + 1, 1 << 31, 1 << 32, (1 << 64) - 1, (1 << 32) + r.randrange(k)]), el()),
                             "addto a %d %s" % (r.randrange(k), el()),
                             "list a " + " ".join(el() for _ in range(k * hh + 1)), "add a " + el()]))
        ops.append("dump a")
        cases.append(Case("fill%d" % i, ops))
    # each limit exactly, in each way, in tables of every filling
    for i in range(48 if ctx.quick else 480):
        p = r.choice(PRIMES[4:])
        txt = i % 5 == 4
        k, hh = r.choice([1, 2, 3, 5, 8, 32]), r.choice([0, 1, 2, 3])
        el = (lambda: hx(text(r, r.randrange(0, 20)))) if txt else (lambda: str(element(r, p)))
        ops = ["ctx %d" % p, "new a %s %d %d %s 3" % ("text" if txt else "zz", k, hh, "sha1" if txt else r.choice(ALGS))]
        f = [r.choice([0, hh, r.randrange(hh + 1)]) for _ in range(k)]
        ops += ["addto a %d %s" % (b, el()) for b in range(k) for _ in range(f[b])]
        ops += ["get a %d" % b for b in {0, k - 1}]
        at = [k, k, k + 1, (1 << 64) - 1, (1 << 32), (1 << 32) + k - 1, 1 << 63][(i // 3) % 7]
        full = r.choice([b for b in range(k) if f[b] == hh] or [k])
        ops.append(["get a %d" % at, "addto a %d %s" % (at, el()), "addto a %d %s" % (full, el())][i % 3])
        cases.append(Case("limit%d" % i, ops))
    # placement of many elements, in larger tables
    for i in range(10 if ctx.quick else 60):
        p = r.choice(PRIMES[6:])
        k = r.choice([7, 13, 29, 30, 31, 32, 37, 64, 100, 256, 257])
        al = ["sha1", "sha256", "murmur"][i % 3]
        ops = ["ctx %d" % p, "new a zz %d %d %s %d" % (k, 70, al, r.choice([0, r.getrandbits(32)]))]
        els = [element(r, p) for _ in range(70)]
        for e in els[:40]:
            ops.append("add a %d" % e)
        ops += ["stats a 0", "stats a 1", "list a " + " ".join(map(str, els[40:])), "dump a", "stats a %d" % r.randrange(2)]
        cases.append(Case("many%d" % i, ops))
    # as many buckets, and as many elements in a bucket, as make an octet or two overflow
    for i in range(4 if ctx.quick else 24):
        p = r.choice(PRIMES[6:])
        k, hh = [(r.choice([1000, 1024, 4099]), 3), (r.choice([2, 3]), r.choice([255, 256, 257, 300])), (r.choice([255, 256, 257]), 2), (r.choice([511, 600]), 4)][i % 4]
        ops = ["ctx %d" % p, "new a zz %d %d %s %d" % (k, hh, r.choice(["sha1", "sha256", "murmur"]), r.getrandbits(32)), "get a %d" % (k - 1)]
        for b in ({0, 255, 256, k // 2, k - 1, r.randrange(k)} if k > 250 else range(k)):
            n = hh if k > 250 else r.choice([hh, hh, hh - 1, 255, 254])
            ops += ["addto a %d %d" % (b, element(r, p)) for _ in range(min(n, hh)) if b < k]
        ops.append("stats a 0")
        if k > 250:
            ops += ["add a %d" % element(r, p) for _ in range(3)]
        ops += ["stats a 1", "dump a", "get a %d" % (k - 1)]
        ops.append(r.choice(["get a %d" % k, "addto a %d %d" % (k, 1), "addto a 0 1", "addto a 0 1"]))
        cases.append(Case("big%d" % i, ops))
    # more elements than an octet and a bit count
    for i in range(2 if ctx.quick else 8):
        p = r.choice([x for x in PRIMES if x > 1 << 100])
        k, hh = [(64, 60), (37, 90), (3, 700), (1, 1300)][i % 4 if not ctx.quick else i]
        al = ["murmur", "sha1", "none", "none"][i % 4 if not ctx.quick else i]
        ops, c = ["ctx %d" % p, "new a zz %d %d %s %d" % (k, hh, al, r.getrandbits(32))], 0
        for to in ([256, 512, 1000, 1024] if ctx.quick else [255, 256, 511, 512, 513, 1000, 1024, 1200]):
            ops.append("list a " + " ".join(str(r.getrandbits(100)) for _ in range(to - 2 - c)))
            ops += ["add a %d" % r.getrandbits(100) for _ in range(4)] + ["get a %d" % r.randrange(k), "stats a 0", "dump a"]
            c = to + 2
        cases.append(Case("count%d" % i, ops))
    # more elements than two octets count (no statistics: their terms leave the integers of TLC)
    for i in range(1 if ctx.quick else 3):
        p = r.choice([x for x in PRIMES if x > 70000])
        k = r.choice([1, 2, 3])
        ops = ["ctx %d" % p, "new a zz %d 66000 none 0" % k]
        step = r.choice([5, 20000])
        for f, to in ((0, 32766), (32766, 65530)):
            ops += ["list a " + " ".join(str((x * step + f) % 30000) for x in range(f, to))] + ["add a %d" % element(r, p) for _ in range(5)]
        ops += ["add a %d" % element(r, p) for _ in range(3)] + ["addto a 0 17", "dump a", "alg a sha1 0"] + ["add a %d" % element(r, p) for _ in range(3)] + ["get a %d" % (k - 1)]
        cases.append(Case("amass%d" % i, ops))
    # digests that are small or large as numbers, or nearly
    for i in range(2 if ctx.quick else 8):
        p, k = (1 << 127) - 1, r.choice([1, 2, 3, 7, 16, 97, 256, 1000])
        al = ["sha1", "sha256"][i % 2]
        ops = ["ctx %d" % p, "new a zz %d 40 %s 0" % (k, al)]
        for ok in rare.DIGESTS:
            e = rare.element(r, al, p, ok)
            ops += ["add a %d" % e] if e is not None else []
        for b in (0, k - 1):        # multiples of the number of buckets, and those just below
            e = rare.element(r, al, p, lambda d: int.from_bytes(d, "little") % k == b)
            ops += ["add a %d" % e] if e is not None else []
        cases.append(Case("rare%d" % i, ops + ["dump a"]))
    # one algorithm after the other
    for i in range(4 if ctx.quick else 20):
        txt = i % 4 == 3
        p = r.choice(PRIMES[6:])
        k = r.choice([3, 5, 7, 10, 31, 97, 1000])
        some = ["sha1", "sha256"] if txt else ["sha1", "sha256", "murmur"]
        ops = ["ctx %d" % p, "new a %s %d 40 %s 0" % ("text" if txt else "zz", k, r.choice(some + ["none"]))]
        for _ in range(7):
            ops += ["add a %s" % (hx(text(r, r.randrange(0, 30))) if txt else element(r, p)) for _ in range(3)] + ["alg a %s %d" % (r.choice(some + some + ["none"]), r.getrandbits(32))]
        ops.append("dump a")
        cases.append(Case("algs%d" % i, ops))
    # more buckets than two octets count
    for i in range(2 if ctx.quick else 8):
        p = r.choice(PRIMES[6:])
        k = r.choice([65535, 65537, 66000, 70001] if i % 2 else [65536, 65537, 70000, 100003])
        ops = ["ctx %d" % p, "new a zz %d 3 %s %d" % (k, ["sha1", "murmur", "sha256"][i % 3], r.getrandbits(32))]
        els = [element(r, p) for _ in range(8)]
        ops += ["add a %d" % e for e in els]
        for b in (0, 65535, 65536, k - 1):
            if b < k:
                ops += ["addto a %d %d" % (b, element(r, p)), "get a %d" % b]
        ops += ["get a %d" % b for b in (1, k // 2, (k - 1) & 65535)] + ["dump a", r.choice(["get a %d" % k, "addto a %d 1" % k])]
        cases.append(Case("wide%d" % i, ops))
    # many tables one after the other in one process, with statistics of all shapes
    for i in range(12 if ctx.quick else 80):
        ops = ["ctx 65537"]
        for t in range(6):
            k, hh = r.choice([1, 2, 3, 4, 5, 6, 10, 29, 30, 31]), r.choice([1, 2, 5, 12])
            ops.append("new t%d zz %d %d none 0" % (t, k, hh))
            shape = r.choice(["one", "even", "rand", "last", "full", "none"])
            for b in range(k):
                c = {"one": hh if b == k // 2 else 0, "even": hh // 2, "rand": r.randrange(hh + 1), "last": b * hh // max(1, k - 1) if k > 1 else hh, "full": hh, "none": 0}[shape]
                ops += ["addto t%d %d %d" % (t, b, r.randrange(65537)) for _ in range(c)]
            ops += ["stats t%d 0" % t, "stats t%d 1" % t, "dump t%d" % t]
        cases.append(Case("stats%d" % i, ops))
    ctx.conform("table", "TraceTables", cases, need=("New", "Del", "Alg", "Add", "AddTo", "List", "Get", "Dump", "Stats", "Left"))
    return "model_checking", NOTE


def C08(ctx):
    r = ctx.rng
    ctx.model("GenTables", "MCTables1.cfg" if ctx.quick else "MCTables.cfg", workers=6)
    cases = []
    n, d = (16, 60) if ctx.quick else (120, 110)
    for i, h in enumerate(ctx.behaviours("GenTables", n, d, cfg="GenTables.cfg")):
        # small loads here; elements are placed where there is room
        p = r.choice(PRIMES[4:])
        ops, gens, tabs, cells = ["srand %d" % r.randrange(1 << 30), "ctx %d" % p], set(), {}, 0
        for o in h:
            k, t, g = o["op"], o.get("t"), o.get("g")
            if k == "new":
                tabs[t] = [[0] * (o["k"]), o["h"] + 1]
                ops.append("new %s zz %d %d none 0" % (t, o["k"], o["h"] + 1))
            elif k in ("add", "addto", "list") and t in tabs:
                f = tabs[t][0]
                free = [b for b in range(len(f)) if f[b] < tabs[t][1]]
                if free:
                    b = r.choice(free)
                    f[b] += 1
                    ops.append("addto %s %d %d" % (t, b, element(r, p)))
            elif k == "newp":
                ops.append("newp %s %d" % (g, r.choice([p, p, p, max(2, p >> 3), (1 << 70) - 3])))
                gens.add(g)
            elif k == "conceal" and t in tabs and g in gens:
                f = tabs[t][0]
                tabs[t][0] = [tabs[t][1]] * len(f)
                ops.append("conceal %s %s" % (t, g))
                if r.random() < 0.3:
                    ops.append("nextp " + g)
            elif k in ("dump",):
                ops.append("dump " + t)
            elif k == "stats":
                ops.append("stats %s 0" % t)
            elif k == "get":
                ops.append("get %s %d" % (t, r.randrange(o.get("k", 1))))
            elif k == "del" and t in tabs:
                ops += ["dump " + t, "del " + t]
                del tabs[t]
        cases.append(Case("life%d" % i, ops))
    # tables in every degree of filling, concealed, read, and concealed again
    for i in range(40 if ctx.quick else 400):
        p = r.choice(PRIMES[4:] if i % 4 else PRIMES)
        ops = ["srand %d" % r.randrange(1 << 30), "ctx %d" % p, "newp g %d" % p, "newp f %d" % r.choice([p, max(2, p // 3), 3])]
        for t in range(2):
            k, hh = r.choice([1, 2, 3, 5, 8, 16]), r.choice([0, 1, 2, 3, 4, 8])
            ops.append("new t%d zz %d %d %s 5" % (t, k, hh, r.choice(["none", "sha1", "murmur"])))
            fills = [r.choice([0, 0, hh, r.randrange(hh + 1)]) for _ in range(k)]
            todo = [b for b in range(k) for _ in range(fills[b])]
            r.shuffle(todo)
            for b in todo:
                ops.append("addto t%d %d %d" % (t, b, r.choice([0, element(r, p)])))
            g = r.choice("gf")
            if r.random() < 0.3:
                ops.append("nextp " + g)
            ops += ["dump t%d" % t, "conceal t%d %s" % (t, g)]
            ops += ["get t%d %d" % (t, b) for b in range(k) if r.random() < 0.3]
            if r.random() < 0.5:
                ops.append("nextp " + g)
            if r.random() < 0.5:
                ops.append("conceal t%d %s" % (t, r.choice("gf")))
            if hh:
                ops.append("stats t%d 1" % t)
            ops.append("dump t%d" % t)
        if r.random() < 0.3 and hh:
            ops.append("addto t1 %d 1" % r.randrange(k))      # a concealed table is full
        cases.append(Case("conceal%d" % i, ops))
    for i in range(2 if ctx.quick else 12):
        p = r.choice(PRIMES[6:])
        k, hh = [(r.choice([300, 600]), 2), (2, r.choice([256, 257, 300]))][i % 2]
        ops = ["srand %d" % r.randrange(1 << 30), "ctx %d" % p, "newp g %d" % p, "new a zz %d %d none 0" % (k, hh)]
        for b in sorted({0, 1, 255, 256, k // 2, k - 1} & set(range(k))):
            ops += ["addto a %d %d" % (b, element(r, p)) for _ in range(r.choice([1, hh - 1, hh]))]
        ops += ["conceal a g", "dump a", "nextp g", "conceal a g", "dump a"]
        cases.append(Case("big%d" % i, ops))
    ctx.conform("table", "TraceTables", cases, need=("New", "AddTo", "NewP", "NextP", "Conceal", "Get", "Dump", "Left"))
    return "model_checking", NOTE
