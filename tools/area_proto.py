"""C01-C07: the protocol."""
import hashlib
from lib import Case

NOTE = ["same public parameters and data length for all clients of a world, D > 2h evaluation points, distinct, odd prime fields",
        "a client's set is put once (a second time ends the program, as specified)",
        "a half that was delivered belongs to its receiver",
        "large fields: results are decided by the buckets when the padding has 40 bits or more (a root among the others is then too rare to be seen); "
        "with less padding extra results must be roots; in fields below 300 every element is tried"]
SMALL = [61, 67, 97, 101, 127, 131, 191, 211, 251, 257, 281, 293]
MEDIUM = [10007, 65537, 1000003, 16777259, (1 << 31) - 1]
LARGE = [(1 << 61) - 1, (1 << 64) + 13, (1 << 80) + 13, (1 << 89) - 1, (1 << 107) - 1, (1 << 127) - 1, (1 << 130) - 5, (1 << 160) + 7, (1 << 192) - 237, (1 << 255) - 19]
HUGE = [(1 << 521) - 1, (1 << 607) - 1, (1 << 1279) - 1]


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex() or "-"


def prf(seed, pos, bits):
    n = (bits + 7) // 8
    out, d = b"", seed.to_bytes((seed.bit_length() + 7) // 8, "little") + pos.to_bytes(8, "little")
    while len(out) < n:
        d = hashlib.sha1(d).digest()
        out += d
    return int.from_bytes(out[:n], "little") % (1 << bits)


def distinct_points(p, n):
    s = {prf(4, i, p.bit_length()) % p for i in range(n)}
    return len(s) == n


PATTERNS = ["next", "step", "low", "high", "bits", "holes"]


def regular(r, bits, n, k=None):
    """elements that go one after the other, share their low or their high digits, or have few or many bits"""
    top, k = 1 << bits, k or r.choice(PATTERNS)
    if k == "next":
        f = r.choice([0, r.randrange(top), max(0, top - n)])
        s = range(f, f + n)
    elif k == "step":
        d = r.choice([2, 3, 10, 1 << r.randrange(1, max(2, bits)), 256])
        f = r.choice([0, r.randrange(top)])
        s = range(f, f + n * d, d)
    elif k == "low":
        c = r.randrange(1, max(2, bits))
        f = r.getrandbits(c)
        s = [f + (r.getrandbits(bits) << c) for _ in range(n)]
    elif k == "high":
        c = min(bits - 1, n.bit_length() + 2)
        f = r.getrandbits(bits) >> c << c
        s = [f + r.getrandbits(c) if c else f for _ in range(n)]
    elif k == "bits":
        s = [1 << i for i in range(bits)]
    else:
        s = [(top - 1) ^ (1 << i) for i in range(bits)]
    s = [x % top for x in s]
    return list(dict.fromkeys(s + [r.randrange(top) for _ in range(2)]))


class World:
    """public parameters and sets that fit them"""

    def __init__(self, r, kind=None, maxl=3, maxh=3, alg=None, extra=None):
        self.r = r
        while True:
            kind_ = kind or r.choice(["small", "medium", "large", "large", "large"])
            p = r.choice(dict(small=SMALL, medium=MEDIUM, large=LARGE, huge=HUGE)[kind_])
            L, h = r.randrange(1, maxl + 1), r.randrange(1, maxh + 1)
            D = 2 * h + 1 + (r.choice([0, 0, 0, 1, 2, 5]) if extra is None else extra)
            fb = p.bit_length()
            if kind_ == "small":
                bits = r.randrange(2, fb)
            elif kind_ == "medium":
                bits = r.choice([fb - 1, fb - 2, r.randrange(3, fb), fb // 2])
            else:
                bits = r.choice([8, 16, 20, 32, fb - 41, r.randrange(4, fb - 41), r.randrange(4, fb - 41)])
            if D < p and bits >= 1 and distinct_points(p, D):
                break
        self.kind, self.p, self.L, self.h, self.D, self.bits, self.pad = kind_, p, L, h, D, bits, fb - bits - 1
        self.alg = alg or r.choice(["sha1", "sha1", "sha256", "murmur", "none"])
        self.seed = r.choice([0, 1, 4, 0xffffffff, r.getrandbits(32)])
        # none: all elements belong to the first bucket; murmur: the load must hold everything

    def ctx(self):
        return "ctx %d %d %d %d %s %d" % (self.p, self.L, self.h, self.D, self.alg, self.seed)

    def bucket(self, el):
        z = str((el << self.pad) % self.p).encode()
        if self.alg in ("sha1", "sha256"):
            return int.from_bytes(getattr(hashlib, self.alg)(z).digest(), "little") % self.L
        return 0

    def element(self):
        r, top = self.r, (1 << self.bits) - 1
        return r.choice([0, 1, top, r.randrange(top + 1), r.randrange(top + 1), r.randrange(top + 1), r.randrange(min(top + 1, 16))])

    def universe(self, n):
        return list({self.element() for _ in range(n)}) if self.r.random() < 0.7 else regular(self.r, self.bits, n)

    def some_set(self, uni, n, must=()):
        """at most n elements that fit the table, at least one"""
        s, load = [], {}
        pool = list(must) + self.r.sample(uni, len(uni))
        for x in pool:
            b = self.bucket(x)
            if len(s) < max(1, n) and x not in s and load.get(b, 0) < self.h:
                s.append(x)
                load[b] = load.get(b, 0) + 1
        order = self.r.random()
        if order < 0.7:
            self.r.shuffle(s)
        else:
            s.sort(reverse=order < 0.8)
        return s

    def pair(self):
        r = self.r
        uni = self.universe(3 * self.L * self.h + 2)
        a = self.some_set(uni, r.randrange(1, self.L * self.h + 1))
        k = r.choice(["same", "sub", "super", "apart", "mixed", "mixed"])
        if k == "same":
            b = list(a)
        elif k == "sub":
            b = a[:max(1, len(a) // 2)]
        elif k == "super":
            b = self.some_set(uni, self.L * self.h, must=a)
        elif k == "apart":
            b = self.some_set([x for x in uni if x not in a] or [x for x in [self.element() for _ in range(50)] if x not in a] or a, r.randrange(1, self.L * self.h + 1))
        else:
            b = self.some_set(uni, r.randrange(1, self.L * self.h + 1), must=r.sample(a, r.randrange(len(a) + 1)))
        r.shuffle(b)
        return a, b


def apart_sets(r, w):
    """a and b have something in common, c has nothing in common with either"""
    uni = w.universe(40)
    a = w.some_set(uni, r.randrange(1, w.L * w.h + 1))
    c = w.some_set([x for x in uni if x not in a] or a, r.randrange(1, w.L * w.h + 1))
    left = [x for x in uni if x not in c] or a
    b = w.some_set(left, r.randrange(1, w.L * w.h + 1), must=r.sample(a, r.randrange(1, len(a) + 1)))
    return dict(a=a, b=b, c=c)


def secret(r, p):
    return r.choice([0, 1, p - 1, p, p + 1, 2 * p + 3, r.randrange(p), r.randrange(p), r.getrandbits(8), r.getrandbits(64), r.getrandbits(400), 1 << r.randrange(300),
                     (r.getrandbits(60) << 64), 255, 256, r.getrandbits(2000)])


def late(r, w, x=0.15):
    """made for other parameters, which are set to those of the world before anything else happens"""
    return " %d %d" % (r.choice(SMALL + MEDIUM + LARGE), r.choice([0, 1, 3, w.D - 1, w.D + 1, 2 * w.D, 50])) if r.random() < x else ""


def client(r, w, o, name=None):
    if r.random() < 0.4:
        b = r.choice([b"", b"\0", b"\0\0\1", bytes(r.randrange(256) for _ in range(r.choice([1, 2, 8, 16, 33, 64]))), b"secret\0", b"\xff" * 16])
        return "client %s %s bytes %s" % (o, hx(name if name is not None else o), hx(b)) + late(r, w)
    return "client %s %s zz %d" % (o, hx(name if name is not None else o), secret(r, w.p)) + late(r, w)


def server(r, w, o, name):
    return "server %s %s" % (o, hx(name)) + late(r, w)


NAMES = ["A", "B", "alice", "bob", "a", "ab", "abc", "cloud", "x y", "\xc3\xa9", "0", "longer-name-of-some-party-%d", "A ", " A", "cloud ", "~"]


def names(r, n):
    if r.random() < 0.12:       # long ones that differ in little
        k = r.choice([15, 16, 17, 63, 127, 128, 255, 256, 300, 1000])
        a, b = "".join(r.choice("abcXYZ 09._") for _ in range(k)), r.sample("abcdefghijklmnop", n)
        return r.choice([[a + c for c in b], [c + a for c in b], [a[:k // 2] + c + a[k // 2:] for c in b], [a * j + "!" for j in range(1, n + 1)]])
    if r.random() < 0.05:
        return [""] + r.sample([x for x in NAMES if "%" not in x], n - 1)
    s = r.sample(NAMES, n)
    return [x % r.randrange(10 ** 6) if "%d" in x else x for x in s]


def everyone(ops, os_):
    for x in os_:
        for y in os_:
            if x != y:
                ops.append("auth %s %s" % (x, y))


def data(r, w, o, els):
    return "data %s %d %s %s" % (o, w.bits, r.choice(["x", "0", "1", "2", "8"]), " ".join(map(str, els)))


def single(r, name, w, both=False, send=True):
    na, nb, ns = names(r, 3)
    a, b = w.pair()
    ops = [w.ctx(), client(r, w, "a", na), client(r, w, "b", nb), server(r, w, "s", ns)]
    everyone(ops, "abs")
    ops += [data(r, w, "a", a), data(r, w, "b", b)]
    if send:
        x = ["send a s 0 = blind a", "send b s 0 = blind b"]
        r.shuffle(x)
        ops += x + ["send a b 1 = req a"]
        if both:
            ops.append("send b a 1 = req b")
    return Case(name, ops)


def large(r, name, L, h, D, n, alg=None, threads=None, again=False, send=True, pattern=None):
    """a world of which a view is recorded: all buckets with elements, the first, the last, and those around 2^8, 2^15, 2^16 positions"""
    w = World(r, "large", maxl=1, maxh=1, extra=0)
    while w.pad < 40 or w.p.bit_length() > 130 or not distinct_points(w.p, D) or w.bits < 16:
        w = World(r, "large", maxl=1, maxh=1, extra=0)
    assert D > 2 * h or not send
    w.L, w.h, w.D, w.alg = L, h, D, alg or r.choice(["sha1", "sha256"])
    uni = regular(r, w.bits, 2 * n, pattern) if pattern or r.random() < 0.4 else [r.getrandbits(w.bits) for _ in range(2 * n)]
    sets = {}
    shared = r.sample(uni, min(n // 2, len(uni)))
    for o in "ab":
        sets[o] = w.some_set(uni, n, must=shared)
        if pattern:      # in order, up or down, without holes
            part = uni[:n] if o == "a" else uni[n // 3:n // 3 + n]
            sets[o] = w.some_set(part, n, must=part)
            sets[o].sort(reverse=o == "b" and r.random() < 0.5)
    js = {w.bucket(x) + 1 for s in sets.values() for x in s} | {1, L}
    far = []
    for e in (1 << 8, 1 << 15, 1 << 16):
        for x, per in ((e, D), (e, L), (e - L * D, h), (e - 2 * L * D, h), (e // 2, D)):
            far += [j for j in (x // per, x // per + 1, x // per + 2) if x >= 0 and 1 <= j <= L]
    js |= set(r.sample(far, min(len(far), 6))) | {r.randrange(1, L + 1) for _ in range(2)}
    is_ = {1, D, min(D, 256), min(D, 257), r.randrange(1, D + 1)}
    na, nb, ns = names(r, 3)
    ops = ["%s %s %s" % (w.ctx(), ",".join(map(str, sorted(js))), ",".join(map(str, sorted(is_)))), client(r, w, "a", na), client(r, w, "b", nb), server(r, w, "s", ns)]
    everyone(ops, "abs")
    for o in "ab":
        ops.append("data %s %d %s %s" % (o, w.bits, threads if threads is not None else r.choice(["x", "0", "1", "3", "8", "17"]), " ".join(map(str, sets[o]))))
    if send:
        ops += ["send a s 0 = blind a", "send b s 0 = blind b", "send a b 1 = req a"]
        if again:
            ops.append("send b a 1 = req b")
    return Case(name, ops)


ROUND = [(16, 7, 16), (32, 2, 64), (64, 1, 4), (128, 3, 8), (256, 1, 3), (256, 2, 5), (256, 1, 4), (512, 1, 3), (1024, 1, 3), (8, 3, 32), (4, 2, 128), (2, 2, 256)]


def round_(r, name, quick, **k):
    """worlds whose numbers of buckets and points are powers of two"""
    return [large(r, "%s%d" % (name, i), L, h, D, r.choice([6, 12, 20]), **k) for i, (L, h, D) in enumerate(r.sample([x for x in ROUND if x[0] != 256], 3 if quick else 9) + [r.choice([x for x in ROUND if x[0] == 256])])]


def patterned(r, quick, **k):
    """sets with a pattern, in order"""
    return [large(r, "pattern-%s%d" % (x, i), r.choice([3, 5, 8]), 13, 27, r.choice([16, 24, 30]), pattern=x, **k) for x in PATTERNS for i in range(2 if x == "next" else 1 if quick else 4)]


def larges(r, quick):
    cs = [large(r, "buckets", r.choice([257, 300, 513]), 1, 3, 24), large(r, "points", r.choice([3, 5]), 2, r.choice([257, 300]), 6),
          large(r, "load", 2, 130, r.choice([261, 262]), 60), large(r, "entries", r.choice([520, 600]), 2, r.choice([127, 130]), 30)]
    cs += round_(r, "round", quick) + patterned(r, quick)
    cs.append(large(r, "many", r.choice([50, 61]), 30, 61, 600))
    if not quick:
        for i in range(4):
            cs += [large(r, "buckets%d" % i, r.choice([255, 256, 1000, 4096]), r.choice([1, 2, 3]), 7, 40, again=True), large(r, "points%d" % i, 4, 3, r.choice([128, 255, 256, 513]), 9, again=True),
                   large(r, "load%d" % i, 3, r.choice([127, 128, 255, 256, 257]), 521, 80), large(r, "entries%d" % i, r.choice([400, 700]), 3, r.choice([200, 256]), 60, again=i % 2 == 0)]
        cs.append(large(r, "far", 66000, 1, 3, 40))
    return cs


def C01(ctx):
    r = ctx.rng
    ctx.model("ProtoTheorem", "ProtoTheoremQ.cfg" if ctx.quick else "ProtoTheorem.cfg", workers=6, coverage=False)
    cases = []
    n = 1 if ctx.quick else 8
    for kind, k in (("small", 24), ("medium", 16), ("large", 24)):
        for i in range(k * n):
            cases.append(single(r, "%s%d" % (kind, i), World(r, kind, maxl=4 if not ctx.quick and i % 3 == 0 else 3, maxh=4 if not ctx.quick and i % 5 == 0 else 3)))
    for i in range(2 * n):
        w = World(r, "huge", maxl=2, maxh=2, extra=0)
        while ctx.quick and w.p >> 600:
            w = World(r, "huge", maxl=2, maxh=2, extra=0)
        cases.append(single(r, "huge%d" % i, w))
    for al in ("sha1", "sha256", "murmur", "none"):
        for i in range(2 * n):
            cases.append(single(r, "alg-%s%d" % (al, i), World(r, "large", alg=al), both=True))
    # many buckets, one element in each; one bucket, many elements
    for i in range(2 * n):
        w = World(r, "large", maxl=1, maxh=1, extra=0, alg="sha1")
        w.L = r.randrange(6, 12)
        cases.append(single(r, "wide%d" % i, w))
        w = World(r, "large", maxl=1, maxh=1, extra=0, alg="sha1")
        w.h = r.randrange(5, 8)
        w.D = 2 * w.h + 1
        cases.append(single(r, "deep%d" % i, w))
    # secrets of thousands of bytes
    for i, n in enumerate([256, 4100] if ctx.quick else [255, 256, 4095, 4096, 4097, 8200, 20000]):
        w = World(r, "large", maxl=1, maxh=1, extra=0)
        ns = names(r, 3)
        a, b = w.pair()
        ops = [w.ctx()] + ["client %s %s zz %d" % (o, hx(x), r.getrandbits(8 * n) | 1 << 8 * n - 1) for o, x in zip("ab", ns)] + [server(r, w, "s", ns[2])]
        everyone(ops, "abs")
        ops += [data(r, w, "a", a), data(r, w, "b", b), "send a s 0 = blind a", "send b s 0 = blind b", "send a b 1 = req a"]
        cases.append(Case("secret%d" % n, ops))
    # two clients with one secret, in itself or in the field, and with many entries
    for i in range(2 if ctx.quick else 10):
        while True:
            w = World(r, "large", maxl=5, maxh=3)
            if w.L * w.D > 21:
                break
        ns, x = names(r, 3), secret(r, w.p)
        a, b = w.pair()
        ops = [w.ctx()] + ["client %s %s zz %d" % (o, hx(y), z) for o, y, z in zip("ab", ns, (x, x + (i % 2) * r.randrange(1, 9) * w.p))] + [server(r, w, "s", ns[2])]
        everyone(ops, "abs")
        ops += [data(r, w, "a", a), data(r, w, "b", b), "send a s 0 = blind a", "send b s 0 = blind b", "send a b 1 = req a"]
        cases.append(Case("alike%d" % i, ops))
    cases = larges(r, ctx.quick) + cases
    ctx.conform("proto", "TraceProtocol", cases, need=("Data", "In", "Out", "Look"))
    return "model_checking", NOTE


def raw(b, n=None):
    return "raw %s %d" % (hx(b), len(b) if n is None else n)


def cut(r, b, least=0):
    """a part of a request, with or without more behind its length"""
    n = r.randrange(least, len(b))
    return raw(b, n) if r.random() < 0.5 else raw(b[:n] or b"\0", n)


class History:
    """a behaviour of GenProtocol in numbers"""

    def __init__(self, r, h, w, maxreq=99):
        self.r, self.w = r, w
        world = h["h"][0]["auth"]
        self.objects = sorted(world)
        ids = names(r, 6)
        base = dict(a="a", b="b", c="c", x="a", s="s", u="u")
        self.name = {i: ids[k] for k, i in enumerate("abcsu")}
        self.name["nobody"] = "nobody-" + ids[5]
        ops = [w.ctx()]
        for o in self.objects:
            n = self.name[base[o]]
            ops.append(server(r, w, o, n) if o in "su" else client(r, w, o, n))
        for o in self.objects:
            for x, y in world[o]["set"] if isinstance(world[o], dict) else world[o]:
                ops.append("auth %s %s" % (o, y))
        uni = w.universe(2 * w.L * w.h + 3)
        shared = w.some_set(uni, max(1, w.h // 2 + 1))
        k = 0
        for o in h["h"][1:]:
            k += 1
            op = o["op"]
            if op == "data":
                s = w.some_set(uni, r.randrange(1, w.L * w.h + 1), must=r.sample(shared, r.randrange(len(shared) + 1)))
                ops.append(data(r, w, o["o"], s))
            elif op == "out":
                ops.append("%s %s %s 0 = blind %s" % (r.choice(["send", "send", "resend"]), o["o"], o["s"], o["o"]))
            elif op == "req":
                ops.append("send %s %s 1 = req %s" % (o["o"], o["d"], o["o"]))
            elif op == "auth":
                ops.append("auth %s %s" % (o["o"], o["s"]))
            elif op == "secret":
                ops.append("secret %s %d" % (o["o"], secret(r, w.p)))
            elif op == "id":
                ops.append("setid %s %s" % (o["o"], hx(self.name[o["id"]])))
            elif op == "junk":
                ops += self.junk(o, k)
            if r.random() < 0.1:
                ops.append("knows %s %s" % (r.choice(self.objects), hx(r.choice(list(self.name.values())))))
        self.ops = ops

    def junk(self, o, k):
        r, t, c = self.r, o["type"], o["c"]
        to, frm = o["o"], hx(self.name[o["from"]])
        ops = []
        if r.random() < 0.5:
            ops.append("ask %s %d %s %s" % (to, t, frm, "null" if o["k"] == "null" else "x"))
        if o["k"] == "null":
            x = r.choice(["null", "null 0", "null 40"])
        elif o["k"] == "b":
            x = "blind " + c["o"]
        elif o["k"] == "req":
            b = self.name[c["id"]].encode() + b"\0" + bytes(r.randrange(256) for _ in range(r.randrange(1, 20))) + b"\0"
            x = raw(b) if c["full"] else r.choice([raw(b, 0), cut(r, b[:b.index(0) + 2])])
        elif o["k"] == "creq":
            a = self.name[c["id"]].encode() + b"\0" + self.name[c["partner"]].encode() + b"\0"
            b = a + bytes(r.randrange(256) for _ in range(16)) + r.choice([b"\0", b"\0", b"", b"\0junk"])
            x = raw(b) if c["full"] else cut(r, b[:len(a) + 16])
        else:
            x = r.choice(["half %d" % (k + 1), "half %d" % (k + 1), ("oldt %d" if t == 3 else "oldq %d") % r.randrange(9)]) if t in (3, 4) else "half %d" % (k + 1)
        ops.append("recv %s %d %s %s" % (to, t, frm, x))
        return ops


def histories(ctx, cfg, n, depth, kinds, tag, maxl=2, maxh=2):
    r = ctx.rng
    cases = []
    for i, h in enumerate(ctx.behaviours("GenProtocol", n, depth, cfg=cfg, steps=depth * 10)):
        w = World(r, kinds[i % len(kinds)], maxl=maxl, maxh=maxh, extra=r.choice([0, 0, 1]), alg=r.choice(["sha1", "sha256", "sha1", "murmur", "none"]))
        cases.append(Case("%s%d" % (tag, i), History(r, h, w).ops))
    return cases


def crowd(r, name, n, k, clouds=1):
    """n clients of few elements and k runs among them, with data outsourced again in between"""
    w = World(r, r.choice(["large", "large", "small", "medium"]), maxl=1, maxh=2, extra=0)
    os_, ss = ["c%d" % i for i in range(n)], ["s%d" % i for i in range(clouds)]
    ns = ["client-%d" % i for i in range(n)] if r.random() < 0.5 else [("c" * (i + 1)) for i in range(n)]
    r.shuffle(ns)
    ops = [w.ctx()] + [client(r, w, o, x) for o, x in zip(os_, ns)] + [server(r, w, s, "cloud " + s) for s in ss]
    own = {o: ss[i % clouds] for i, o in enumerate(os_)}
    everyone(ops, os_)
    for o in os_:
        ops += ["auth %s %s" % (o, own[o])] + ["auth %s %s" % (s, o) for s in ss]
    uni = w.universe(9)
    shared = w.some_set(uni, 2)
    for o in os_:
        ops.append(data(r, w, o, w.some_set(uni, r.randrange(1, w.h + 1), must=r.sample(shared, r.randrange(len(shared) + 1)))))
    order = [(o, s) for o in os_ for s in ss]
    r.shuffle(order)
    ops += ["send %s %s 0 = blind %s" % (o, s, o) for o, s in order]
    for _ in range(k):
        x, y = r.sample(os_, 2)
        q = r.random()
        if q < 0.2:
            ops.append("resend %s %s 0 = blind %s" % (x, r.choice(ss), x))
        elif q < 0.3:
            ops.append("secret %s %d" % (x, secret(r, w.p)))
        ops.append("send %s %s 1 = req %s" % (x, y, x))
    return Case(name, ops)


def acquainted(r, name, n):
    """n clients and clouds who know one another, some of them under names that others had before"""
    w = World(r, "large", maxl=1, maxh=1, extra=0)
    os_ = ["c%d" % i for i in range(n)]
    clouds = set(r.sample(os_, 2))
    ns = names(r, 6)
    ns = dict(zip(os_, ns + ["party %d" % i for i in range(n)]))
    ops = [w.ctx()] + [server(r, w, o, ns[o]) if o in clouds else client(r, w, o, ns[o]) for o in os_]
    everyone(ops, os_)
    clients = [o for o in os_ if o not in clouds]
    uni = w.universe(9)
    some = r.sample(clients, min(4, len(clients)))
    for o in some:
        ops.append(data(r, w, o, w.some_set(uni, w.L * w.h)))
    ops += ["send %s %s 0 = blind %s" % (o, s, o) for o in some for s in clouds]

    def talk(k):
        for _ in range(k):
            x, y = r.sample(os_, 2)
            t = r.choice([0, 1, 2, 3, 4, 5])
            kind = "server" if y in clouds else "client"
            ops.append("ask %s %d %s x" % (x, t, hx(ns[y])))
            ops.append("knowsp %s %s" % (x, y))
            if x in clouds and t in (1, 3, 4, 5) or x not in clouds and t in (0, 2, 5) or x not in clouds and t == 3 and kind == "client" or x not in clouds and t in (1, 4) and kind == "server":
                ops.append("recv %s %d %s %s" % (x, t, hx(ns[y]), r.choice(["half %d" % r.randrange(99), "blind " + r.choice(some), raw(ns[y].encode() + b"\0\5\0")])))
            # naming a third one inside, of any kind
            z, y2 = r.choice(os_), r.choice(clients)
            if z not in (x, y2) and x != y2 and r.random() < 0.6:
                if x in clouds:
                    ops.append("recv %s 2 %s %s" % (x, hx(ns[y2]), raw(ns[z].encode() + b"\0" + ns[r.choice(some)].encode() + b"\0" + bytes(range(3, 19)) + b"\0")))
                else:
                    ops.append("recv %s 1 %s %s" % (x, hx(ns[y2]), raw(ns[z].encode() + b"\0\5\6\0")))
        x, y = r.sample(some, 2)
        ops.append("send %s %s 1 = req %s" % (x, y, x))
    talk(30)
    # another one comes in under a name and is authenticated by some
    for o in r.sample(os_, 3):
        t = o + "x"
        if o in clouds:
            ops.append(server(r, w, t, ns[o]))
            ops += ["auth %s %s" % (t, x) for x in clients]
            ops += ["auth %s %s" % (x, t) for x in r.sample(clients, len(clients) // 2)]
            ops += ["send %s %s 0 = blind %s" % (x, t, x) for x in some]
        else:
            ops.append(client(r, w, t, ns[o]))
            ops += ["auth %s %s" % (t, x) for x in os_ if x != o]
            ops += ["auth %s %s" % (x, t) for x in os_ if x != o and (x in clouds or r.random() < 0.5)]
            ops.append(data(r, w, t, w.some_set(uni, w.L * w.h)))
            ops += ["send %s %s 0 = blind %s" % (t, s, t) for s in clouds]
        talk(8)
        if o not in clouds:
            ops.append("send %s %s 1 = req %s" % (t, r.choice([x for x in some if x != o]), t))
    return Case(name, ops)


def lengths(r, name, ls):
    """requests of given lengths"""
    w = World(r, r.choice(["large", "large", "small"]), maxl=1, maxh=2, extra=0)
    uni = w.universe(5)
    ops = [w.ctx(), client(r, w, "b", "the other"), server(r, w, "s", "cloud"), "auth b s", "auth s b", data(r, w, "b", w.some_set(uni, 2)), "send b s 0 = blind b"]
    for i, k in enumerate(ls):
        n, o = r.choice([1, 2, 3, 8, 12]), "a%d" % i
        bits = 8 * (k - n - 2)
        ops += ["client %s %s zz %d" % (o, hx(chr(97 + i) * n), r.getrandbits(bits) | 1 << bits - 1)]
        everyone(ops, [o, "b"])
        everyone(ops, [o, "s"])
        ops += [data(r, w, o, w.some_set(uni, 2)), "send %s s 0 = blind %s" % (o, o), "send %s b 1 = req %s" % (o, o)]
    return Case(name, ops)


LENGTHS = [15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096]


def keys(r, name, n, both=True):
    """runs whose keys have bytes that are often special"""
    w = World(r, r.choice(["large", "large", "small", "medium"]), maxl=1, maxh=2, extra=0)
    c = single(r, name, w)
    # the last byte, the first, those around the halves, and others
    some = [(0, "00"), (0, "0000"), (0, "ff"), (15, "80"), (15, "ff"), (14, "0080"), (13, "0000"), (7, "00"), (8, "00"), (7, "0000"), (r.randrange(1, 14), "0000"), (r.randrange(1, 15), "00"), (0, "01"), (0, "0a"), (0, "20"), (8, "ff"), (r.randrange(15), "ffff"), (13, "2f")]
    for p, x in r.sample(some, n):
        c.ops += ["keylike %d %d %s" % (r.getrandbits(60), p, x), r.choice(["send a b 1 = req a", "send b a 1 = req b"])]
    return c


def C02(ctx):
    r = ctx.rng
    ctx.model("GenProtocol", "MCProtocol.cfg" if not ctx.quick else "MCProtocolThree.cfg", workers=6, coverage=False)
    if not ctx.quick:
        ctx.model("GenProtocol", "MCProtocolThree.cfg", workers=6, coverage=False)
        ctx.model("GenProtocol", "MCProtocolJunk.cfg", workers=6, coverage=False)
    n, d = (14, 16) if ctx.quick else (90, 30)
    cases = histories(ctx, "GenProtocolAll.cfg", n, d, ["large", "small", "large"], "runs")
    cases += histories(ctx, "GenProtocol.cfg", n // 2, d, ["large", "small"], "worlds")
    # every order of requests among three clients
    for i in range(6 if ctx.quick else 40):
        w = World(r, r.choice(["large", "large", "small", "medium"]), maxl=2, maxh=2, extra=0)
        ns = names(r, 4)
        ops = [w.ctx()] + [client(r, w, o, ns[k]) for k, o in enumerate("abc")] + [server(r, w, "s", ns[3])]
        everyone(ops, "abcs")
        uni = w.universe(9)
        shared = w.some_set(uni, 2)
        for o in "abc":
            ops.append(data(r, w, o, w.some_set(uni, w.L * w.h, must=r.sample(shared, r.randrange(len(shared) + 1)))))
            ops.append("send %s s 0 = blind %s" % (o, o))
        prs = [(x, y) for x in "abc" for y in "abc" if x != y]
        r.shuffle(prs)
        for x, y in prs[:4] if ctx.quick else prs + prs[:2]:
            ops.append("send %s %s 1 = req %s" % (x, y, x))
            if r.random() < 0.3:
                z = r.choice("abc")
                ops.append("resend %s s 0 = blind %s" % (z, z))
        cases.append(Case("orders%d" % i, ops))
    for i in range(1 if ctx.quick else 4):
        cases[:0] = [large(r, "again%d" % i, r.choice([66, 80, 140]), r.choice([1, 2]), 5, 16, again=True)]
    # results that come and go: pairs with much, little and nothing in common, each asked again and again
    for i in range(8 if ctx.quick else 40):
        w = World(r, r.choice(["large", "large", "medium", "small"]), maxl=2, maxh=2, extra=0)
        ns = names(r, 4)
        ops = [w.ctx()] + [client(r, w, o, ns[k]) for k, o in enumerate("abc")] + [server(r, w, "s", ns[3])]
        everyone(ops, "abcs")
        sets = apart_sets(r, w)
        for o in "abc":
            ops += [data(r, w, o, sets[o]), "send %s s 0 = blind %s" % (o, o)]
        ops += ["send a b 1 = req a", "send a c 1 = req a", "send %s 1 = req %s" % r.choice([("a b", "a"), ("b a", "b")])]
        ops += ["send b c 1 = req b", "send b a 1 = req b"] if i % 2 else ["send c a 1 = req c", "send c b 1 = req c"]
        cases.append(Case("fading%d" % i, ops))
    # with oneself
    for i in range(3 if ctx.quick else 12):
        w = World(r, ["large", "small", "medium"][i % 3], maxl=2, maxh=2, extra=0)
        ns = names(r, 3)
        ops = [w.ctx()] + [client(r, w, o, ns[k]) for k, o in enumerate("ab")] + [server(r, w, "s", ns[2])]
        everyone(ops, "abs")
        a, b = w.pair()
        ops += ["auth a a", data(r, w, "a", a), data(r, w, "b", b), "send a s 0 = blind a", "send a a 1 = req a", "send b s 0 = blind b"]
        more = ["send a b 1 = req a", "send b a 1 = req b", "send a a 1 = req a", "auth b b", "send b b 1 = req b"]
        more.append("recv s 2 %s %s" % (hx(ns[0]), raw(ns[0].encode() + b"\0" + ns[0].encode() + b"\0" + bytes(range(9, 25)) + b"\0")))
        if i % 2:
            r.shuffle(more)
        ops += more + ["secret a %d" % secret(r, w.p), "resend a s 0 = blind a", "send a a 1 = req a"]
        cases.append(Case("oneself%d" % i, ops))
    # a cloud that serves one world after the other, with new clients under the names of the earlier ones
    for i in range(6 if ctx.quick else 30):
        ops, ns, w0 = [], names(r, 3), None
        for k in range(2 if ctx.quick else 3):
            while True:
                w = World(r, r.choice(["large", "large", "medium", "small"]), maxl=2, maxh=2, extra=r.choice([0, 1, 3]))
                # to another field, to another degree, or to any
                if w0 is None or (w.L, w.h) == (w0.L, w0.h) and (i % 3 == 2 or (w.D == w0.D and w.p != w0.p if i % 3 == 0 else w.p == w0.p and w.D != w0.D)):
                    break
            w0 = w
            ops += [w.ctx(), "move s" if k else server(r, w, "s", ns[2])]
            me = ["%s%d" % (o, k) for o in "ab"]
            ops += [client(r, w, o, n) for o, n in zip(me, r.sample(ns[:2], 2))]
            everyone(ops, me + ["s"])
            if k:
                ops.append("drop a%d b%d" % (k - 1, k - 1))
            a, b = w.pair()
            ops += [data(r, w, me[0], a), data(r, w, me[1], b)]
            ops += ["send %s s 0 = blind %s" % (o, o) for o in me]
            ops += ["send %s %s 1 = req %s" % (me[0], me[1], me[0])]
            if r.random() < 0.5:
                ops.append("send %s %s 1 = req %s" % (me[1], me[0], me[1]))
        cases.append(Case("moved%d" % i, ops))
    cases += [crowd(r, "crowd%d" % i, 9 if ctx.quick else r.choice([8, 12, 16]), 14 if ctx.quick else 40) for i in range(2 if ctx.quick else 8)]
    cases += [crowd(r, "crowds%d" % i, r.choice([18, 20]) if ctx.quick else r.choice([20, 34]), 10) for i in range(1 if ctx.quick else 3)]
    cases += [keys(r, "key%d" % i, 9) for i in range(3 if ctx.quick else 12)]
    ls = r.sample(LENGTHS, len(LENGTHS))
    cases += [lengths(r, "lengths%d" % i, ls[i::3]) for i in range(3)]
    cases += [crowd(r, "long%d" % i, 3, 30 if ctx.quick else 120) for i in range(1 if ctx.quick else 6)]
    ctx.conform("proto", "TraceProtocol", cases, need=("Data", "In", "Out", "Look", "Secret", "Move", "Drop"))
    return "model_checking", NOTE


def stage(r, w, extra=()):
    """a, b and the cloud s know each other and have outsourced; f is known but has no data; e and v are unknown; s2 has the name of s... """
    ops = [w.ctx()]
    nm = {o: n for o, n in zip("abefsv", names(r, 6))}
    for o in "abef":
        ops.append(client(r, w, o, nm[o]))
    ops += ["server s " + hx(nm["s"]), "server v " + hx(nm["v"])]
    everyone(ops, "absf")
    # e and v know everybody, nobody knows them
    for o in "ev":
        for x in "abs":
            ops.append("auth %s %s" % (o, x))
    a, b = w.pair()
    ops += [data(r, w, "a", a), data(r, w, "b", b), "send a s 0 = blind a", "send b s 0 = blind b"]
    return ops, nm


def fitting(r, w, nm, typ, frm, to):
    """content that an honest sender would use"""
    if typ == 0:
        return "blind " + (frm if frm in "ab" else r.choice("ab"))
    if typ == 1:
        return raw(nm.get(frm, "nobody").encode() + b"\0" + b"\x05\x06" + b"\0")
    if typ == 2:
        return raw(nm.get(frm, "nobody").encode() + b"\0" + nm[r.choice("ab")].encode() + b"\0" + bytes(r.randrange(256) for _ in range(16)) + b"\0")
    return "half %d" % r.randrange(1, 10 ** 6)


HONEST = ["send a b 1 = req a", "send b a 1 = req b"]


def near(r, name):
    """names that are nearly this one"""
    x = {name[:k] for k in range(len(name)) if len(name) < 60 or k < 9 or k + 9 > len(name) or k % 64 in (0, 1, 63) or r.random() < 20 / len(name)} | {name + c for c in ("x", " ", "\xff", name[-1:] or "a")} | {name.swapcase(), " " + name, name[1:], name[::-1], name + name, name.lower(), name.upper()}
    return sorted(x - {name})


def near_misses(r, k, clouds=True):
    """messages under, and requests that name inside, names that are nearly those of the parties"""
    w = World(r, "large", maxl=1, maxh=1, extra=0)
    ops, nm = stage(r, w)
    taken = {nm[x] for x in "absf"}
    key = bytes(range(1, 17)) + b"\0"
    todo = []
    enc = lambda s: s.encode()
    for f in "ab":
        o = "ba"["ab".index(f)]
        for x in near(r, nm[f]):
            # a request to the cloud and one to a client, whole but for the name inside
            todo.append("recv s 2 %s %s" % (hx(nm[f]), raw(enc(x) + b"\0" + enc(nm[o]) + b"\0" + key)))
            todo.append("recv %s 1 %s %s" % (o, hx(nm[f]), raw(enc(x) + b"\0\x05\x06\0")))
            if x not in taken:
                # its partner is nearly a party
                todo.append("recv s 2 %s %s" % (hx(nm[o]), raw(enc(nm[o]) + b"\0" + enc(x) + b"\0" + key)))
                # from nearly a party
                todo.append("recv s 0 %s blind %s" % (hx(x), f))
                todo.append("recv s 2 %s %s" % (hx(x), raw(enc(x) + b"\0" + enc(nm[o]) + b"\0" + key)))
                todo.append("recv s 2 %s %s" % (hx(x), raw(enc(nm[f]) + b"\0" + enc(nm[o]) + b"\0" + key)))
                todo.append("recv %s 1 %s %s" % (o, hx(x), raw(enc(x) + b"\0\x05\x06\0")))
                todo.append("recv %s 4 %s half 3" % (o, hx(x)))
                todo.append("knows s %s" % hx(x))
                todo.append("ask %s %d %s x" % (r.choice([o, "s"]), r.randrange(5), hx(x)))
    for x in near(r, nm["s"]):
        if x not in taken:
            todo.append("recv a 3 %s half 5" % hx(x))
            todo.append("ask a 3 %s x" % hx(x))
    r.shuffle(todo)
    return Case("near%d" % k, ops + todo + HONEST)


def long_names(r, name, n):
    """clients and clouds with names of many lengths, and messages under those names with more behind"""
    w = World(r, "large", maxl=1, maxh=1, extra=0)
    base = "".join(r.choice("abcdefgh") for _ in range(300))
    ls = sorted({7, 8, 15, 16, 31, 32} | set(r.sample(range(1, 40), n))) + r.sample([48, 63, 64, 100, 127, 128, 255, 256], 3)
    cs, nm = ["c%d" % k for k in range(len(ls))], {}
    ops = [w.ctx(), client(r, w, "a", "me"), server(r, w, "s", "cloud"), data(r, w, "a", w.some_set(w.universe(3), 1))]
    for c, k in zip(cs, ls):
        nm[c] = base[:k]
        ops.append(client(r, w, c, nm[c]) if k % 5 else server(r, w, c, nm[c]))
        ops += ["auth a " + c, "auth s " + c]
    for c, k in zip(cs, ls):
        x = nm[c] + r.choice("zyx") * r.choice([1, 1, 2, 8, 16])
        o = r.choice("as")
        ops += ["knows %s %s" % (o, hx(x)), "knows %s %s" % (o, hx(nm[c]))]
        ops.append("ask %s %d %s x" % (o, (0 if o == "s" else 4) if k % 5 else 3, hx(x)))
        ops.append("recv s 0 %s blind a" % hx(x) if o == "s" else "recv a %d %s half 7" % (4 if k % 5 else 3, hx(x)))
    return Case(name, ops)


def C03(ctx):
    r = ctx.rng
    ctx.model("GenProtocol", "MCProtocolAuth.cfg", workers=6, coverage=False)
    if not ctx.quick:
        ctx.model("GenProtocol", "MCProtocolJunk.cfg", workers=6, coverage=False)
        ctx.model("GenProtocol", "MCProtocolTwin.cfg", workers=6, coverage=False)
        ctx.model("GenProtocol", "MCProtocolStray.cfg", workers=6, coverage=False)
    cases = []
    for i in range(1 if ctx.quick else 5):
        for to in "abs":
            # every kind of message from every kind of sender; what would be served and end the history comes last
            w = World(r, "large", maxl=2, maxh=1, extra=0)
            ops, nm = stage(r, w)
            todo = [(t, f, c) for t in (0, 1, 2, 3, 4, 5, -1, 255) for f in "abefsv?" for c in ("fit", "null", "fit2")]
            r.shuffle(todo)
            late = []
            waits = dict(a=[4, 3], b=[3, 4], s=[0, 0])[to][i % 2]
            if waits:      # for the other half, most of the time
                ops.append("recv %s %d %s half %d" % (to, waits, hx(nm["s" if waits == 3 else "b" if to == "a" else "a"]), r.randrange(1, 10 ** 6)))
            for t, f, c in todo:
                name = nm.get(f, "nobody")
                known = f in "abfs" and f != to
                kind = "server" if f in "sv" else "client"
                if known and c != "null" and ((to != "s" and ((t in (1, 4) and kind == "client") or (t == 3 and kind == "server"))) or (to == "s" and t == 0)):
                    late.append((t, f, c))
                    continue
                x = "null" if c == "null" else fitting(r, w, nm, t if c == "fit" else r.choice([0, 1, 2, 3]), f, to)
                if to == "s" and t == 2 and known and kind == "client" and c == "fit2":
                    x = fitting(r, w, nm, 2, r.choice("abefsv"), to)       # names another requester inside
                if c == "null" or r.random() < 0.5:
                    ops.append("ask %s %d %s %s" % (to, t, hx(name), "null" if c == "null" else "x"))
                if r.random() < 0.5 or f == "?":
                    ops.append("recv %s %d %s %s" % (to, t, hx(name), x))
                else:
                    ops.append("send %s %s %d = %s" % (f, to, t, x))
            ops += HONEST
            # what is served changes what it should
            fatal = []
            for t, f, c in late:
                if t == 1:
                    fatal.append("recv %s 1 %s %s" % (to, hx(nm[f]), fitting(r, w, nm, 1, f if c == "fit" else r.choice("abef"), to)))
                elif t == 0:
                    ops.append("recv %s 0 %s blind %s" % (to, hx(nm[f]), r.choice("ab")))
                else:
                    ops.append("recv %s %d %s half %d" % (to, t, hx(nm[f]), len(ops)))
            ops.append("send a b 1 = req a")
            r.shuffle(fatal)
            ops += ["send a b 1 = req a"] + fatal
            cases.append(Case("all-%s%d" % (to, i), ops))
    # every relation between two clients and a cloud, honest messages only
    rel = list(range(64))
    r.shuffle(rel)
    pairs = [(x, y) for x in "abs" for y in "abs" if x != y]
    for k in rel if not ctx.quick else rel[:24]:
        w = World(r, "large", maxl=1, maxh=1, extra=0)
        ns = names(r, 3)
        ops = [w.ctx(), client(r, w, "a", ns[0]), client(r, w, "b", ns[1]), server(r, w, "s", ns[2])]
        for j, (x, y) in enumerate(pairs):
            if k >> j & 1:
                ops.append("auth %s %s" % (x, y))
        a, b = w.pair()
        ops += [data(r, w, "a", a), data(r, w, "b", b)]
        for x, y in pairs:
            ops.append("knowsp %s %s" % (x, y))
            for t in range(5):
                ops.append("ask %s %d %s x" % (x, t, hx(dict(zip("abs", ns))[y])))
        ops += ["send a s 0 = blind a", "send b s 0 = blind b", "asknull a", "asknull s", "sendnull a s", "send a b 1 = req a", "send b a 1 = req b"]
        cases.append(Case("rel%d" % k, ops))
    # names: renamed, twins, the empty one, prefixes
    for i in range(6 if ctx.quick else 30):
        w = World(r, "large", maxl=1, maxh=1, extra=0)
        n1, n2, n3 = r.choice([("a", "ab", "abc"), ("", "a", "b"), ("x", "x ", " x"), ("A", "a", "S")])
        ops = [w.ctx(), client(r, w, "a", n1), client(r, w, "b", n2), client(r, w, "x", n1), server(r, w, "s", n3)]
        everyone(ops, "abs")
        a, b = w.pair()
        ops += [data(r, w, "a", a), data(r, w, "b", b), data(r, w, "x", w.pair()[0]), "send a s 0 = blind a", "send b s 0 = blind b"] + HONEST
        some = ["auth s x", "auth b x", "auth x s", "auth x b", "auth x a", "send x s 0 = blind x", "setid a " + hx("new"), "setid x " + hx("other"), "setid x " + hx(n1), "auth b a", "auth s a", "setid a " + hx(n1),
                "recv s 0 %s blind b" % hx("new"), "recv s 0 %s blind b" % hx("other"), "setid s " + hx("c"), "setid s " + hx(n3), "recv b 1 %s %s" % (hx(n1 + n1 or "-"), raw(b"q\0\1\0")),
                "recv b 1 %s %s" % (hx(n1), raw(n1.encode() + b"\0")), "recv b 4 %s half %d" % (hx(n2), i + 3)]
        r.shuffle(some)
        ops += some[:10] + ["send a b 1 = req a", "send x b 1 = req x"]
        cases.append(Case("names%d" % i, ops))
    cases += [near_misses(r, k) for k in range(4 if ctx.quick else 20)]
    cases += [long_names(r, "lengths%d" % i, 14) for i in range(1 if ctx.quick else 6)]
    cases += [acquainted(r, "acquainted%d" % i, r.choice([6, 9, 18, 20]) if ctx.quick else r.choice([6, 10, 18, 20, 34])) for i in range(3 if ctx.quick else 12)]
    n, d = (10, 14) if ctx.quick else (80, 30)
    cases += histories(ctx, "GenProtocol.cfg", n, d, ["large"], "worlds")
    ctx.conform("proto", "TraceProtocol", cases, need=("Data", "In", "Out", "Look", "Ask", "Knows"))
    return "model_checking", NOTE


def critical(r, text, top):
    """lengths to cut a text at: all of them, or of a long one those around its zeros and its ends, and some"""
    near = {i + d for i in [0, top - 1] + [k for k, x in enumerate(text) if x == 0] for d in range(-3, 22)}
    return [n for n in range(top) if top < 120 or n in near or r.random() < 60 / top]


def C04(ctx):
    r = ctx.rng
    ctx.model("GenProtocol", "MCProtocolAuth.cfg", workers=6, coverage=False)
    if not ctx.quick:
        ctx.model("GenProtocol", "MCProtocolJunk.cfg", workers=6, coverage=False)
    cases = []
    key = bytes(range(1, 17))
    for i in range(3 if ctx.quick else 20):
        # cloud requests of every length, with and without more behind it
        w = World(r, "large", maxl=1, maxh=1, extra=0)
        ops, nm = stage(r, w)
        for f, g in (("a", "b"), ("b", "a"), ("a", "a")):
            full = nm[f].encode() + b"\0" + nm[g].encode() + b"\0" + key
            for n in critical(r, full, len(full) + 1):
                ops.append("recv s 2 %s %s" % (hx(nm[f]), raw(full[:n] or b"z", n)))
                ops.append("recv s 2 %s %s" % (hx(nm[f]), raw(full + b"\0", n)))
        ops += HONEST
        cases.append(Case("cloudlen%d" % i, ops))
        # client requests of every length
        w = World(r, "large", maxl=1, maxh=1, extra=0)
        ops, nm = stage(r, w)
        for f in "ab":
            full = nm[f].encode() + b"\0" + b"\x05\0\x07" + b"\0"
            for n in critical(r, full, len(nm[f]) + 2):
                ops.append("recv %s 1 %s %s" % ("ba"["ab".index(f)], hx(nm[f]), raw(full[:n] or b"z", n)))
                ops.append("recv %s 1 %s %s" % ("ba"["ab".index(f)], hx(nm[f]), raw(full, n)))
            ops.append("recv %s 1 %s null" % ("ba"["ab".index(f)], hx(nm[f])))
            ops.append("recv %s 1 %s null 100" % ("ba"["ab".index(f)], hx(nm[f])))
        ops += HONEST
        for n in range(len(nm["a"]) + 2, len(nm["a"]) + 5):
            full = nm["a"].encode() + b"\0" + b"\x05\0\x07" + b"\0"
            ops.append("recv b 1 %s %s" % (hx(nm["a"]), raw(full[:n], n)))
        cases.append(Case("clientlen%d" % i, ops))
        # partners and requesters that can not be served
        w = World(r, "large", maxl=1, maxh=1, extra=0)
        ops, nm = stage(r, w)
        nm["?"] = "nobody"
        nm["-"] = ""
        todo = [(f, g) for f in "abf" for g in "abefsv?-" if not (f in "ab" and g in "ab")]
        r.shuffle(todo)
        for f, g in todo:
            ops.append("recv s 2 %s %s" % (hx(nm[f]), raw(nm[f].encode() + b"\0" + nm[g].encode() + b"\0" + key + b"\0")))
        for junk in (b"\0" * 40, b"\xff" * 40, b"\0", b"\xff", nm["a"].encode() * 9, bytes(r.randrange(1, 256) for _ in range(200))):
            ops.append("recv s 2 %s %s" % (hx(nm["a"]), raw(junk)))
            ops.append("recv b 1 %s %s" % (hx(nm["a"]), raw(junk)))
        for t in range(5):
            for to in "abs":
                for f in "abs":
                    ops.append("recv %s %d %s %s" % (to, t, hx(nm[f]), r.choice(["null", "null 0", "null 1", "null 4096"])))
        ops += HONEST
        cases.append(Case("partners%d" % i, ops))
    cases += [near_misses(r, k) for k in range(2 if ctx.quick else 12)]
    # the store grows client by client; in between all pairs are asked for, also of a client with itself
    for i in range(4 if ctx.quick else 20):
        w = World(r, r.choice(["large", "small"]), maxl=1, maxh=1, extra=0)
        k = 4 if i % 2 else r.choice([6, 7, 10, 11, 18, 19])
        cl = "abcdefghijklmnopqrtuvwxyz"[:k]
        ns = names(r, 5)
        ns = ns[:4] + ["client %d" % j for j in range(4, k)] + ns[4:]
        ops = [w.ctx()] + [client(r, w, o, ns[j]) for j, o in enumerate(cl)] + [server(r, w, "s", ns[k])]
        everyone(ops, cl + "s")
        uni = w.universe(5)
        ops += [data(r, w, o, w.some_set(uni, 1)) for o in cl]
        there = set()
        for o in ["", *r.sample(cl, k)]:
            if o:
                ops.append("send %s s 0 = blind %s" % (o, o))
                there.add(o)
            # all pairs of the first four; of more, a few that lack one
            prs = [(x, y) for x in range(4) for y in range(4)] if k == 4 else [(x, y) for x in range(k) for y in range(k) if (cl[x] in there) + (cl[y] in there) == 1]
            r.shuffle(prs)
            ops += ["recv s 2 %s %s" % (hx(ns[x]), raw(ns[x].encode() + b"\0" + ns[y].encode() + b"\0" + key + b"\0")) for x, y in (prs if k == 4 else prs[:6])]
        ops += ["send a b 1 = req a", "send c d 1 = req c", "send b b 1 = req b", "send d a 1 = req d"]
        cases.append(Case("stores%d" % i, ops))
    # halves for a client that has no set (yet), and one that came back without it
    for i in range(3 if ctx.quick else 12):
        w = World(r, ["large", "small", "medium"][i % 3], maxl=2, maxh=2, extra=0)
        ops, nm = stage(r, w)
        hs = ["recv f 3 %s half 4" % hx(nm["s"]), "recv f 4 %s half 5" % hx(nm["a"]), "recv f 4 %s half 4" % hx(nm["b"])]
        r.shuffle(hs)
        ops += hs[:r.choice([1, 2, 3])] + HONEST[:1]
        ops += [data(r, w, "f", w.pair()[0]), "send f s 0 = blind f", "send f %s 1 = req f" % r.choice("ab")] + HONEST[:1]
        cases.append(Case("later%d" % i, ops))
        ops, nm = stage(r, w)
        ops += HONEST[i % 2:] + [client(r, w, "x", nm["a"])] + ["auth %s x" % o for o in "bsf"] + ["auth x %s" % o for o in "bsf"]
        ops += [["recv x 3 %s oldt 0" % hx(nm["s"]), "recv x 4 %s oldq 0" % hx(nm["b"]), "send b x 1 = req b", "send x b 1 = req x"], ["send x b 1 = req x"],
                ["recv x 4 %s oldq 0" % hx(nm["b"]), data(r, w, "x", w.pair()[0]), "send x s 0 = blind x", "send x b 1 = req x"]][i % 3]
        cases.append(Case("back%d" % i, ops))
    # asked without any cloud, with one that refuses for each reason
    why = ["none", "unknown to the cloud", "requester unknown to the cloud", "not outsourced", "requester not outsourced", "nobody outsourced", "only a third outsourced", "t refused", "q refused", "two clouds", "short", "wrong name"]
    for i in range(1 if ctx.quick else 6):
        for x in why:
            w = World(r, r.choice(["large", "small"]), maxl=2, maxh=2, extra=0)
            ns = names(r, 4)
            ops = [w.ctx(), client(r, w, "a", ns[0]), client(r, w, "b", ns[1]), server(r, w, "s", ns[2]), server(r, w, "u", ns[3])]
            au = [(p, q) for p in "abs" for q in "abs" if p != q]
            drop = {"none": [("b", "s")], "unknown to the cloud": [("s", "b")], "requester unknown to the cloud": [("s", "a")], "t refused": [("a", "s")], "q refused": [("a", "b")]}.get(x, [])
            ops += ["auth %s %s" % q for q in au if q not in drop]
            a, b = w.pair()
            ops += [data(r, w, "a", a), data(r, w, "b", b)]
            if x not in ("not outsourced", "nobody outsourced", "only a third outsourced"):
                ops.append("send b s 0 = blind b")
            if x not in ("requester not outsourced", "nobody outsourced", "only a third outsourced"):
                ops.append("send a s 0 = blind a")
            if x == "only a third outsourced":
                ops += [client(r, w, "c", "third"), data(r, w, "c", w.pair()[0]), "auth s c", "auth c s", "send c s 0 = blind c"]
            if x == "two clouds":
                ops += ["auth b u", "auth u b"]
            if x == "short":
                ops.append("recv b 1 %s %s" % (hx(ns[0]), raw(ns[0].encode() + b"\0")))
            if x == "wrong name":
                ops.append("recv b 1 %s %s" % (hx(ns[0]), raw(ns[1].encode() + b"\0\5\0")))
            ops += ["send a b 1 = req a", "send b a 1 = req b", "send a b 1 = req a"]
            cases.append(Case("why-%s%d" % (x.replace(" ", "-"), i), ops))
    # too many elements, data put twice
    for i in range(2 if ctx.quick else 12):
        w = World(r, "large", maxl=2, maxh=2, extra=0, alg="sha1")
        els = w.universe(200)[:w.L * w.h + 1]
        cases.append(Case("full%d" % i, [w.ctx(), client(r, w, "a"), data(r, w, "a", els)]))
        a, b = w.pair()
        cases.append(Case("twice%d" % i, [w.ctx(), client(r, w, "a"), data(r, w, "a", a), "data a %d x" % w.bits, data(r, w, "a", b)]))
    n, d = (6, 14) if ctx.quick else (60, 24)
    cases += histories(ctx, "GenProtocol.cfg", n, d, ["large"], "worlds")
    ctx.conform("proto", "TraceProtocol", cases, need=("Data", "In", "Out", "Look"))
    return "model_checking", NOTE


def C05(ctx):
    r = ctx.rng
    ctx.model("GenProtocol", "MCProtocolTwo.cfg", workers=6, coverage=False)
    if not ctx.quick:
        ctx.model("GenProtocol", "MCProtocolThree.cfg", workers=6, coverage=False)
        ctx.model("GenProtocol", "MCProtocol.cfg", workers=6, coverage=False)
    cases = []
    for i in range(14 if ctx.quick else 90):
        # two clouds; what is outsourced changes under the same names, and requests tell what is kept
        w = World(r, r.choice(["large", "large", "small", "medium"]), maxl=2, maxh=2, extra=0)
        ns = names(r, 6)
        ops = [w.ctx()] + [client(r, w, o, n) for o, n in zip("abcd", ns)] + [server(r, w, "s", ns[4]), server(r, w, "u", ns[5])]
        nm = dict(zip("abcdsu", ns))
        # a, b delegate to s; c, d to u; the clouds and all clients know each other otherwise
        for x in "abcd":
            for y in "abcd":
                if x != y:
                    ops.append("auth %s %s" % (x, y))
            ops.append("auth s " + x)
            ops.append("auth u " + x)
        for x, y in (("a", "s"), ("b", "s"), ("c", "u"), ("d", "u")):
            ops.append("auth %s %s" % (x, y))
        uni = w.universe(12)
        shared = w.some_set(uni, 2)
        for o in "abcd":
            ops.append(data(r, w, o, w.some_set(uni, w.L * w.h, must=r.sample(shared, r.randrange(len(shared) + 1)))))
        for s in "su":
            for o in "abcd":
                ops.append("%s %s %s 0 = blind %s" % (r.choice(["send", "resend"]), o, s, o))
        for k in range(7 if ctx.quick else 14):
            q = r.random()
            if q < 0.45:
                x, y = r.choice([("a", "b"), ("b", "a"), ("c", "d"), ("d", "c")])
                ops.append("send %s %s 1 = req %s" % (x, y, x))
            elif q < 0.65:      # one client's data under its own name again
                o = r.choice("abcd")
                ops.append("%s %s %s 0 = blind %s" % (r.choice(["send", "resend"]), o, r.choice("su"), o))
            elif q < 0.8:       # other data under a name
                ops.append("recv %s 0 %s blind %s" % (r.choice("su"), hx(nm[r.choice("abcd")]), r.choice("abcd")))
            elif q < 0.9:       # refused
                ops.append("recv %s 0 %s %s" % (r.choice("su"), hx(r.choice(["nobody", nm["s"], nm["u"]])), "blind " + r.choice("abcd")))
            else:
                ops.append("recv %s 0 %s null" % (r.choice("su"), hx(nm[r.choice("abcd")])))
        ops += ["send a b 1 = req a", "send d c 1 = req d"]
        cases.append(Case("clouds%d" % i, ops))
    cases += [crowd(r, "crowd%d" % i, r.choice([8, 10]) if ctx.quick else r.choice([10, 16, 24]), 8 if ctx.quick else 20, clouds=r.choice([2, 3])) for i in range(2 if ctx.quick else 8)]
    cases += [crowd(r, "crowds%d" % i, r.choice([18, 20, 34]) if ctx.quick else r.choice([20, 34, 70]), 6 if ctx.quick else 20) for i in range(1 if ctx.quick else 4)]
    n, d = (8, 14) if ctx.quick else (60, 28)
    cases += histories(ctx, "GenProtocol.cfg", n, d, ["large", "small"], "worlds")
    ctx.conform("proto", "TraceProtocol", cases, need=("Data", "In", "Out", "Look"))
    return "model_checking", NOTE


def C06(ctx):
    r = ctx.rng
    ctx.model("LayoutTheorem", workers=2, coverage=False)
    cases = []
    for i in range(60 if ctx.quick else 500):
        kind = ["small", "medium", "large", "large", "large", "huge"][i % 6]
        w = World(r, kind, maxl=r.choice([2, 3, 6]) if kind != "huge" else 1, maxh=r.choice([2, 3, 5]) if kind != "huge" else 2)
        if kind == "huge":
            w.D = r.choice([1, 2, 3])
        elif r.random() < 0.3:
            w.D = r.choice([1, 2, r.randrange(1, 9)])      # any number of points
        ops = [w.ctx()]
        a, b = w.pair()
        ns = names(r, 2)
        k = r.random()
        ops.append(client(r, w, "a", ns[0]))
        ops.append("data a %d x" % w.bits)
        ops.append(data(r, w, "a", a))
        if k < 0.5:      # another client, of the same or another secret
            ops.append(client(r, w, "b", ns[1]))
            if k < 0.2:
                ops.append("secret a %d" % secret(r, w.p))
                ops.append("secret b %d" % secret(r, w.p))
            ops.append(data(r, w, "b", b))
        cases.append(Case("data%d" % i, ops))
    for i in range(1 if ctx.quick else 6):
        cases[:0] = [large(r, "buckets%d" % i, r.choice([65, 130, 257, 400]), r.choice([1, 2]), 5, 24, send=False), large(r, "points%d" % i, 3, 2, r.choice([201, 257, 300]), 5, send=False),
                     large(r, "load%d" % i, 2, r.choice([65, 70, 129]), 7, 50, send=False),
                     large(r, "entries%d" % i, r.choice([520, 600]), 2, r.choice([127, 130]), 30, send=False), large(r, "positions%d" % i, r.choice([1400, 5000, 22000]), 1, 3, 20, send=False)]
    cases += round_(r, "round", ctx.quick, send=False) + patterned(r, ctx.quick, send=False)
    ctx.conform("proto", "TraceProtocol", cases, need=("Data",))
    return "model_checking", NOTE


def C07(ctx):
    r = ctx.rng
    ctx.model("LayoutTheorem", workers=2, coverage=False)
    ctx.model("ProtoTheorem", "ProtoTheoremQ.cfg" if ctx.quick else "ProtoTheorem.cfg", workers=6, coverage=False)
    if not ctx.quick:
        ctx.model("GenProtocol", "MCProtocolThree.cfg", workers=6, coverage=False)
        ctx.model("GenProtocol", "MCProtocolTwo.cfg", workers=6, coverage=False)
    cases = []
    for i in range(40 if ctx.quick else 300):
        w = World(r, ["large", "medium", "large", "small"][i % 4], maxl=3, maxh=2 + (i % 7 == 0), extra=r.choice([0, 1, 3]))
        c = single(r, "run%d" % i, w, both=i % 2 == 0)
        c.ops.append("send a b 1 = req a")
        cases.append(c)
    # many keys
    for i in range(8 if ctx.quick else 16):
        w = World(r, "small", maxl=1, maxh=1, extra=0)
        c = single(r, "keys%d" % i, w)
        c.ops += ["send a b 1 = req a", "send b a 1 = req b"] * (4 if ctx.quick else 15)
        cases.append(c)
    for i in range(1 if ctx.quick else 4):
        cases[:0] = [large(r, "buckets%d" % i, r.choice([65, 70, 130, 300]), r.choice([1, 2]), 5, 16, again=True), large(r, "points%d" % i, 3, 2, r.choice([129, 201, 257]), 5, again=True),
                     large(r, "load%d" % i, 2, *r.choice([(65, 131), (70, 145), (80, 161)]), 30, again=True), large(r, "positions%d" % i, r.choice([1500, 12000, 22000]), 1, 3, 20)]
    cases += round_(r, "round", ctx.quick, again=True)
    cases += [keys(r, "key%d" % i, 6) for i in range(4 if ctx.quick else 16)]
    cases += [lengths(r, "lengths%d" % i, [256, 512] if i % 2 else r.sample(LENGTHS, 6)) for i in range(2 if ctx.quick else 6)]
    # several clouds, of which the delegate takes one
    for i in range(6 if ctx.quick else 30):
        w = World(r, r.choice(["large", "large", "small"]), maxl=2, maxh=1, extra=0)
        k = r.choice([2, 2, 3])
        os_ = ["a", "b", "c"] + ["s%d" % j for j in range(k)]
        ns = names(r, len(os_))
        if i % 2:
            ns = sorted(ns, key=lambda x: (x[:1] != "", x))
        ops = [w.ctx()] + [server(r, w, o, x) if o[0] == "s" else client(r, w, o, x) for o, x in zip(os_, ns)]
        everyone(ops, os_)
        uni = w.universe(7)
        for o in "abc":
            ops.append(data(r, w, o, w.some_set(uni, 2)))
        ops += ["send %s s%d 0 = blind %s" % (o, j, o) for o in "abc" for j in range(k)]
        prs = [(x, y) for x in "abc" for y in "abc" if x != y]
        ops += ["send %s %s 1 = req %s" % (x, y, x) for x, y in r.sample(prs, 3)]
        cases.append(Case("clouds%d" % i, ops))
    cases += histories(ctx, "GenProtocolAll.cfg", 4 if ctx.quick else 40, 12 if ctx.quick else 24, ["large"], "runs")
    ctx.conform("proto", "TraceProtocol", cases, need=("Data", "In", "Out", "Look"))
    return "model_checking", NOTE


def C19(ctx):
    r = ctx.rng
    ctx.model("GenParties", "MCParties.cfg", workers=6, coverage=False)
    cases = []
    n, d = (150, 40) if ctx.quick else (800, 70)
    word = lambda: r.choice([0, 1, 7, 8, 9, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1, r.getrandbits(64)])
    for i, h in enumerate(ctx.behaviours("GenParties", n, d, cfg="GenParties.cfg")):
        ids = [hx(x) for x in names(r, 4)] + ["-"] + [hx(r.choice(["a\0b", "\0", "x" * 300, "y" * 65 + "\0z", "w" * 1030, "v" * 256]))]
        pick = r.sample(ids, 4)
        fields = [r.choice([2, 3, 13, 1000003, (1 << 61) - 1, (1 << 127) - 1, (1 << 521) - 1, 0, 1, 4, 1 << 100, (1 << 1279) - 1, (1 << 2203) - 1, (1 << 5000) + 1]) for _ in range(4)]
        ops = ["askfor " + x for x in ids]
        for o in h:
            op = o["op"]
            dat = lambda v: "null" if v == 0 else str(r.choice([v, v, r.randrange(64)]))
            typ = lambda v: r.choice([v, 0, 1, 2, 3, 4, 5, 6, 255])
            if op == "mnew":
                x = ["mnew m%d" % o["m"], dat(o["d"]), str(word()), str(typ(o["t"]))]
                ops.append(" ".join(x[:r.choice([1, 2, 3, 4, 4, 4])]))
            elif op == "mcopy":
                ops.append("mcopy m%d m%d" % (o["m"], o["x"]))
            elif op == "mid":
                ops.append("mid m%d %s" % (o["m"], pick[o["v"]]))
            elif op == "mtype":
                ops.append("mtype m%d %d" % (o["m"], typ(o["v"])))
            elif op == "mdata":
                ops.append("mdata m%d %s%s" % (o["m"], dat(o["d"]), r.choice(["", " %d" % word(), " %d" % word()])))
            elif op == "pnew":
                ops.append("pnew %s %s %d %s %d %d" % (o["o"], r.choice(["client", "server", "stub", "stub"]), r.choice([0, 1, 2]), pick[o["i"]], r.choice(fields[:1] + [1000003]) or 3, word()))
            elif op == "pid":
                ops.append("pset %s id %s" % (o["o"], pick[o["v"]]))
            elif op == "pkind":
                ops.append("pset %s kind %d" % (o["o"], r.choice([o["v"], 0, 1, 2])))
            elif op == "pfield":
                ops.append("pset %s field %d" % (o["o"], fields[o["v"]]))
            elif op == "pdegree":
                ops.append("pset %s degree %d" % (o["o"], word()))
            elif op == "auth":
                ops.append("auth %s %s" % (o["o"], o["s"]))
            elif op == "send":
                ops.append("send %s %s %s%s" % (o["o"], o["s"], "null" if o["m"] == 0 else "m%d" % o["m"], " no-%d" % r.randrange(99) if o["r"] == "refused" and o["m"] else ""))
        cases.append(Case("life%d" % i, ops))
    # parties who know many others, while their values change
    for i in range(6 if ctx.quick else 30):
        k = r.choice([4, 6, 9, 17, 18]) if i else 34
        ids = [hx(x) for x in names(r, 5)] + [hx("id %d" % j) for j in range(k)]
        ids = list(dict.fromkeys(ids))[:k]
        r.shuffle(ids)
        ops = ["askfor " + x for x in ids]
        for j, x in enumerate(ids):
            ops.append("pnew p%d %s %d %s %d %d" % (j, r.choice(["client", "server", "stub", "stub"]), r.randrange(3), x, r.choice([13, 1000003, (1 << 61) - 1]), r.randrange(9)))
        for o in ("p0", "p%d" % (k - 1), "p%d" % (k // 2)):
            others = ["p%d" % j for j in range(k) if "p%d" % j != o]
            r.shuffle(others)
            for x in others[:r.choice([k, k, 2, 3])]:
                ops.append("auth %s %s" % (o, x))
            for what in r.sample(["kind 0", "kind 1", "kind 2", "field 1000003", "degree 7", "id " + hx("another"), "id -"], 4):
                ops.append("pset %s %s" % (o, what))
                if r.random() < 0.5:
                    x = r.choice(others)
                    ops += [r.choice(["auth %s %s" % (x, o), "auth %s %s" % (o, x), "pset %s kind %d" % (x, r.randrange(3)), "pset %s field 13" % x])]
        cases.append(Case("many%d" % i, ops))
    ctx.conform("party", "TraceParties", cases, need=("MNew", "MCopy", "MId", "MType", "MData", "PNew", "PSet", "Auth", "Send"))
    return "model_checking", ["contents of messages are addresses; what they point to is decided by the protocol's properties",
                              "two parties of one identity are the same one to those who recognise parties by it"]
