"""C10, C11: the pseudo-random generators."""
from lib import Case
import rare

NOTE = ["the exact SHA-1, number and field layers of the specification (spec/SHA.tla, BigNum.tla, Field.tla, PRF.tla) are the oracle",
        "seeds, positions and lengths are drawn from edge values and at random: not exhaustive over 2^64 positions",
        "requests of length zero are out of scope (the code documents no meaning for them)"]


def seed_pool(r):
    edge = [0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1, 1 << 64,
            (1 << 64) + 1, 1 << 96, (1 << 128) - 1, 1 << 159, (1 << 160) - 1, 1 << 160, 1 << 255, (1 << 256) + 12345]
    k = r.random()
    if k < 0.45:
        return r.choice(edge)
    if k < 0.9:
        return r.getrandbits(r.choice([8, 16, 24, 31, 40, 56, 63, 64, 65, 72, 100, 128, 160, 161, 192, 256, 300, 512]))
    return r.getrandbits(r.choice([700, 1000, 2000, 3000])) | 1


def pos_pool(r):
    edge = [0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 63) - 1,
            1 << 63, (1 << 64) - 2, (1 << 64) - 1]
    return r.choice(edge) if r.random() < 0.6 else r.getrandbits(r.choice([4, 10, 20, 33, 50, 64]))


def len_pool(r):
    edge = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 152, 153, 159, 160, 161, 167, 168, 169, 319, 320, 321, 480, 481]
    k = r.random()
    if k < 0.55:
        return r.choice(edge)
    if k < 0.95:
        return r.randrange(1, 340)
    return r.choice([640, 641, 1000, 1281, 2048])


def distinct(f, r, n):
    s = []
    while len(s) < n:
        x = f(r)
        if x not in s:
            s.append(x)
    return s


PRIMES = [2, 3, 5, 7, 13, 127, 251, 257, 8191, 65537, 2147483647, (1 << 61) - 1, (1 << 64) + 13, (1 << 89) - 1, (1 << 107) - 1, (1 << 127) - 1,
          (1 << 130) - 5, (1 << 160) + 7, (1 << 192) - 237, (1 << 255) - 19, (1 << 521) - 1]


def concretise(r, h, name, only=None):
    """A behaviour with symbolic values, with values."""
    S, P, L = distinct(seed_pool, r, 6), distinct(pos_pool, r, 6), [0] + distinct(len_pool, r, 5)
    p = r.choice(PRIMES)
    M = [p] + [max(2, m) for m in distinct(lambda q: q.choice([2, 3, 4, 255, 256, 257, 65535, 65536, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 127) - 1, 1 << 200, q.getrandbits(90) + 2]), r, 2)]
    ops = ["srand %d" % r.randrange(1, 1 << 30)]
    for o in h:
        k, g = o["op"], o.get("g")
        if k == "ctx":
            ops.append("ctx %d" % p)
        elif k in ("new", "del", "default", "getmod", "nextp", "defaultp", "delp"):
            ops.append("%s %s" % (k, g))
        elif k in ("copy", "assign", "copyp", "assignp"):
            ops.append("%s %s %s" % (k, g, o["h"]))
        elif k == "gen":
            ops.append("gen %s %d %d %d" % (g, S[o["s"]], P[o["p"]], L[o["b"]]))
        elif k == "auto":
            ops.append("auto %s %d %d" % (g, P[o["p"]], L[o["b"]]))
        elif k == "newp":
            ops.append("newp %s %d %s" % (g, M[o["m"]], o["h"]))
        elif k == "setmod":
            ops.append("setmod %s %d" % (g, M[o["m"]]))
        elif k == "genp":
            ops.append("genp %s %d %d %s" % (g, S[o["s"]] % p, P[o["p"]], L[o["b"]] or "x"))
        elif k == "autop":
            ops.append("autop %s %d %s" % (g, P[o["p"]], L[o["b"]] or "x"))
        else:
            raise ValueError(o)
    return Case(name, ops)


def C10(ctx):
    r = ctx.rng
    ctx.model("PrfBuffers")
    ctx.model("GenGenerators", "MCGenerators.cfg")
    n, d = (24, 60) if ctx.quick else (160, 120)
    cases = [concretise(r, h, "life%d" % i) for i, h in enumerate(ctx.behaviours("GenGenerators", n, d, cfg="GenIntegers.cfg"))]
    # every length, by one instance: growing, shrinking and mixed, so that buffers are reused
    for k in range(3 if ctx.quick else 12):
        ls = list(range(1, 171)) + [r.randrange(171, 700) for _ in range(20)]
        if k % 3 == 1:
            ls.reverse()
        elif k % 3 == 2:
            r.shuffle(ls)
        sd, ps = seed_pool(r), pos_pool(r)
        ops = ["new a"]
        for b in ls:
            if r.random() < 0.3:
                sd = seed_pool(r)
            if r.random() < 0.5:
                ps = pos_pool(r)
            ops.append("gen a %d %d %d" % (sd, ps, b))
        cases.append(Case("lengths%d" % k, ops))
    # seeds of every byte length, growing and shrinking
    for k in range(2 if ctx.quick else 8):
        ops = ["new a"]
        bs = list(range(0, 70)) + [100, 200, 375]
        if k % 2:
            bs.reverse()
        for b in bs:
            ops.append("gen a %d %d %d" % (r.getrandbits(8 * b) | (128 << 8 * (b - 1)) if b else 0, pos_pool(r), r.choice([8, 64, 100, 160])))
        cases.append(Case("seeds%d" % k, ops))
    # very long ones, and short ones after them
    for k in range(2 if ctx.quick else 10):
        ops = ["new a", "new b"]
        for _ in range(5):
            ops.append("gen %s %d %d %d" % (r.choice("ab"), seed_pool(r), pos_pool(r), r.choice([2040, 2041, 4096, 8000, 10239, 10240, 10241, 20000, 40800, 40961])))
            ops.append("gen a %d %d %d" % (r.getrandbits(r.choice([8192, 16384, 30000])), pos_pool(r), len_pool(r)))
            ops.append("gen a %d %d %d" % (seed_pool(r), pos_pool(r), len_pool(r)))
        cases.append(Case("far%d" % k, ops))
    # copied and assigned after requests of very different lengths, and asked for lengths in between
    for k in range(3 if ctx.quick else 24):
        ops, made = ["srand %d" % r.randrange(1 << 30)], []
        for g in "abc":
            ops.append("new " + g)
            if r.random() < 0.8:
                ops.append("gen %s %d %d %d" % (g, seed_pool(r), pos_pool(r), r.choice([1, 8, 9, 70, 160, 500, 1300])))
        for _ in range(9):
            g, h = r.sample("abc", 2)
            if r.random() < 0.3:
                ops += ["del " + g, "copy %s %s" % (g, h)]
            else:
                ops.append("assign %s %s" % (g, h if r.random() < 0.9 else g))
            for _ in range(r.choice([0, 1, 2])):
                if r.random() < 0.2:
                    ops.append("auto %s %d %d" % (r.choice("abc"), pos_pool(r), len_pool(r)))
                ops.append("gen %s %d %d %d" % (r.choice([g, g, h]), r.getrandbits(r.choice([1, 16, 90, 200, 800])), pos_pool(r), r.choice([2, 16, 64, 150, 300, 640, 1000])))
        cases.append(Case("assigned%d" % k, ops))
    # numbers with many zeros or ones at an end, or none at all
    for k in range(1 if ctx.quick else 6):
        ops = ["new a", "new b"]
        for b in (r.choice([3, 7, 8]), 15, 16, 24, r.choice([32, 40, 63, 64]), r.choice([65, 80, 128, 160]), r.choice([161, 168, 176, 200]), r.choice([255, 256, 257, 320, 321])):
            m = min(b, 15)
            for ok in (lambda v: v >> (b - m) == 0, lambda v: v % (1 << m) == 0, lambda v: v >> (b - m) == (1 << m) - 1, lambda v: v % (1 << m) == (1 << m) - 1, lambda v: b > 168 and (v >> 152) % (1 << 15) == 0):
                x = rare.generated(r, b, ok) if r.random() < 0.75 or not ctx.quick else None
                if x:
                    ops += ["gen %s %d %d %d" % (r.choice("ab"), x[0], x[1], c) for c in (b, b, b + 1, max(1, b - 1))]
        cases.append(Case("rare%d" % k, ops))
    # random requests alternating between instances
    for k in range(8 if ctx.quick else 64):
        ops = ["srand %d" % r.randrange(1 << 30), "new a", "new b"]
        for _ in range(60):
            q = r.random()
            if q < 0.85:
                ops.append("gen %s %d %d %d" % (r.choice("ab"), seed_pool(r), pos_pool(r), len_pool(r)))
            else:
                ops.append("auto %s %d %d" % (r.choice("ab"), pos_pool(r), len_pool(r)))
        cases.append(Case("mixed%d" % k, ops))
    ctx.conform("prf", "TraceGenerators", cases, need=("New", "Copy", "Del", "Gen", "Auto", "Default"))
    return "model_checking", NOTE


def C11(ctx):
    r = ctx.rng
    ctx.model("GenGenerators", "MCGenerators.cfg")
    n, d = (32, 60) if ctx.quick else (200, 120)
    cases = [concretise(r, h, "life%d" % i) for i, h in enumerate(ctx.behaviours("GenGenerators", n, d))]
    # around the length of the modulus, for moduli of every size
    for k in range(12 if ctx.quick else 80):
        p = r.choice(PRIMES)
        ops = ["srand %d" % r.randrange(1 << 30), "ctx %d" % p, "new z", "newp a %d z" % p, "newp b %d z" % p, "copyp c a"]
        for _ in range(50):
            g = r.choice("abc")
            q = r.random()
            if q < 0.14:
                n = p.bit_length()
                m = r.choice([p, r.choice(PRIMES), 1 << r.randrange(1, 300), (1 << r.randrange(2, 300)) - 1, r.getrandbits(100) + 2,
                              max(2, 1 << (n - 1)), max(2, 1 << (n - 1) | r.getrandbits(n)), max(2, p - 1), p + 1])   # of the same length as the field
                ops += ["setmod %s %d" % (g, m), "getmod %s" % g]
                continue
            b = r.choice(["x", "x", str(len_pool(r)), str(p.bit_length()), str(p.bit_length() + 1), str(max(1, p.bit_length() - 1)), str(r.randrange(1, 10))])
            if q < 0.7:
                ops.append("genp %s %d %d %s" % (g, r.choice([seed_pool(r) % p, p - 1, 0, 1]), pos_pool(r), b))
            elif q < 0.8:
                ops.append("autop %s %d %s" % (g, pos_pool(r), b))
            elif q < 0.95:
                ops.append("nextp %s" % g)
            else:
                ops.append("assignp %s %s" % (g, r.choice("abc")))
        cases.append(Case("field%d" % k, ops))
    # lengths of all sizes below the length of a long modulus
    for k in range(2 if ctx.quick else 8):
        p = (1 << r.choice([1279, 2203, 2281])) - 1
        ops = ["ctx %d" % p, "new z", "newp a %d z" % p]
        ls = list(range(32, 1300, 32)) + [160 * i for i in range(1, 9)] + [r.randrange(1, 1400) for _ in range(30)]
        ls += [x + r.choice([-1, 1]) for x in ls]
        r.shuffle(ls)
        for b in ls[:70 if ctx.quick else None]:
            ops.append("genp a %d %d %d" % (r.choice([r.randrange(p), r.randrange(1 << 64)]), pos_pool(r), b))
        cases.append(Case("below%d" % k, ops))
    # numbers around the modulus and its multiples
    for k in range(2 if ctx.quick else 8):
        p = r.choice([x for x in (257, 8191, 65521, 65537, 40961, 131071)])
        b = p.bit_length()
        ops = ["ctx %d" % p, "new z", "newp a %d z" % p]
        for want in [p, p - 1, p + 1, 0, 1, (1 << b) - 1]:
            x = rare.generated(r, b, lambda v: v == want)
            if x:
                x = (x[0] % p, x[1]) if x[0] < p else None
            if not x:
                s0 = r.randrange(p)
                i = rare.search(r, lambda i: i, lambda i: rare.bits_of(rare.chain(s0, i, (b + 7) // 8), b), lambda v: v == want)
                x = (s0, i) if i is not None else None
            if x:
                ops += ["genp a %d %d %s" % (x[0], x[1], c) for c in ("x", b, b + 3)]
        cases.append(Case("around%d" % k, ops))
    # many consecutive requests: positions beyond one byte, beyond two
    for k in range(3 if ctx.quick else 9):
        p = r.choice(PRIMES[:8])
        ops = ["srand %d" % r.randrange(1 << 30), "ctx %d" % p, "new z", "newp a %d z" % p, "newp b %d z" % p]
        at = 0
        for to in ([255, 1023, 4095] + ([65534] if k == 0 else []) + ([262143, 1048575] if not ctx.quick and k == 1 else [])):
            to -= r.randrange(3)
            ops += ["skipp a %d" % (to - at)] + ["nextp a"] * 5
            at = to + 5
            if k == 1:
                ops += ["assignp b a", "nextp b"]
        ops += ["nextp b", "nextp a", "autop a 3 x"]
        cases.append(Case("positions%d" % k, ops))
    ctx.conform("prf", "TraceGenerators", cases,
                need=("Ctx", "NewP", "CopyP", "DelP", "SetMod", "GetMod", "GenP", "AutoP", "NextP", "DefaultP"))
    return "model_checking", NOTE
