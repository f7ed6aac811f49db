"""C15: batches of polynomials."""
from lib import Case
from area_values import PRIMES

SMALL = [3, 5, 7, 11, 13, 17, 31, 61, 127]
NOTE = ["polynomials are nonzero and made monic before they are factorised (a precondition of the factoring algorithms)",
        "one field per batch object; distinct evaluation points",
        "large fields: polynomials built from known roots, multiplicities and quadratic factors without roots; small fields: any values",
        "the order of the roots of one polynomial is left open"]


def residue(p, a):
    return a % p == 0 or pow(a, (p - 1) // 2, p) == 1


def quad(r, p):
    while True:
        b, c = r.randrange(p), r.randrange(p)
        if not residue(p, b * b - 4 * c):
            return "%d:%d" % (b, c)


def root(r, p, pad):
    """roots around the limit of acceptance"""
    k = r.choice([pad, pad, pad, max(0, pad - 1), pad + 1, 0, r.randrange(0, pad + 3)])
    q = r.random()
    if q < 0.12:
        return 0
    top = p >> k
    if top == 0:
        return r.randrange(p)
    v = r.choice([1, 2, top, r.randrange(1, top + 1), r.randrange(1, top + 1)]) << k
    return v if v < p else (1 << k) % p


def points(r, p, n):
    s = []
    while len(s) < n:
        x = r.choice([r.randrange(p), r.randrange(p), r.randrange(min(p, 3 * n + 3))])
        if x not in s:
            s.append(x)
    return s


def made(r, p, n, pad, kind=None, quads_=True):
    """a polynomial of degree below n with known factors"""
    left = r.choice([n - 1, n - 1, r.randrange(n)])
    roots, quads = {}, []
    kind = kind or r.choice(["good", "mixed", "mixed", "quads" if quads_ else "mixed", "same"])
    while left > 0:
        if quads_ and left >= 2 and (kind == "quads" or r.random() < 0.25):
            quads.append(quad(r, p))
            left -= 2
            continue
        if kind == "quads":
            break
        x = root(r, p, pad) if kind != "good" else (r.randrange((p - 1) >> pad) + 1 if (p - 1) >> pad else 0) << pad
        if x >= p:
            x = 0
        m = r.choice([1, 1, 1, 2, 3]) if kind != "same" else r.randrange(1, left + 1)
        m = min(m, left, p - 1)
        if x in roots:
            left -= 1
            continue
        roots[x] = m
        left -= m
    return "%d;%s;%s" % (r.choice([1, 1, 2, r.randrange(1, p)]), ",".join("%d^%d" % x for x in roots.items()), ",".join(quads))


def values(r, p, n):
    while True:
        v = [r.choice([0, 1, r.randrange(p)]) for _ in range(n)]
        if any(v):
            return "=" + ",".join(map(str, v))


def polys(r, p, xs, k, pad, small):
    return [values(r, p, len(xs)) if small and r.random() < 0.5 else made(r, p, len(xs), pad) for _ in range(k)]


def C15(ctx):
    r = ctx.rng
    ctx.model("GenPolyBatch", "MCPolyBatch.cfg", workers=4)
    ctx.model("PolyTheorem", "PolyTheoremQ.cfg" if ctx.quick else "PolyTheorem.cfg", workers=6, coverage=False)
    cases = []
    n, d = (40, 24) if ctx.quick else (300, 40)
    for i, h in enumerate(ctx.behaviours("GenPolyBatch", n, d, cfg="GenPolyBatch.cfg")):
        small = i % 2 == 0
        p = r.choice(SMALL) if small else r.choice([x for x in PRIMES if 255 < x < 1 << 130])
        npts = r.choice([1, 2, 3, 5, 7]) if p > 7 else r.choice([1, 2, 3])
        pads = r.choice([0, 1, 2, 3, p.bit_length() // 2, p.bit_length() - 2, p.bit_length(), p.bit_length() + 5])
        pads = max(0, pads)
        ops = ["ctx %d" % p]
        sizes = [0, 1, 2, 3, 5]
        monic = {}
        for o in h:
            k, g = o["op"], o.get("g")
            al = r.choice(["x", "0", "1", "0", "1", "7"])
            if k == "new":
                ops.append("new %s %d" % (g, pads))
                monic[g] = True
            elif k == "del":
                ops.append("del " + g)
            elif k in ("interp", "whole"):
                xs = points(r, p, npts if r.random() < 0.7 else r.randrange(1, min(p, 9) + 1))
                ps = polys(r, p, xs, len(o["ps"]), pads, small)
                if k == "interp":
                    m = r.choice(["x", "1", "1", "0"])
                    monic[g] = m != "0"
                    ops.append("interp %s %s %s %s" % (g, m, ",".join(map(str, xs)), " ".join(ps)))
                else:
                    monic[g] = True
                    ops.append("whole %s %s %s %s" % (g, al, ",".join(map(str, xs)), " ".join(ps)))
            elif k == "monic":
                ops.append("monic " + g)
                monic[g] = True
            elif k == "factor":
                if not monic.get(g, True):
                    ops.append("monic " + g)
                    monic[g] = True
                ops.append("factor %s %s" % (g, al))
            elif k == "find":
                ops.append("find " + g)
            elif k == "say":
                ops.append(r.choice(["say " + g, "threads %s %d" % (g, r.randrange(4))]))
        cases.append(Case("life%d" % i, ops))
    # the same polynomials in every way
    for i in range(24 if ctx.quick else 240):
        p = r.choice(PRIMES[3:] if not ctx.quick else [x for x in PRIMES[3:] if x < 1 << 200])
        bits = p.bit_length()
        pad = r.choice([0, 1, bits // 3, bits // 2, max(0, bits - 8), max(0, bits - 9)])
        npts = r.choice([2, 3, 5, 7, 9, 13]) if p > 40 else 3
        xs = points(r, p, npts)
        sx = ",".join(map(str, xs))
        ps = " ".join(polys(r, p, xs, r.choice([1, 2, 4, 6]), pad, p < 128))
        ops = ["ctx %d" % p, "new a %d" % pad, "new b %d" % pad, "interp a 1 %s %s" % (sx, ps), "factor a 0", "find a", "factor a 1", "find a", "find a",
               "whole b 0 %s %s" % (sx, ps), "whole b 1 %s %s" % (sx, ps), "find b", "factor b %s" % r.choice("01x"), "find b",
               "whole a %s %s %s" % (r.choice("01x"), sx, ps), "say a"]
        cases.append(Case("ways%d" % i, ops))
    # many polynomials, many points
    for i in range(4 if ctx.quick else 24):
        p = r.choice([x for x in PRIMES if 255 < x < 1 << 130])
        k, npts = [(r.choice([64, 100]), 2), (2, r.choice([33, 50])), (300, 2), (1, 64)][i % 4]
        pad = r.choice([0, 2, p.bit_length() // 2])
        xs = points(r, p, npts)
        sx = ",".join(map(str, xs))
        ps = " ".join(polys(r, p, xs, k, pad, False))
        cases.append(Case("much%d" % i, ["ctx %d" % p, "new a %d" % pad, "interp a 1 %s %s" % (sx, ps), "factor a %d" % (i % 2), "find a", "whole a %s %s %s" % (r.choice("01x"), sx, ps), "say a"]))
    # of the highest degrees, the fields and the paddings that are longest
    for i in range(2 if ctx.quick else 8):
        p = r.choice([x for x in PRIMES if 255 < x < 1 << 130])
        pad = r.choice([0, 2, p.bit_length() // 2])
        n = [65, r.choice([66, 80]), 130, 129][i % 4]
        xs = points(r, p, n)
        ps = []
        for d in (n - 1, n - 1, r.choice([n - 2, n - 1])):
            roots = {root(r, p, pad) for _ in range(4 * n)}
            ps.append("%d;%s;" % (r.choice([1, 3]), ",".join("%d^1" % x for x in r.sample(sorted(roots), min(d, len(roots))))))
        sx = ",".join(map(str, xs))
        cases.insert(0, Case("degree%d" % i, ["ctx %d" % p, "new a %d" % pad, "interp a 1 %s %s" % (sx, " ".join(ps)), "factor a %d" % (i % 2), "find a", "whole a %s %s %s" % (r.choice("01x"), sx, " ".join(ps))]))
    for i in range(4 if ctx.quick else 12):
        p = (1 << r.choice([607, 1279] if i % 2 else [521, 607])) - 1
        bits = p.bit_length()
        pad = r.choice([bits - 8, bits - 33, 513, 514, 255 + r.randrange(9), 127 + r.randrange(4)])
        xs = points(r, p, 4)
        sx = ",".join(map(str, xs))
        near = [v << k for k in (pad - 1, pad, pad + 1, 512, 511, 256, 255, 128, 64) if k < bits - 1 for v in (1, r.randrange(1, 1 << min(20, bits - 1 - k)) | 1)]
        ps = ["1;%s;" % ",".join("%d^1" % x for x in r.sample(sorted(set(near)), 3)) for _ in range(5)] + [made(r, p, 4, pad, quads_=False)]
        cases.insert(0, Case("giant%d" % i, ["ctx %d" % p, "new a %d" % pad, "interp a 1 %s %s" % (sx, " ".join(ps)), "factor a 1", "find a", "whole a %s %s %s" % (r.choice("01x"), sx, " ".join(ps))]))
    ctx.conform("poly", "TracePolyBatch", cases, need=("New", "Interp", "Whole", "Monic", "Factor", "Find", "Say", "Threads"))
    return "model_checking", NOTE
