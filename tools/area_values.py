"""C12 (byte-string numbers), C16 (digests), C17 (big-number helpers), C18 (errors)."""
from lib import Case
import rare

PRIMES = [2, 3, 7, 13, 257, 65537, 2147483647, (1 << 61) - 1, (1 << 64) + 13, (1 << 89) - 1, (1 << 127) - 1, (1 << 160) + 7, (1 << 255) - 19]


def hx(b):
    return bytes(b).hex() or "-"


def rbytes(r, n):
    k = r.random()
    if k < 0.1:
        return bytes(n)
    if k < 0.2:
        return b"\xff" * n
    if k < 0.3 and n:
        return bytes([0] * (n - 1) + [r.randrange(1, 256)])
    if k < 0.4 and n:
        return bytes([r.randrange(1, 256)] + [0] * (n - 1))
    return bytes(r.randrange(256) for _ in range(n))


def word(r):
    edge = [0, 1, 2, 3, 7, 10, 127, 128, 255, 256, 257, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
    return r.choice(edge) if r.random() < 0.6 else r.getrandbits(r.choice([4, 8, 16, 20, 31, 33, 48, 63, 64]))


# ----------------------------------------------------------------- C12
def observe(r, g):
    ops = ["rem %s %d" % (g, word(r) or 1) for _ in range(2)]
    ops += ["lsb " + g, "size " + g, "str " + g]
    for c in ("-1", "0", "1", "-100", "-101", "7"):
        ops.append("bytes %s %s" % (g, c))
    ops.append("bytes %s 3 nolen" % g)
    return ops


def C12(ctx):
    r = ctx.rng
    ctx.model("TreeSum")
    ctx.model("GenByteNumbers", "MCByteNumbers.cfg", coverage=not ctx.quick)
    cases = []
    n, d = (24, 60) if ctx.quick else (200, 120)
    for i, h in enumerate(ctx.behaviours("GenByteNumbers", n, d)):
        lens = [0, 1, r.choice([2, 3, 4, 5]), r.choice([7, 8, 9, 16]), r.choice([20, 31, 32, 33, 40, 64])]
        datas = [b"", rbytes(r, 1), rbytes(r, r.randrange(2, 9)), rbytes(r, r.choice([16, 20, 32])), rbytes(r, r.randrange(1, 70)), rbytes(r, r.choice(lens))]
        words = [0, 1] + [word(r) for _ in range(3)]
        ops = []
        for o in h:
            k, g = o["op"], o["g"]
            if k == "new":
                ops.append("new %s %d %s" % (g, lens[o["n"]], hx(datas[o["d"]])) if o["d"] else "new %s %d" % (g, lens[o["n"]]))
            elif k == "set":
                ops.append("set %s %s" % (g, hx(datas[o["d"]])))
            elif k in ("setnum", "add"):
                ops.append("%s %s %d" % (k, g, words[o["n"]]))
            elif k in ("del", "inc", "lsb", "size", "str"):
                ops.append("%s %s" % (k, g))
            elif k == "rem":
                ops.append("rem %s %d" % (g, words[o["n"]] or 1))
            elif k == "bytes":
                ops.append("bytes %s %s" % (g, ["-1", "0", "1", "-100", "-101"][o["n"]]))
            if k in ("set", "setnum", "inc", "add", "new") and r.random() < 0.4:
                ops += ["str " + g, "rem %s %d" % (g, word(r) or 1), "size " + g]
        cases.append(Case("life%d" % i, ops))
    # every declared length, every given length, one object reused
    top = 34 if ctx.quick else 66
    for n in range(0, top):
        ops = ["new a %d %s" % (n, hx(rbytes(r, n)))] + observe(r, "a")
        ls = list(range(0, n + 3))
        r.shuffle(ls)
        for k in ls if not ctx.quick else ls[:14]:
            ops.append("set a %s" % hx(rbytes(r, k)))
            ops.append("str a")
            ops += r.sample(observe(r, "a"), 3)
            if r.random() < 0.3:
                ops += [r.choice(["inc a", "add a %d" % word(r), "setnum a %d" % word(r)]), "str a"]
        ops += observe(r, "a")
        cases.append(Case("declared%d" % n, ops))
    for n in (r.choice([100, 127, 128, 129]), r.choice([255, 256, 257]), r.choice([300, 512, 1000])):
        ops = ["new a %d %s" % (n, hx(rbytes(r, n)))] + observe(r, "a") + ["inc a", "add a %d" % word(r)] + observe(r, "a")
        for k in (n - 1, n, n + 1, r.randrange(n), 0, 1, n):
            ops += ["set a %s" % hx(rbytes(r, k)), "add a %d" % word(r)] + r.sample(observe(r, "a"), 4)
        cases.append(Case("long%d" % n, ops))
    # a carry out of every number of bytes, by one and by more, and back into shorter ones
    for part in range(2):
        for f in ("inc a", "add a 1", "add a %d" % ((1 << 64) - 1)):
            ops = ["new a 40"]
            for k in range(1 + part, 41, 2):
                ops += ["set a %s" % hx(b"\xff" * k), f, "str a"] + r.sample(observe(r, "a"), 2)
            ops += ["setnum a %d" % ((1 << 64) - 1), f, "str a", f, "str a"]
            cases.append(Case("over%d-%s" % (part, f.split()[0] + f[-2:].strip()), ops))
    # much more than the declared length holds
    for n in (0, 1, 2):
        ops = ["new a %d" % n]
        for i in range([12, 40, 20][n] if ctx.quick else [40, 300, 200][n]):
            ops += ["add a %d" % ((1 << 64) - 1 - r.randrange(3))] * 8 + r.sample(["str a", "rem a %d" % (word(r) or 1), "lsb a", "size a", "inc a"], 2)
        ops += observe(r, "a")
        cases.append(Case("more%d" % n, ops))
    # far beyond any block: few operations, and a carry through everything
    for n in [r.choice([1024, 1025, 1500]), r.choice([2047, 2048, 2049, 3000])] + ([] if ctx.quick else [4096, 4097, 5000, 8193]):
        ops = ["new a %d %s" % (n, hx(rbytes(r, n))), "rem a %d" % (word(r) or 1), "lsb a", "size a", "bytes a -1"]
        ops += ["set a %s" % hx(b"\xff" * n), "inc a", "rem a %d" % (word(r) or 1), "lsb a", "bytes a -1", "set a %s" % hx(rbytes(r, n - 1)), "add a %d" % word(r), "rem a %d" % (word(r) or 1), "bytes a -1"]
        ops += ["set a %s" % hx(rbytes(r, 3)), "str a", "bytes a -1", "del a", "new a 2 %s" % hx(b"\xff\xff"), "inc a", "str a", "bytes a -1"]
        cases.append(Case("far%d" % n, ops))
    # carries through all words
    for k in range(6 if ctx.quick else 40):
        ops = ["new a %d %s" % (40, hx(b"\xff" * r.choice([1, 2, 4, 7, 8, 9, 15, 16, 17, 24, 32])))]
        for _ in range(12):
            ops += [r.choice(["inc a", "add a %d" % word(r), "add a 1", "add a %d" % ((1 << 64) - 1)])] + r.sample(observe(r, "a"), 4)
        cases.append(Case("carry%d" % k, ops))
    ctx.conform("strint", "TraceByteNumbers", cases, need=("New", "Del", "Set", "SetNum", "Inc", "Add", "Rem", "Lsb", "Size", "Str", "Bytes"))
    return "model_checking", ["exact number layer of spec/BigNum.tla is the oracle, itself model checked (decimal, byte and division laws)",
                              "values and lengths sampled: all declared lengths up to %d bytes" % (top - 1)]


# ----------------------------------------------------------------- C16
def text(r, n):
    return rbytes(r, n) if r.random() < 0.3 else bytes(r.randrange(32, 127) for _ in range(n))


def C16(ctx):
    r = ctx.rng
    ctx.model("GenDigests", "MCDigests.cfg")
    cases = []
    n, d = (24, 50) if ctx.quick else (160, 100)
    for i, h in enumerate(ctx.behaviours("GenDigests", n, d)):
        p = r.choice(PRIMES[5:])
        con = [text(r, k) for k in (r.randrange(4, 12), r.choice([54, 55, 56, 57, 63, 64, 65, 66]), r.randrange(4, 200), r.choice([118, 119, 120, 127, 128, 129]))]
        els = [0, r.randrange(p), p - 1, r.randrange(min(p, 10 ** r.randrange(1, 40)))]
        ops = ["ctx %d" % p]
        for o in h:
            k, g = o["op"], o["g"]
            if k == "new":
                ops.append("new %s %s %s" % (g, "zzp" if o["kind"] == "element" else o["kind"], "x" if o["kind"] == "murmur" else r.choice([256, 256]) if o["f"] == 256 else r.choice([0, 0, "x"])))
            elif k == "news":
                ops.append("new %s murmur %d" % (g, r.choice([0, 1, 12345, (1 << 32) - 1, r.getrandbits(32)])))
            elif k in ("copy", "assign"):
                ops.append("%s %s %s" % (k, g, o["h"]))
            elif k in ("del", "peek", "info"):
                ops.append("%s %s" % (k, g))
            elif k == "hashnull":
                ops.append("hashnull %s %d" % (g, r.choice([0, 1, 20])))
            elif k == "hash":
                c = con[o["c"]]
                if o["kind"] == "bytes":
                    m = [0, len(c), len(c), len(c) // 2, 1][o["n"]]
                    ops.append("hash %s %s %d" % (g, hx(c), m))
                else:
                    m = [0, len(c), len(c) + 3, max(1, len(c) - 1), 1][o["n"]]
                    ops.append("hash %s %s %d%s" % (g, hx(c), m, " all" if m == 0 and r.random() < 0.5 else ""))
            elif k == "el":
                e = els[o["c"]]
                m = len(str(e))
                ops.append("el %s %d %d" % (g, e, [0, m, m + 5, max(1, m - 1), 1][o["n"]]))
        cases.append(Case("life%d" % i, ops))
    # every length of bytes and texts, both flavours, in an order that mixes long and short
    top = 140 if ctx.quick else 400
    for f in (0, 256):
        for kind in ("bytes", "text"):
            for part in range(2):
                ls = list(range(part, top, 2))
                r.shuffle(ls)
                ops = ["new a %s %d" % (kind, f), "info a"]
                for k in ls:
                    ops.append("hash a %s %d" % (hx(text(r, k)), k))
                ops.append("hash a %s %d" % (hx(text(r, 700)), 700))
                ops.append("hash a %s %d" % (hx(text(r, 300)), 211))
                cases.append(Case("%s%d.%d" % (kind, f, part), ops))
    # long ones: around the lengths where the number of bits needs another octet
    for i in range(4 if ctx.quick else 16):
        ls = [r.choice([8191, 8192, 8193, 4096, 1 << 13]), r.choice([31, 32, 1024, 2047])] + ([] if ctx.quick else [r.choice([65535, 65536, 65537, 70000])])
        ops = ["new a %s %d" % (["bytes", "text"][i // 2 % 2], [0, 256][i % 2])]
        for k in ls:
            ops.append("hash a %s %d" % (hx(text(r, k)), r.choice([k, k, k - 1])))
        cases.append(Case("long%d" % i, ops))
    # longer than any buffer or counter that comes to mind
    huge = [65536, 65537, 70001, 16385, 100000] if ctx.quick else [65535, 65536, 65537, 70001, 16385, 32769, 100000, 131073, 262145, 300007]
    for i, k in enumerate(huge):
        c = text(r, k)
        cases.append(Case("huge%d" % i, ["new a %s %d" % (["bytes", "text"][i % 2], [0, 256][(i // 2 + i) % 2]), "hash a %s %d" % (hx(c), k), "hash a %s %d" % (hx(c[:40]), 40)]))
    # elements of a great many digits
    for i, bits in enumerate([521, 1279, 2203, 4423] + ([] if ctx.quick else [9689])):
        p = (1 << bits) - 1
        ops = ["ctx %d" % p, "new a zzp 0", "new b zzp 256", "new c murmur %d" % r.getrandbits(32)]
        top = len(str(p))
        for k in (top, top - 1, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025):
            if k <= top:
                e = min(p - 1, r.randrange(10 ** (k - 1), 10 ** k))
                for g in r.sample("abc", 2):
                    ops.append("el %s %d %d" % (g, e, r.choice([0, k, k - 1])))
        cases.append(Case("digits%d" % bits, ops))
    # digests with zeros or ones at an end
    p = (1 << 255) - 19
    ops = ["ctx %d" % p, "new a zzp 0", "new b zzp 256", "new c text 0", "new d bytes 256"]
    for ok in rare.DIGESTS:
        for alg, g, h in (("sha1", "a", "c"), ("sha256", "b", "d")):
            if not ctx.quick or r.random() < 0.6:
                e = rare.element(r, alg, p, ok)
                if e is not None:
                    ops += ["el %s %d 0" % (g, e), "hash %s %s %d" % (h, hx(str(e).encode()), len(str(e)))]
    cases.append(Case("rare", ops))
    # elements of every decimal length and all prefixes of some
    for kind, arg in (("zzp", "0"), ("zzp", "256"), ("murmur", "0"), ("murmur", str(r.getrandbits(32))), ("murmur", str((1 << 32) - 1)), ("murmur", "x")):
        p = (1 << 255) - 19
        ops = ["ctx %d" % p, "new a %s %s" % (kind, arg), "info a"]
        ds = list(range(1, 77))
        r.shuffle(ds)
        for k in ds:
            e = min(p - 1, r.randrange(10 ** (k - 1), 10 ** k))
            ops.append("el a %d 0" % e)
            if r.random() < 0.4:
                ops.append("el a %d %d" % (e, r.randrange(1, k + 4)))
        for e in (0, 1, 9, 10, 99, 100):
            ops.append("el a %d 0" % e)
        e = r.randrange(10 ** 39, 10 ** 40)
        ops += ["el a %d %d" % (e, k) for k in range(0, 43)]
        # elements are hashed by their representative in the current field
        ops += ["ctx 65537", "el a 65536 0", "ctx 257", "el a 65536 0", "el a 256 2"]
        cases.append(Case("%s-%s" % (kind, arg), ops))
    ops = []
    for k in list(range(0, 34)) + [64, 200]:
        ops.append("readable " + hx(rbytes(r, k)))
    ops.append("readable " + hx(bytes(range(256))))
    cases.append(Case("readable", ops))
    ctx.conform("digest", "TraceDigests", cases, need=("New", "Copy", "Assign", "Del", "Hash", "HashNull", "HashEl", "Peek", "Info", "Readable"))
    return "model_checking", ["SHA-1, SHA-256 and MurmurHash3 as written in TLA+ (spec/SHA.tla, Murmur.tla) are the oracle",
                              "contents sampled at every length up to %d bytes; seeds and values at random" % (top - 1)]


# ----------------------------------------------------------------- C17
def big(r):
    k = r.random()
    if k < 0.25:
        return r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1, 1 << 64])
    b = r.choice([r.randrange(1, 70), r.randrange(1, 300), r.choice([1000, 2000])])
    if k < 0.45:
        return 1 << b
    if k < 0.6:
        return (1 << b) - 1
    if k < 0.75:
        return (r.getrandbits(20) | 1) << b
    return r.getrandbits(b)


def C17(ctx):
    r = ctx.rng
    ctx.model("GenHelpers", "MCHelpers.cfg")
    cases = []
    n, d = (16, 50) if ctx.quick else (120, 120)
    for i, h in enumerate(ctx.behaviours("GenHelpers", n, d)):
        p = r.choice(PRIMES)
        el = lambda: r.choice([0, p - 1, r.randrange(p), r.randrange(p)])
        ops = ["ctx %d" % p]
        for o in h:
            k = o["op"]
            if k == "src":
                ops.append(" ".join(["src", o["s"]] + [str(el()) for _ in range(o["k"])]))
            elif k == "poke":
                ops.append("poke %s %d %d" % (o["s"], o["i"], el()))
            elif k == "conv":
                ops.append("conv %s %s %s" % (o["how"], o["s"], o["d"]))
            elif k == "convn":
                ops.append("conv %s %s %s %d" % (o["how"], o["s"], o["d"], o["n"]))
            elif k == "convnull":
                ops.append("convnull %s %s %d" % (o["how"], o["d"], r.choice([0, 3])))
            elif k == "read":
                ops.append("read " + o["d"])
            if k != "read" and "d" in o:
                ops.append("read " + o["d"])
        cases.append(Case("conv%d" % i, ops))
    for c in range(8):
        ops = ["ctx %d" % r.choice(PRIMES[3:])]
        for _ in range(60 if ctx.quick else 400):
            z = big(r)
            ops += ["log2 %d" % z, "bytesz %d" % z, "bytesp %d" % z, "twos %d" % z, "pad %d %d" % (z, r.choice([0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, r.randrange(300)])),
                    "padto %d %d" % (z, r.choice([0, 1, 2, z.bit_length(), z.bit_length() + 1, z.bit_length() + 2, max(0, z.bit_length() - 1), r.randrange(400)])),
                    "blocks %d %d" % (word(r), word(r) or 1), "bytesn %d" % word(r)]
            if r.random() < 0.2:
                ops.append(" ".join(["print"] + [str(big(r)) for _ in range(r.randrange(0, 6))]))
        cases.append(Case("numbers%d" % c, ops))
    for c in range(2 if ctx.quick else 8):
        ops = ["ctx 65537"]
        for b in (r.choice([4095, 4096, 4097]), r.choice([8191, 8192, 16384]), r.choice([[65536, 66000, 70001], [32768, 65535, 131073]][c % 2] if ctx.quick else [65535, 65536, 65537, 100000, 131073])):
            for z in (1 << b, (1 << b) - 1, r.getrandbits(b) | 1 << b - 1):
                ops += ["log2 %d" % z, "bytesz %d" % z, "twos %d" % z, "pad %d %d" % (z, r.choice([0, 1, 64, 1000])), "padto %d %d" % (z, z.bit_length() + r.choice([0, 1, 2, 3, 100, 1000])), "padto %d %d" % (z, max(0, z.bit_length() - r.choice([1, 13, 1000]))),
                        "padto %d %d" % (r.choice([1, 5, r.getrandbits(40)]), b + r.choice([0, 1, 7])), "pad %d %d" % (r.choice([1, 5, r.getrandbits(40)]), b)]
        cases.append(Case("giant%d" % c, ops))
    # long vectors, one way and the other, and shorter ones into the longer
    for n in [r.choice([257, 300]), r.choice([1025, 1100])] + ([] if ctx.quick else [4097, 10000]):
        p = r.choice(PRIMES[3:8])
        ops = ["ctx %d" % p, " ".join(["src s"] + [str(r.randrange(p)) for _ in range(n)]), "src t %d %d" % (r.randrange(p), p - 1)]
        for how in ("vec", "vecnew", "arr", "arrnew"):
            ops += ["conv %s s %s" % (how, how), "read " + how]
        ops += ["poke s %d %d" % (n - 1, r.randrange(p)), "read vec", "read arr", "conv vec t vec", "read vec", "conv arr s arr %d" % (n - 1), "read arr", "conv vec s arrnew", "read arrnew"]
        cases.append(Case("vectors%d" % n, ops))
    ops = []
    for z in range(0, 70):                      # small values, all of them
        ops += ["log2 %d" % z, "bytesz %d" % z, "twos %d" % z] + ["padto %d %d" % (z, t) for t in range(0, 12)] + ["bytesn %d" % z]
        ops += ["blocks %d %d" % (z, k) for k in range(1, 10)]
    cases.append(Case("small", ops))
    for lo in range(0, 200, 25):
        ops = []
        for b in range(lo, lo + 25):
            for z in (1 << b, (1 << b) - 1, (1 << b) + 1):
                ops += ["log2 %d" % z, "bytesz %d" % z, "twos %d" % z, "padto %d %d" % (z, b + r.randrange(4))]
        cases.append(Case("powers%d" % lo, ops))
    ctx.conform("bignum", "TraceHelpers", cases, need=("Log2", "Blocks", "BytesN", "BytesZ", "Pad", "PadTo", "Twos", "Print", "Src", "Poke", "Conv", "ConvNull", "Read"))
    return "model_checking", ["exact number layer of spec/BigNum.tla is the oracle", "numbers up to 2000 bits, sampled at edges and at random"]


# ----------------------------------------------------------------- C18
WHERE = ["plain", "handler", "unwinding", "within", "thread"]


def C18(ctx):
    r = ctx.rng
    ctx.model("GenErrors", "MCErrors.cfg")
    cases = []
    n, d = (80, 25) if ctx.quick else (600, 50)
    for i, h in enumerate(ctx.behaviours("GenErrors", n, d)):
        msgs = [b"", bytes(r.randrange(32, 127) for _ in range(r.randrange(1, 30))), rbytes(r, r.randrange(1, 200)), bytes(r.randrange(32, 127) for _ in range(r.choice([15, 16, 22, 23, 500])))]
        if r.random() < 0.4:    # little that is not nothing
            msgs[r.randrange(1, len(msgs))] = r.choice([b" ", b"\n", b"\t ", b"  ", b"0", b"\0", b".", b"%s%n"])
        codes = [0, 1, r.choice([2, 3, 127, 128, 255, 256, 257]), r.choice([-1, 42, 77, 1000, r.randrange(256)])]
        ops = []
        mk = lambda m: hx(msgs[m]) if m else r.choice(["-", "-", "x"])
        for o in h:
            k, g = o["op"], o["g"]
            if k == "make":
                m = mk(o["m"])
                c = str(codes[o["c"]])
                f = "0"
                if o["kind"] == "bound" or o["c"] == 1:
                    c = r.choice([c, "x"])
                    if c == "x" and r.random() < 0.5:
                        f = "x"
                if m == "x" and not (f == "x" and c == "x"):
                    m = "-"
                ops.append("make %s %s %s %s %s %s" % (g, o["kind"], m, f, c, o["where"]))
                ops.append("get " + g)
            elif k == "fatal":
                c = str(codes[o["c"]])
                ops.append("make zz %s %s 1 %s %s" % (o["kind"], hx(msgs[o["m"]]), r.choice([c, "x"]) if o["c"] == 1 else c, o["where"]))
            elif k in ("copy", "assign"):
                ops += ["%s %s %s" % (k, g, o["h"]), "get " + g]
            elif k in ("del", "get", "throw", "hold", "held"):
                ops.append("%s %s" % (k, g))
            elif k == "setmsg":
                ops.append("setmsg %s %s" % (g, hx(msgs[o["m"]])))
            elif k == "setfatal":
                ops += ["setfatal %s %s" % (g, r.choice(["1", "x"]) if o["f"] else "0")]
            elif k == "setcode":
                ops.append("setcode %s %d" % (g, codes[o["c"]]))
        cases.append(Case("life%d" % i, ops))
    # every exit code, every kind
    for i in range(48 if ctx.quick else 256):
        k = ["general", "protocol", "bound"][i % 3]
        cases.append(Case("fatal%d" % i, ["make a %s %s 0 x" % (k, hx(b"first")), "setfatal a x", "throw a",
                                          "make b %s %s 1 %s %s" % (k, hx(rbytes(r, r.randrange(0, 9))), r.choice(["x", str(i), str(r.randrange(512))]), WHERE[i % len(WHERE)])]))
    # codes of which nothing or the same as of another is left, and little messages
    for i, c in enumerate([0, 256, 512, -256, 255, -1, 65536]):
        for k in ("general", "protocol"):
            cases.append(Case("code%d-%s" % (i, k), ["make a bound %s x x" % hx(b" " * (i % 3 + 1)), "hold a", "make c bound %s x x" % hx(b"\n"), "get c", "held a", "get a",
                                                     "make b %s %s 1 %d %s" % (k, r.choice(["-", hx(b" ")]), c, WHERE[i % len(WHERE)])]))
    ctx.conform("errors", "TraceErrors", cases, need=("Make", "Copy", "Assign", "Del", "SetMsg", "SetFatal", "SetCode", "Get", "Hold", "Held", "Throw", "Exit"))
    return "model_checking", ["the wording of the default explanation is not fixed: it must be there and be the same every time"]
