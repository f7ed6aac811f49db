"""Inputs that lead to rare values: found by search with an independent implementation."""
import hashlib


def chain(seed, pos, n):
    """the first n bytes of the SHA-1 chain"""
    out, d = b"", seed.to_bytes((seed.bit_length() + 7) // 8, "little") + pos.to_bytes(8, "little")
    while len(out) < n:
        d = hashlib.sha1(d).digest()
        out += d
    return out[:n]


def bits_of(b, bits):
    return int.from_bytes(b, "little") % (1 << bits)


def search(r, draw, value, ok, limit=600000):
    """some x of draw(k) with ok(value(x)); None if there is none among the first ones"""
    for k in range(limit):
        x = draw(k)
        if ok(value(x)):
            return x
    return None


def generated(r, bits, ok):
    """a seed and a position of which the number of so many bits is ok"""
    s, f, n = r.getrandbits(r.choice([0, 8, 64, 100])), r.choice([0, 0, r.getrandbits(32)]), (bits + 7) // 8
    k = search(r, lambda k: k, lambda k: bits_of(chain(s, f + k, n), bits), ok)
    return None if k is None else (s, f + k)


def element(r, alg, top, ok):
    """an element below top of which the digest is ok"""
    f = r.randrange(top)
    k = search(r, lambda k: k, lambda k: hashlib.new(alg, str((f + k) % top).encode()).digest(), ok)
    return None if k is None else (f + k) % top


# of a digest: its first or last bytes are zero, or all ones, or small
DIGESTS = [lambda d: d[:2] == b"\0\0", lambda d: d[-2:] == b"\0\0", lambda d: d[0] == 0 and d[-1] == 0, lambda d: d[-2:] == b"\xff\xff", lambda d: d[:2] == b"\xff\xff",
           lambda d: d[0] < 16 and d[1] < 16 and d[2] < 16, lambda d: b"\0\0" in d[7:9], lambda d: d[-8] == 0 and d[-9] == 0]
