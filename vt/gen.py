"""Byte-string and coefficient generators (all choices from a seeded random.Random)."""
import hashlib


def pack(w, coeffs):
    """little-endian bit string of w-bit coefficients"""
    v = 0
    for i, c in enumerate(coeffs):
        v |= (c & ((1 << w) - 1)) << (w * i)
    return v.to_bytes((w * len(coeffs) + 7) // 8, "little")


def unpack(w, data, n):
    v = int.from_bytes(data, "little")
    m = (1 << w) - 1
    return [(v >> (w * i)) & m for i in range(n)]


def words(coeffs):
    return b"".join((c & 0xFFFF).to_bytes(2, "little") for c in coeffs)


def stream(label, n):
    out, i = b"", 0
    while len(out) < n:
        out += hashlib.sha256(("%s/%d" % (label, i)).encode()).digest()
        i += 1
    return out[:n]


CONST = [0x00, 0xFF, 0x01, 0x80, 0x7F, 0x55, 0xAA, 0xFE]


def some_bytes(r, n):
    """a random or structured string of n bytes"""
    if n == 0:
        return b""
    k = r.randrange(10)
    if k < 3:
        return r.randbytes(n)
    if k == 3:
        return bytes([r.choice(CONST)]) * n
    if k == 4:  # one bit
        b = bytearray(n)
        b[r.randrange(n)] = 1 << r.randrange(8)
        return bytes(b)
    if k == 5:  # all but one bit
        b = bytearray(b"\xff" * n)
        b[r.randrange(n)] ^= 1 << r.randrange(8)
        return bytes(b)
    if k == 6:
        return bytes((r.randrange(256) if r.randrange(16) == 0 else 0) for _ in range(n))
    if k == 7:
        return bytes((r.randrange(256) if r.randrange(16) == 0 else 255) for _ in range(n))
    if k == 8:  # runs
        out = b""
        while len(out) < n:
            out += bytes([r.choice(CONST + [r.randrange(256)])]) * r.choice([1, 2, 3, 4, 8, 16, 31, 32, 33, 64])
        return out[:n]
    s = r.randrange(256)
    d = r.choice([1, 3, 255, 17])
    return bytes((s + i * d) & 255 for i in range(n))


def some_poly(r, w, n=256):
    """n coefficients below 2^w: random or structured"""
    m = (1 << w) - 1
    edge = [0, 1, m, m - 1 if m > 1 else 0, 1 << (w - 1), (1 << (w - 1)) - 1, ((1 << (w - 1)) + 1) & m]
    k = r.randrange(9)
    if k == 0:
        return [r.choice(edge)] * n
    if k == 1:
        return [r.choice(edge) for _ in range(n)]
    if k == 2:
        a = [0] * n
        for _ in range(r.choice([1, 1, 2, 3])):
            a[r.choice([0, 1, 63, 64, 127, 128, 191, 192, 254, 255, r.randrange(n)]) % n] = r.choice(edge + [r.randrange(m + 1)])
        return a
    if k == 3:
        a = [m] * n
        a[r.randrange(n)] = r.randrange(m + 1)
        return a
    if k == 4:  # alternating
        x, y, per = r.choice(edge), r.choice(edge), r.choice([1, 2, 4, 8, 16, 32, 64, 128])
        return [x if (i // per) % 2 == 0 else y for i in range(n)]
    if k == 5:  # one coefficient block (Toom-Cook limb / vector lane block)
        a = [0] * n
        per = r.choice([4, 8, 16, 32, 64, 128])
        b = r.randrange(n // per)
        for i in range(per):
            a[b * per + i] = r.choice(edge + [r.randrange(m + 1)])
        return a
    if k == 6:
        return [(m - r.randrange(4)) & m for _ in range(n)]
    return [r.randrange(m + 1) for _ in range(n)]


def small_poly(r, mu, q, n=256):
    """secret-like: values in [-mu/2, mu/2] modulo q"""
    h = max(mu // 2, 1)
    k = r.randrange(6)
    if k == 0:
        v = r.choice([h, -h, 0, 1, -1])
        return [v % q] * n
    if k == 1:
        return [r.choice([h, -h]) % q for _ in range(n)]
    if k == 2:
        a = [0] * n
        a[r.choice([0, 63, 64, 127, 128, 255, r.randrange(n)])] = r.choice([h, -h, 1]) % q
        return a
    return [r.randrange(-h, h + 1) % q for _ in range(n)]
