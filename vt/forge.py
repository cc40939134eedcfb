"""Ciphertexts that are exactly the re-encryption of their decryption although every message
coefficient sits where we want it, in particular on the decision boundary.

With a fixed message and a fixed stored hash the coins, hence s', b' and the matrix, are fixed
before the public vector b is chosen. If one s'_j is invertible modulo 2^10, b can be solved
from b.s' = target for any target, and so the error of the decryption can be chosen coefficient by
coefficient for any secret vector. Nothing here judges: TLC does, from the bytes."""
import ctypes
import ctypes.util
import hashlib

from . import gen

W, M = 48, (1 << 48) - 1


def _int(a):
    return int.from_bytes(b"".join(x.to_bytes(6, "little") for x in a), "little")


def mul(a, b, q):
    """negacyclic product of 256 coefficients modulo q"""
    v = _int([x % q for x in a]) * _int([x % q for x in b])
    c = v.to_bytes(6 * 512, "little")
    c = [int.from_bytes(c[6 * i:6 * i + 6], "little") for i in range(512)]
    return [(c[i] - c[i + 256]) % q for i in range(256)]


def inverse(a, q):
    """inverse modulo a power of two, or None"""
    if sum(a) % 2 == 0:
        return None
    # modulo 2, a^256 = a(1) = 1, so a^255 is the inverse
    y, s = [1] + [0] * 255, [x % 2 for x in a]
    for _ in range(8):
        y = mul(y, s, 2)
        s = mul(s, s, 2)
    k = 2
    while k < q:
        k = min(k * k, q)
        t = mul(a, y, k)
        t = [-x for x in t]
        t[0] += 2
        y = mul(y, [x % k for x in t], k)
    return y


_C = None


def aes_ctr(key, n):
    """AES-256-CTR keystream from the zero counter block"""
    global _C
    if _C is None:
        _C = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
        for f in ("EVP_CIPHER_CTX_new", "EVP_aes_256_ctr"):
            getattr(_C, f).restype = ctypes.c_void_p
    x = ctypes.c_void_p(_C.EVP_CIPHER_CTX_new())
    _C.EVP_EncryptInit_ex(x, ctypes.c_void_p(_C.EVP_aes_256_ctr()), None, key, bytes(16))
    out, k = ctypes.create_string_buffer(n + 16), ctypes.c_int()
    _C.EVP_EncryptUpdate(x, out, ctypes.byref(k), bytes(n), n)
    _C.EVP_CIPHER_CTX_free(x)
    return out.raw[:n]


def prf(d, seed, n):
    return aes_ctr(seed, n) if d["nineties"] else hashlib.shake_128(seed).digest(n)


def H(d, m):
    return (hashlib.sha256 if d["nineties"] else hashlib.sha3_256)(m).digest()


def G(d, m):
    return (hashlib.sha512 if d["nineties"] else hashlib.sha3_512)(m).digest()


def secret(d, seed):
    mu, out = d["mu"], []
    u = gen.unpack(mu, prf(d, seed, d["l"] * 32 * mu), 256 * d["l"])
    if d["uniform"]:
        v = [x - 4 if x >= 2 else x for x in u]
    else:
        h = (1 << (mu // 2)) - 1
        v = [bin(x & h).count("1") - bin(x >> (mu // 2)).count("1") for x in u]
    return [v[256 * i:256 * i + 256] for i in range(d["l"])]


def boundary(r, d, pk1, draw, ct1, sk):
    """pk1, draw, ct1: an encapsulation (bytes); sk: a key whose secret vector is used. Returns
    (ciphertext, secret key, number of coefficients on the boundary) or None."""
    l, et, eq = d["l"], d["et"], d["eq"]
    h = H(d, pk1)
    m = H(d, draw)
    coins = G(d, m + h)[32:]
    sp = secret(d, coins)
    j = next((j for j in r.sample(range(l), l) if sum(sp[j]) % 2), None)
    if j is None:
        return None
    inv = inverse(sp[j], 1024)
    bp = [gen.unpack(10, ct1[320 * i:320 * i + 320], 256) for i in range(l)]
    w = d["skw"]
    sv = [gen.unpack(w, sk[32 * w * i:32 * w * (i + 1)], 256) for i in range(l)]
    if w < eq:   # signed
        sv = [[x - (1 << w) if x >> (w - 1) else x for x in y] for y in sv]
    v = [0] * 256
    for i in range(l):
        v = [(x + y) % 1024 for x, y in zip(v, mul(bp[i], sv[i], 1024))]
    mb = gen.unpack(1, m, 256)
    hv, h2 = d["hv"], d["h2"]
    step = 1 << (10 - et)
    # v + h2 - cm*step must lie in [512 m, 512 m + 512): choose where
    target, cm, edge = [0] * 256, [0] * 256, 0
    k = r.randrange(4)
    for i in range(256):
        if k == 0 or r.randrange(8) == 0:
            pos = r.choice([0, 1, 2, 3, 4, 5, 511, 510, 509, 508, 507])
            edge += 1
        else:
            pos = r.randrange(512)
        cm_step = (v[i] + h2 - 512 * mb[i] - pos) % 1024
        # cm*step must be the rounded value: move to the multiple of step (pos changes by less than step, inside the interval)
        up = -cm_step % step
        if pos - up >= 0:
            cm_step += up
        else:
            cm_step -= step - up
        pos2 = (v[i] + h2 - cm_step - 512 * mb[i]) % 1024
        if pos2 >= 512:
            return None
        cm[i] = (cm_step % 1024) // step
        low = r.choice([0, step - 1, r.randrange(step)])
        # b.s' + 512 m + hv must round to cm: (b.s')_i = cm*step + low - hv - 512 m
        target[i] = (cm[i] * step + low - hv - 512 * mb[i]) % 1024
    b = [[r.randrange(1024) for _ in range(256)] for _ in range(l)]
    acc = target
    for i in range(l):
        if i != j:
            acc = [(x - y) % 1024 for x, y in zip(acc, mul(b[i], sp[i], 1024))]
    b[j] = mul(acc, inv, 1024)
    pk = b"".join(gen.pack(10, x) for x in b) + pk1[-32:]
    ct = ct1[:320 * l] + gen.pack(et, cm)
    return ct, sk[:d["skv"]] + pk + h + sk[-32:], edge
