"""Concrete data for scenarios: structured file pairs, symbolic data, deltas."""
import random, hashlib, struct

M32 = 0xffffffff
RKM = 0x08104225


def rollsum(b):
    s1 = s2 = 0
    for x in b:
        s1 = (s1 + x + 31) & 0xffff
        s2 = (s2 + s1) & 0xffff
    return (s2 << 16) | s1


def rk(b, h=1):
    for x in b:
        h = (h * RKM + x) & M32
    return h


def _lrot(x, n):
    return ((x << n) | (x >> (32 - n))) & M32


def md4(b):
    a, bb, c, d = 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476
    m = b + b"\x80" + b"\0" * ((119 - len(b) % 64) % 64) + struct.pack("<Q", (8 * len(b)) & 0xffffffffffffffff)
    for o in range(0, len(m), 64):
        X = struct.unpack("<16I", m[o:o + 64])
        A, B, C, D = a, bb, c, d
        for i in range(16):
            s = (3, 7, 11, 19)[i % 4]
            t = _lrot((A + ((B & C) | (~B & D)) + X[i]) & M32, s)
            A, B, C, D = D, t, B, C
        for i in range(16):
            s = (3, 5, 9, 13)[i % 4]
            t = _lrot((A + ((B & C) | (B & D) | (C & D)) + X[(i % 4) * 4 + i // 4] + 0x5a827999) & M32, s)
            A, B, C, D = D, t, B, C
        o3 = (0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15)
        for i in range(16):
            s = (3, 9, 11, 15)[i % 4]
            t = _lrot((A + (B ^ C ^ D) + X[o3[i]] + 0x6ed9eba1) & M32, s)
            A, B, C, D = D, t, B, C
        a, bb, c, d = (a + A) & M32, (bb + B) & M32, (c + C) & M32, (d + D) & M32
    return struct.pack("<4I", a, bb, c, d)


def weak(magic, b):
    return (rollsum(b) if magic in (0x72730136, 0x72730137) else rk(b))


def strong(magic, b):
    return md4(b) if magic in (0x72730136, 0x72730146) else hashlib.blake2b(b, digest_size=32).digest()


def mkblocksum(magic, b, sl):
    return struct.pack(">I", weak(magic, b)) + strong(magic, b)[:sl]


def mksig(magic, bl, sl, entries):
    return struct.pack(">III", magic, bl, sl) + b"".join(entries)


def maxstrong(magic):
    return 16 if magic in (0x72730136, 0x72730146) else 32


MAGIC_LIST = [0x72730136, 0x72730137, 0x72730146, 0x72730147]


# ---------------------------------------------------------------- file pairs
def rbytes(rng, n, alpha=256):
    if alpha == 256:
        return rng.randbytes(n)
    return bytes(rng.randrange(alpha) for _ in range(n))


def edit(rng, basis, bl, nops=6, alpha=256, maxins=None):
    """a new file from basis by block moves, inserts, deletes, flips"""
    out = []
    n = len(basis)
    maxins = maxins or max(4, 2 * bl)
    for _ in range(rng.randint(1, nops)):
        op = rng.randrange(7)
        if op <= 2 and n:           # copy a block-aligned range
            k = rng.randrange((n + bl - 1) // bl)
            c = rng.randint(1, 4)
            out.append(basis[k * bl:(k + c) * bl])
        elif op == 3 and n:         # copy an unaligned range
            a = rng.randrange(n)
            out.append(basis[a:a + rng.randint(1, 3 * bl)])
        elif op == 4:
            out.append(rbytes(rng, rng.randint(0, maxins), alpha))
        elif op == 5 and n:         # flipped byte
            a = rng.randrange(n)
            s = bytearray(basis[a:a + 2 * bl])
            s[rng.randrange(len(s))] ^= 1 + rng.randrange(255)
            out.append(bytes(s))
        elif op == 6 and n:         # tail of the basis
            out.append(basis[-rng.randint(1, min(n, 2 * bl)):])
    return b"".join(out)


def pair(rng, size, bl, alpha=256):
    basis = rbytes(rng, size, alpha)
    r = rng.randrange(10)
    if r == 0:
        return basis, basis
    if r == 1:
        return basis, b""
    if r == 2:
        return b"", basis
    if r == 3:
        return basis, basis[:rng.randint(0, size)] + rbytes(rng, rng.randint(0, 9), alpha) + basis[rng.randint(0, size):]
    return basis, edit(rng, basis, bl, rng.randint(1, 10), alpha)


# ---------------------------------------------------------------- symbolic data
class Sym:
    """pieces <<id,off,len>> concretised with a per-id pseudo random string"""

    def __init__(self, seed):
        self.seed = seed
        self.cache = {}

    def s(self, i, upto):
        c = self.cache.get(i, b"")
        while len(c) < upto:        # extended page by page, so prefixes are stable
            c += random.Random("%s/%s/%d" % (self.seed, i, len(c) >> 16)).randbytes(65536)
        self.cache[i] = c
        return c

    def bytes(self, pieces):
        return b"".join(self.s(p[0], p[1] + p[2])[p[1]:p[1] + p[2]] for p in pieces)


# ---------------------------------------------------------------- delta streams
def enc_num(n, w):
    return n.to_bytes(w, "big")


def lit(data, w=None):
    n = len(data)
    if w is None and n <= 64:
        return bytes([n]) + data
    if w is None:
        w = 1 if n < 256 else 2 if n < 65536 else 4
    return bytes([0x41 + (1, 2, 4, 8).index(w)]) + enc_num(n, w) + data


def minw(n):
    return 1 if n < 256 else 2 if n < 65536 else 4 if n < 2 ** 32 else 8


def copy(pos, n, wp=None, wl=None):
    wp = wp or minw(pos)
    wl = wl or minw(n)
    return bytes([0x45 + 4 * (1, 2, 4, 8).index(wp) + (1, 2, 4, 8).index(wl)]) + enc_num(pos, wp) + enc_num(n, wl)


def rand_delta(rng, basis, ncmd=6, maxlit=80):
    """a random well-formed delta, any legal encodings; (delta, new)"""
    d, new = DELTA, b""
    for _ in range(rng.randint(0, ncmd)):
        if basis and rng.random() < 0.55:
            p = rng.randrange(len(basis))
            n = rng.randint(1, min(len(basis) - p, rng.choice([1, 3, 40, 300, 5000])))
            wp = rng.choice([w for w in (1, 2, 4, 8) if w >= minw(p)])
            wl = rng.choice([w for w in (1, 2, 4, 8) if w >= minw(n)])
            d += copy(p, n, wp, wl)
            new += basis[p:p + n]
        else:
            n = rng.choice([1, 2, 5, 63, 64, 65, rng.randint(1, maxlit)])
            n = min(n, maxlit)
            x = rng.randbytes(n)
            w = rng.choice([None if n <= 64 else minw(n)] + [w for w in (1, 2, 4, 8) if w >= minw(n)])
            d += lit(x, w)
            new += x
    return d + b"\0", new


DELTA = bytes.fromhex("72730236")
