"""Generators' helpers. Nothing here judges the code: the specifications do."""
import random

M32 = 0xffffffff


def lhash(b, seed=0):
    """LevelDB's hash, to choose keys that collide."""
    m, r = 0xc6a4a793, 24
    n = len(b)
    h = (seed ^ (n * m)) & M32
    i = 0
    while i + 4 <= n:
        w = int.from_bytes(bytes(b[i:i + 4]), "little")
        i += 4
        h = ((h + w) * m) & M32
        h ^= h >> 16
    k = n - i
    if k == 3:
        h = (h + (b[i + 2] << 16)) & M32
    if k >= 2:
        h = (h + (b[i + 1] << 8)) & M32
    if k >= 1:
        h = ((h + b[i]) * m) & M32
        h ^= h >> r
    return h


def colliding(n, rnd, seed=0, size=None):
    """n different keys of one length and one hash, which differ in eight bytes somewhere"""
    m = 0xc6a4a793
    if size is None:
        size = rnd.choice([8, 8, 8, 9, 11, 12, 16, 27, 33, 40, 64, 72, 130, 300])
    at = 4 * rnd.choice([0, (size - 8) // 4, rnd.randint(0, (size - 8) // 4)])
    head, tail = rnd.randbytes(at), rnd.randbytes(size - at - 8)
    h0 = (seed ^ (size * m)) & M32
    for i in range(0, at, 4):
        h0 = ((h0 + int.from_bytes(head[i:i + 4], "little")) * m) & M32
        h0 ^= h0 >> 16

    def first(w):
        h = ((h0 + w) * m) & M32
        return h ^ (h >> 16)
    w1, w2 = rnd.getrandbits(32), rnd.getrandbits(32)
    want = (first(w1) + w2) & M32
    out, seen = [], set()
    while len(out) < n:
        a = rnd.getrandbits(32)
        b = (want - first(a)) & M32
        if (a, b) in seen:
            continue
        seen.add((a, b))
        out.append(list(head + a.to_bytes(4, "little") + b.to_bytes(4, "little") + tail))
    assert len({lhash(k, seed) for k in out}) == 1
    return out


def keys_where(n, rnd, pred, size=(1, 12), other=()):
    """n different keys whose hash satisfies pred, different from the others too"""
    out, seen = [], {tuple(k) for k in other}
    while len(out) < n:
        k = [rnd.randrange(256) for _ in range(rnd.randint(*size))]
        if tuple(k) not in seen and pred(lhash(k)):
            seen.add(tuple(k))
            out.append(k)
    return out


def w32(x):
    return [(x >> 16) & 0xffff, x & 0xffff]


def w64(x):
    return list((x & (2 ** 64 - 1)).to_bytes(8, "little"))


def unique(keys):
    out, seen = [], set()
    for k in keys:
        if tuple(k) not in seen:
            seen.add(tuple(k))
            out.append(k)
    return out
