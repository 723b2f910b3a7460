"""Pure functions: C16 Bloom filter, C17 hash, C18 checksum, C19 comparison, C20 shortened keys."""
import itertools, random
from util import *
from vlib import CORES

MC = """SPECIFICATION Spec
CONSTANTS
 What = "%s"
 MaxLen = %d
CHECK_DEADLOCK FALSE
INVARIANTS %s
"""
SEED = 0xbc9f1d34


def cases_of(ops, n=150):
    return [{"ops": ops[i:i + n]} for i in range(0, len(ops), n)]


def data(rnd, n):
    k = rnd.random()
    if k < .5:
        return [rnd.randrange(256) for _ in range(n)]
    if k < .7:
        return [rnd.choice([0, 1, 127, 128, 255]) for _ in range(n)]
    if k < .8:
        return [rnd.choice([0, 128, 255, 200])] * n
    return [rnd.randrange(128, 256) for _ in range(n)]


HASHES = ["code", "ref", "refd", "vec", "vecd", "vec32", "vec16", "vec64", "ref64d", "vec128", "vecarr3", "slice", "sliced", "str", "strd", "string", "stringd", "bloom", "bloom2"]


def walks_in_place(rnd, ops, n, sizes):
    """hash and checksum of one place in memory, of which one byte after the other changes"""
    for i in range(n):
        b = data(rnd, sizes[i % len(sizes)])
        at = sorted({0, len(b) - 1, len(b) // 2, *(rnd.randrange(len(b)) for _ in range(6))})
        ops.append({"o": "walk", "b": b, "shift": rnd.randrange(16), "seed": w32(rnd.choice([0, SEED, rnd.getrandbits(32)])),
                    "flips": [[j, (b[j] + rnd.choice([1, 128, 255])) % 256] for j in at] + [[at[0], b[at[0]]]]})


def ahead(first, cases):
    """all of them, such that each process that runs a share of them begins with one of the first"""
    size = max(1, -(-(len(first) + len(cases)) // CORES))
    out, rest, begins = [], list(cases), list(first)
    while rest or begins:
        take = begins if begins and (not rest or len(out) % size == 0) else rest
        out.append(take.pop(0))
    return out


def storms(c, rnd, *whats):
    """several threads that ask at the same time, before anyone else does"""
    ops = []
    for i in range(100 if c.thorough else 20):
        for what in whats:
            n = rnd.choice([2, 3, 5, 8])
            sizes = [0, 1, 3, 4, 8, 9, 16, 40, 70, 300] if what != "filter" else [0, 1, 4, 9, 70]
            # of one size, or of any
            all = [data(rnd, k) for k in ([sizes[i // 2 % len(sizes)]] * n if i % 2 else [rnd.choice(sizes) for _ in range(n)])]
            if what == "match":
                all = [b + [rnd.choice([1, 2, 6, 30, 31])] for b in all]
            if what in ("compare", "sep") and i % 3 == 0:
                all = [all[0] + data(rnd, rnd.randrange(3)) for _ in range(n)]
            ops.append({"o": "storm", "what": what, "all": all, "seed": w32(rnd.getrandbits(32)), "bpk": rnd.choice([1, 6, 10, 20, 50]),
                        "rounds": 30000 if c.thorough else 6000})
    return cases_of(ops, 2)


def c17(c):
    c.model("PureMC", MC % ("word", 1, "Words32"), "Word")
    rnd = random.Random(c.seed * 173 + 1)
    ops = []
    first = storms(c, rnd, "hash")

    def op(b, via=None, shift=None, seed=None):
        ops.append({"o": "hash", "b": b, "via": via or rnd.choice(HASHES), "shift": rnd.randrange(16) if shift is None else shift,
                    "seed": w32(rnd.choice([0, 1, SEED, 0xffffffff, 0x80000000, 0x12345678, rnd.getrandbits(32)]) if seed is None else seed)})
    for n in range(0, 34 if not c.thorough else 70):
        for via in HASHES:
            for _ in range(1 if not c.thorough else 4):
                op(data(rnd, n), via)
        for shift in range(16):
            op(data(rnd, n), rnd.choice(["code", "ref", "refd"]), shift)
    # every value of every byte of the tail and of the first word, and every bit of the seed
    for n in (1, 2, 3, 4, 5, 7, 8):
        base = data(rnd, n)
        for i in range(n):
            for v in range(256) if c.thorough else sorted({0, 1, 2, 127, 128, 129, 191, 254, 255, rnd.randrange(256)}):
                op(base[:i] + [v] + base[i + 1:])
        for k in range(32):
            op(base, rnd.choice(["code", "ref", "vec", "slice", "str", "string"]), seed=1 << k)
    for n in [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 259, 511, 512, 1000, 1021, 1022, 1023, 1024, 1025, 4095, 4096, 4097] + ([65535, 65536, 65537, 65538, 65539] if c.thorough else [65535, 65537]):
        for _ in range(3 if n < 3000 else 1):
            op(data(rnd, n))
    for _ in range(60000 if c.thorough else 3000):
        op(data(rnd, rnd.choice([rnd.randrange(12), rnd.randrange(60), rnd.randrange(300)])))
    walks_in_place(rnd, ops, 300 if c.thorough else 60, [1, 4, 7, 8, 16, 24, 33, 64, 100, 300, 1025])
    # long data against the harness's hash, and that one against the specification
    for n in list(range(0, 40)) + [255, 256, 300, 1000]:
        ops.append({"o": "refhash", "b": data(rnd, n), "seed": w32(rnd.getrandbits(32))})
    for n in [131071, 131072, 131073, 262147, 1 << 20, (1 << 20) + 3, (1 << 22) + 1, (1 << 24) + 2] + ([1 << 26] if c.thorough else []):
        ops.append({"o": "bighash", "n": n, "data": rnd.getrandbits(40), "shift": rnd.randrange(16), "seed": w32(rnd.choice([0, SEED, rnd.getrandbits(32)]))})
    c.conform("pure", "PureTrace", ahead(first, cases_of(ops)), chunk=1500 if c.thorough else 1000)


CRCS = ["value", "extend", "ref", "refx", "vec", "vecx", "vec32", "vec16", "vec64", "vec128", "vecarr3", "gref", "slice", "str", "string"]


def c18(c):
    c.model("PureMC", MC % ("crc", 4 if c.thorough else 3, "Extends"), "Extends")
    c.model("PureMC", MC % ("word", 1, "Words32"), "Word")
    rnd = random.Random(c.seed * 181 + 1)
    ops = []
    first = storms(c, rnd, "crc")

    def crc(b, via=None, shift=None, init=None):
        ops.append({"o": "crc", "b": b, "via": via or rnd.choice(CRCS), "shift": rnd.randrange(16) if shift is None else shift,
                    "init": w32(rnd.choice([0, 0xffffffff, 1, 0x80000000, rnd.getrandbits(32)]) if init is None else init)})
    for n in range(0, 70 if not c.thorough else 200):
        for via in CRCS:
            crc(data(rnd, n), via)
        for shift in range(16):
            crc(data(rnd, n), rnd.choice(["value", "extend", "ref", "refx", "gref"]), shift)
    # every byte value at every place of a word, and every bit of the starting checksum
    for n in (1, 4, 5, 16, 17):
        for v in range(256):
            b = data(rnd, n)
            b[rnd.randrange(n)] = v
            crc(b)
        for k in range(32):
            crc(data(rnd, n), rnd.choice(["extend", "refx", "vecx", "gref"]), init=1 << k)
    for n in [127, 128, 129, 255, 256, 257, 271, 272, 273, 511, 512, 513, 527, 528, 600, 1023, 1024, 1025, 1040, 2048, 4096, 4111]:
        crc(data(rnd, n))
        crc(data(rnd, n), "value", 0)
    for _ in range(12000 if c.thorough else 900):
        crc(data(rnd, rnd.choice([rnd.randrange(20), rnd.randrange(90), rnd.randrange(300)])))
    # long data against the harness's checksum, and that one against the specification
    for n in list(range(0, 60)) + [255, 256, 300, 1000]:
        ops.append({"o": "refcrc", "b": data(rnd, n)})
    for i in range(600 if c.thorough else 120):
        n = rnd.choice([rnd.randrange(1000, 70000), rnd.randrange(1000, 5000), 32768, 65536, 1 << 20 if i % 20 == 0 else 1 << 14])
        ops.append({"o": "bigcrc", "n": n, "cut": rnd.choice([0, 1, n, n // 2, rnd.randint(0, n)]), "seed": rnd.getrandbits(40), "shift": rnd.randrange(16)})
    walks_in_place(rnd, ops, 200 if c.thorough else 40, [1, 4, 7, 8, 16, 24, 33, 64, 100, 300])
    for n in [(1 << 22) + 1, (1 << 24) + 2] + ([1 << 26] if c.thorough else []):
        ops.append({"o": "bigcrc", "n": n, "cut": rnd.choice([n // 2, 65536, n - 1]), "seed": rnd.getrandbits(40), "shift": rnd.randrange(16)})
    for o in ("mask", "unmask"):
        for x in [0, 1, 0xffffffff, 0xa282ead8, 0xa282ead7, 0xa282ead9, 0x5d7d1528, 0x5d7d1527] + [1 << k for k in range(32)] + [(1 << k) - 1 for k in range(33)] \
                + [0xa282ead8 + (1 << k) & 0xffffffff for k in range(32)] + [rnd.getrandbits(32) for _ in range(9000 if c.thorough else 800)]:
            ops.append({"o": o, "x": w32(x & 0xffffffff), "shift": rnd.randrange(2)})
    rnd.shuffle(ops)
    c.conform("pure", "PureTrace", ahead(first, cases_of(ops)), chunk=1200 if c.thorough else 500)


def some_keys(rnd, n):
    k = rnd.random()
    if k < .3:
        return [[rnd.randrange(256) for _ in range(rnd.randrange(9))] for _ in range(n)]
    if k < .6:
        return [list(b"key%06d" % i) for i in range(n)]
    if k < .8:
        return [list((i * rnd.choice([1, 1, 7])).to_bytes(4, "little")) for i in range(n)]
    return [data(rnd, rnd.choice([0, 1, 2, 3, 40])) for _ in range(n)]


def c16(c):
    c.model("PureMC", MC % ("bloom", 3 if c.thorough else 2, "NoFalseNegative"), "NoFalseNegative", workers=8)
    rnd = random.Random(c.seed * 167 + 1)
    ops = []
    first = storms(c, rnd, "filter", "match")
    for n in list(range(0, 130)) + [200, 434, 435, 1000, 1449, 1450, 65536, 1 << 20]:
        ops.append({"o": "policy", "bpk": n, "shift": rnd.randrange(2)})
    bpks = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 29, 30, 31, 42, 43, 44, 45, 50, 64, 100, 200]
    def filt(bpk, keys, **kw):
        ops.append(dict({"o": "filter", "bpk": bpk, "keys": keys, "other": rnd.choice([bpk, 1, 10, 100])}, **kw))
    for bpk in bpks:
        for n in (0, 1, 2, 3, 6, 7, 8, 9, 13):
            filt(bpk, some_keys(rnd, n))
        filt(bpk, some_keys(rnd, rnd.randrange(20, 60)))
    for i in range(2500 if c.thorough else 150):
        filt(rnd.choice(bpks + [10, 10, 10]), some_keys(rnd, rnd.randrange(0, 40)))
    for i in range(300 if c.thorough else 40):
        keys = some_keys(rnd, rnd.randrange(0, 10))
        filt(rnd.choice(bpks), keys, cap=rnd.choice([0, 1, 2, len(keys), len(keys) + 5, 100, max(0, len(keys) - 1)]))
    # filters of more than 2^16 bits; in larger ones only that every key of theirs is found
    for bpk, n in [(10, 7000), (100, 700)] + ([(16, 8200), (1, 70000), (44, 1600)] if c.thorough else []):
        filt(bpk, [list((i * 2654435761 % (1 << 32)).to_bytes(4, "big")) for i in range(n)])
    for bpk, n in [(10, 30000), (1, 2000), (30, 1000), (44, 3000)] + ([(10, 200000), (15, 120000)] if c.thorough else []):
        filt(bpk, [list((i * 2654435761 % (1 << 32)).to_bytes(4, "big")) for i in range(n)], big=True)
    for i in range(20000 if c.thorough else 2200):
        k = rnd.random()
        if k < .25:
            f = [rnd.randrange(256) for _ in range(rnd.randrange(0, 4))]
        elif k < .6:
            f = [rnd.choice([0, 255, 255, rnd.randrange(256)]) for _ in range(rnd.randint(1, 12))] + [rnd.choice([0, 1, 2, 6, 7, 29, 30, 31, 32, 128, 255])]
        else:
            f = [255] * rnd.randint(1, 130)
            for _ in range(rnd.choice([0, 1, 3])):
                f[rnd.randrange(len(f))] = rnd.randrange(256)
            f += [rnd.choice([1, 2, 3, 7, 30])]
        ops.append({"o": "match", "b": data(rnd, rnd.choice([0, 1, 2, 3, 4, 9])), "f": f, "bpk": rnd.choice(bpks)})
    for i in range(600 if c.thorough else 120):
        k, n = data(rnd, rnd.choice([1, 2, 4, 8, 40])), rnd.choice([2, 3, 9, 16, 17, 64])
        f = [rnd.choice([255, 255, rnd.randrange(256)]) for _ in range(n)] + [rnd.choice([1, 2, 6, 30])]
        steps = [[k, f]]
        for _ in range(12):
            k, f = list(k), list(f)
            x = rnd.random()
            if x < .5:
                f[rnd.randrange(n)] ^= rnd.choice([255, 1 << rnd.randrange(8)])
            elif x < .6:
                f = [255] * n + f[-1:]
            elif x < .7:
                f = [0] * n + f[-1:]
            elif x < .8:
                f[-1] = rnd.choice([0, 1, 2, 6, 30, 31])
            else:
                k[rnd.randrange(len(k))] ^= 1 << rnd.randrange(8)
            steps.append([k, f])
        ops.append({"o": "asked", "bpk": rnd.choice(bpks), "steps": steps + steps[:1]})
    rnd.shuffle(ops)
    c.conform("pure", "PureTrace", ahead(first, cases_of(ops, 60)), chunk=300)


def related(rnd):
    """two keys that have much in common"""
    a = data(rnd, rnd.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 40, 200]))
    k = rnd.random()
    b = list(a)
    if k < .2:
        return a, data(rnd, rnd.randrange(10))
    if k < .4:
        return a, b[:rnd.randint(0, len(b))]
    if k < .5:
        return a, b + data(rnd, rnd.randint(0, 3))
    if b:
        i = rnd.randrange(len(b))
        b[i] = rnd.choice([(b[i] + 1) % 256, (b[i] + 2) % 256, b[i] ^ 128, 255 - b[i], 0, 255, rnd.randrange(256)])
        if rnd.random() < .3:
            b = b[:i + 1]
        if rnd.random() < .3:
            a = a[:i + 1]
        if rnd.random() < .3:
            b[i + 1:] = data(rnd, rnd.randrange(4))
    return (a, b) if rnd.random() < .5 else (b, a)


FEW = [0, 1, 127, 128, 254, 255]


def short(n, alphabet=FEW):
    return [list(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def c19(c):
    c.model("PureMC", MC % ("order", 3, "Order"), "Order")
    c.model("PureMC", MC % ("trans", 3 if c.thorough else 2, "Transitive"), "Transitive", workers=8)
    rnd = random.Random(c.seed * 191 + 1)
    ops = [{"o": "compare", "b": a, "c": b, "shift": rnd.randrange(256)} for a in short(2) for b in short(2)]
    first = storms(c, rnd, "compare")
    for a in range(256):
        for b in ({(a + 1) % 256, (a + 128) % 256, a, 0, 255} if not c.thorough else range(256)):
            ops.append({"o": "compare", "b": [a], "c": [b], "shift": rnd.randrange(256)})
    for _ in range(100000 if c.thorough else 9000):
        a, b = related(rnd)
        ops.append({"o": "compare", "b": a, "c": b, "shift": rnd.randrange(256)})
    for n in (255, 256, 257, 4096, 65536):
        a = data(rnd, n)
        for b in (a, a[:-1], a + [0], a[:-1] + [a[-1] ^ 1], [a[0] ^ 128] + a[1:], a[:n // 2]):
            ops.append({"o": "compare", "b": a, "c": b, "shift": rnd.randrange(256)})
    for i in range(600 if c.thorough else 150):
        a = data(rnd, rnd.choice([1, 2, 4, 8, 9, 16, 17, 40]))
        b = data(rnd, len(a)) if i % 5 == 0 else list(a) + data(rnd, rnd.choice([0, 0, 0, 1]))
        steps = [[a, b]]
        for _ in range(12):
            a, b = list(a), list(b)
            x = rnd.choice([a, b])
            x[rnd.randrange(len(x))] = rnd.choice([0, 1, 127, 128, 255])
            if rnd.random() < .3:
                n = min(len(a), len(b))
                a[:n] = b[:n]
            steps.append([a, b])
        ops.append({"o": "ordered", "steps": steps + steps[:1]})
    ops.append({"o": "cname"})
    c.conform("pure", "PureTrace", ahead(first, cases_of(ops)), chunk=4000)


def c20(c):
    c.model("PureMC", MC % ("order", 3, "Shortened"), "Shortened")
    rnd = random.Random(c.seed * 193 + 1)
    ops = [{"o": "sep", "b": a, "c": b} for a in short(2) for b in short(2)]
    first = storms(c, rnd, "sep", "succ")
    three = [0, 1, 2, 253, 254, 255]
    if c.thorough:
        ops += [{"o": "sep", "b": a, "c": b} for a in short(3, [1, 2, 3, 255]) for b in short(3, [1, 2, 3, 255])]
    ops += [{"o": "succ", "b": a} for a in short(3, three)]
    for a in range(256):
        ops.append({"o": "succ", "b": [a, 1]})
        ops.append({"o": "succ", "b": [255, 255, a]})
        for d in (1, 2, 3):
            if a + d < 256:
                ops.append({"o": "sep", "b": [7, a, 9], "c": [7, a + d]})
    # what they have in common passes the lengths that fit into a byte, and into two
    for n in (126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 4096, 65534, 65535, 65536, 65537):
        a = data(rnd, n)
        for x, y in (([1, 9], [3]), ([1], [2, 0]), ([1, 255, 5], [2]), ([255], [255, 1]), ([], [4]), ([4], []), ([7, 200, 1], [7, 202])):
            if n < 5000 or x == [1]:
                ops.append({"o": "sep", "b": a + x, "c": a + y})
        ops.append({"o": "succ", "b": [255] * n + [4, 7]})
        if n < 5000:
            ops.append({"o": "succ", "b": [255] * n})
            ops.append({"o": "succ", "b": [3] + a})
    for _ in range(80000 if c.thorough else 8000):
        a, b = related(rnd)
        ops.append({"o": "sep", "b": a, "c": b})
        if rnd.random() < .3:
            ops.append({"o": "succ", "b": [255] * rnd.choice([0, 0, 1, 2, 9]) + a})
    rnd.shuffle(ops)
    ops.append({"o": "cname"})
    c.conform("pure", "PureTrace", ahead(first, cases_of(ops)), chunk=4000)
