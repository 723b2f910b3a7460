"""Encoding: C14 round trip and wire format, C15 malformed input."""
import random
from util import *

MC = """SPECIFICATION Spec
CONSTANTS
 MaxItems = %d
 MaxInput = %d
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip ShortestVarint CutIsRefused Within
"""


def number(rnd, bits):
    x = rnd.random()
    if x < .5:
        n = rnd.randrange(bits + 1)
        return max(0, min((1 << bits) - 1, (1 << n) + rnd.choice([-2, -1, 0, 1, 5])))
    if x < .7:
        return rnd.getrandbits(rnd.randint(1, bits))
    if x < .8:
        return sum(rnd.choice([0, 0x7f, 0xff, 0x80, 1]) << s for s in range(0, bits, 8)) & ((1 << bits) - 1)
    return rnd.getrandbits(bits)


def blob(rnd):
    n = rnd.choice([0, 1, 2, 3, 7, 8, 20, 126, 127, 128, 129, 200, 300]) if rnd.random() < .9 else rnd.choice([16383, 16384, 16385, 70000, 65535, 65536, 40000])
    if n > 1000:
        return [rnd.randrange(256)] * n
    return [rnd.choice([0, 128, 255, rnd.randrange(256)]) for _ in range(n)]


def item(rnd):
    o = rnd.choice(["f32", "f64", "v32", "v64", "v32", "v64", "buf", "lps"])
    if o in ("f32", "v32"):
        x = number(rnd, 32)
        return [o, w32(x)], x
    if o in ("f64", "v64"):
        x = number(rnd, 64)
        return [o, w64(x)], x
    b = blob(rnd)
    return [o, b], b


def size_of(it, x):
    o = it[0]
    if o == "f32":
        return 4
    if o == "f64":
        return 8
    if o in ("v32", "v64"):
        return max(1, (x.bit_length() + 6) // 7)
    n = len(x)
    return n if o == "buf" else n + max(1, (n.bit_length() + 6) // 7)


def get_for(rnd, it, unchecked):
    o = it[0]
    u = "u" if unchecked else ""
    if o == "buf":
        n = len(it[1])
        if rnd.random() < .3:
            return [u + "skip", n]
        return [u + "buf", n]
    return [u + o]


def round_trips(c, n):
    rnd = random.Random(c.seed * 151 + 1)
    cases = []
    # every number around a power of two, in one sequence of its kind
    for o, bits in (("f32", 32), ("v32", 32), ("f64", 64), ("v64", 64)):
        xs = sorted({max(0, min((1 << bits) - 1, (1 << k) + d)) for k in range(bits + 1) for d in (-1, 0, 1)})
        w = w32 if bits == 32 else w64
        for kind, src, u in (("vec", "buf", False), ("vec", "enc", True), ("buf", "slice", False), ("slice", "vec", False)):
            total = sum(size_of([o], x) for x in xs)
            cases.append({"kind": kind, "init": [] if kind == "vec" else [170] * total, "puts": [[("u" if u else "") + o, w(x)] for x in xs],
                          "gets": [[("u" if u else "") + o] for _ in xs] + [[o]], "src": src, "vlen": [w64(x) for x in xs]})
        # one a buffer of its exact size, and one byte less
        for x in xs:
            k = size_of([o], x)
            for kind in ("buf", "slice"):
                cases.append({"kind": kind, "init": [171] * (k - 1), "puts": [[o, w(x)]], "gets": [], "src": "buf"})
                cases.append({"kind": kind, "init": [171] * k, "puts": [[o, w(x)], [o, w(0)]], "gets": [[o], [o]], "src": rnd.choice(["buf", "enc", "slice"])})
    for i in range(n):
        its = [item(rnd) for _ in range(rnd.choice([1, 2, 4, 8, 25]))]
        total = sum(size_of(t, x) for t, x in its)
        kind = rnd.choice(["vec", "vec", "buf", "slice"])
        if kind == "vec":
            init = [rnd.randrange(256) for _ in range(rnd.choice([0, 0, 0, 1, 5, total, total + 3, max(0, total - 1)]))] if total < 3000 else []
            fit = True
        else:
            room = rnd.choice([total, total, total + 1, total - 1, total - rnd.randint(0, total), total + 50])
            fit = room >= total
            init = [165] * max(0, room)
        un = rnd.random() < .3
        puts = [[("u" if un and fit else "") + t[0], t[1]] for t, _ in its]
        gets = [get_for(rnd, t, rnd.random() < .3) for t, _ in its] if fit else []
        cases.append({"kind": kind, "init": init, "puts": puts, "gets": gets, "src": rnd.choice(["vec", "buf", "slice", "enc"]),
                      "vlen": [w64(number(rnd, 64)) for _ in range(2)]})
    # lengths that take four and five bytes
    for k in (14, 21) + ((28,) if c.thorough else ()):
        for size in ((1 << k) - 1, 1 << k, (1 << k) + rnd.randint(1, 999)):
            whole = 1 + (size.bit_length() + 6) // 7 + size + 4
            for room in (0, whole, whole + 3, whole - 1) if k < 28 else (0, whole):
                cases.append({"kind": "far", "n": size, "room": room, "seed": rnd.getrandbits(30)})
    return cases


def c14(c):
    c.model("CodingMC", MC % ((3, 4) if c.thorough else (2, 3)), workers=8)
    c.conform("coding", "CodingTrace", round_trips(c, 9000 if c.thorough else 700))


HUGE = 1 << 30


def malformed(rnd):
    x = rnd.random()
    if x < .35:
        # varints with many continuation bytes
        n = rnd.randint(1, 13)
        return [rnd.choice([128, 129, 255, rnd.randint(128, 255)]) for _ in range(n)] + rnd.choice([[], [0], [1], [127], [15], [16], [128], [2]])
    if x < .5:
        # lengths beyond the end, up to 2^32 - 1
        ln = rnd.choice([1, 5, 127, 128, 1000, 1 << 31, (1 << 32) - 1, (1 << 28), (1 << 31) - 1, (1 << 32) - 4])
        v, out = ln, []
        while v >= 128:
            out.append(v & 127 | 128)
            v >>= 7
        return out + [v] + [7] * rnd.choice([0, 1, 4, min(ln, 130), max(0, min(ln, 130) - 1)])
    if x < .6:
        return [rnd.choice([0, 127, 128, 255]) for _ in range(rnd.randint(0, 12))]
    return [rnd.randrange(256) for _ in range(rnd.randint(0, 24))]


def any_get(rnd):
    o = rnd.choice(["f32", "f64", "v32", "v64", "v32", "v64", "lps", "lps", "buf", "skip"])
    if o in ("buf", "skip"):
        return [o, rnd.choice([0, 1, 2, 4, 5, 8, 100, HUGE, HUGE + 1, HUGE + 2, HUGE + rnd.randint(0, 20), 70000])]
    return [o]


def c15(c):
    c.model("CodingMC", MC % ((2, 5) if c.thorough else (1, 4)), workers=8)
    rnd = random.Random(c.seed * 157 + 1)
    cases = []
    for i in range(40000 if c.thorough else 3000):
        data = malformed(rnd) + (malformed(rnd) if rnd.random() < .3 else [])
        gets = [any_get(rnd) for _ in range(rnd.choice([1, 2, 3, 6]))]
        cases.append({"kind": "vec", "init": data, "puts": [], "gets": gets, "src": rnd.choice(["vec", "buf", "slice", "enc"])})
    # every input of up to two interesting bytes, every read
    few = [0, 1, 4, 127, 128, 129, 255]
    for data in [[]] + [[a] for a in few] + [[a, b] for a in few for b in few]:
        for o in ("f32", "f64", "v32", "v64", "lps"):
            cases.append({"kind": "vec", "init": data, "puts": [], "gets": [[o], [o], [o]], "src": "buf"})
        for n in (0, 1, 2, 3, HUGE, HUGE + 1, HUGE + 2):
            cases.append({"kind": "vec", "init": data, "puts": [], "gets": [["skip", 1], ["buf", n], ["skip", n]], "src": "buf"})
    # cut off encodings
    for i in range(10000 if c.thorough else 900):
        its = [item(rnd) for _ in range(rnd.choice([1, 2, 5]))]
        total = sum(size_of(t, x) for t, x in its)
        if total > 3000:
            continue
        cases.append({"kind": "vec", "init": [], "puts": [t for t, _ in its], "gets": [get_for(rnd, t, False) for t, _ in its] + [any_get(rnd)],
                      "cut": rnd.randint(0, total), "src": rnd.choice(["vec", "buf", "slice"])})
    c.conform("coding", "CodingTrace", cases)
