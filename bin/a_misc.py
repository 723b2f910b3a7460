"""C24 linked list, C25 histogram, C26 slices, C27 statuses, C28 random generator."""
import itertools, random
from util import *

MC = """SPECIFICATION Spec
CONSTANTS
 What = "%s"
 MaxOps = %d
CHECK_DEADLOCK FALSE
INVARIANTS %s
"""


def c24(c):
    c.model("MiscMC", MC % ("list", 8 if c.thorough else 7, "ListOk ListRefuses"), "LinkedList", workers=8)
    rnd = random.Random(c.seed * 223 + 1)
    cases = []

    def look(n):
        return [["get", p, 0] for p in range(n + 1)]
    # every way to add up to four elements, and all of the list after each
    for n in range(0, 5 if not c.thorough else 6):
        for places in itertools.product(*[range(-2, k + 1) for k in range(n)]):
            ops = []
            for k, p in enumerate(places):
                ops.append([rnd.choice(["push", "add_first"]), k + 10, 0] if p == -2 else [rnd.choice(["add", "add_last"]), k + 10, 0] if p == -1 else ["add_at", p, k + 10])
                if k == n - 1 or rnd.random() < .2:
                    ops += look(k + 1)
            cases.append({"kind": "list", "make": rnd.choice(["default", "new"]), "ops": ops + [["get", n, 0], ["get", -1, 0], ["add_at", n + 1, 5], ["get_mut", n, 5], ["get", 0, 0]]})
    for i in range(4000 if c.thorough else 400):
        n, ops = 0, []
        for j in range(rnd.choice([5, 20, 60])):
            x = rnd.random()
            if x < .35:
                p = rnd.choice([0, n, n + 1, rnd.randint(0, n), rnd.randint(0, n), -1 if rnd.random() < .1 else 1])
                ops.append(["add_at", p, j + 100])
                n += 0 <= p <= n
            elif x < .55:
                ops.append([rnd.choice(["add", "push", "add_first", "add_last"]), j + 100, 0])
                n += 1
            elif x < .65:
                ops.append(["get_mut", rnd.randint(0, n + 1), j + 1000])
            else:
                ops.append(["get", rnd.choice([rnd.randint(0, n + 1), 0, max(0, n - 1), n // 2]), 0])
        cases.append({"kind": "list", "make": rnd.choice(["default", "new"]), "ops": ops + look(n)})
    # a long one
    ops, n = [], 0
    for j in range(300):
        p = rnd.choice([0, n, n // 2, rnd.randint(0, n)])
        ops.append(["add_at", p, j + 100] if rnd.random() < .6 else [rnd.choice(["add", "push", "add_first", "add_last"]), j + 100, 0])
        n += 1
        if j % 50 == 0 or j in (255, 256, 257):
            ops += [["get", rnd.randint(0, n), 0], ["get_mut", rnd.randrange(n), j + 3000], ["get", n - 1, 0], ["get", n, 0]]
    cases.append({"kind": "list", "make": "new", "ops": ops + look(n)})
    c.conform("misc", "MiscTrace", cases, chunk=4000)


def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


LIMITS = list(range(1, 10)) + [s * 10 ** k for k in range(9) for s in (10, 12, 14, 16, 18, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90)]


def c25(c):
    c.model("MiscMC", MC % ("hist", 4 if c.thorough else 3, "HistOk"), "Histogram", workers=8)
    rnd = random.Random(c.seed * 227 + 1)
    cases = []
    # both sides of the end of every bucket
    for k in LIMITS:
        ops = []
        for x in (4 * k - 1, 4 * k, 4 * k + 1):
            ops += [["add", 0, limbs(x)], ["show", 0], ["add", 1, limbs(x)], ["show", 1], ["clear", 1, 0]]
        cases.append({"kind": "hist", "n": 2, "ops": ops})

    def sample():
        x = rnd.random()
        if x < .1:
            return 0
        if x < .5:
            return rnd.randrange(400)
        if x < .8:
            return max(0, 4 * rnd.choice(LIMITS[:90]) + rnd.choice([-1, 0, 1]))
        return rnd.randrange(1 << rnd.randint(1, 38)) % 400000000000
    for i in range(6000 if c.thorough else 500):
        n = rnd.choice([1, 2, 3])
        ops = []
        small = rnd.random() < .5
        for _ in range(rnd.choice([3, 8, 20, 40])):
            j = rnd.randrange(n)
            x = rnd.random()
            if x < .6:
                v = rnd.choice([3, 4, 5, 40, 48, 60, 100]) if small and rnd.random() < .6 else rnd.randrange(4000) if small else sample()
                for _ in range(rnd.choice([1, 1, 1, 4])):
                    ops.append(["add", j, limbs(v)])
            elif x < .75 and n > 1:
                ops.append(["merge", j, (j + rnd.randint(1, n - 1)) % n])
            elif x < .8:
                ops.append(["clear", j, 0])
            else:
                ops.append(["show", j, 0])
        # merging doubles: keep the number of samples low
        size, keep = [0] * n, []
        for o in ops:
            if o[0] == "add":
                size[o[1]] += 1
            elif o[0] == "merge":
                if size[o[1]] + size[o[2]] > 60:
                    continue
                size[o[1]] += size[o[2]]
            elif o[0] == "clear":
                size[o[1]] = 0
            keep.append(o)
        cases.append({"kind": "hist", "n": n, "ops": keep + [["show", j, 0] for j in range(n)]})
    # far into the last bucket
    for x in (1 << 72, 1 << 400, (1 << 510) - (1 << 480)):
        cases.append({"kind": "hist", "n": 2, "ops": [["add", 0, limbs(x)], ["show", 0, 0], ["merge", 1, 0], ["add", 0, limbs(x)], ["merge", 0, 1], ["add", 0, limbs(x)], ["show", 0, 0], ["show", 1, 0]]})
    # many samples
    for top in (30, 3000, 10 ** 9):
        ops = []
        for j in range(700):
            ops.append(["add", 0, limbs(rnd.randrange(top))])
            if j in (254, 255, 256):
                ops.append(["show", 0, 0])
            if j == 200:
                ops += [["merge", 1, 0], ["show", 1, 0]]
        ops += [["merge", 0, 1], ["show", 0, 0]]
        cases.append({"kind": "hist", "n": 2, "ops": ops})
    c.conform("misc", "MiscTrace", cases, chunk=1200)


TEXTS = ["", "a", "ab", "abc", "abd", "hello", "hello world", "b", "\u00e9", "\u4e2d\u6587", "\U0001f600", "A", "zzzzzzzzzzzzzzzzzzzzzzzz"]


def some_bytes(rnd):
    x = rnd.random()
    if x < .25:
        return list(rnd.choice(TEXTS).encode())
    if x < .5:
        return [rnd.choice([97, 98]) for _ in range(rnd.randrange(5))]
    if x < .8:
        return [rnd.choice([0, 97, 127, 128, 255, 195, 169, 237, 160, 224, 240, 244, 144]) for _ in range(rnd.randrange(7))]
    return [rnd.randrange(256) for _ in range(rnd.choice([1, 8, 40, 200]))]


def slice_ops(rnd, n):
    ops = [[rnd.choice(["buf", "vec", "raw"]), i, some_bytes(rnd), 0] for i in range(n) if rnd.random() < .8]
    size = 8
    for _ in range(rnd.choice([10, 30, 60])):
        i, j = rnd.randrange(n), rnd.randrange(n)
        o = rnd.choice(["buf", "vec", "str", "raw", "size", "sub", "rmpre", "starts", "starts", "merge", "merge", "at", "range", "from", "to", "setrange", "setfrom", "setto",
                        "clone", "clone", "cmp", "cmp", "bytes", "string", "as_str", "show", "borrow"])
        a, b = rnd.choice([0, 0, 1, 2, 3, 5, 8, size]), rnd.choice([0, 1, 2, 3, 5, 8, size, 300])
        if o in ("buf", "vec", "raw"):
            ops.append([o, i, some_bytes(rnd), 0])
        elif o == "str":
            ops.append([o, i, list(rnd.choice(TEXTS).encode()), 0])
        elif o in ("starts", "clone", "cmp"):
            ops.append([o, i, j, 0])
        elif o == "merge":
            ops.append([o, i, j, rnd.choice([0, 0, list(b": "), [], list(b",")])])
        else:
            ops.append([o, i, a, b])
    return ops + [["bytes", i, 0, 0] for i in range(n)]


def c26(c):
    rnd = random.Random(c.seed * 229 + 1)
    cases = []
    # every access to short slices
    for b in ([], [7], [7, 200], [0, 255, 97], [97, 98, 97, 98]):
        n = len(b)
        ops = [["buf", 0, b, 0], ["size", 0, 0, 0]]
        for i in range(n + 2):
            ops += [["at", 0, i, 0], ["rmpre", 0, i, 0], ["from", 0, i, 0], ["to", 0, 0, i]]
            for k in range(n + 2):
                ops += [["sub", 0, i, k], ["range", 0, i, k]]
                if i <= k:
                    ops += [["buf", 0, b, 0], ["setrange", 0, i, k], ["bytes", 0, 0, 0]]
            ops += [["buf", 0, b, 0], ["setfrom", 0, i, 0], ["bytes", 0, 0, 0], ["buf", 0, b, 0], ["setto", 0, 0, i], ["bytes", 0, 0, 0], ["buf", 0, b, 0]]
        cases.append({"kind": "slice", "n": 1, "ops": ops})
    few = [list(t) for k in range(3) for t in itertools.product([0, 97, 255], repeat=k)]
    for a in few:
        ops = [["vec", 0, a, 0]]
        for b in few:
            ops += [["buf", 1, b, 0], ["cmp", 0, 1, 0], ["starts", 0, 1, 0], ["clone", 0, 2, 0], ["merge", 2, 1, rnd.choice([0, [58, 32], []])], ["bytes", 2, 0, 0], ["bytes", 0, 0, 0], ["bytes", 1, 0, 0]]
        cases.append({"kind": "slice", "n": 3, "ops": ops})
    # lengths that pass one byte, and two
    for n in (127, 128, 129, 255, 256, 257, 300, 4096, 65535, 65536, 65537, 70000):
        b = [rnd.randrange(256) for _ in range(n)]
        at = sorted({0, 1, n - 1, n, n + 1, n // 2, n - n % 256, 255, 256} if n < 5000 else {1, n - 1, n, 65535})
        ops = [["vec", 0, b, 0], ["size", 0, 0, 0], ["clone", 0, 1, 0], ["cmp", 0, 1, 0], ["starts", 0, 1, 0]]
        for i in at:
            ops += [["at", 0, i, 0], ["sub", 0, i, 3], ["sub", 0, 1, i], ["from", 0, i, 0], ["to", 0, 0, i], ["range", 0, 2, i]] if n < 5000 else [["at", 0, i, 0], ["sub", 0, i, 3], ["from", 0, i, 0]]
        ops += [["buf", 2, b[:-1] + [b[-1] ^ 1], 0], ["cmp", 0, 2, 0], ["starts", 0, 2, 0], ["to", 1, 0, n - 1], ["setto", 2, 0, n - 1], ["starts", 0, 2, 0], ["cmp", 0, 2, 0],
                ["merge", 2, 0, [58, 32]], ["size", 2, 0, 0], ["rmpre", 2, n - 1, 0], ["bytes", 2, 0, 0], ["setrange", 0, 3, n - 2], ["bytes", 0, 0, 0], ["rmpre", 0, n - 7, 0], ["bytes", 0, 0, 0], ["size", 1, 0, 0]]
        cases.append({"kind": "slice", "n": 3, "ops": ops})
    # text: what is UTF-8 and what is not
    ops = []
    for t in TEXTS + ["\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff"]:
        e = list(t.encode())
        for v in (e, e[:-1], e + [128], [195] + e, e[1:]):
            ops += [["vec", 0, v, 0], ["as_str", 0, 0, 0]]
    for v in ([192, 128], [193, 191], [224, 159, 191], [237, 160, 128], [240, 143, 191, 191], [244, 144, 128, 128], [245, 128, 128, 128], [255], [254]):
        ops += [["vec", 0, v, 0], ["as_str", 0, 0, 0], ["show", 0, 0, 0]]
    cases.append({"kind": "slice", "n": 1, "ops": ops})
    for _ in range(5000 if c.thorough else 450):
        n = rnd.choice([2, 3, 4])
        cases.append({"kind": "slice", "n": n, "ops": slice_ops(rnd, n)})
    # slices in an arena
    for _ in range(4000 if c.thorough else 350):
        ops, sizes, owned = [], [], 0
        for _ in range(rnd.choice([5, 20, 50])):
            x = rnd.random()
            if not sizes or x < .25:
                b = some_bytes(rnd)
                if rnd.random() < .05:
                    b = [rnd.randrange(256)] * rnd.choice([1000, 1024, 1025, 4096, 5000])
                ops.append(["make", b, 0, 0])
                sizes.append(len(b))
            elif x < .45:
                i = rnd.randrange(len(sizes))
                a, b = rnd.choice([0, 1, sizes[i], sizes[i] // 2]), rnd.choice([0, 1, sizes[i], sizes[i] // 2, sizes[i] + 1])
                ops.append(["sub", i, a, b])
                if a + b <= sizes[i]:
                    sizes.append(b)
            elif x < .6:
                ops.append(["to_slice", rnd.randrange(len(sizes)), 0, 0])
                owned += 1
            elif x < .7 and owned:
                ops.append(["mutate", rnd.randrange(owned), 0, 0])
            elif x < .8 and owned:
                ops.append(["owned", rnd.randrange(owned), 0, 0])
            else:
                ops.append([rnd.choice(["len", "bytes", "str", "show"]), rnd.randrange(len(sizes)), 0, 0])
        ops += [["bytes", i, 0, 0] for i in range(len(sizes))]
        cases.append({"kind": "uslice", "ops": ops})
    c.conform("misc", "MiscTrace", cases, chunk=3000)


def c27(c):
    rnd = random.Random(c.seed * 233 + 1)
    makes = ["ok", "default", "not_found", "corruption", "corruption_string", "not_supported", "invalid_argument", "repeated_record", "io_error", "io", "poison", "wrapper_str", "wrapper", "wrappers"]
    # I/O errors of every kind, and of every number of the operating system
    ops = [{"mk": "io_os", "m1": [], "m2": [], "c": n} for n in range(0, 135)] + [{"mk": mk, "m1": [97], "m2": [], "c": n} for mk in ("io_kind", "io") for n in range(20)]
    for mk in makes:
        for code in range(8) if mk.startswith("wrap") else [0]:
            for m1 in ("", "a", "IO error: ", "\u6d88\u606f", "x" * 300):
                for m2 in ("", "b", ": ", "\u00e9"):
                    ops.append({"mk": mk, "m1": list(m1.encode()), "m2": list(m2.encode()), "c": code})
    for _ in range(20000 if c.thorough else 2000):
        mk = rnd.choice(makes)
        ops.append({"mk": mk, "m1": list(rnd.choice(TEXTS).encode()), "m2": list(rnd.choice(TEXTS).encode()), "c": rnd.randrange(8)})
    codes = list(range(-300, 300)) + [1 << k for k in range(31)] + [-(1 << k) for k in range(32)] + [(1 << k) + d for k in (8, 16, 24) for d in range(9)]
    cases = [{"kind": "status", "ops": ops[i:i + 200], "codes": codes if i == 0 else []} for i in range(0, len(ops), 200)]
    c.conform("misc", "MiscTrace", cases, chunk=3000)


def c28(c):
    c.model("MiscMC", MC % ("rand", 3000 if c.thorough else 400, "RandOk"), "Rand", workers=8)
    rnd = random.Random(c.seed * 239 + 1)
    cases = []
    seeds = [0, 1, 2, 301, (1 << 31) - 1, (1 << 31) - 2, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 2, 0xdeadbeef, 16807, 127773]
    # those whose next number is extreme
    inv = pow(16807, -1, 1 << 32)
    for want in (0x7fffffff, 0x80000000, 0xffffffff, 0x7ffffffe, 0x80000001, 1, 2, 0xfffffffe):
        seeds.append(want * inv % (1 << 32))
    seeds += [1 << k for k in range(32)] + [rnd.getrandbits(32) for _ in range(2000 if c.thorough else 200)]
    for s in seeds:
        cases.append({"kind": "rand", "seed": w32(s), "ops": [["next", 0]] * (20 if s else 600)})
        ops = []
        for _ in range(40):
            o = rnd.choice(["next", "uniform", "uniform", "one_in", "bool", "skewed", "skewed"])
            n = rnd.choice([0, 1, 2, 5, 10, 17, 30, 31]) if o == "skewed" else rnd.choice([1, 2, 3, 4, 7, 10, 100, 1000, 65536, 1 << 20, (1 << 31) - 1, 1 << 30, rnd.randint(1, 1 << 30)])
            ops.append([o, n])
        cases.append({"kind": "rand", "seed": w32(s), "ops": ops})
    c.conform("misc", "MiscTrace", cases, chunk=2500)


MMC = """SPECIFICATION Spec
CONSTANTS
 Users = %d
 Cells = %d
 Rounds = %d
CHECK_DEADLOCK FALSE
INVARIANTS Exclusive NothingLost Poison NeverAlone
PROPERTY Ends
"""


def c29(c):
    c.model("MutexMC", MMC % (3, 2, 2), "MutexLock", workers=8)
    if c.thorough:
        c.model("MutexMC", MMC % (4, 2, 2), "MutexLock-4", workers=8, timeout=3000)
    rnd = random.Random(c.seed * 251 + 1)
    cases = []
    # every short history of two users of one lock, and of two locks
    steps = [[o, a, 7 + a] for a in (0, 1) for o in ("take", "try", "set", "give", "panic")]
    for n in (2, 3, 4):
        for ops in itertools.product(steps, repeat=n):
            if ops[0][0] not in ("take", "try") or n == 4 and rnd.random() > (.5 if c.thorough else .06):
                continue
            cases.append({"cells": [5], "actors": [0, 0], "ops": [*ops, ["get", 0, 0], ["get", 1, 0]]})
    for _ in range(4000 if c.thorough else 400):
        m, n = rnd.choice([1, 1, 2, 3]), rnd.choice([2, 3, 4, 5])
        ops = []
        for j in range(rnd.choice([10, 30, 60])):
            o = rnd.choice(["take", "take", "try", "try", "set", "set", "get", "give", "give", "give", "panic" if rnd.random() < .3 else "give"])
            ops.append([o, rnd.randrange(n), j + 10])
        if rnd.random() < .5:
            ops.insert(rnd.randrange(len(ops)), ["drop", rnd.randrange(m), 0])
        cases.append({"cells": [rnd.randrange(100) for _ in range(m)], "actors": [rnd.randrange(m) for _ in range(n)], "ops": ops})
    # at full speed: locks of one's own, locks that all share, and both
    n = 8 if c.thorough else 1
    for tries in (True, False):
        cases += [{"race": [[t * 40 + i for i in range(40)] for t in range(8)], "rounds": 5000 * n, "try": tries},
                  {"race": [[0]] * 8, "rounds": 30000 * n, "try": tries},
                  {"race": [[0, 1 + t, 9] for t in range(8)], "rounds": 10000 * n, "try": tries},
                  {"race": [[t // 2] for t in range(8)], "rounds": 30000 * n, "try": tries}]
    c.conform("sync", "MutexTrace", cases, chunk=6000, case_ms=200000)
