"""C21 memory table and lookup keys, C22 filter block, C23 version edit."""
import random
from util import *

MC = """SPECIFICATION Spec
CONSTANTS
 What = "%s"
 MaxOps = %d
CHECK_DEADLOCK FALSE
INVARIANTS %s
"""
MAXSEQ = (1 << 56) - 1


def seq(rnd):
    k = rnd.random()
    if k < .4:
        return rnd.randrange(300)
    if k < .7:
        return min(MAXSEQ, max(0, (1 << rnd.randrange(57)) + rnd.choice([-1, 0, 1])))
    return rnd.getrandbits(rnd.randint(1, 56))


def user_key(rnd, big=True):
    k = rnd.random()
    if k < .5:
        return [rnd.choice([0, 1, 97, 98, 127, 128, 255]) for _ in range(rnd.randrange(5))]
    if k < .8:
        return list(b"user%05d" % rnd.randrange(2000))
    n = rnd.choice([8, 100, 118, 119, 120, 121, 127, 128, 129, 255, 256] + ([5000, 16375, 16376, 16384] if big else [300]))
    return [rnd.randrange(256)] * n if n > 600 else [rnd.randrange(256) for _ in range(n)]


def c21(c):
    c.model("KeysMC", MC % ("mem", 3 if c.thorough else 2, "MemOk"), "MemTable", workers=8)
    rnd = random.Random(c.seed * 197 + 1)
    cases = []
    ops = []
    for n in list(range(0, 20)) + list(range(110, 136)) + [255, 256, 1000, 16374, 16375, 16376, 16377]:
        ops.append({"o": "lookup", "k": [rnd.randrange(256)] * n if n > 300 else [rnd.randrange(256) for _ in range(n)], "s": w64(seq(rnd))})
    for k in range(57):
        for d in (-1, 0, 1):
            x = min(MAXSEQ, max(0, (1 << k) + d))
            ops.append({"o": "lookup", "k": [rnd.randrange(256) for _ in range(rnd.randrange(4))], "s": w64(x)})
            for t in (0, 1):
                ops.append({"o": "pack", "s": w64(x), "t": t})
    for _ in range(6000 if c.thorough else 500):
        ops.append({"o": "lookup", "k": user_key(rnd), "s": w64(seq(rnd))})
        ops.append({"o": "pack", "s": w64(seq(rnd)), "t": rnd.randrange(2)})
    for x in list(range(-3, 12)) + [255, 256, 257, -256, 1 << 16, (1 << 16) + 1, (1 << 31) - 1, -(1 << 31)]:
        ops.append({"o": "vtype", "x": x})
    cases += [{"kind": "one", "ops": ops[i:i + 60]} for i in range(0, len(ops), 60)]
    for i in range(2500 if c.thorough else 160):
        ops = []
        some = [user_key(rnd, i % 5 == 0) for _ in range(rnd.choice([1, 3, 20]))]
        n = rnd.choice([1, 3, 10, 30, 60])
        seqs = rnd.choice(["up", "down", "any"])
        s = seq(rnd)
        for j in range(n):
            s = min(MAXSEQ, s + 1) if seqs == "up" else max(0, s - 1) if seqs == "down" else seq(rnd)
            v = [rnd.randrange(256) for _ in range(rnd.choice([0, 0, 1, 5, 30, 126, 127, 128, 129]))]
            if rnd.random() < .03:
                v = [rnd.randrange(256)] * rnd.choice([1000, 4000, 4095, 4096, 5000, 16383, 16384, 20000])
            t = rnd.randrange(2)
            ops.append({"o": "mt_add", "k": rnd.choice(some), "v": [] if t == 0 and rnd.random() < .5 else v, "s": w64(s), "t": t,
                        "coins": [int(rnd.random() < rnd.choice([.5, .9, 0])) for _ in range(12)]})
            if rnd.random() < .04:
                ops.append(dict(ops[rnd.randrange(len(ops))]))
                if ops[-1]["o"] == "mt_dump":
                    ops.pop()
            if rnd.random() < .08:
                ops.append({"o": "mt_dump"})
        ops.append({"o": "mt_dump"})
        cases.append({"kind": "memtable", "ops": ops})
    c.conform("keys", "KeysTrace", cases, chunk=900)


def c22(c):
    c.model("KeysMC", MC % ("filter", 5 if c.thorough else 4, "FilterOk"), "FilterBlock", workers=8)
    rnd = random.Random(c.seed * 199 + 1)
    cases = []
    for i in range(9000 if c.thorough else 600):
        pol = "plain" if rnd.random() < .7 else "bloom"
        at, ops = rnd.choice([0, 0, 0, 5, 2047, 2048, 30000]), []
        if rnd.random() < .8:
            ops.append({"o": "fb_start", "x": at})
        for _ in range(rnd.choice([0, 1, 2, 4, 9, 25])):
            for _ in range(rnd.choice([0, 0, 1, 1, 2, 5])):
                if rnd.random() < .4:
                    ops.append({"o": "fb_str", "k": list(rnd.choice(["", "a", "foo", "bar", "box", "hello", "\u00e9t\u00e9", "\u4e2d\u6587"]).encode())})
                else:
                    ops.append({"o": "fb_key", "k": [rnd.choice([0, 97, 128, 195, 255, rnd.randrange(256)]) for _ in range(rnd.choice([0, 1, 3, 8, 30, 200 if rnd.random() < .1 else 2]))]})
            at += rnd.choice([0, 1, 100, 1000, 2047, 2048, 2049, 4096, 5000, 2048 - at % 2048, 2047 - at % 2048, rnd.choice([20000, 70000, 300000]) if rnd.random() < .3 else 10])
            ops.append({"o": "fb_start", "x": at})
        for _ in range(rnd.choice([0, 1, 3])):
            ops.append({"o": "fb_key", "k": [rnd.randrange(256) for _ in range(rnd.randrange(6))]})
        ops.append({"o": "fb_finish"})
        cases.append(dict({"kind": "filter", "policy": pol, "bpk": rnd.choice([1, 5, 10, 10, 16, 44]), "ops": ops},
                          **({"cap": rnd.choice([0, 1, 64, 5000])} if rnd.random() < .3 else {})))
    # filters whose bytes take more than 2^16
    ops = []
    for j in range(420):
        ops.append({"o": "fb_key", "k": [j % 256] * 200})
        if j % 6 == 0:
            ops.append({"o": "fb_start", "x": 2048 * (j + 1)})
    cases.append({"kind": "filter", "policy": "plain", "ops": ops + [{"o": "fb_finish"}]})
    c.conform("keys", "KeysTrace", cases, chunk=1500)


def number(rnd):
    k = rnd.random()
    if k < .5:
        return max(0, min((1 << 64) - 1, (1 << rnd.randrange(65)) + rnd.choice([-1, 0, 1])))
    return rnd.getrandbits(rnd.randint(1, 64))


def level(rnd):
    return w32(rnd.choice([0, 1, 2, 6, 7, 127, 128, 16383, 16384, (1 << 32) - 1, rnd.getrandbits(32)]))


NAMES = ["", "leveldb.BytewiseComparator", "a", "b" * 127, "c" * 128, "d" * 300, "\u6bd4\u8f83\u5668", "\u00e9"]


def ikey(rnd):
    n = rnd.choice([0, 0, 8, 9, 12, 40, 119, 120, 127, 128, 300])
    return [rnd.randrange(256) for _ in range(n)]


def edit_op(rnd):
    o = rnd.choice(["comparator", "log", "prev", "next", "last", "pointer", "delete", "delete", "add", "add"])
    if o == "comparator":
        return {"o": o, "b": list(rnd.choice(NAMES).encode())}
    if o == "pointer":
        return {"o": o, "l": level(rnd), "ka": ikey(rnd)}
    if o == "delete":
        return {"o": o, "l": level(rnd), "x": w64(number(rnd))}
    if o == "add":
        return {"o": o, "l": level(rnd), "x": w64(number(rnd)), "s": w64(number(rnd)), "ka": ikey(rnd), "kb": ikey(rnd)}
    return {"o": o, "x": w64(number(rnd))}


def c23(c):
    c.model("KeysMC", MC % ("edit", 4 if c.thorough else 3, "EditOk"), "VersionEdit", workers=8)
    rnd = random.Random(c.seed * 211 + 1)
    cases = []
    enc = {"o": "encode", "b": []}
    for o in ("log", "prev", "next", "last"):
        for k in range(65):
            ops = [{"o": o, "x": w64(max(0, min((1 << 64) - 1, (1 << k) + rnd.choice([-1, 0, 1]))))}, enc]
            cases.append({"kind": "edit", "new": "", "x": w64(0), "ops": ops})
    for new in ("log", "prev"):
        for x in (0, 1, 127, 128, (1 << 64) - 1):
            cases.append({"kind": "edit", "new": new, "x": w64(x), "ops": [enc, {"o": "clear"}, enc]})
    for i in range(20000 if c.thorough else 1500):
        ops = []
        for _ in range(rnd.choice([0, 1, 2, 4, 8, 20])):
            ops.append(edit_op(rnd))
            if rnd.random() < .1:
                ops.append(enc)
            if rnd.random() < .05:
                ops += [{"o": "clear"}, enc]
        cases.append({"kind": "edit", "new": rnd.choice(["", "", "log", "prev"]), "x": w64(number(rnd)), "ops": ops + [enc]})
    tags = [{"o": "tag", "x": w32(x)} for x in list(range(0, 20)) + [255, 256, 257, 65536, 65537, 65538, 1 << 31, (1 << 32) - 1]]
    cases.append({"kind": "one", "ops": tags})
    c.conform("keys", "KeysTrace", cases, chunk=1500)


def c30(c):
    rnd = random.Random(c.seed * 241 + 1)
    cases = []
    some = [0, 1, 2, 255, 1 << 30, 1 << 32, (1 << 64) - 1]
    ints = [0, 1, 2, -1, 1 << 30, (1 << 30) - 1, 100, -(1 << 31), (1 << 31) - 1]

    def made(how=None):
        return {"o": "make", "how": how or rnd.choice(["default", "refs", "seeks", "size", "keys", "number", "all", "all", "all"]), "refs": rnd.choice(ints), "seeks": rnd.choice(ints),
                "n": w64(rnd.choice(some)), "size": w64(rnd.choice(some)), "ka": ikey(rnd), "kb": ikey(rnd)}
    # pairs that differ in one field only, or none
    base = {"o": "make", "how": "all", "refs": 3, "seeks": 7, "n": w64(5), "size": w64(9), "ka": [1] * 9, "kb": [2] * 9}
    ops = [base, dict(base)]
    for f, v in (("refs", 4), ("refs", -3), ("seeks", 8), ("n", w64(6)), ("n", w64(5 + (1 << 32))), ("size", w64(5)), ("size", w64(9 + (1 << 40))), ("ka", [2] * 9), ("ka", [1] * 8), ("kb", [1] * 9), ("kb", []), ("ka", [1] * 8 + [0])):
        ops.append(dict(base, **{f: v}))
    ops.append(dict(base, ka=base["kb"], kb=base["ka"]))
    ops.append(dict(base, n=base["size"], size=base["n"]))
    n = len(ops)
    ops += [{"o": "show", "i": i} for i in range(n)] + [{"o": "eq", "i": i, "j": j} for i in range(n) for j in range(n)]
    cases.append({"kind": "files", "ops": ops})
    hows = ["default", "refs", "seeks", "size", "keys", "number", "all"]
    for _ in range(3000 if c.thorough else 300):
        ops = [made(h) for h in hows] + [made() for _ in range(rnd.randrange(4))]
        n = len(ops)
        if rnd.random() < .5:
            ops += [dict(ops[i], how=rnd.choice(hows)) for i in range(n)]
            n *= 2
        refs = [0] * n
        for _ in range(20):
            i = rnd.randrange(n)
            o = rnd.choice(["size", "refs", "show", "eq", "eq"])
            if o == "size":
                ops.append({"o": o, "i": i, "size": w64(rnd.choice(some))})
            elif o == "refs":
                k = rnd.choice([1, -1, 2])
                if not (-100 < ops[i]["refs"] < 1000):
                    continue
                ops.append({"o": o, "i": i, "refs": k})
            else:
                ops.append({"o": o, "i": i, "j": rnd.randrange(n)})
        ops += [{"o": "show", "i": i} for i in range(n)] + [{"o": "eq", "i": i, "j": j} for i in range(n) for j in range(i + 1)]
        cases.append({"kind": "files", "ops": ops})
    c.conform("keys", "KeysTrace", cases, chunk=3000)
