"""The cache: C07 map, C08 capacity, C09 lifetimes, C10 concurrency."""
import itertools, random
from util import *
import walks

MC = """SPECIFICATION Spec
CONSTANTS
 KeyShard <- %s
 Total = %d
 ChargeSet = %s
 Slots = %s
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS BelowCapacity ExactUsage OneEntryPerKey InOwnShard InsertionOrder NeverUsedAfterRelease NothingLeaks DestroyedHoldsNothing LastInserted
PROPERTY NotMoreThanNeeded
%s"""


def same_slot(n, rnd, low=4, want_shard=None):
    """n keys of one shard and one bucket"""
    s = rnd.randrange(32) if want_shard is None else want_shard
    b = rnd.randrange(1 << low)
    # half of the hash space is cheap to search: shard is the top 5 bits, the bucket the low bits
    return keys_where(n, rnd, lambda h: (h >> 27) == s and (h & ((1 << low) - 1)) == b)


def same_shard(n, rnd):
    s = rnd.randrange(32)
    return keys_where(n, rnd, lambda h: (h >> 27) == s)


def splitting(n, rnd):
    """keys of one shard whose buckets are few, so that growing splits long chains"""
    s, b = rnd.randrange(32), [rnd.randrange(16) for _ in range(3)]
    return keys_where(n, rnd, lambda h: (h >> 27) == s and (h & 15) in b)


def model_cases(c, tier_full):
    """walks over every transition of the small model, on keys of one bucket and on keys of one hash"""
    rnd = random.Random(c.seed * 7 + 1)
    cases = []
    runs = [("KS111", 96, "{0, 1, 2, 3}", "{1}"), ("KS112", 96, "{1, 2}", "{1}")]
    if tier_full:
        runs = [("KS111", 96, "{0, 1, 2, 3}", "{1, 2}"), ("KS112", 96, "{0, 1, 2}", "{1}"), ("KS1111", 96, "{1, 2}", "{1}")]
    trans = cov = 0
    for ks, total, ch, sl in runs:
        out = c.model("CacheMC", MC % (ks, total, ch, sl, "ACTION_CONSTRAINT Edge"), "CacheMC-" + ks, workers=1, heap="4g")
        es = walks.edges_of(out)
        ws, t, v = walks.walks(es, es[0][0], 150, c.seed)
        trans += t
        cov += v
        for i, w in enumerate(ws):
            if ks == "KS112":
                a = same_slot(2, rnd)
                keys = a + keys_where(1, rnd, lambda h: h >> 27 != lhash(a[0]) >> 27, other=a)
            else:
                n = len(ks) - 2
                keys = [lambda: same_slot(n, rnd), lambda: colliding(n, rnd), lambda: colliding(2, rnd) + [], lambda: same_shard(n, rnd)][i % 4]()
                while len(keys) < n:
                    # a third key in the same bucket as the colliding pair
                    h0 = lhash(keys[0])
                    keys += keys_where(1, rnd, lambda h: h >> 27 == h0 >> 27 and h & 15 == h0 & 15, other=keys)
            cases.append({"cap": total, "len": 0, "keys": keys, "ops": w})
    c.notes["model_transitions_walked"] = cov
    c.notes["model_transitions"] = trans
    return cases


def random_ops(rnd, nk, n, charges, profile):
    ops, slots = [], 0
    held = []
    for _ in range(n):
        x = rnd.random()
        k = rnd.randrange(nk)
        if x < profile[0]:
            ops.append(["i", k, rnd.choice(charges)])
        elif x < profile[1]:
            if rnd.random() < 0.4:
                slots += 1
                held.append(slots)
                ops.append(["l", k, slots])
            else:
                ops.append(["l", k, 0])
        elif x < profile[2]:
            ops.append(["e", k])
        elif x < profile[3]:
            ops.append(["p"])
        elif held:
            ops.append(["r", held.pop(rnd.randrange(len(held)))])
        if len(held) > 12:
            ops.append(["r", held.pop(0)])
    return ops, held


def ending(rnd, held, nk):
    ops = [["l", k, 0] for k in range(nk)]
    rel = [["r", s] for s in held]
    rnd.shuffle(rel)
    cut = rnd.randint(0, len(rel))
    return ops + rel[:cut] + [["x"]] + rel[cut:]


def random_cases(seed, n, nops):
    rnd = random.Random(seed * 1000003 + 5)
    profs = [(.45, .75, .9, .91), (.7, .85, .95, .96), (.35, .55, .9, .92), (.3, .8, .85, .86), (.5, .6, .7, .8)]
    cases = []
    for i in range(n):
        kind = i % 7
        if kind == 0:
            keys = same_slot(6, rnd)
        elif kind == 1:
            keys = colliding(5, rnd)
            h0 = lhash(keys[0])
            keys += keys_where(2, rnd, lambda h: h >> 27 == h0 >> 27 and h & 15 == h0 & 15, other=keys)
        elif kind == 2:
            keys = splitting(rnd.choice([14, 20, 30]), rnd)
        elif kind == 3:
            keys = [[]] + [list(x) for x in (b"a", b"ab", b"abc", b"abcd", b"\x00", b"\x00\x00", b"\xff", b"\xff\xff\xff\xff\xff")] + \
                [[rnd.randrange(256) for _ in range(rnd.choice([1, 3, 4, 7, 8, 16, 40]))] for _ in range(12)]
            keys = [list(x) for x in {tuple(k) for k in keys}]
        elif kind == 4:
            keys = same_shard(rnd.choice([3, 8, 15]), rnd)
        elif kind == 5:
            keys = same_slot(4, rnd, 5) + same_slot(4, rnd, 5)
            keys = [list(x) for x in {tuple(k) for k in keys}]
        else:
            keys = same_slot(3, rnd, 7) if rnd.random() < .3 else same_slot(3, rnd)
        keys = unique(keys)
        cap = rnd.choice([0, 1, 31, 32, 33, 64, 96, 97, 128, 160, 320, 323, 640, 3200, 1 << 16, 1 << 20, 1 << 26])
        per = (cap + 31) // 32
        charges = rnd.choice([[1], [0, 1], [1, 2, 3], [per // 2, per // 3, 1, 0], [max(0, per - 1), per, per + 1, 1], [per // 4 + 1, per * 3, 1],
                              [0], [1, max(1, per // 5)]])
        ops, held = random_ops(rnd, len(keys), nops, charges, rnd.choice(profs))
        ops += ending(rnd, held, len(keys))
        cases.append({"cap": cap, "len": rnd.choice([0, 0, 1, 16, 17, 100, 512, 513, 1024, 4096]), "arc": rnd.random() < .3, "keys": keys, "ops": ops})
        if cap % 32 == 0 and i % 3 == 0:
            # charges beyond 2^16 and 2^32
            cases[-1]["unit"] = rnd.choice([8, 16, 29, 31, 32, 33])
        if i % 8 == 5:
            # no limit at all: a shard has 2^59, which is 32 units; and charges up to nearly 2^64
            ops, held = random_ops(rnd, len(keys), nops, rnd.choice([[1], [1, 2, 20], [0, 1, 31, 32, 33], [1, 2, 3, 5, 1023], [1, 512, 1022, 1023]]), rnd.choice(profs))
            cases[-1].update(cap=1024, unit=54, max=True, ops=ops + ending(rnd, held, len(keys)))
    return cases


def long_history(seed, nk, nops, cap):
    """many keys, short and long, over all shards"""
    rnd = random.Random(seed * 37 + nk)
    keys = unique([[rnd.randrange(256) for _ in range(rnd.choice([2, 3, 4, 5, 9]))] for _ in range(nk)] +
                  [[7] * n for n in (127, 128, 255, 256, 257, 1000, 65535, 65536, 70000)])
    ops, hot = [], rnd.sample(range(len(keys)), 40)
    for j in range(nops):
        k = rnd.choice(hot) if rnd.random() < .3 else rnd.randrange(len(keys))
        x = rnd.random()
        ops.append(["i", k, rnd.choice([0, 1, 1, 2, 5])] if x < .6 else ["l", k, 0] if x < .9 else ["e", k])
        if j == nops // 2:
            ops.append(["p"])
    return {"cap": cap, "len": rnd.choice([0, 512]), "keys": keys, "ops": ops + [["l", k, 0] for k in hot] + [["x"]]}


def growth_cases(seed, n, sizes):
    """many entries in one shard: the table grows several times; everything is looked up after each change"""
    rnd = random.Random(seed * 31 + 11)
    cases = []
    for i in range(n):
        size = sizes[i % len(sizes)]
        keys = splitting(size, rnd) if i % 2 else (colliding(4, rnd) + same_slot(size - 4, rnd) if i % 4 == 0 else same_shard(size, rnd))
        keys = unique(keys)
        ks = list(range(len(keys)))
        ops = []
        for j, k in enumerate(rnd.sample(ks, len(ks))):
            ops.append(["i", k, rnd.choice([0, 1, 2])])
            if j in (11, 12, 13, 14, 24, 25, 26, 48, 49, 50) or j % 7 == 0:
                ops += [["l", x, 0] for x in ks]
        for k in rnd.sample(ks, len(ks) * 2 // 3):
            ops.append(["e", k])
            if rnd.random() < .3:
                ops += [["l", x, 0] for x in rnd.sample(ks, min(8, len(ks)))]
        ops += [["l", x, 0] for x in ks]
        for k in rnd.sample(ks, len(ks) // 2):
            ops.append(["i", k, 1])
        ops += [["l", x, 0] for x in ks]
        if i % 2:
            ops.append(["p"])
            ops += [["l", x, 0] for x in ks[:5]]
            for k in rnd.sample(ks, len(ks)):
                ops.append(["i", k, 1])
            ops += [["l", x, 0] for x in ks]
        ops.append(["x"])
        cases.append({"cap": 1 << 20, "len": 0, "keys": keys, "ops": ops})
    return cases


def eviction_cases(seed, n):
    """fill to around the capacity, then push entries out by ones of other sizes"""
    rnd = random.Random(seed * 77 + 3)
    cases = []
    for i in range(n):
        per = rnd.choice([1, 2, 3, 5, 10, 100])
        cap = per * 32 - rnd.choice([0, 0, 1, 31]) if per > 1 else rnd.choice([1, 20, 32])
        keys = [same_slot(8, rnd), same_shard(10, rnd), colliding(6, rnd)][i % 3]
        ops = []
        for r in range(12):
            for k in rnd.sample(range(len(keys)), rnd.randint(1, len(keys))):
                ops.append(["i", k, rnd.choice([0, 1, per - 1, per, per // 2, per // 3])])
                if rnd.random() < .25:
                    ops.append(["e", rnd.randrange(len(keys))])
                ops += [["l", x, 0] for x in range(len(keys))] if rnd.random() < .2 else []
        ops += [["l", x, 0] for x in range(len(keys))] + [["x"]]
        cases.append({"cap": cap, "len": rnd.choice([0, 1000]), "keys": keys, "ops": ops})
    return cases


def c07(c):
    cases = model_cases(c, c.thorough)
    n = 2500 if c.thorough else 150
    cases += random_cases(c.seed, n, 90) + growth_cases(c.seed, n // 8, [13, 14, 20, 26, 30, 60]) + eviction_cases(c.seed, n // 6)
    cases += [long_history(c.seed, 1200, 6000, 1 << 20), long_history(c.seed, 900, 4000, 1600)]
    c.conform("cache", "CacheTrace", cases, "CONSTANT Focus = {}")


def c08(c):
    cases = model_cases(c, c.thorough)
    n = 2500 if c.thorough else 150
    cases += random_cases(c.seed + 1, n, 90) + eviction_cases(c.seed + 1, n) + growth_cases(c.seed + 1, n // 15, [14, 26])
    cases += [long_history(c.seed + 1, 900, 4000, 1600)]
    c.conform("cache", "CacheTrace", cases, 'CONSTANT Focus = {"charge"}')


def c09(c):
    cases = model_cases(c, c.thorough)
    n = 2500 if c.thorough else 150
    cases += random_cases(c.seed + 2, n, 90) + eviction_cases(c.seed + 2, n // 2) + growth_cases(c.seed + 2, n // 10, [13, 14, 26, 30])
    c.conform("cache", "CacheTrace", cases, 'CONSTANT Focus = {"life"}')


MCC = """SPECIFICATION SpecC
CONSTANTS
 Threads <- %s
 Prog <- %s
 KeyShard <- %s
 Total = %d
INVARIANTS Consistent Exclusive Genuine InOrder Apart
PROPERTY Ends
"""


def conc_keys(rnd, kind):
    if kind == 0:
        return same_slot(3, rnd)
    if kind == 1:
        return colliding(3, rnd)
    if kind == 2:
        a = same_slot(2, rnd)
        return a + keys_where(1, rnd, lambda h: h >> 27 != lhash(a[0]) >> 27, other=a)
    if kind == 3:
        return same_shard(4, rnd)
    return keys_where(3, rnd, lambda h: True)


def conc_prog(rnd, nt, nops, nk, charges, sums=True):
    th = []
    for _ in range(nt):
        ops = []
        for _ in range(nops):
            x = rnd.random()
            if x < .5:
                ops.append(["i", rnd.randrange(nk), rnd.choice(charges)])
            elif x < .85 or not sums:
                ops.append(["l", rnd.randrange(nk)])
            else:
                ops.append(["c"])
        th.append(ops)
    return th


def conc_cases(seed, nsys, nrand, depth):
    rnd = random.Random(seed * 13 + 7)
    cases = []
    # every schedule of the first steps of two threads, for a few programs
    progs = [([], [[["i", 0, 1]], [["l", 0], ["l", 0]]]),
             ([[0, 1]], [[["i", 0, 1]], [["l", 0], ["c"]]]),
             ([[0, 1], [1, 1]], [[["i", 2, 1], ["l", 0]], [["i", 0, 2], ["l", 2]]]),
             ([[0, 1], [1, 1], [2, 1]], [[["i", 1, 1]], [["i", 1, 2], ["l", 1]]]),
             ([[0, 2]], [[["i", 0, 2], ["c"]], [["i", 1, 2], ["l", 0]]])]
    for j in range(nsys):
        setup, th = progs[j % len(progs)]
        keys = conc_keys(rnd, j % 4)
        cap = [1 << 20, 128, 96][(j // 2) % 3]
        for bits in range(1 << depth):
            cases.append({"cap": cap, "len": 0, "keys": keys, "setup": setup, "threads": th,
                          "choices": [(bits >> b) & 1 for b in range(depth)], "seed": 1, "stick": 255})
    # one call interrupted at each of its steps by another one, and a few times twice
    for a in (["i", 0, 1], ["i", 2, 2], ["l", 0], ["c"]):
        for b in (["i", 0, 2], ["i", 1, 1], ["l", 1], ["c"]):
            for kind in (0, 2):
                keys = conc_keys(rnd, kind)
                for x in range(110 if a == ["c"] and b[0] == "i" else 24):
                    for y in [0] + [rnd.randint(1, 20) for _ in range(1 if nsys < 10 else 6)]:
                        cases.append({"cap": 128, "len": 0, "keys": keys, "setup": [[0, 1], [1, 1]], "threads": [[a], [b, ["l", 0]]],
                                      "choices": [0] * x + [1] * (y or 400), "seed": 1, "stick": 255})
    for i in range(nrand):
        keys = conc_keys(rnd, i % 5)
        cap = rnd.choice([1 << 20, 1 << 20, 96, 128, 64, 32 * 8])
        setup = [[rnd.randrange(len(keys)), 1] for _ in range(rnd.randint(0, 3))]
        # near a growth of the table
        if i % 6 == 0:
            s = lhash(keys[0]) >> 27
            keys = keys + keys_where(12, rnd, lambda h: h >> 27 == s, other=keys)
            setup = [[k, 1] for k in range(3, len(keys) - rnd.randint(0, 2))]
            cap = 1 << 20
        th = conc_prog(rnd, rnd.choice([2, 2, 3, 3, 4]), rnd.choice([2, 3, 4]), min(4, len(keys)), [0, 1, 2, 3])
        cases.append({"cap": cap, "len": 0, "keys": keys, "setup": setup, "threads": th, "choices": [], "seed": rnd.randrange(1, 1 << 30),
                      "stick": rnd.choice([0, 128, 200, 240, 250])})
    return cases


def free_cases(seed, n, rounds):
    """threads that are not scheduled by anyone"""
    rnd = random.Random(seed * 17 + 3)
    cases = []
    for i in range(n):
        keys = conc_keys(rnd, i % 5)
        cap = rnd.choice([1 << 20, 96, 128, 64])
        setup = [[rnd.randrange(len(keys)), 1] for _ in range(rnd.randint(0, 3))]
        if i % 4 == 0:
            s = lhash(keys[0]) >> 27
            keys = keys + keys_where(12, rnd, lambda h: h >> 27 == s, other=keys)
            setup = [[k, 1] for k in range(3, len(keys) - rnd.randint(0, 2))]
            cap = 1 << 20
        th = conc_prog(rnd, rnd.choice([2, 3, 4]), rnd.choice([2, 3]), min(4, len(keys)), [0, 1, 2, 3])
        cases.append({"cap": cap, "len": 0, "keys": keys, "setup": setup, "threads": th, "seed": rnd.randrange(1, 1 << 30), "rounds": rounds})
    return cases


def race_cases(seed, n, rounds):
    """threads with keys of their own, in shards, slots and chains of all, some or one of them"""
    rnd = random.Random(seed * 29 + 11)
    cases = []
    for i in range(n):
        t, each = rnd.choice([2, 4, 7]), rnd.choice([1, 3, 8, 40])
        kind = i % 4
        if kind == 0:
            keys = [b"%d-%d" % (i, j) for j in range(t * each)]
            keys = [list(k) for k in keys]
        elif kind == 1:
            keys = same_shard(t * each, rnd)
        elif kind == 2:
            each = min(each, 8)
            keys = same_slot(t * each, rnd)
        else:
            # every thread a shard
            keys, first = [], rnd.randrange(32)
            for a in range(t):
                keys += keys_where(each, rnd, lambda h: h >> 27 == (first + a) % 32, other=keys)
        mine = [keys[a * each:(a + 1) * each] if kind == 3 else keys[a::t] for a in range(t)]
        cases.append({"race": max(1, rounds // each // t), "mine": mine, "len": 0})
    return cases


def c10(c):
    for th, pr, ks, tot in ([("T3", "ProgA", "KS11", 96), ("T3", "ProgB", "KS12", 64), ("T2", "ProgC", "KS11", 96), ("T3", "ProgD", "KS122", 1 << 10)]):
        c.model("CacheConc", MCC % (th, pr, ks, tot), "CacheConc-" + pr, workers=4)
    cases = conc_cases(c.seed, 20 if c.thorough else 6, 20000 if c.thorough else 1500, 11 if c.thorough else 8)
    cases += race_cases(c.seed, 200 if c.thorough else 24, 200000 if c.thorough else 40000)
    cases += free_cases(c.seed, 300 if c.thorough else 24, 4000 if c.thorough else 1000)
    c.conform("conc", "CacheConcTrace", cases, silent=True, chunk=4000)


IMPL = """SPECIFICATION Spec
CONSTANTS
 HashOf <- %s
 MaxCharge = %d
 Cap = %d
 Min = 2
 Versions = %s
CHECK_DEADLOCK FALSE
INVARIANTS Layout Slots Found Usage
PROPERTIES Refines Shrinks
"""


def c31(c):
    runs = [("Chain4", 1, 3, "{1}"), ("Same3", 2, 4, "{1}"), ("Spread5", 1, 100, "{1}")]
    if c.thorough:
        runs = [("Chain4", 2, 5, "{1}"), ("Same3", 2, 4, "{1, 2}"), ("Spread5", 1, 4, "{1}"), ("Spread5", 0, 1, "{1}"), ("Chain4", 1, 3, "{1, 2}")]
    for hs, mc, cap, vs in runs:
        c.model("CacheImplMC", IMPL % (hs, mc, cap, vs), "CacheImplMC-%s-%d-%d" % (hs, mc, cap), workers=8)
    cases = model_cases(c, False)
    n = 2500 if c.thorough else 150
    cases += random_cases(c.seed + 3, n, 60) + growth_cases(c.seed + 3, n // 4, [11, 12, 13, 14, 20, 25, 26, 30, 49, 50, 60, 100])
    cases += first_lengths(c) + churn_cases(c.seed + 3, n // 4)
    c.conform("cache", "CacheImplTrace", cases)


def first_lengths(c):
    """the wanted length in all its classes, with enough keys to see the table double"""
    rnd = random.Random(c.seed * 53 + 9)
    wanted = sorted({max(0, x + d) for x in (0, 1, 16, 32, 512, 1024, 2048, 4096, 8192) for d in (-33, -32, -31, -1, 0, 1, 31, 32, 33)})
    if c.thorough:
        wanted = sorted(set(wanted) | set(range(0, 3000, 7)) | set(range(480, 1100)))
    cases = []
    for w in wanted:
        keys = same_shard(16, rnd)
        ops = [["i", k, 1] for k in range(13)] + [["p"]] + [["i", k, 1] for k in range(2, 16)] + [["e", 3], ["p"], ["i", 0, 1], ["x"]]
        cases.append({"cap": 1 << 16, "len": w, "arc": rnd.random() < .5, "keys": keys, "ops": ops})
    return cases


def churn_cases(seed, n):
    """entries that come and go around the point at which the table doubles"""
    rnd = random.Random(seed * 59 + 4)
    cases = []
    for i in range(n):
        keys = same_shard(18, rnd) if i % 2 else splitting(18, rnd)
        cap = rnd.choice([1 << 20, 13 * 32, 12 * 32, 14 * 32])
        ops = [["i", k, 1] for k in range(11)]
        live = set(range(11))
        for _ in range(40):
            k = rnd.randrange(18)
            if k in live and rnd.random() < .6:
                ops.append(["e", k])
                live.discard(k)
            elif len(live) < 13 or rnd.random() < .1:
                ops.append(["i", k, rnd.choice([1, 1, 1, 0])])
                live.add(k)
            if rnd.random() < .01:
                ops.append(["p"])
                live = set()
        cases.append({"cap": cap, "len": 0, "keys": keys, "ops": ops + [["x"]]})
    return cases


POISON = """SPECIFICATION Spec
CONSTANTS
 KeyShard <- %s
 Total = 96
 ChargeSet = %s
 MaxValues = %d
CHECK_DEADLOCK FALSE
INVARIANTS NeverUsedAfterRelease NothingForgotten OnlyPanicsLeak Apart WithinCapacity Total_
PROPERTIES BombsOnce Contained
"""


def c32(c):
    for ks, ch, mv in [("KS11", "{1, 2}", 4), ("KS112", "{1, 2}", 3)] + ([("KS112", "{0, 1, 2}", 4)] if c.thorough else []):
        c.model("CachePoisonMC", POISON % (ks, ch, mv), "CachePoisonMC-%s-%d" % (ks, mv), workers=8)
    c.conform("poison", "CachePoisonTrace", poison_short(c) + poison_random(c.seed, 12000 if c.thorough else 1500),
              silent=True, chunk=4000)


def tame(keys, cap, ops):
    """No second bomb in a shard: the same rule as OneBomb. Follows the shards as CacheShard.tla does."""
    per, sh, out, n = (cap + 31) // 32, {}, [], 0
    where = [lhash(k) >> 27 for k in keys]
    for op in ops:
        if op[0] == "i":
            n += 1
            _, k, ch, b = op
            es = sh.setdefault(where[k], [])
            if es is None or any(x[3] for x in es) or ch >= per:
                b = 0
            out.append(["i", k, ch, b])
            if es is None:
                continue
            new = [x for x in es if x[0] != k]
            gone = [x for x in es if x[0] == k]
            new.append((k, ch, n, b))
            while new and sum(x[1] for x in new) >= per:
                gone.append(new.pop(0))
            # held values do not go off: the bomb may have left without harm, which is the tame side
            sh[where[k]] = None if any(x[3] for x in gone) else new
        else:
            out.append(op)
            if op[0] == "e" and sh.get(where[op[1]]):
                es = sh[where[op[1]]]
                sh[where[op[1]]] = None if any(x[0] == op[1] and x[3] for x in es) else [x for x in es if x[0] != op[1]]
            elif op[0] == "p":
                sh = {i: None for i in range(32)}
    return out


def poison_end(rnd, nk, held):
    ops = [["l", k, 0] for k in range(nk)] + [["i", k, 1, 0] for k in range(nk)] + [["l", k, 0] for k in range(nk)]
    cut = rnd.randint(0, len(held))
    return ops + [["r", s] for s in held[:cut]] + [["d", 0], ["x"]] + [["r", s] for s in held[cut:]]


def poison_short(c):
    """every short history of two keys in one shard and one in another, with a bomb at every place"""
    rnd = random.Random(c.seed * 61 + 2)
    steps = [["i", 0, 1], ["i", 1, 1], ["i", 2, 1], ["i", 0, 2], ["e", 0], ["e", 2], ["p"], ["l", 0, 1], ["l", 1, 1]]
    pairs = []
    for _ in range(8):
        a = same_slot(2, rnd) if _ % 2 else colliding(2, rnd)
        pairs.append(a[:2] + keys_where(1, rnd, lambda h: h >> 27 != lhash(a[0]) >> 27, other=a))
    cases = []
    n = 4 if c.thorough else 3
    for w in itertools.product(steps, repeat=n):
        ins = [i for i, o in enumerate(w) if o[0] == "i"]
        if sum(o[0] == "l" for o in w) > 1:
            continue
        for b in ins:
            keys = rnd.choice(pairs)
            ops = [["i", 1, 1, 0]] + [o + [int(i == b)] if o[0] == "i" else o for i, o in enumerate(w)]
            held = [1] if any(o[0] == "l" for o in w) else []
            cases.append({"cap": rnd.choice([96, 96, 1 << 20]), "len": 0, "keys": keys, "ops": ops + [["e", 0], ["p"]][:rnd.randrange(3)] + poison_end(rnd, 3, held)})
    return cases


def poison_random(seed, n):
    rnd = random.Random(seed * 67 + 8)
    cases = []
    for i in range(n):
        keys = [lambda: same_slot(5, rnd), lambda: splitting(14, rnd), lambda: keys_where(10, rnd, lambda h: True),
                lambda: same_shard(5, rnd) + same_shard(5, rnd)][i % 4]()
        keys = [list(k) for k in {tuple(k) for k in keys}]
        cap = rnd.choice([3 * 32, 5 * 32, 8 * 32, 1 << 20])
        ops, held, slot = [], [], 0
        for _ in range(rnd.randrange(5, 40)):
            x, k = rnd.random(), rnd.randrange(len(keys))
            if x < .55:
                ops.append(["i", k, rnd.choice([0, 1, 1, 1, 2, 4, 9]), int(rnd.random() < .3)])
            elif x < .75:
                slot += 1
                if rnd.random() < .5:
                    held.append(slot)
                    ops.append(["l", k, slot])
                else:
                    ops.append(["l", k, 0])
            elif x < .9:
                ops.append(["e", k])
            elif x < .94:
                ops.append(["p"])
            elif held:
                ops.append(["r", held.pop(rnd.randrange(len(held)))])
        cases.append({"cap": cap, "len": 0, "keys": keys, "ops": tame(keys, cap, ops) + poison_end(rnd, len(keys), held)})
    return cases
