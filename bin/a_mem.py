"""Memory structures: C11 skip list, C12 its iterators, C13 arena."""
import random
from util import *
import walks

MC = """SPECIFICATION Spec
CONSTANTS
 NKeys = %d
 MaxH = %d
 Slots = %s
 Rank <- %s
 Class <- %s
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS SortedLevels OnItsLevels Counted HeightRight Membership
PROPERTY Refines
%s"""


def coins(h):
    return [1] * (h - 1) + ([0] if h < 8 else [])


def sort_key(order):
    return {"byte": lambda k: bytes(k), "rev": lambda k: tuple(-x for x in k) + (1,), "fold": lambda k: bytes(k).upper(),
            "trim": lambda k: bytes(k).rstrip(b"\0"), "len": lambda k: (len(k), bytes(k)), "part": lambda k: bytes(k)}[order]


def rand_key(rnd, order):
    x = rnd.random()
    if order == "fold":
        return [rnd.choice(b"abcABC") for _ in range(rnd.randint(0, 4))]
    if order == "trim" and x < .7:
        return [rnd.choice([0, 1, 255]) for _ in range(rnd.randint(0, 3))] + [0] * rnd.choice([0, 0, 1, 2, 3, 5])
    if x < .3:
        return [rnd.choice([0, 1, 127, 128, 254, 255, 97]) for _ in range(rnd.randint(0, 4))]
    if x < .6:
        return [97] * rnd.randint(0, 7) + [rnd.choice([97, 98, 200]) for _ in range(rnd.randint(0, 2))]
    if x < .62:
        return [rnd.randrange(256)] * rnd.choice([1023, 1024, 1025, 4096, 5000])
    return [rnd.randrange(256) for _ in range(rnd.choice([1, 2, 3, 4, 8, 16]))]


def keyset(rnd, order, n):
    out, seen, tries = [], set(), 0
    while len(out) < n and tries < 40 * n:
        tries += 1
        k = rand_key(rnd, order)
        if tuple(k) not in seen:
            seen.add(tuple(k))
            out.append(k)
    return out


def model_walks(c, full):
    """walks over every transition of the pointer-level specification"""
    runs = [("R3", "C3", 3, 3, "{1, 2}"), ("REq", "C4", 4, 2, "{1}"), ("R4", "CPart", 4, 2, "{1}")]
    if full:
        runs = [("R4", "C4", 4, 3, "{1}"), ("R3", "C3", 3, 3, "{1, 2}"), ("REq", "C4", 4, 3, "{1, 2}"), ("R4", "CPart", 4, 3, "{1, 2}")]
    rnd = random.Random(c.seed * 131)
    cases, total, cov = [], 0, 0
    for rank, cls, n, h, slots in runs:
        out = c.model("SkipList", MC % (n, h, slots, rank, cls, "ACTION_CONSTRAINT Edge"), "SkipList-%s-%s" % (rank, cls), workers=1)
        es = walks.edges_of(out)
        ws, t, v = walks.walks(es, es[0][0], 400, c.seed)
        total += t
        cov += v
        for i, w in enumerate(ws):
            if rank == "REq":
                order = ("fold", "trim")[i % 2]
                keys = rnd.choice([[[97], [98], [66], [99]], [[], [122, 65], [90, 97], [122, 65, 65]], [[64], [65], [97], [91]]] if order == "fold" else
                                  [[[], [1], [1, 0], [1, 0, 2]], [[0], [0, 1], [0, 1, 0, 0], [1]], [[7], [9, 0, 0], [9], [255]]])
            elif cls == "CPart":
                order = "part"
                keys = rnd.choice([[[1], [2], [128], [129]], [[], [127, 255], [128], [255, 255]]])
            else:
                order = ("byte", "rev", "len", "byte")[i % 4]
                keys = sorted(keyset(rnd, order, n), key=sort_key(order))
            ops = []
            for o in w:
                if o[0] == "i":
                    # the real list has eight levels: use high ones as well
                    hh = o[2] if rnd.random() < .5 or h == 1 else {1: 1, 2: 5, 3: 8}[o[2]]
                    ops.append(["i", o[1], coins(hh)])
                    if rnd.random() < .2:
                        ops.append(["pad", rnd.choice([0, 1, 3, 7, 8, 100, 1000, 4000])])
                    if rnd.random() < .3:
                        ops += [["c", k] for k in range(len(keys))] + [["all"]]
                elif o[0] == "next" and rnd.random() < .3:
                    ops.append(["snext", o[1]])
                else:
                    ops.append(o)
            ops += [["c", k] for k in range(len(keys))] + [["all"]]
            cases.append({"order": order, "keys": keys, "ops": ops})
    c.notes["model_transitions_walked"] = cov
    c.notes["model_transitions"] = total
    return cases


def random_lists(c, n, iters):
    rnd = random.Random(c.seed * 137 + (5 if iters else 0))
    cases = []
    for i in range(n):
        order = ("byte", "rev", "fold", "len", "part", "trim")[i % 6]
        keys = keyset(rnd, order, rnd.choice([3, 8, 30, 60] if iters else [3, 10, 40, 120, 300]))
        text = i % 10 == 7 and order != "part"
        if text:
            keys = [[ord(x) for x in w] for w in ("a", "b", "B", "user1", "user10", "user2", "", "key", "KEY", "zz", "Zz", "m n", "z", "0", "~")][:len(keys)]
            keys = [k for k in keys if k]
        ks = list(range(len(keys)))
        ins = rnd.sample(ks, rnd.randint(0, len(ks)))
        shape = rnd.random()
        if shape < .2:
            ins.sort(key=lambda k: sort_key(order)(keys[k]))
        elif shape < .4:
            ins.sort(key=lambda k: sort_key(order)(keys[k]), reverse=True)
        hs = rnd.choice([lambda: 1, lambda: 8, lambda: rnd.randint(1, 8), lambda: next(j for j in range(1, 9) if j == 8 or rnd.random() < .5),
                         lambda: next(j for j in range(1, 9) if j == 8 or rnd.random() < .5), lambda: rnd.choice([1, 1, 1, 8])])
        ops = [["show"]] if text else []
        slots = 0
        if rnd.random() < .3:
            ops += [["c", rnd.choice(ks)], ["all"]]
        if iters:
            ops += [["it", 1], rnd.choice([["first", 1], ["last", 1], ["next", 1], ["snext", 1]])]
            slots = 1
        for k in ins:
            ops.append(["i", k, coins(hs())])
            x = rnd.random()
            if x < .1:
                ops.append(["pad", rnd.randint(0, 70)])
            if text:
                ops.append(["show"])
            if iters:
                for _ in range(rnd.choice([0, 1, 2, 3])):
                    x = rnd.random()
                    if x < .1:
                        slots += 1
                        ops.append(["it", slots])
                    else:
                        ops.append([rnd.choice(["next", "next", "next", "snext", "snext", "first", "last"]), rnd.randint(1, slots)])
            else:
                if x < .4:
                    ops.append(["c", rnd.choice(ks)])
                elif x < .5:
                    ops.append(["i", rnd.choice(ks), coins(hs())])
                elif x < .55 or len(keys) < 12:
                    ops.append(["all"])
        if iters:
            # to the end and further
            for s in pick_some(rnd, slots):
                ops += [rnd.choice([["first", s], ["next", s]])] + [[rnd.choice(["next", "snext"]), s] for _ in range(len(ins) + 3)] + [["last", s], ["next", s], ["next", s], ["first", s]]
        ops += [["c", k] for k in ks] + [["all"]]
        cases.append({"order": order, "keys": keys, "ops": ops})
    return cases


def pick_some(rnd, n):
    return rnd.sample(range(1, n + 1), min(n, 3))


def c11(c):
    cases = model_walks(c, c.thorough)
    cases += random_lists(c, 4000 if c.thorough else 250, False)
    # long lists, with the towers that chance would give
    rnd = random.Random(c.seed * 167)
    for order in ("byte", "fold", "rev") if c.thorough else ("byte",):
        keys = [[x // 65536, x // 256 % 256, x % 256] for x in rnd.sample(range(1 << 24), 2500)]
        ops = [["i", k, coins(next(j for j in range(1, 9) if j == 8 or rnd.random() < .5))] for k in range(len(keys) - 30)]
        cases.append({"order": order, "keys": keys, "ops": ops + [["c", k] for k in range(0, len(keys), 7)] + [["c", k] for k in range(len(keys) - 30, len(keys))] + [["all"]]})
    c.conform("skip", "SkipTrace", cases)


def c12(c):
    cases = model_walks(c, c.thorough)
    cases += random_lists(c, 4000 if c.thorough else 300, True)
    c.conform("skip", "SkipTrace", cases)


AMC = """SPECIFICATION Spec
CONSTANTS
 BS = 8
 Sizes = %s
 MaxOps = %d
CHECK_DEADLOCK FALSE
VIEW %s
%s"""


def arena_walks(c):
    inv = "INVARIANTS Inside Disjoint Usage OneCurrent"
    c.model("ArenaMC", AMC % ("{0, 1, 2, 3, 5, 8, 9}", 6 if c.thorough else 5, "FullView", inv), "ArenaMC", workers=8)
    out = c.model("ArenaMC", AMC % ("{0, 1, 2, 3, 5, 8, 9}", 40, "View", inv + "\nACTION_CONSTRAINT Edge"), "ArenaMC-walks", workers=1)
    es = walks.edges_of(out)
    ws, t, v = walks.walks(es, es[0][0], 60, c.seed)
    c.notes["model_transitions_walked"] = v
    c.notes["model_transitions"] = t
    rnd = random.Random(c.seed * 139)
    cases = []
    for w in ws:
        for kind in range(4):
            ops = []
            for n in w:
                n *= 512
                k = kind if kind < 3 else rnd.randrange(3)
                ops.append([["a", n], ["us", [rnd.randrange(256)] * n], ["copy", [rnd.randrange(256)] * n]][k])
                if rnd.random() < .05:
                    ops.append(["check"])
            cases.append({"ops": ops + [["check"]]})
    return cases


def c13(c):
    rnd = random.Random(c.seed * 149 + 1)
    cases = arena_walks(c)
    edge = [0, 1, 2, 7, 8, 9, 15, 16, 17, 100, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 10000, 70000]
    for i in range(6000 if c.thorough else 350):
        ops, left = [], 0
        for _ in range(rnd.choice([5, 20, 60, 150])):
            x = rnd.random()
            n = rnd.choice(edge) if x < .2 else left + rnd.choice([-1, 0, 1]) if x < .35 else rnd.randint(0, 64) if x < .8 else rnd.randint(0, 1100)
            n = max(0, n)
            if n <= left:
                left -= n
            elif n <= 1024:
                left = 4096 - n
            y = rnd.random()
            b = [rnd.randrange(256) for _ in range(min(n, 3))] + [rnd.randrange(256)] * (n - min(n, 3)) if n < 6000 else [7] * n
            if y < .4:
                ops.append(["a", n])
            elif y < .6:
                ops.append(["al", n, 1 << rnd.randint(0, 6 if rnd.random() < .9 else 12)])
            elif y < .75:
                ops.append(["us", b])
            elif y < .85:
                ops.append(["copy", b])
            elif y < .95:
                ops.append(["str", [x % 128 for x in b]])
            else:
                ops.append(["check"])
        cases.append({"ops": ops + [["check"]]})
    # requests beyond 2^20 and 2^24 bytes
    for n in [(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 22, (1 << 24) + 3] + ([1 << 28] if c.thorough else []):
        cases.append({"ops": [["a", 100], ["a", n], ["a", 200], ["al", n, 64], ["a", 300], ["check"]]})
    # aligned requests only, from fresh arenas
    for al in range(0, 13):
        for n in (0, 1, 1 << al, 1024, 1025, 5000):
            cases.append({"ops": [["al", n, 1 << al], ["al", 1100, 1 << al], ["al", 2000, 1 << al], ["al", 1020, 1 << al], ["check"]]})
    c.conform("arena", "ArenaTrace", cases, "CONSTANTS\n BS = 4096\n Strict = FALSE", chunk=3000)
    # the known finding, if it is still there
    known = [{"ops": [["al", 1, 8], ["al", 8, 8]]}]
    c.known_finding("align-in-block", "arena", "ArenaTrace", known, "CONSTANTS\n BS = 4096\n Strict = TRUE",
                    lambda e: e.get("e") == "alloc" and e.get("al") == 8 and e.get("m") != 0)
