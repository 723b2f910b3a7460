"""The write-ahead log: C01 round trip, C02 format, C03 truncation, C04 damage, C05 I/O errors, C06 initial offset."""
import json, random
from util import *

B, H = 32768, 7
MC = """SPECIFICATION Spec
CONSTANTS
 BS = %d
 Lens = %s
 MaxRecs = %d
 MaxForeign = %d
CHECK_DEADLOCK FALSE
INVARIANTS %s
%s"""
LENS = "{0, 1, 2, 8, 9, 10, 11, 20}"
READ_ALL = 30000
#: offsets far beyond any file
FAR = [(1 << k) + d for k in (31, 32, 33, 48, 62, 63) for d in (-1, 0, 1, B - 7, B - 5, B - 1)] + [(1 << 64) - k for k in (1, 2, 5, 6, B, B + 1, B + 6)]


def pieces(at, n):
    """where the parts of a record of n bytes come to lie (to aim at them)"""
    out, first = [], True
    while True:
        room = B - at % B
        if room < H:
            out.append(("pad", at, room))
            at += room
            continue
        k = min(n, room - H)
        out.append(("frag", at, k))
        at += H + k
        n -= k
        if n == 0:
            return out, at


def layout(lens):
    at, ps, recs = 0, [], []
    for n in lens:
        p, e = pieces(at, n)
        recs.append((p[0][1] if p[0][0] == "frag" else p[1][1], e))
        ps += p
        at = e
    return ps, at, recs


def histories(c, recs, lens=LENS, invs="Tiles HeadersFit SplitOnlyAtBlockEnd RoundTrip", foreign=1, bs=16, name="LogMC"):
    """TLC: the properties on every small history, and the histories themselves, scaled to the real block size"""
    out = c.model("LogMC", MC % (bs, lens, recs, foreign, invs, "INVARIANT Hist"), name, workers=1 if recs < 4 else 8)
    hs = []
    for line in out.splitlines():
        i = line.find('"HIST ')
        if i >= 0:
            d = json.loads(json.loads(line[i:])[5:])
            up = lambda o: (o // bs) * B + (o % bs if o % bs < 8 else o % bs + B - bs)
            ls, rec, at = [], 0, 0
            left = list(d["l"])
            cur, todo = 0, left.pop(0) if left else None
            for k, o, n in d["p"]:
                if k == "pad":
                    continue
                cur += up(o + H + n) - up(o) - H
                todo -= n
                if todo == 0 and (n != 0 or True):
                    # a fragment without bytes ends a record only if nothing is left
                    ls.append(cur)
                    cur = 0
                    todo = left.pop(0) if left else None
            hs.append(ls)
    c.notes["model_histories"] = len(hs)
    return [h for h in hs if h]


def adds(rnd, lens, modes=("rand", "rand", "zero", "ff", "nest")):
    return [["add", rnd.randrange(1, 1 << 30), n, rnd.choice(modes)] for n in lens]


def writer(rnd, plain=False):
    return ["writer", {"max": 0 if plain else rnd.choice([0, 0, 0, 4096, 5000, 100]), "interrupt": 0 if plain else rnd.choice([0, 0, 5])}]


def plan(rnd, plain=False):
    return {"max": 0 if plain else rnd.choice([0, 0, 0, 1000, 4096, 32767, 333]), "interrupt": 0 if plain else rnd.choice([0, 0, 3])}


def opened(rnd, cs=True, init=0, p=None):
    return [["open", cs, init, p or plan(rnd)], ["read", READ_ALL]]


def aimed(rnd, n, big=0.1):
    """lengths that bring the end of a record to or near the end of a block"""
    at, out = 0, []
    for _ in range(n):
        x = rnd.random()
        if x < .45:
            want = rnd.choice(list(range(0, 16)) + [B // 2]) * rnd.choice([1, 1, -1])
            room = B - (at % B)
            if room < H:
                room += B
            k = room + want - H
            if rnd.random() < .25:
                k += B * rnd.randint(0, 2)
            k = max(0, k)
        elif x < .45 + big:
            k = rnd.randint(B, 4 * B)
        elif x < .8:
            k = rnd.choice([0, 1, 2, 6, 7, 8, 100, 1000, 255, 256, 257, 511, 512])
        else:
            k = rnd.randint(0, B)
        out.append(k)
        at = pieces(at, k)[1]
    return out


def pick(rnd, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rnd.sample(xs, n)


def round_trip_cases(c, hs, n):
    rnd = random.Random(c.seed * 101 + 1)
    cases = []
    for h in hs:
        cases.append({"ops": [writer(rnd)] + adds(rnd, h) + opened(rnd, rnd.random() < .7)})
    for i in range(n):
        lens = aimed(rnd, rnd.choice([3, 6, 12, 20]))
        cases.append({"ops": [writer(rnd)] + adds(rnd, lens) + opened(rnd, True) + opened(rnd, False)})
    # every in-block offset near the end of a block, reached by one record, followed by each short length
    for d in range(-9, 10):
        for k in (0, 1, 7):
            lens = [B - H + d, k, rnd.randint(0, 20), rnd.choice([0, B, 2 * B - 7])]
            cases.append({"ops": [writer(rnd, True)] + adds(rnd, lens) + opened(rnd, True, 0, plan(rnd, True))})
    # many small records, and long ones
    cases.append({"ops": [writer(rnd, True)] + adds(rnd, [i % 4 for i in range(5000)]) + opened(rnd, True)})
    cases.append({"ops": [writer(rnd, True)] + adds(rnd, [rnd.randint(0, 700) for _ in range(400)]) + opened(rnd, True)})
    if c.thorough:
        cases.append({"ops": [writer(rnd, True)] + adds(rnd, [i % 5 for i in range(70000)]) + opened(rnd, True)})
    for big in (10 * B, 33 * B + 5, 1 << 20, (1 << 20) + 12345, 65535, 65536, 65537, 131072, 300 * B, (1 << 24) + 9):
        cases.append({"ops": [writer(rnd, True)] + adds(rnd, [3, big, 0, 5]) + opened(rnd, True)})
    # every length around powers of two, alone in its file
    for k in range(0, 18):
        for d in (-1, 0, 1):
            if (1 << k) + d >= 0:
                cases.append({"ops": [writer(rnd, True)] + adds(rnd, [(1 << k) + d, 1]) + opened(rnd, True)})
    # tiny reads
    for m in (1, 2, 7, 13):
        cases.append({"ops": [writer(rnd, True)] + adds(rnd, aimed(rnd, 4, 0)) + opened(rnd, True, 0, {"max": m, "interrupt": 2 if m > 1 else 0})})
    return cases


def c01(c):
    hs = histories(c, 4 if c.thorough else 3)
    hs = hs if c.thorough else pick(random.Random(c.seed), hs, 300)
    c.conform("wal", "LogTrace", round_trip_cases(c, hs, 1500 if c.thorough else 120), "CONSTANT Focus = {}")


def c02(c):
    hs = histories(c, 4 if c.thorough else 3)
    hs = hs if c.thorough else pick(random.Random(c.seed + 1), hs, 450)
    cases = round_trip_cases(c, hs, 1500 if c.thorough else 250)
    cases = [x for x in cases if sum(o[2] for o in x["ops"] if o[0] == "add") < 3 << 20]
    for x in cases:     # the writer only
        x["ops"] = [o for o in x["ops"] if o[0] in ("writer", "add")]
    c.conform("wal", "LogTrace", cases, 'CONSTANT Focus = {"format"}')


def cuts(rnd, ps, end, n):
    """offsets at which to cut: around every part, in the middle of headers, anywhere"""
    pts = set()
    for k, o, l in ps:
        if k == "pad":
            pts |= {o, o + 1, o + l - 1, o + l}
        else:
            pts |= {o - 1, o, o + 1, o + 3, o + 4, o + 5, o + 6, o + 7, o + 8, o + H + l // 2, o + H + l - 1, o + H + l, o + H + l + 1}
    pts |= {b + d for b in range(0, end + B, B) for d in (-7, -6, -1, 0, 1, 6, 7)}
    pts = [p for p in pts if 0 <= p <= end]
    pts = pick(rnd, sorted(pts), n) + [rnd.randint(0, end) for _ in range(max(1, n // 6))]
    return sorted(set(pts), reverse=True)


def c03(c):
    rnd = random.Random(c.seed * 103 + 3)
    hs = histories(c, 4 if c.thorough else 3, invs="RoundTrip Truncated")
    hs = hs if c.thorough else pick(rnd, hs, 220)
    cases = []
    for h in hs + [aimed(rnd, rnd.choice([2, 4, 8]), .05) for _ in range(1500 if c.thorough else 80)]:
        ps, end, _ = layout(h)
        ops = [writer(rnd, True)] + adds(rnd, h)
        for n in cuts(rnd, ps, end, 14 if c.thorough else 9):
            ops += [["trunc", n]] + opened(rnd, rnd.random() < .85)
        cases.append({"ops": ops})
    # every cut of a short log, and around the end of a block
    h = [5, 0, 3]
    cases.append({"ops": [writer(rnd, True)] + adds(rnd, h) + sum(([["trunc", n]] + opened(rnd) for n in range(layout(h)[1], -1, -1)), [])})
    for d in (-8, -7, -6, -3, 0):
        h = [B - H - 10 + d, 30, 2]
        end = layout(h)[1]
        cases.append({"ops": [writer(rnd, True)] + adds(rnd, h) + sum(([["trunc", n]] + opened(rnd) for n in range(end, B - 20, -1)), [])})
    c.conform("wal", "LogTrace", cases, 'CONSTANT Focus = {"reader"}')


def damages(rnd, ps, end, k):
    """k damages of one file"""
    ops = []
    fr = [p for p in ps if p[0] == "frag"]
    for _ in range(k):
        _, o, l = rnd.choice(fr)
        x = rnd.random()
        if x < .2:
            ops.append(["xor", o + rnd.randrange(4), rnd.choice([1, 128, 255])])
        elif x < .5:
            # lengths: shorter, longer, to the end of the block, beyond it, onto something else
            room = B - o % B - H
            v = rnd.choice([0, 1, l - 1, l + 1, l + 7, l + 8, room, room - 1, room + 1, 65535, 16, 16 + 16, l // 2, l ^ 256, l ^ 1, l + 256])
            v = max(0, min(65535, v))
            ops.append(["poke", o + 4, [v & 255, v >> 8]])
        elif x < .65:
            ops.append(["poke", o + 6, [rnd.choice([0, 1, 2, 3, 4, 5, 6, 128, 255])]])
        elif x < .75 and l:
            ops.append(["xor", o + H + rnd.randrange(l), rnd.choice([1, 2, 64, 255])])
        elif x < .82:
            # length and type together
            v = rnd.choice([0, l - 1 if l else 0, l + 1, 16])
            ops.append(["poke", o + 4, [v & 255, v >> 8 & 255, rnd.choice([1, 2, 3, 4])]])
        elif x < .9:
            ops.append(["fill", rnd.choice([o, o + H, o // 512 * 512, o // B * B]), rnd.choice([1, 4, 7, 512, 4096]), rnd.choice([0, 255, 1])])
        elif x < .93:
            ops.append(["fill", o // B * B, B, rnd.choice([0, 255])])
        elif x < .96:
            ops.append(["append", [rnd.choice([0, 0, 255, 1, rnd.randrange(256)]) for _ in range(rnd.choice([1, 6, 7, 8, 20, 100]))]])
        else:
            ops.append(["poke", rnd.randrange(end), [rnd.randrange(256) for _ in range(rnd.choice([1, 2, 8, 50]))]])
    return ops


def craft_cases(seed, n, upto):
    """files of well-formed fragments in any order, over block borders"""
    import itertools
    rnd = random.Random(seed * 107 + 9)
    cases = []

    def frag(t, ln=None, good=True):
        return {"t": t, "len": rnd.choice([0, 1, 5, 20]) if ln is None else ln, "seed": rnd.randrange(1, 1 << 30), "good": good}
    for k in range(1, upto + 1):
        for ts in itertools.product([1, 2, 3, 4, 0 if k < 3 else 5], repeat=k):
            if k == upto and rnd.random() > .5:
                continue
            ps, at = [], 0
            split = rnd.randint(0, k)       # the rest comes in the next block
            for j, t in enumerate(ts):
                if j == split and j > 0:
                    # fill the block with the contents of the fragment before, or with a trailer
                    room = B - at % B
                    if room > H:
                        ps[-1]["len"] += room - rnd.choice([0, 0, 1, 6])
                        pad = B - (at + room - (room - (ps[-1]["len"]))) % B
                    at = sum(H + p["len"] for p in ps if "t" in p)
                    pad = -at % B
                    if pad < H and pad:
                        ps.append({"pad": pad})
                    elif pad:
                        ps.append(frag(1, pad - H))
                    at = 0
                f = frag(t)
                ps.append(f)
                at += H + f["len"]
            cases.append({"ops": [["craft", ps]] + opened(rnd, True, 0, plan(rnd, True))})
    for i in range(n):
        ps, at = [], 0
        for _ in range(rnd.randint(3, 14)):
            room = B - at % B
            if room < H:
                ps.append({"pad": room})
                at += room
                room = B
            ln = rnd.choice([0, 1, 30, 500, room - H, room - H - 1, room - H - 6, room - H - 7, (room - H) // 2])
            ln = max(0, min(ln, room - H))
            f = frag(rnd.choice([1, 1, 2, 2, 3, 3, 4, 4, 0, 5, 255]), ln, rnd.random() < .9)
            if rnd.random() < .2:
                f["mode"] = rnd.choice(["nest", "zero"])
            ps.append(f)
            at += H + ln
        ops = [["craft", ps]]
        for cs, init in ((True, 0), (False, 0), (True, rnd.randint(0, at))):
            ops += opened(rnd, cs, init, plan(rnd, True))
        cases.append({"ops": ops})
    return cases


def c04(c):
    rnd = random.Random(c.seed * 109 + 5)
    hs = histories(c, 4 if c.thorough else 3, invs="RoundTrip Damaged DamagedFrom")
    c.model("LogMC", MC % (16, "{0}", 0, 6 if c.thorough else 5, "ForeignOnce", ""), "LogMC-foreign", workers=4)
    hs = hs if c.thorough else pick(rnd, hs, 250)
    cases = []
    for h in hs + [aimed(rnd, rnd.choice([3, 6, 10]), .1) for _ in range(3000 if c.thorough else 220)]:
        ps, end, _ = layout(h)
        ops = [writer(rnd, True)] + adds(rnd, h, ("rand", "nest", "nest", "zero", "ff"))
        ops += damages(rnd, ps, end, rnd.choice([1, 1, 1, 2, 3]))
        ops += opened(rnd, True)
        if rnd.random() < .3:
            ops += opened(rnd, True, rnd.randint(0, end))
        if rnd.random() < .3:
            ops += [["trunc", rnd.randint(0, end)]] + opened(rnd, True)
        if rnd.random() < .15:
            ops += opened(rnd, False)
        cases.append({"ops": ops})
    # single records, every header byte changed in every way that matters
    for o in range(7):
        for x in (1, 2, 3, 4, 5, 6, 7, 16, 128, 255):
            h = [rnd.choice([20, 40]), 12, 33]
            ps, end, _ = layout(h)
            w = rnd.choice([p for p in ps if p[0] == "frag"])
            cases.append({"ops": [writer(rnd, True)] + adds(rnd, h, ("nest", "rand")) + [["xor", w[1] + o, x]] + opened(rnd, True) + opened(rnd, False)})
    cases += craft_cases(c.seed, 1500 if c.thorough else 120, 5 if c.thorough else 4)
    c.conform("wal", "LogTrace", cases, 'CONSTANT Focus = {"reader"}')


def c05(c):
    rnd = random.Random(c.seed * 113 + 7)
    hs = histories(c, 3)
    hs = hs if c.thorough else pick(rnd, hs, 200)
    cases = []
    for i, h in enumerate(hs + [aimed(rnd, rnd.choice([2, 3, 6]), .2) for _ in range(1500 if c.thorough else 150)]):
        ps, end, _ = layout(h)
        pts = cuts(rnd, ps, end, 4 if not c.thorough else 8)
        # writes that fail
        for at in pts[:3]:
            ops = [["writer", {"max": rnd.choice([0, 0, 3, 1000]), "interrupt": rnd.choice([0, 4]), "fail_at": at, "fail_zero": rnd.random() < .3}]]
            n, pos = 0, 0
            for k in h:
                n += 1
                pos = pieces(pos, k)[1]
                if pos > at:
                    break
            ops += adds(rnd, h[:n]) + opened(rnd, True, 0, plan(rnd, True))
            cases.append({"ops": ops})
        # reads that fail
        ops = [writer(rnd)] + adds(rnd, h)
        for at in pts[:4] + [rnd.choice([end, end + 1, 0])]:
            p = plan(rnd)
            p["fail_at"] = at
            ops += opened(rnd, rnd.random() < .8, rnd.choice([0, 0, 0, rnd.randint(0, end)]), p)
        if i % 3 == 0:
            ops += opened(rnd, True, rnd.choice([0, 1, B, rnd.randint(0, end), FAR[i % len(FAR)]]), dict(plan(rnd), fail_seek=True))
        cases.append({"ops": ops})
        if i % 4 == 0:
            k = rnd.randint(1, len(h))
            cases.append({"ops": [writer(rnd)] + adds(rnd, h[:k - 1]) + [["failflush"]] + adds(rnd, h[k - 1:k]) + opened(rnd)})
    c.conform("wal", "LogTrace", cases, 'CONSTANT Focus = {"reader", "faults"}')


def c06(c):
    rnd = random.Random(c.seed * 127 + 11)
    hs = histories(c, 4 if c.thorough else 3, invs="RoundTrip FromOffset")
    hs = hs if c.thorough else pick(rnd, hs, 250)
    cases = []
    for h in hs + [aimed(rnd, rnd.choice([3, 5, 9]), .2) for _ in range(1500 if c.thorough else 100)]:
        ps, end, recs = layout(h)
        pts = set(cuts(rnd, ps, end, 10)) | {end, end + 1, end + B, end + 3 * B + 5}
        pts |= {s + d for s, e in recs for d in (-1, 0, 1)}
        pts = pick(rnd, sorted(p for p in pts if p >= 0), 24 if c.thorough else 12)
        ops = [writer(rnd, True)] + adds(rnd, h)
        for o in pts + [FAR[len(cases) % len(FAR)]]:
            ops += opened(rnd, rnd.random() < .8, o)
        cases.append({"ops": ops})
    # every offset around a block end, with a record that spans it, starts in it or ends in it
    for d in (-8, -7, -6, -5, -1, 0, 1, 9):
        h = [B - H + d, 9, B + 3, 4]
        ops = [writer(rnd, True)] + adds(rnd, h)
        for o in list(range(B - 16, B + 26)) + list(range(0, 9)):
            ops += opened(rnd, True, o, plan(rnd, True))
        cases.append({"ops": ops})
    # more than 256 blocks
    h = [rnd.randint(200000, 300000) for _ in range(40)]
    ps, end, recs = layout(h)
    ops = [writer(rnd, True)] + adds(rnd, h)
    for o in [256 * B - 1, 256 * B, 256 * B + 1, 256 * B - 6, 255 * B, 128 * B, 257 * B, 1 << 20, (1 << 20) + 1] + pick(rnd, [s + d for s, e in recs for d in (-1, 0, 1)], 6):
        ops += opened(rnd, True, max(0, o), plan(rnd, True))
    cases.append({"ops": ops})
    c.conform("wal", "LogTrace", cases, 'CONSTANT Focus = {"reader"}')
