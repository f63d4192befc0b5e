"""Components without files or concurrency: profiles, sorted arrays, in-memory file, names."""
import random

M64 = 2 ** 64 - 1
SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]


def idsets(n, rnd):
    """Ascending id tables the ranks 0..n-1 are mapped to."""
    yield list(range(n))
    yield [M64 - n + 1 + i for i in range(n)]
    yield [2 ** 63 - n // 2 + i for i in range(n)]
    ext = sorted({0, 1, 255, 256, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1,
                  2 ** 63, M64 - 1, M64} | {rnd.randrange(2 ** 64) for _ in range(2 * n)})
    while True:
        yield sorted(rnd.sample(ext, n)) if len(ext) >= n else sorted(rid(rnd, n))


def rid(rnd, n):
    r = set()
    while len(r) < n:
        r.add(rnd.randrange(2 ** 64))
    return list(r)


def S(x):
    return [str(i) for i in x]


PROFILE_GEN = """CONSTANTS
  Profiles = {%s}
  Items = {%s}
  N = %d
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""


LIVES = """CONSTANTS
  Profiles = {%s}
  Items = {%s}
  N = %d
  Period = %d
INIT BInit
NEXT BNext
CHECK_DEADLOCK FALSE
"""


PROFILE_TRACE = """CONSTANTS
  Profiles = {%s}
  Items = {%s}
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
"""


def split(case, res):
    return res["traces"] if "traces" in res else [res]


POST = {"MemFileTrace": split}


def profile_conform(ctx, cases):
    groups = {}
    for k, c in enumerate(cases):
        # users of different profiles may be the same
        c.setdefault("users", (1, 0, 2 ** 32, 2 ** 63)[k % 4])
        c.setdefault("origin", ([], [], ["literal"], ["", "literal"], ["room"], ["json", "room"], [])[k % 7])
        n = len(c["ids"])
        for g in (3, 12, 64, 512, 2048):
            if n <= g:
                groups.setdefault((c["profiles"], n if n <= 3 else g), []).append(c)
                break
    for (p, n), cs in sorted(groups.items()):
        ctx.conform("profile", "ProfileTrace", cs, cfg=PROFILE_TRACE % (nums(p), nums(n)),
                    label="%d profiles, %d items" % (p, n))


def nums(n):
    return ", ".join(str(i) for i in range(n))


def blocks(case, n, block, k):
    """Every id stands for a block of real ones; dense, sparse, at the start or the end."""
    stride = (1, 3, 2 ** 20, 2 ** 40)[k % 4]
    size = block * stride
    base = (0, 2 ** 31 - size, M64 - n * (size + 5))[k % 3] if stride < 2 ** 30 else (0, M64 - n * (size + 5))[k % 2]
    return dict(case, ids=S([max(base, 0) + i * (size + 1) for i in range(n)]), block=block, stride=stride)


def c01(ctx):
    ctx.model("Profile", "Profile.cfg", workers=4)
    ctx.model("ProfileImpl", "ProfileImpl.cfg", workers=4)
    rnd = random.Random(ctx.seed)
    cases = []

    def add(hists, n, profiles, obs=1):
        gen = idsets(n, rnd)
        for h in hists:
            cases.append({"ids": S(next(gen)), "profiles": profiles, "obs": obs, "ops": h})

    # every history of 4 operations on 2 items; every history of 3 on 3 items, two profiles
    add(ctx.generate("ProfileGen", PROFILE_GEN % (nums(1), nums(2), ctx.n(4, 5))), 2, 1)
    # long random behaviours of the specification
    add(ctx.generate("ProfileGen", PROFILE_GEN % (nums(2), nums(3), 30), simulate=ctx.n(150, 1500),
                     depth=32, seed_shift=1), 3, 2)
    add(ctx.generate("ProfileGen", PROFILE_GEN % (nums(3), nums(12), 80), simulate=ctx.n(100, 800),
                     depth=82, seed_shift=2), 12, 3)
    add(ctx.generate("ProfileGen", PROFILE_GEN % (nums(1), nums(40), 250), simulate=ctx.n(40, 300),
                     depth=252, seed_shift=3), 40, 1, obs=2)
    # lives of large profiles: lists of hundreds of items that grow and shrink at their ends,
    # around the ends of the other list, and anywhere
    for n, profiles, length, num in ((64, 1, 300, ctx.n(48, 300)), (400, 1, 1600, ctx.n(20, 150)), (60, 2, 300, ctx.n(16, 100))):
        add(ctx.generate("ProfileLives", LIVES % (nums(profiles), nums(n), length, length // 10), simulate=num,
                         depth=length + 2, seed_shift=10 + n + profiles), n, profiles, obs=5 if n < 100 else 25)
    # blocks: an item of the specification stands for thousands of real ones
    hists = ctx.generate("ProfileGen", PROFILE_GEN % (nums(2), nums(3), 9), simulate=ctx.n(14, 100), depth=11, seed_shift=5)
    for k, h in enumerate(hists):
        block = (300, 1500, 5000, 9000, 23000, 2100, 40000)[k % 7]
        cases.append(blocks({"profiles": 2, "obs": 1, "ops": h}, 3, block, k))
    profile_conform(ctx, cases)
    ctx.extra["id_tables"] = "small, extreme and random 64-bit ids"


TINY = ["1e-45", "3e-45", "1e-40", "1.1754944e-38", "1e-30", "1e-20", "0.99999994", "0.9999999"]


def c02(ctx):
    ctx.model("Profile", "Profile.cfg", workers=4)
    rnd = random.Random(ctx.seed)
    hists = ctx.generate("ProfileGen", PROFILE_GEN % (nums(2), nums(3), 12), simulate=ctx.n(60, 400),
                         depth=14, seed_shift=1)
    cases = []
    fs = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 10), (3, 10), (7, 10), (9, 10), (1, 100), (99, 100)]

    def sims(n_items, few=False):
        ops = []
        for a, b in (rnd.sample(fs, 3) if few else fs):
            for p, q in ((0, 1), (1, 0), (0, 0)):
                ops.append({"e": "sim", "p": p, "q": q, "a": a, "b": b,
                            "scale": next(k for k in (10000, 1000, 100, 10) if 100 * k * n_items * b <= 10 ** 9)})
        # factors next to 0 (down to the smallest positive float) and next to 1
        for f in (rnd.sample(TINY, 1) if few else TINY):
            for p, q in ((0, 1), (1, 0), (0, 0)):
                ops.append({"e": "sim", "p": p, "q": q, "a": 1, "b": 1, "f": f, "tiny": f[0] != "0",
                            "scale": next(k for k in (10000, 1000, 100, 10) if 100 * k * n_items <= 10 ** 9)})
        return ops

    # every pair of opinions on n items, with every factor
    n = ctx.n(2, 3)
    for x in range(9 ** n):
        setup = []
        for i in range(n):
            d = x // (9 ** i) % 9
            for p, o in ((0, d % 3), (1, d // 3)):
                if o:
                    setup.append({"e": "like" if o == 1 else "dislike", "p": p, "i": i})
        rnd.shuffle(setup)
        cases.append({"ids": S(next(idsets(n, rnd)) if x % 2 else sorted(rid(rnd, n))),
                      "profiles": 2, "obs": 0, "ops": setup + sims(n)})
    for h in hists:
        ops = []
        for i, o in enumerate(h):
            ops.append(o)
            if i % 4 == 3:
                ops += sims(3, few=True)
        cases.append({"ids": S(sorted(rid(rnd, 3))), "profiles": 2, "obs": 0, "ops": ops})
    # larger profiles, sizes differing
    for k in range(ctx.n(60, 500)):
        n = rnd.choice([5, 8, 12, 20, 33, 60])
        ops = []
        w = [rnd.random() for _ in range(6)]
        for p in (0, 1):
            for i in range(n):
                o = rnd.choices("LDU", w[3 * p:3 * p + 3])[0]
                if o != "U":
                    ops.append({"e": "like" if o == "L" else "dislike", "p": p, "i": i})
        rnd.shuffle(ops)
        cases.append({"ids": S(sorted(rid(rnd, n))), "profiles": 2, "obs": 0,
                      "ops": ops + sims(n)})
    # all pairs of lists of likes on a few items, and lists that differ in a few places only
    m = ctx.n(4, 5)
    for x in range(4 ** m):
        ops = [{"e": "like", "p": p, "i": i} for i in range(m) for p in (0, 1) if x >> (2 * i + p) & 1]
        cases.append({"ids": S(sorted(rid(rnd, m))), "profiles": 2, "obs": 0, "ops": ops + sims(m, few=True)})
    for k in range(ctx.n(150, 1500)):
        n = rnd.choice([6, 9, 12, 24, 48, 64])
        kind = rnd.choice(["like", "like", "dislike", "both"])
        first = {i: kind if kind != "both" else rnd.choice(["like", "dislike"]) for i in range(n) if rnd.random() < 0.7}
        second = dict(first)
        for _ in range(rnd.choice([1, 1, 2, 2, 4])):
            if second and rnd.random() < 0.8:
                del second[rnd.choice(sorted(second))]      # mostly replaced: the sizes stay the same
            if rnd.random() < 0.8:
                second[rnd.randrange(n)] = rnd.choice(["like", "dislike"]) if kind == "both" else kind
        ops = [{"e": o, "p": p, "i": i} for p, s in ((0, first), (1, second)) for i, o in s.items()]
        rnd.shuffle(ops)
        cases.append({"ids": S(sorted(rid(rnd, n))), "profiles": 2, "obs": 0, "ops": ops + sims(n, few=True)})
    # large profiles: dense and sparse ids, ids that agree in their lower or upper halves,
    # lists that are equal but for a few items, contained in each other, or shifted
    for k in range(ctx.n(120, 1200)):
        n = rnd.choice([40, 64, 130, 260, 400, 500] if k % 6 else [1200, 2000])
        kind = rnd.choice(["near", "near", "inner", "random", "shift", "pairs"])
        parts = rnd.choice(["l", "l", "d", "ld"])
        have = [[[], []], [[], []]]
        for w, part in enumerate("ld"):
            if part not in parts:
                continue
            dens = rnd.choice([1, 1, 0.9, 0.5])
            a = [i for i in range(n) if rnd.random() < dens]
            if kind == "near":
                b = [i for i in a if rnd.random() > 3 / n]
            elif kind == "inner":
                lo = rnd.randrange(n)
                b = [i for i in a if lo <= i < lo + rnd.choice([20, 100, 700])]
            elif kind == "shift":
                sh = rnd.choice([1, 2, 63, 64, 65])
                b = [i + sh for i in a if i + sh < n]
            elif kind == "pairs":
                b = [i ^ 1 for i in a if i % 2 == 0 and i ^ 1 < n]
                a = [i for i in a if i % 2 == 0]
            else:
                b = [i for i in range(n) if rnd.random() < rnd.choice([0.1, 0.6, 1])]
            for j, x in ((0, a), (1, b)):
                have[j][w] = x
        ids = [lambda: sorted(rid(rnd, n)),
               lambda: [7 * i + 2 ** 40 for i in range(n)],
               lambda: list(range(n)),
               lambda: [M64 - n + 1 + i for i in range(n)],
               # pairs of ids that agree in the lower 32, 16, 53 bits
               lambda: sorted({(i % 2 << 32) + (i // 2) * 5 for i in range(n)}),
               lambda: sorted({(i % 2 << 62) + (i // 2) for i in range(n)}),
               lambda: sorted({(1 << 54) + i for i in range(n)}),
               lambda: [i << 32 for i in range(n)],
               lambda: [i << 48 | 5 for i in range(n)]][k % 9]()
        ops = []
        for p in (0, 1):
            l, d = have[p]
            d = [i for i in d if i not in set(l)]
            for x in (l, d):
                if rnd.random() < 0.6:
                    rnd.shuffle(x)
            ops.append({"e": "have", "p": p, "l": l, "d": d})
        cases.append({"ids": S(ids), "profiles": 2, "obs": 0, "ops": ops + sims(n, few=True)})
    # blocks of thousands of ids for each one: every size grows alike, the similarity stays
    for k in range(ctx.n(24, 200)):
        n = rnd.choice([2, 3, 3, 5])
        ops = []
        for p in (0, 1):
            o = [rnd.choice("LLDU") for _ in range(n)]
            ops.append({"e": "have", "p": p, "l": [i for i in range(n) if o[i] == "L"], "d": [i for i in range(n) if o[i] == "D"]})
        if k % 4 == 0:
            ops[1] = dict(ops[0], p=1)
        cases.append(blocks({"profiles": 2, "obs": 0, "ops": ops + sims(n, few=True)}, n,
                            (300, 3000, 9000, 14000, 22000, 33000)[k % 6], k))
    profile_conform(ctx, cases)
    ctx.assumptions.append("similarity is compared to the exact fraction within 2e-4 (2e-3 to 2e-2 for large profiles)")


ARR_GEN = """CONSTANTS
  Values = {%s}
  MaxLen = %d
  N = %d
INIT %s
NEXT %s
%s
CHECK_DEADLOCK FALSE
"""


def c23(ctx):
    ctx.model("SortedArray", "SortedArray.cfg", workers=4)
    rnd = random.Random(ctx.seed)
    scales = [("0", "1"), ("1", "1"), (str(2 ** 63 - 3), "1"), (str(M64 - 64), "1"), ("0", str(2 ** 58)),
              ("7", str(2 ** 57)), (str(2 ** 62), "1000003")]
    cases = []
    nv, ml = ctx.n((6, 5), (7, 6))
    arrays = ctx.generate("SortedArrayGen", ARR_GEN % (nums(nv), ml, 0, "EInit", "ENext", "CONSTRAINT EEmit"))
    for a in arrays:
        ops = []
        for v in range(nv):
            for q in ("find", "closest"):
                ops.append({"e": q, "v": v})
        ops = [{"e": "init", "b": a}] + ops
        for v in range(nv):
            for q in ("insert", "put"):
                ops += [{"e": "init", "b": a}, {"e": q, "v": v}]
        for i in range(len(a)):
            for q in ("removeat", "remove"):
                ops += [{"e": "init", "b": a}, {"e": q, "i": i}]
        b, s = scales[len(cases) % len(scales)]
        cases.append({"base": b, "stride": s, "ops": ops})
    for nvals, mlen, n, num in ((8, 12, 25, ctx.n(150, 1500)), (40, 40, 90, ctx.n(60, 500))):
        for h in ctx.generate("SortedArrayGen", ARR_GEN % (nums(nvals), mlen, n, "GInit", "GNext", ""),
                              simulate=num, depth=n + 2, seed_shift=nvals):
            b, s = scales[len(cases) % len(scales)]
            cases.append({"base": b, "stride": s, "ops": h})
    # long arrays: searches everywhere
    for k in range(ctx.n(60, 400)):
        n = rnd.choice([7, 15, 16, 17, 31, 32, 33, 50, 63])
        a = sorted(rnd.choices(range(64), k=n) if k % 2 else rnd.sample(range(64), min(n, 60)))
        ops = [{"e": "init", "b": a}]
        for v in range(64):
            ops += [{"e": "find", "v": v}, {"e": "closest", "v": v}]
        for v in rnd.sample(range(64), 8):
            for q in ("insert", "put"):
                ops += [{"e": "init", "b": a}, {"e": q, "v": v}]
        b, s = scales[k % 4]
        cases.append({"base": b, "stride": s, "ops": ops})
    # arrays of hundreds and thousands of elements, with and without spare capacity
    for k in range(ctx.n(60, 500)):
        n = rnd.choice([100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 600] if k % 4 else [1000, 1500, 2000])
        top = rnd.choice([n, n + 1, 2 * n, 4 * n, n // 4])
        if k % 3 and top >= n:
            a = sorted(rnd.sample(range(top), n))
        else:
            a = sorted(rnd.randrange(top) for _ in range(n))
        if k % 5 == 0:   # far from each other, apart from a few
            a = sorted(rnd.sample(range(n), n // 2) + [20 * n + i for i in range(n - n // 2)])
        qs = list({a[0], a[-1], a[1], a[-2], a[0] - 1, a[-1] + 1} | {rnd.choice(a) + d for d in (-1, 0, 1) for _ in range(40)}
                  | {a[-1 - j] + d for j in (2, 3, 31, 62, 63, 64, 65, 96) for d in (-1, 0, 1)} | set(a[:: n // 50])
                  | {rnd.randrange(max(a) + 2) for _ in range(30)})
        qs = [q for q in qs if q >= 0]
        spare = rnd.choice([0, 0, 1, 5, n])
        init = {"e": "init", "b": a, "spare": spare}
        ops = [init, {"e": "many", "q": [{"e": e, "v": v} for v in qs for e in ("find", "closest", "indexof")]}]
        for _ in range(6):
            v = rnd.choice(qs)
            for q in ("insert", "put"):
                ops += [init, {"e": q, "v": v}, {"e": q, "v": rnd.choice(qs)}]
        for i in [0, n - 1, n // 2, rnd.randrange(n)]:
            ops += [init, {"e": "removeat", "i": i}, {"e": "insert", "v": rnd.choice(qs)}]
            ops += [init, {"e": "insertat", "i": i, "v": rnd.choice(qs)}]
            if len(set(a)) == n:
                ops += [init, {"e": "remove", "i": i}]
        b, s = scales[k % 4] if k % 5 else ("5", str(2 ** 40))
        cases.append({"base": "0" if b == str(M64 - 64) else b, "stride": s, "ops": ops})
    # tens of thousands of elements: every value stands for a block of successive ones
    for k in range(ctx.n(16, 100)):
        block = rnd.choice([300, 700, 1024, 1365, 2048, 5000] if k else [9000])
        n = rnd.choice([1, 2, 3, 5, 8, 14])
        a = sorted(rnd.sample(range(20), n))
        spare = rnd.choice([0, 0, 1, block])
        init = {"e": "init", "b": a, "spare": spare}
        many = {"e": "many", "q": [{"e": e, "v": v} for v in range(21) for e in ("find", "closest", "indexof")]}
        free = [v for v in range(21) if v not in a]
        ops = [init, many, {"e": "insert", "v": rnd.choice(free)}, many, {"e": "put", "v": rnd.choice(free)},
               {"e": "put", "v": rnd.choice(a)}, init, {"e": "removeat", "i": rnd.randrange(n)}, many, init,
               {"e": "put", "v": rnd.choice(free)}, {"e": "removeat", "i": rnd.randrange(n + 1)}, init,
               {"e": "insertat", "i": rnd.randrange(n), "v": rnd.choice(free)}]
        cases.append({"base": rnd.choice(["0", "17", str(2 ** 63 - 70000)]), "stride": str(rnd.choice([20000, 2 ** 32, 2 ** 58])),
                      "block": block, "ops": ops})
    # the other element types
    for typ, base, stride in (("uint8", 0, 1), ("uint8", 200, 1), ("uint16", 65000, 10), ("uint32", 2 ** 32 - 400, 1),
                              ("int8", -30, 1), ("int8", -60, 2), ("int16", -500, 20), ("int32", -2 ** 30, 2 ** 25),
                              ("int", -2 ** 62, 2 ** 56), ("int", -20, 1), ("int64", -10, 1), ("int64", -2 ** 52, 2 ** 47),
                              ("float32", -8, 0.25), ("float64", -1.5, 0.125), ("float64", -1e300, 1e298)):
        for _ in range(ctx.n(4, 30)):
            n = rnd.choice([0, 1, 2, 3, 5, 8, 20])
            a = sorted(rnd.choices(range(50), k=n))
            init = {"e": "init", "b": a, "spare": rnd.choice([0, 1, 9])}
            ops = [init, {"e": "many", "q": [{"e": e, "v": v} for v in range(52) for e in ("find", "closest", "indexof")]}]
            for v in rnd.sample(range(52), 6):
                for q in ("insert", "put"):
                    ops += [init, {"e": q, "v": v}]
            for i in range(n):
                for q in ("removeat", "remove"):
                    ops += [init, {"e": q, "i": i}]
                ops += [init, {"e": "insertat", "i": i, "v": rnd.randrange(50)}]
            cases.append({"type": typ, "base": repr(base), "stride": repr(stride), "ops": ops})
    ctx.conform("sortedarray", "SortedArrayTrace", cases, cfg="SortedArrayTrace.cfg")


MEM = """CONSTANTS
  N = %d
  MaxSize = %d
  Big = %s
INIT GInit
NEXT GNext
%s
CHECK_DEADLOCK FALSE
"""


def c22(ctx):
    ctx.model("MemFileGen", MEM % (4, 6, "FALSE", "INVARIANT Agrees\nPROPERTY Frozen"), workers=8)
    rnd = random.Random(ctx.seed)
    cases = []

    def add(hists, inits, ks=(1,)):
        for h in hists:
            h = [dict(o) for o in h]
            for o in h:
                if o["e"] == "seek" and rnd.random() < 0.04:
                    o["far"] = rnd.choice([1, 2, 3, 4, 5])
            init = rnd.choice(inits)
            cases.append({"init": init or [], "nil": init is None, "ops": h, "k": rnd.choice(ks),
                          "spare": rnd.choice([0, 0, 3, 1000, 70000]) if init is not None else 0})

    # a cell of the specification stands for one byte, or for a block of k bytes
    few = [None, [], [9], [8, 7, 6, 5]]
    add(ctx.generate("MemFileGen", MEM % (ctx.n(3, 4), 6, "FALSE", "")), few, (1, 1, 1, 7, 4096))
    hists = ctx.generate("MemFileGen", MEM % (20, 12, "FALSE", ""), simulate=ctx.n(400, 4000), depth=22, seed_shift=1)
    add(hists, few)
    add(hists, few, (2, 255, 256, 512, 1000, 4095, 4096, 8192))
    add(hists[::2], few, (9000, 16384, 20000, 32768, 65536, 100000))
    hists = ctx.generate("MemFileGen", MEM % (40, 600, "TRUE", ""), simulate=ctx.n(100, 1000), depth=42, seed_shift=2)
    many = [None, [], list(range(1, 101)), list(range(1, 121))]
    add(hists, many)
    add(hists, many, (3, 100, 400, 1100))
    ctx.conform("memfile", "MemFileTrace", cases)
    pairs = []
    some = [c for c in cases if len(c["ops"]) > 4 and c["k"] <= 4096]
    for _ in range(ctx.n(300, 3000)):
        a, b = rnd.sample(some, 2)
        pairs.append(dict(a, twin=b, seed=rnd.randrange(2 ** 31)))
    ctx.conform("memfile", "MemFileTrace", pairs, post=split, label="two files")


def c21(ctx):
    reps = {  # representatives of the character classes
        97: [97, 109, 122], 65: [65, 77, 90], 48: [48, 53, 57], 95: [95], 45: [45],
        46: [46, 44, 32, 33, 43], 47: [47, 92, 58, 0, 10, 13, 9, 11], 64: [64, 91, 96, 123, 127, 94],
        233: [233, 0x661, 0xff41, 0x212a, 0x130, 0x17f, 0x3b1, 0x1d7d8, 0x10000, 0x300],
        10000200: [10000128, 10000192, 10000255, 10000193]}
    rnd = random.Random(ctx.seed)
    gen = ctx.generate("NamesGen", "CONSTANTS\n  N = %d\n  Alphabet = {%s}\nINIT GInit\nNEXT GNext\n"
                       "CONSTRAINT Emit\nINVARIANT Laws\nPROPERTY Extends\nCHECK_DEADLOCK FALSE\n"
                       % (ctx.n(4, 5), ", ".join(map(str, reps))), workers=1)
    names = list(gen)
    for s in gen:
        names.append([rnd.choice(reps[c]) for c in s])
    allc = [list(range(0, 256)) + [10000000 + b for b in range(128, 256)]]
    for c in allc[0]:
        names += [[c], [97, c], [c, 97], [97, c, 97], [97, 98, 99, c], [c] * 3]
    for c in sum(reps.values(), []):
        names += [[97] * 300 + [c], [97] * 3000 + [c] + [97] * 10, [c] + [97] * 200]
    names += [[97] * 10000, [97, 48, 45, 95] * 64]
    types = [list(map(ord, x)) for x in
             ("like", "Like", "LIKE", "like ", " like", "lik", "likes", "", "rate", "dislike", "like\n", "like\0",
              "l\u0131ke", "\u212aike", "likelike", "unlike", "rating")]
    for i in range(4):
        for c in range(256):
            t = list(map(ord, "like"))
            t[i] = c
            types.append(t)
    ops = [{"e": "name", "s": s} for s in names] + [{"e": "type", "s": s} for s in types] + \
          [{"e": "liketype", "s": list(map(ord, "like"))}]
    ctx.extra["strings"] = len(ops)
    cases = [{"ops": ops[i:i + 50]} for i in range(0, len(ops), 50)]
    ctx.conform("names", "NamesTrace", cases)
    ctx.assumptions.append("strings beyond the bounds are sampled through one representative per character class")
