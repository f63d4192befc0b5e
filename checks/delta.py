"""The delta storage: C03 C04 C05 C06 C07 C08."""
import random
import struct

import marks

M64 = 2 ** 64 - 1

GEN = """CONSTANTS
  Pairs = {%s}
  UserOf = 0
  N = %d
  Kind = "%s"
  MaxPer = %d
  MaxRecs = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""


def gen_cfg(np, n, kind, maxper=99):
    return (GEN % (nums(np), n, kind, maxper)).replace("  UserOf = 0\n", "  UserOf <- UserId\n")


TRACE = """CONSTANTS
  Pairs = {%s}
  UserOf <- UserId
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
"""
MC = """CONSTANTS
  Pairs = {%s}
  UserOf <- UserOfMC
  MaxRecs <- MaxRecsMC
SPECIFICATION Spec
INVARIANTS TypeOK Sound
PROPERTIES Stable Durable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""
IMPL = """CONSTANTS
  Pairs = {0, 1}
  UserOf <- UserOfMC
  MaxRecords = %d
SPECIFICATION Spec
INVARIANTS AnswersRight MarkedWhileOpen CleanUnmarked Durable NeverShort Exactly
PROPERTY Refines
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""


def nums(n):
    return ", ".join(str(i) for i in range(n))


def some_id(rnd):
    return rnd.choice([0, 1, 2, 255, 256, 257, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 53 + 1,
                       2 ** 63 - 1, 2 ** 63, M64 - 1, M64, rnd.randrange(2 ** 64), rnd.randrange(2 ** 64),
                       rnd.randrange(2 ** 16)])


def pairs(rnd, n, small=False):
    """n distinct user-item pairs, some sharing a user, some an item. small: ids of one byte,
    so far apart that a record torn over another one can never carry a matching checksum."""
    while True:
        if small:
            us = rnd.sample(range(8, 250, 9), max(1, (n + 1) // 2))
            it = rnd.sample(range(3, 250, 7), n)
        else:
            us = [some_id(rnd) for _ in range(max(1, (n + 1) // 2))]
            it = [some_id(rnd) for _ in range(n)]
            if rnd.random() < 0.5:
                it = [rnd.choice(us + it) for _ in range(n)]
        ps = [(us[k // 2 % len(us)], it[k if rnd.random() < 0.6 else (k * 7 + 1) % n]) for k in range(n)]
        if len(set(ps)) == n:
            return [[str(u), str(i)] for u, i in ps]


def grid(n, users=3):
    """n pairs of few users with many items each. Ids again so far apart that no mixture of
    two records carries a matching checksum."""
    return [["%d" % (9 * (1 + k % users)), "%d" % (50 * 256 * (k // users // 250) + k // users % 250)] for k in range(n)]


def conform(ctx, cases, label="", post=None, race=False):
    groups = {}
    for c in cases:
        n = len(c["pairs"])
        k = next(b for b in (1, 2, 3, 4, 6, 12, 64, 600, 4000) if n <= b)
        groups.setdefault(k, []).append(c)
    for k, cs in sorted(groups.items()):
        ctx.conform("delta", "DeltaTrace", cs, cfg=TRACE % nums(k), post=post or POST["DeltaTrace"],
                    race=race, label="%s (up to %d pairs)" % (label, k))


def split(case, res):
    return res["traces"] if "traces" in res else [res]


POST = {"DeltaTrace": split}


def with_cases(ctx, hists, n, rnd, os_share=0.15, obs=1):
    return [{"kind": "hist", "pairs": pairs(rnd, n), "ops": h, "obs": obs,
             "os": rnd.random() < os_share, "short": rnd.choice([0, 0, 0, 1, 2, 5, 17])} for h in hists]


def bulk(rnd, big):
    """Many entries: several users with many items each, far beyond every buffer."""
    out = []
    for n, per in ([(300, 1), (1900, 40)] + ([(3500, 700), (600, 600)] if big else [])):
        us = [some_id(rnd) for _ in range(max(1, n // per))]
        ps, seen = [], set()
        k = 0
        while len(ps) < n:
            p = (us[k % len(us)], rnd.randrange(2 ** 64) if rnd.random() < 0.5 else rnd.randrange(4096))
            k += 1
            if p not in seen:
                seen.add(p)
                ps.append([str(p[0]), str(p[1])])

        def adds(frac):
            return {"e": "adds", "ops": [[rnd.choice([1, 2]), p] for p in range(n) if rnd.random() < frac]}
        ops = [{"e": "openr"}, adds(0.9), {"e": "look"}, {"e": "flush"}, {"e": "look"}, adds(0.3), {"e": "look"},
               {"e": "close"}, {"e": "open"}, {"e": "look"}, adds(0.2), {"e": "flush"}, adds(0.2),
               {"e": "close"}, {"e": "openr"}, {"e": "look"}, {"e": "close"}]
        out.append({"kind": "hist", "pairs": ps, "ops": ops, "obs": 0, "os": rnd.random() < 0.5})
    return out


def blocks(ctx, rnd, crash):
    """Tens of thousands of entries: a pair of the specification stands for a block of them."""
    out = []
    for block in ([14000, 22500] if not ctx.thorough else [5000, 9000, 14000, 22500, 33000, 45000]):
        ps = [["5", str(2 ** 40)], ["9", "0"], ["77", str(2 ** 50)], ["77", str(2 ** 60)]]
        ops = [{"e": "openr"}]
        done = set()
        for k in range(6):
            batch = [[rnd.choice([1, 2]), p] for p in rnd.sample(range(4), rnd.choice([1, 2, 3]))]
            ops += [{"e": "add", "o": batch[0][0], "p": batch[0][1]}, {"e": "adds", "ops": batch[1:]}]
            done |= {p for _, p in batch}
            if k % 2:
                ops += [rnd.choice([{"e": "flush"}, {"e": "close"}])]
                ops += [] if ops[-1]["e"] == "flush" else [{"e": "openr"}]
        ops += [{"e": "adds", "ops": [[rnd.choice([1, 2]), p] for p in set(range(4)) - done]}, {"e": "look"}, {"e": "flush"}]
        if crash:
            out.append({"kind": "crash", "pairs": ps, "ops": [ops[0]] + [o for o in ops[-12:] if o["e"][:3] in ("add", "flu")], "cont": [
                {"e": "add", "p": 1, "o": 1}, {"e": "close"}, {"e": "openr"}], "cuts": "none", "depth": 1,
                "max": 4, "seed": rnd.randrange(2 ** 31), "block": block})
            continue
        ops += [{"e": "look"}, {"e": "close"}, {"e": "open"}, {"e": "look"}, {"e": "crash"}, {"e": "openr"}, {"e": "look"},
                {"e": "close"}, {"e": "openr"}, {"e": "look"}]
        out.append({"kind": "hist", "pairs": ps, "ops": ops, "obs": 0, "os": rnd.random() < 0.5, "block": block})
    return out


def histories(ctx, crash):
    """Behaviours of the specification as cases."""
    rnd = random.Random(ctx.seed)
    kind = "crash" if crash else "clean"
    cases = []
    cases += with_cases(ctx, ctx.generate("DeltaGen", gen_cfg(2, ctx.n(5, 6), kind, 3)), 2, rnd, 0.05)
    cases += with_cases(ctx, ctx.generate("DeltaGen", gen_cfg(4, 24, kind), simulate=ctx.n(500, 4000),
                                          depth=26, seed_shift=1), 4, rnd)
    cases += with_cases(ctx, ctx.generate("DeltaGen", gen_cfg(12, 60, kind), simulate=ctx.n(120, 1200),
                                          depth=62, seed_shift=2), 12, rnd)
    cases += bulk(rnd, ctx.thorough)
    cases += blocks(ctx, rnd, False)
    return cases


def twins(cases, rnd, n, **kw):
    """Two storages of one factory: pairs of cases, their operations interleaved or parallel."""
    out = []
    some = [c for c in cases if not c.get("block") and len(c["pairs"]) <= 12]
    long = [c for c in some if len(c["ops"]) > 12]
    for _ in range(n):
        a, b = rnd.sample(some if rnd.random() < 0.3 else long, 2)
        if len(a["pairs"]) < len(b["pairs"]):
            a, b = b, a
        b = dict(b)
        if rnd.random() < 0.5:  # the same users and items
            b["pairs"] = [list(p) for p in a["pairs"][:len(b["pairs"])]]
        out.append(dict(a, twin=b, seed=rnd.randrange(2 ** 31), **kw))
    return out


def c03(ctx):
    ctx.model("DeltaMC", MC % ctx.n("0, 1", "0, 1, 2"), workers=8)
    cases = histories(ctx, False)
    conform(ctx, cases, "histories")
    rnd = random.Random(ctx.seed + 1)
    conform(ctx, twins(cases, rnd, ctx.n(200, 2000)), "two files")
    conform(ctx, twins(cases, rnd, ctx.n(60, 400), par=True), "two files at once", race=True)


def c04(ctx):
    ctx.model("DeltaMC", MC % ctx.n("0, 1", "0, 1, 2"), workers=8)
    conform(ctx, histories(ctx, False), "histories")


def c05(ctx):
    ctx.model("DeltaImplMC", IMPL % ctx.n(3, 5), workers=8, timeout=800)
    rnd = random.Random(ctx.seed)
    conts = [[],
             [{"e": "add", "p": 1, "o": 2}, {"e": "flush"}, {"e": "add", "p": 0, "o": 1}, {"e": "close"},
              {"e": "openr"}],
             [{"e": "add", "p": 0, "o": 2}, {"e": "add", "p": 2, "o": 1}, {"e": "close"}, {"e": "open"},
              {"e": "add", "p": 0, "o": 1}, {"e": "flush"}],
             [{"e": "flush"}, {"e": "add", "p": 2, "o": 2}, {"e": "flush"}]]

    def case(h, n, cuts, depth, mx, cont=None):
        return {"kind": "crash", "pairs": pairs(rnd, n, small=cuts != "none"), "ops": h,
                "cont": rnd.choice(conts) if cont is None else cont, "cuts": cuts, "depth": depth,
                "max": mx, "seed": rnd.randrange(2 ** 31)}
    cases = []
    short = ctx.generate("DeltaGen", gen_cfg(3, 7, "inner"), simulate=ctx.n(60, 400), depth=9, seed_shift=1)
    for h in short:
        cases.append(case(h, 3, "all", 1, 0))
        cases.append(case(h, 3, "some", 2, ctx.n(9, 16)))
    for h in ctx.generate("DeltaGen", gen_cfg(4, 22, "inner"), simulate=ctx.n(60, 500), depth=24, seed_shift=2):
        cases.append(case(h, 4, "some", 2, ctx.n(8, 14)))
        cases.append(case(h, 4, "none", 2, ctx.n(8, 14)))
    cases.append(case([{"e": "openr"}], 3, "all", 2, 0))
    # files found marked, with sound and damaged entries: crashes inside of their recovery, and
    # in what follows
    for k in range(ctx.n(150, 1200)):
        n = rnd.choice([2, 3, 4])
        c = case([{"e": "openr"}], n, rnd.choice(["all", "some", "none"]), 2, ctx.n(12, 24),
                 cont=rnd.choice(conts[1:]) if n > 2 else
                 [{"e": "add", "p": rnd.randrange(n), "o": rnd.choice([1, 2])}, {"e": "flush"},
                  {"e": "add", "p": rnd.randrange(n), "o": rnd.choice([1, 2])}, {"e": "flush"}, {"e": "close"}, {"e": "open"}])
        if rnd.random() < 0.5:
            c["ops"] += [{"e": "add", "p": rnd.randrange(n), "o": rnd.choice([1, 2])}, {"e": "flush"}]
        body = b""
        segs = [rnd.choice(["sound", "sound", "zero", "sum", "sound"]) for _ in range(rnd.choice([1, 2, 3, 5, 8]))]
        for s in segs:
            u, i = c["pairs"][rnd.randrange(n)]
            e = entry(rnd.choice([43, 45]), int(u), int(i))
            body += e if s == "sound" else bytes(18) if s == "zero" else e[:17] + bytes([(e[17] + 128) % 256])
        if rnd.random() < 0.3:
            body += bytes(rnd.randrange(1, 18))
        cnt = len(segs) + rnd.choice([0, 0, 1, -1, 3])
        c["found"], c["image"] = True, list(b"RECDELTA" + bytes([1, 1]) + struct.pack(">I", max(0, cnt)) + body)
        cases.append(c)
    # flushes and recoveries of several buffers
    for k in range(ctx.n(4, 24)):
        n = rnd.choice([300, 700, 1100])
        ops = [{"e": "openr"}, {"e": "adds", "ops": [[rnd.choice([1, 2]), p] for p in range(n) if rnd.random() < 0.6]},
               {"e": "flush"}, {"e": "adds", "ops": [[rnd.choice([1, 2]), p] for p in range(n) if rnd.random() < 0.8]},
               {"e": rnd.choice(["flush", "close"])}]
        c = case(ops, 4, rnd.choice(["none", "some"]), 2, 4, cont=[
            {"e": "adds", "ops": [[rnd.choice([1, 2]), p] for p in range(n) if rnd.random() < 0.3]}, {"e": "flush"}])
        c["pairs"] = grid(n)
        cases.append(c)
    for k in range(ctx.n(3, 16)):
        n = 2000
        c = case([{"e": "openr"}], 4, rnd.choice(["none", "some"]), 2, 6, cont=[
            {"e": "adds", "ops": [[rnd.choice([1, 2]), p] for p in range(n) if rnd.random() < 0.1]}, {"e": "flush"}])
        c["pairs"] = grid(n)
        drop = set(rnd.sample(range(2100), 3)) | {1, 2}
        body = b"".join(entry(rnd.choice([43, 45]), int(c["pairs"][q % n][0]), int(c["pairs"][q % n][1]))
                        if q not in drop else bytes(18) for q in range(2100))
        c["found"], c["image"] = True, list(b"RECDELTA" + bytes([1, 1]) + struct.pack(">I", 2100) + body)
        cases.append(c)
    cases += blocks(ctx, rnd, True)
    conform(ctx, cases, "crash points")


def entry(op, u, i):
    b = bytes([op]) + struct.pack(">QQ", u, i)
    return b + bytes([sum(b) % 256])


def image(rnd, segs):
    """bytes of a delta file from a description, and the pairs it mentions"""
    body, ps = b"", []
    for s in segs:
        u, i, o = some_id(rnd), some_id(rnd), rnd.choice([43, 45])
        if ps and rnd.random() < 0.4:
            u, i = rnd.choice(ps)
        e = entry(o, u, i)
        ps.append((u, i))
        if s == "sound":
            pass
        elif s == "zero":
            e = bytes(18)
        elif s == "flip":
            k = rnd.randrange(18)
            e = e[:k] + bytes([(e[k] + rnd.randrange(1, 256)) % 256]) + e[k + 1:]
        elif s == "opcode":     # checksum right, operation unknown
            e = entry(rnd.choice([0, 1, 2, 42, 44, 46, 255, 171]), u, i)
        elif s == "sum":
            e = e[:17] + bytes([(e[17] + rnd.choice([1, 2, 128, 255])) % 256])
        elif s == "noise":
            e = bytes(rnd.randrange(256) for _ in range(18))
        elif s == "zeroid":     # sound, with ids 0
            e = entry(o, 0, 0)
            ps[-1] = (0, 0)
        body += e
    return body, ps


KINDS = ["sound", "sound", "sound", "zero", "flip", "opcode", "sum", "noise", "zeroid"]


def images(ctx, rnd, n, ops):
    """n damaged, torn or good files"""
    cases = []
    for k in range(n):
        ln = rnd.choice([0, 1, 2, 3, 4, 6, 9, 20]) if k % 40 else rnd.choice([230, 300])
        good = rnd.random() < 0.25
        segs = ["sound" if good else rnd.choice(KINDS) for _ in range(ln)]
        body, ps = image(rnd, segs)
        cnt = ln
        lock = rnd.choice([0, 1, 1, 1, 2, 255])
        ver = 1
        pre = b"RECDELTA"
        if good:
            lock = rnd.choice([0, 0, 1])
        else:
            r = rnd.random()
            if r < 0.3:
                cnt = rnd.choice([0, max(0, ln - 1), ln + 1, ln + 5, 2 ** 16, 2 ** 31, 2 ** 32 - 1, 255, 256])
            if rnd.random() < 0.25 and body:
                body = body[:-rnd.randrange(1, min(18, len(body)) + 1)]
            if rnd.random() < 0.07:
                j = rnd.randrange(8)
                pre = pre[:j] + bytes([pre[j] ^ (1 << rnd.randrange(8))]) + pre[j + 1:]
            if rnd.random() < 0.05:
                ver = rnd.choice([0, 2, 255])
        img = pre + bytes([ver, lock]) + struct.pack(">I", cnt) + body
        if not good and rnd.random() < 0.08:
            img = img[:rnd.randrange(0, min(len(img), 15))]
        cases.append({"kind": "image", "pairs": [], "image": list(img), "os": rnd.random() < 0.1,
                      "ops": [{"e": o} for o in ops]})
    return cases


def runs(rnd, lengths):
    """files with long runs of equal damage between sound entries"""
    cases = []
    for n in lengths:
        body = b""
        pieces = [(n, rnd.choice(["zero", "sum", "opcode", "noise", "zero"]))]
        pieces += [(rnd.choice([1, 2, n // 3, n // 7]), rnd.choice(KINDS[3:8])) for _ in range(rnd.randrange(2))]
        rnd.shuffle(pieces)
        count = 0
        for k, kind in pieces:
            a = rnd.choice([0, 1, 2])
            body += image(rnd, ["sound"] * a)[0]
            one = image(rnd, [kind])[0]
            body += one * k if rnd.random() < 0.5 or k > 3000 else image(rnd, [kind] * k)[0]
            count += a + k
        a = rnd.choice([1, 2, 3])
        body += image(rnd, ["sound"] * a)[0] + bytes(rnd.choice([0, 0, 1, 17]))
        cnt = rnd.choice([count + a, count + a, 0, 2, 65535])
        cases.append({"kind": "image", "pairs": [], "os": False, "ops": [{"e": rnd.choice(["recover", "recover", "openr"])}],
                      "image": list(b"RECDELTA" + bytes([1, 1]) + struct.pack(">I", cnt) + body)})
    return cases


def faulty(ctx, rnd, ops, n):
    """files whose recovery or opening hits a failing read, seek, write or truncation"""
    cases = []
    for c in images(ctx, rnd, n, [rnd.choice(ops)]):
        if len(c["image"]) > 400:
            continue
        if rnd.random() < 0.7 and len(c["image"]) > 9:
            c["image"][9] = 1
            c["image"][:8] = b"RECDELTA"
        calls = 14 + 4 * (len(c["image"]) // 18)
        c["os"] = False
        c["ops"] = [{"e": o, "at": at, "n": rnd.choice([1, 1, 2, 99]),
                     "part": rnd.choice([0, 0, 0, rnd.randrange(14), 14, 14 + 18 * rnd.randrange(6)])}
                    for o in (rnd.choice(ops),) for at in (range(1, calls + 12) if rnd.random() < 0.3 or ctx.thorough
                                                           else rnd.sample(range(1, calls + 12), 8))]
        cases.append(c)
    return cases


def c06(ctx):
    ctx.model("DeltaFileMC", "DeltaFileMC.cfg", workers=8)
    rnd = random.Random(ctx.seed)
    cases = images(ctx, rnd, ctx.n(1500, 12000), ["recover", "openr"])
    # every single-byte damage and every truncation of a file of three entries
    e = [entry(43, 1, 2), entry(45, 2 ** 40 + 5, 2 ** 63), entry(43, 1, 3)]
    img = b"RECDELTA" + bytes([1, 1]) + struct.pack(">I", 3) + b"".join(e)
    for k in range(len(img)):
        for x in ((1, 2, 0x80) if not ctx.thorough else (1, 2, 4, 8, 16, 32, 64, 128, 255)):
            cases.append({"kind": "image", "pairs": [], "os": False, "ops": [{"e": "recover"}],
                          "image": list(img[:k] + bytes([img[k] ^ x]) + img[k + 1:])})
        cases.append({"kind": "image", "pairs": [], "os": False, "ops": [{"e": "recover"}, {"e": "openr"}],
                      "image": list(img[:k])})
    cases += faulty(ctx, rnd, ["recover", "openr"], ctx.n(250, 2500))
    cases += runs(rnd, [500, 1200, 2600] + ([70000] if not ctx.thorough else [300] * 20 + [1500] * 10 + [4000] * 6 + [12000, 20000, 70000, 150000]))
    ctx.conform("delta", "DeltaFileTrace", cases, cfg="DeltaFileTrace.cfg", label="damaged files")


def c07(ctx):
    ctx.model("DeltaMC", MC % ctx.n("0, 1", "0, 1, 2"), workers=8)
    conform(ctx, histories(ctx, True), "histories")
    rnd = random.Random(ctx.seed + 77)
    cases = images(ctx, rnd, ctx.n(700, 6000), ["open", "openr"])
    cases += faulty(ctx, rnd, ["open", "open", "openr"], ctx.n(100, 1000))
    # long ones: more entries than two bytes of a count hold
    for n in [1000, 65536] + ctx.n([], [4096, 65535, 70001, 131072, 200000]):
        body = b"".join(image(rnd, ["sound"] * 7)[0] for _ in range(n // 7)) + image(rnd, ["sound"] * (n % 7))[0]
        for cnt, lock in ((n, 0), (n + rnd.choice([1, 256, 65536]), rnd.choice([0, 1])), (n, 1))[:rnd.choice([1, 2, 2, 3])]:
            cases.append({"kind": "image", "pairs": [], "os": False, "ops": [{"e": o} for o in ("open", "openr")],
                          "image": list(b"RECDELTA" + bytes([1, lock]) + struct.pack(">I", cnt) + body)})
    ctx.conform("delta", "DeltaFileTrace", cases, cfg="DeltaFileTrace.cfg", label="opening files")
    marks.run(ctx, "delta", 9, b"RECDELTA" + bytes([1, 0, 0, 0, 0, 0]))


def c08(ctx):
    ctx.model("DeltaImplMC", IMPL % ctx.n(3, 5), workers=8, timeout=800)
    rnd = random.Random(ctx.seed)
    cases = []

    def faulty(h, n, rate):
        """the history with faults: each fault is followed by a look at what a recovery would
        bring, then the operation is repeated until it succeeds"""
        ops = []
        for o in h:
            if o["e"] in ("flush", "close"):
                while rnd.random() < rate:
                    ops.append({"e": o["e"], "at": rnd.choice([1, 2, 3, 4, 5, 6, 7, 8]),
                                "n": rnd.choice([1, 1, 2, 99]),
                                "part": rnd.choice([0, 0, 1, 5, 17, 18, 19, 36, 40])})
                    ops.append({"e": "probe"})
                    r = rnd.random()
                    if r < 0.3:
                        ops.append({"e": "add", "p": rnd.randrange(n), "o": rnd.choice([1, 2])})
                    elif r < 0.4:
                        ops.append({"e": "flush"})
            ops.append(o)
        return ops
    for np, n, sim, rate in ((2, 10, ctx.n(400, 4000), 0.6), (4, 30, ctx.n(250, 2500), 0.45)):
        for h in ctx.generate("DeltaGen", gen_cfg(np, n, "clean"), simulate=sim, depth=n + 2, seed_shift=n):
            cases.append({"kind": "hist", "pairs": pairs(rnd, np, small=True), "ops": faulty(h, np, rate),
                          "obs": 1, "os": False})
    # every call of a flush and of a close, failing once or for good, with every partial write
    for e in ("flush", "close"):
        for at in range(1, 10):
            for part in range(0, 56, ctx.n(5, 1)):
                for k in (1, 99):
                    ops = [{"e": "openr"}, {"e": "add", "p": 0, "o": 1}, {"e": "add", "p": 2, "o": 2},
                           {"e": "flush"}, {"e": "add", "p": 0, "o": 2}, {"e": "add", "p": 1, "o": 1},
                           {"e": "add", "p": 3, "o": 1}, {"e": e, "at": at, "n": k, "part": part}, {"e": "probe"},
                           {"e": "add", "p": 2, "o": 1}, {"e": e, "at": (at + part) % 9 + 1, "n": 1, "part": part // 2},
                           {"e": "probe"}, {"e": "flush"}, {"e": "probe"}, {"e": "close"}, {"e": "openr"},
                           {"e": "close"}]
                    cases.append({"kind": "hist", "pairs": pairs(rnd, 4, small=True), "ops": ops, "obs": 1,
                                  "os": False})
    # far more than a buffer
    for at in (3, 4, 5, 6):
        us = [["%d" % (8 + 9 * (k % 27)), "%d" % (3 + 7 * (k // 27))] for k in range(600)]
        allp = {"e": "adds", "ops": [[1, p] for p in range(600)]}
        cases.append({"kind": "hist", "pairs": us, "obs": 0, "os": False, "ops": [
            {"e": "openr"}, allp, {"e": "flush", "at": at, "n": 1, "part": rnd.randrange(4096)}, {"e": "probe"},
            {"e": "look"}, {"e": "adds", "ops": [[2, p] for p in range(0, 600, 3)]},
            {"e": "flush", "at": at + 1, "n": 2, "part": rnd.randrange(4096)}, {"e": "look"}, {"e": "flush"},
            {"e": "close"}, {"e": "openr"}, {"e": "look"}]})
    # thousands of operations of few users: a fault of every write there is
    for at in range(3, 16):
        n = rnd.choice([2200, 2600])
        fault = {"at": at, "n": rnd.choice([1, 2, 99]), "part": rnd.choice([0, 18, rnd.randrange(4096)])}
        ops = [{"e": "openr"}]
        if at % 2:
            ops += [{"e": "adds", "ops": [[1, p] for p in range(0, n, 7)]}, {"e": "flush"}]
        ops += [{"e": "adds", "ops": [[1 + p % 5 // 4, p] for p in range(n)]},
                dict(fault, e="flush"), {"e": "look"}, {"e": "probe"}]
        if at % 3 == 0:
            ops += [{"e": "adds", "ops": [[2, p] for p in range(0, n, 3)]}]
        ops += [{"e": "flush", "at": 16 - at, "n": 1, "part": 9}, {"e": "flush"}, {"e": "look"},
                {"e": "close"}, {"e": "openr"}, {"e": "look"}]
        cases.append({"kind": "hist", "pairs": grid(n, rnd.choice([2, 3, 6])), "obs": 0, "os": False, "ops": ops})
    for c in cases:         # a close that met its fault only once is over: the rest must fit
        c["ops"] = [dict(o) for o in c["ops"]]
    conform(ctx, cases, "faults")
