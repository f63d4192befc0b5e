"""The index storage: C09 C10."""
import random
import struct

import marks
from delta import M64, some_id, split, nums

MC = """CONSTANTS
  Ids = {0, 1, 2}
  Vals = {1, 2}
SPECIFICATION Spec
PROPERTY Steps
CHECK_DEADLOCK FALSE
"""
IMPL = """CONSTANTS
  Ids = {%s}
  Vals = {1, 2}
  MaxLen = 5
SPECIFICATION Spec
INVARIANTS MarkedWhileOpen NeverMixed CleanOpens AfterCrash
PROPERTY Refines
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS
  Ids = {%s}
  Vals = {1, 2, 3}
  N = %d
  Kind = "%s"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""
TRACE = """CONSTANTS
  Ids = {%s}
  Vals = {1, 2, 3}
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
"""
POST = {"IndexTrace": split}


def ids(rnd, n):
    r = set()
    while len(r) < n:
        r.add(some_id(rnd) if rnd.random() < 0.7 else rnd.randrange(2 ** 64))
    r = list(r)
    rnd.shuffle(r)
    return [str(x) for x in r]


def case(rnd, h, n, kind="hist", **kw):
    c = {"kind": kind, "ids": ids(rnd, n), "vals": ids(rnd, 3), "ops": h, "obs": 1, "os": False,
         "short": rnd.choice([0, 0, 0, 1, 2, 7, 15])}
    if rnd.random() < 0.3:
        c["vals"][0] = "0"
        c["vals"] = c["vals"] if len(set(c["vals"])) == 3 else ["0", "1", "7"]
    c.update(kw)
    return c


def blocks(rnd, h, n, k, kind="hist", **kw):
    """every id of the specification stands for k ids"""
    return case(rnd, h, n, kind=kind, k=k, mult=str(rnd.randrange(2 ** 63) * 2 + 1),
                vals=["0", str(2 ** 40 + 7), str(M64 - 2 ** 30)], **kw)


def conform(ctx, cases, label, race=False):
    groups = {}
    for c in cases:
        k = next(b for b in (2, 3, 4, 8, 40, 800, 4000) if len(c["ids"]) <= b)
        groups.setdefault(k, []).append(c)
    for k, cs in sorted(groups.items()):
        ctx.conform("index", "IndexTrace", cs, cfg=TRACE % nums(k), post=split, race=race,
                    label="%s (up to %d ids)" % (label, k))


def bulk(rnd, sizes):
    out = []
    for n in sizes:
        def some(frac, vals=(1, 2, 3)):
            return {"e": "puts", "kv": [[k, rnd.choice(vals)] for k in range(n) if rnd.random() < frac]}
        ops = [{"e": "open"}, some(0.9), {"e": "look"}, {"e": "close"}, {"e": "open"}, some(0.5, (0, 1, 2)),
               {"e": "close"}, {"e": "open"}, some(0.7, (0,)), {"e": "look"}, {"e": "close"}, {"e": "open"},
               some(0.1), {"e": "look"}, {"e": "close"}, {"e": "open"}]
        out.append(case(rnd, ops, n, obs=0, os=rnd.random() < 0.5))
    return out


def twins(cases, rnd, n, **kw):
    """Two storages of one factory: pairs of cases, their operations interleaved or parallel."""
    out = []
    some = [c for c in cases if c.get("k", 1) == 1 and len(c["ids"]) <= 40]
    long = [c for c in some if len(c["ops"]) > 12]
    for _ in range(n):
        a, b = rnd.sample(some if rnd.random() < 0.3 else long, 2)
        if len(a["ids"]) < len(b["ids"]):
            a, b = b, a
        b = dict(b)
        if rnd.random() < 0.5:  # the same ids
            b["ids"] = a["ids"][:len(b["ids"])]
        out.append(dict(a, twin=b, seed=rnd.randrange(2 ** 31), **kw))
    return out


def c09(ctx):
    ctx.model("Index", MC)
    rnd = random.Random(ctx.seed)
    cases = []
    for h in ctx.generate("IndexGen", GEN % (nums(2), ctx.n(5, 6), "clean")):
        cases.append(case(rnd, h, 2, os=rnd.random() < 0.05))
    for h in ctx.generate("IndexGen", GEN % (nums(4), 40, "clean"), simulate=ctx.n(300, 3000), depth=42, seed_shift=1):
        cases.append(case(rnd, h, 4, os=rnd.random() < 0.2))
    hist = ctx.generate("IndexGen", GEN % (nums(4), 25, "clean"), simulate=ctx.n(40, 300), depth=27, seed_shift=2)
    for i, h in enumerate(hist):
        cases.append(blocks(rnd, h, 4, 33000 if i % 4 == 0 else rnd.choice([64, 100, 256, 257, 1000, 5000, 17000]),
                            os=rnd.random() < 0.2))
    cases += bulk(rnd, [1, 40, 255, 256, 700, 2500] + ([3900, 65, 1000] if ctx.thorough else []))
    conform(ctx, cases, "histories")
    conform(ctx, twins(cases, rnd, ctx.n(200, 2000)), "two files")
    conform(ctx, twins(cases, rnd, ctx.n(60, 400), par=True), "two files at once", race=True)


def c10(ctx):
    ctx.model("IndexImpl", IMPL % ctx.n("0, 1", "0, 1, 2"), workers=8)
    rnd = random.Random(ctx.seed)
    cases = []
    hist = ctx.generate("IndexGen", GEN % (nums(3), 12, "crash"), simulate=ctx.n(250, 2500), depth=14, seed_shift=1)
    for h in hist:
        cases.append(case(rnd, h, 3, os=rnd.random() < 0.2))
    clean = ctx.generate("IndexGen", GEN % (nums(3), 14, "clean"), simulate=ctx.n(150, 1000), depth=16, seed_shift=2)
    for h in clean:
        cases.append(case(rnd, h, 3, kind="crash", cuts=rnd.choice(["some", "some", "all", "none"]),
                          max=ctx.n(60, 200), seed=rnd.randrange(2 ** 31)))
    # faults
    for h in clean:
        ops = [dict(o) for o in h]
        for o in ops:
            if o["e"] in ("open", "close") and rnd.random() < 0.5:
                o.update({"at": rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), "n": rnd.choice([1, 2, 99]),
                          "part": rnd.choice([0, 1, 6, 7, 8, 12, 20, 33]), "reads": rnd.random() < 0.3})
        cases.append(case(rnd, ops + [{"e": "open"}, {"e": "open"}], 3))
    for first in (0, 1, 3):
        for e in ("open", "close"):
            for at in range(1, 13):
                for part in ctx.n((0, 1, 15, 16, 17), range(0, 50, 3)):
                    for k in (1, 99):
                        for reads in (False, True):
                            f = {"at": at, "n": k, "part": part, "reads": reads}
                            ops = [{"e": "open"}]
                            ops += [{"e": "put", "p": p, "v": 1 + p} for p in range(first)]
                            ops += [{"e": "close"}, dict({"e": "open"}, **(f if e == "open" else {})),
                                    {"e": "put", "p": 2, "v": 1}, {"e": "put", "p": 0, "v": 3},
                                    {"e": "remove", "p": 1},
                                    dict({"e": "close"}, **(f if e == "close" else {})), {"e": "open"},
                                    {"e": "open"}]
                            cases.append(case(rnd, ops, 3))
    # the same with far more entries than a buffer holds
    for i, h in enumerate(clean):
        if i % 5 == 0:
            cases.append(blocks(rnd, h, 3, rnd.choice([100, 300]), kind="crash", cuts=rnd.choice(["some", "none"]),
                                max=ctx.n(12, 60), seed=rnd.randrange(2 ** 31)))
        ops = [dict(o) for o in h]
        for o in ops:
            if o["e"] in ("open", "close") and rnd.random() < 0.5:
                o.update({"at": rnd.randrange(1, 16), "n": rnd.choice([1, 1, 1, 2, 99]),
                          "part": rnd.choice([0, 16, 100, 4095]), "reads": rnd.random() < 0.2})
        cases.append(blocks(rnd, ops + [{"e": "open"}, {"e": "open"}], 3, rnd.choice([90, 150, 300, 700])))
    for e in ("open", "close"):
        for at in range(1, 14):
            for size in (300, 520):
                for reads in (False, True):
                    f = {"at": at, "n": 1, "part": rnd.choice([0, 0, 16, 4000]), "reads": reads}
                    ops = [{"e": "open"}, {"e": "put", "p": 0, "v": 1}, {"e": "put", "p": 1, "v": 2}, {"e": "close"},
                           dict({"e": "open"}, **(f if e == "open" else {})), {"e": "put", "p": 0, "v": 3},
                           {"e": "remove", "p": 1}, {"e": "put", "p": 2, "v": 1},
                           dict({"e": "close"}, **(f if e == "close" else {})), {"e": "open"}, {"e": "open"}]
                    cases.append(blocks(rnd, ops, 3, size))
    # creation
    for at in range(1, 6):
        for part in range(0, 13):
            f = {"at": at, "n": 99, "part": part}
            cases.append(case(rnd, [dict({"e": "open"}, **f), {"e": "open"}, {"e": "open"}], 2))
    conform(ctx, cases, "crashes and faults")
    # opening arbitrary files
    cases = []
    for k in range(ctx.n(600, 5000)):
        n = rnd.choice([0, 1, 2, 3, 7, 300])
        body = b"".join(struct.pack(">QQ", some_id(rnd), some_id(rnd)) for _ in range(n))
        cnt = n if rnd.random() < 0.6 else rnd.choice([0, max(0, n - 1), n + 1, n + 3, 256, 65536, 2 ** 31, 2 ** 32 - 1])
        lock = rnd.choice([0, 0, 1, 1, 2, 128, 255])
        img = b"RECIDX" + bytes([1, lock]) + struct.pack(">I", cnt) + body
        if rnd.random() < 0.4:
            img = img[:rnd.randrange(len(img) + 1)]
        cases.append({"kind": "image", "ids": [], "vals": [], "image": list(img), "ops": [], "os": rnd.random() < 0.3})
    ctx.conform("index", "IndexFile", cases, label="opening files", cfg="Trace.cfg")
    marks.run(ctx, "index", 7, b"RECIDX" + bytes([1, 0, 0, 0, 0, 0]))
