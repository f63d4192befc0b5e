"""The recommendation database: C11 C12 C13 C14."""
import random
import struct

import marks
from delta import some_id

GENM = """CONSTANTS
  Cap <- CapG
  Need <- NeedG
  N = 0
  NE = %d
  Record = FALSE
INIT GInit
NEXT GNext
PROPERTIES OneOnly Orderly
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS
  Cap <- CapG
  Need <- NeedG
  N = %d
  NE = %d
  Record = TRUE
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""


def encode(e):
    b = struct.pack(">IBQI", e["cap"], e["del"], int(e["user"]), len(e["likes"]))
    b += b"".join(struct.pack(">Q", int(x)) for x in e["likes"])
    b += struct.pack(">I", len(e["dislikes"]))
    b += b"".join(struct.pack(">Q", int(x)) for x in e["dislikes"])
    return b + bytes(max(0, e["cap"] - len(b)))


MARKS = [0, 0, 0, 0, 1, 1, 1, 2, 254, 255]


def entry(rnd, nl, nd, spare):
    return {"cap": 21 + 8 * (nl + nd) + spare, "del": rnd.choice(MARKS), "user": str(some_id(rnd)),
            "likes": [str(some_id(rnd)) for _ in range(nl)], "dislikes": [str(some_id(rnd)) for _ in range(nd)]}


def head(n, lock=0, magic=b"RECDB"):
    return magic + bytes([1]) + b"LIKE    " + bytes([lock]) + struct.pack(">I", n)


SIZES = [(0, 0), (1, 0), (0, 1), (2, 3), (5, 1), (30, 0), (10, 25), (100, 40), (255, 1), (256, 300), (511, 0),
         (600, 700), (1100, 1), (1, 2100), (1023, 2), (1024, 0), (1025, 1025)]
SPARES = [0, 0, 1, 7, 8, 50, 99, 100, 101, 200, 201, 4096, 5000]


FREE = sorted({100 * k for k in range(1, 13)} | {2 ** k for k in range(3, 14)} | {2 ** k + d for k in (8, 9, 10, 12) for d in (-1, 1)})


def database(rnd, n, small):
    es = []
    for _ in range(n):
        nl, nd = rnd.choice(SIZES[:7] if small else SIZES)
        es.append(entry(rnd, nl, nd, rnd.choice(SPARES[:8] if small else SPARES)))
    return es


def changed(rnd, kind, old):
    """the new entry of a rewrite of the given kind"""
    room = max(0, (old["cap"] - 21) // 8)
    cap = old["cap"]
    if kind == "small":
        # few items, or as many as leave a noteworthy number of bytes free
        free = [t for t in FREE if t <= cap - 21 and (cap - 21 - t) % 8 == 0]
        k = (cap - 21 - rnd.choice(free)) // 8 if free and rnd.random() < 0.6 else rnd.randrange(min(room, 3) + 1)
        nl = rnd.choice([k, k, rnd.randrange(k + 1)])
        nd = k - nl
    elif kind == "full":
        nl = rnd.randrange(room + 1)
        nd = room - nl
    elif kind == "deleted":
        nl, nd = rnd.randrange(room + 1), 0
    elif kind == "big":
        k = room + rnd.choice([1, 1, 2, 40])
        nl = rnd.randrange(k + 1)
        nd = k - nl
    else:
        nl, nd = 0, 0
        cap += rnd.choice([1, 8, 4096]) * (1 if kind == "wider" else -1)
        cap = max(cap, 0)
    e = entry(rnd, nl, nd, 0)
    e["cap"] = cap
    e["del"] = rnd.choice([1, 1, 2, 255]) if kind == "deleted" else 0
    return e


def iter_case(rnd, es, hist, **kw):
    layout = [0, 19]
    body = b""
    for e in es:
        body += encode(e)
        layout.append(19 + len(body))
    ops = []
    for o in hist:
        if o["e"] == "set":
            k = o["k"]
            old = es[k - 1] if k > 0 else (es[0] if es else entry(rnd, 0, 0, 0))
            ops.append({"e": "set", "ent": changed(rnd, o["kind"], old),
                        "how": rnd.choice(["", "", "read", "written"])})
        else:
            ops.append({"e": o["e"]})
    tail = b"" if rnd.random() < 0.8 else bytes(rnd.randrange(256) for _ in range(rnd.randrange(60)))
    c = {"kind": "iter", "img": (head(len(es)) + body + tail).hex(), "want": "good", "layout": layout,
         "entries": es, "ops": ops, "os": rnd.random() < 0.15, "short": rnd.choice([0, 0, 0, 1, 3, 8, 100, 4095])}
    c.update(kw)
    return c


def histories(ctx, kinds, shift):
    rnd = random.Random(ctx.seed + shift)
    cases = []
    for ne, n, sim in ((0, 8, 20), (1, 10, 60), (3, 25, ctx.n(150, 1500)), (7, 60, ctx.n(60, 600)),
                       (40, 200, ctx.n(4, 40))):
        for h in ctx.generate("RecDbGen", GEN % (n, ne), simulate=sim, depth=n + 2, seed_shift=shift + ne):
            h = [o for o in h if o["e"] != "set" or o["kind"] in kinds]
            cases.append(iter_case(rnd, database(rnd, ne, small=rnd.random() < 0.4), h))
    # a straight walk over larger databases
    for ne in (100, 300):
        walk = [{"e": "next"}] * (ne + 2) + [{"e": "rewind"}] + [{"e": "next"}] * (ne + 1)
        cases.append(iter_case(rnd, database(rnd, ne, small=True), walk))
    # tens of thousands of entries: some stand for a block of them
    for k in range(ctx.n(2, 8)):
        es = [entry(rnd, rnd.choice([0, 0, 1]), rnd.choice([0, 0, 2]), rnd.choice([0, 0, 3, 8])) for _ in range(7)]
        blocks = [1 if j % 2 == 0 else rnd.choice([22000, 23000]) if k % 2 == 0 else rnd.choice([300, 3000, 34000]) for j in range(7)]
        layout, body = [0, 19], b""
        for j, e in enumerate(es):
            e["user"] = str(j << 32)
            body += b"".join(encode(dict(e, user=int(e["user"]) + m)) for m in range(blocks[j]))
            layout.append(19 + len(body))
        ops = []
        for j in range(7):
            ops += [{"e": "next"}]
            if blocks[j] == 1 and rnd.random() < 0.7:
                ops.append({"e": "set", "ent": changed(rnd, rnd.choice([x for x in kinds if x != "big"]), es[j]), "how": ""})
        ops += [{"e": "next"}, {"e": "rewind"}] + [{"e": "next"}] * 8
        cases.append({"kind": "iter", "img": (head(sum(blocks)) + body).hex(), "want": "good", "layout": layout,
                      "entries": es, "ops": ops, "os": k % 2 == 1, "blocks": blocks})
    # entries of large capacities: the first ones in memory, the last ones in a sparse file of more than 4 GB
    for k, caps in enumerate([[255, 65535, 65536, 65537, 40], [70000, 2 ** 17 + 5, 131072 + 21, 21], [2 ** 20 + 1, 33, 2 ** 24 + 29, 2 ** 24, 300]] +
                             ([[2 ** 31 + 21, 40, 2 ** 32 - 1, 50, 300]] if ctx.thorough or kinds[-1] == "narrower" else [])):
        es, img, layout = [], head(len(caps)).hex(), [0, 19]
        for cap in caps:
            e = entry(rnd, rnd.randrange(2) if cap > 40 else 0, 1 if cap > 50 else 0, 0)
            b = encode(e)
            e["cap"] = cap
            img += struct.pack(">I", cap).hex() + b[4:].hex() + "|z%d|" % (cap - len(b))
            es.append(e)
            layout.append(layout[-1] + cap)
        small = [j for j, cap in enumerate(caps) if cap < 2 ** 25]
        ops = []
        for j, cap in enumerate(caps):
            ops += [{"e": "next"}]
            if j in small:
                ops += [{"e": "set", "ent": dict(changed(rnd, rnd.choice(["small", "full", "deleted"]), dict(es[j], cap=min(cap, 2 ** 17 + 5))), cap=cap),
                         "how": ""}]
        ops += [{"e": "next"}, {"e": "rewind"}] + [{"e": "next"}] * (len(caps) + 1)
        for ops_ in [ops] if max(caps) > 2 ** 25 else [ops, [o for o in ops if o["e"] != "set"]]:
            cases.append({"kind": "iter", "img": img, "want": "good", "layout": layout, "entries": es, "ops": ops_,
                          "os": k % 2 == 1})
    # rewriting every entry on the way, twice, then reading all of them again
    for ne in (5, 12):
        h = []
        for k in range(1, ne + 1):
            h += [{"e": "next"}] + [{"e": "set", "k": k, "kind": x} for x in kinds[:4]]
        h += [{"e": "next"}, {"e": "rewind"}] + [{"e": "next"}] * (ne + 1)
        for _ in range(6):
            cases.append(iter_case(rnd, database(rnd, ne, small=False), h))
    return cases


def faults(ctx, kinds, shift):
    """iterations during which reads, seeks and writes fail"""
    rnd = random.Random(ctx.seed + shift)
    cases = []
    for ne, n, sim in ((2, 8, ctx.n(60, 600)), (4, 25, ctx.n(100, 1000)), (9, 40, ctx.n(30, 300))):
        for h in ctx.generate("RecDbGen", GEN % (n, ne), simulate=sim, depth=n + 2, seed_shift=shift + ne):
            es = database(rnd, ne, small=rnd.random() < 0.6)
            if rnd.random() < 0.4:      # larger than what is read at once
                es = [entry(rnd, rnd.choice([0, 3, 300, 700]), rnd.choice([0, 2, 500]), rnd.choice([0, 5, 3000])) for _ in range(ne)]
            c = iter_case(rnd, es, [o for o in h if o["e"] != "set" or o["kind"] in kinds], os=False)
            ops, damaged = [], False
            for o in c["ops"]:
                if damaged and o["e"] == "rewind":
                    break
                o["how"] = ""
                while rnd.random() < 0.35:
                    f = dict(o, at=rnd.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 9]), n=rnd.choice([1, 1, 2, 3, 99]),
                             part=rnd.choice([0, 0, 1, 3, 8]))
                    ops.append(f)
                if not (ops and "at" in ops[-1] and o["e"] == "set" and rnd.random() < 0.15):
                    ops.append(o)
                else:
                    damaged = True      # and not mended
            c["ops"] = ops
            if rnd.random() < 0.1:
                c["ops"] = []
            cases.append(c)
    return cases


def split(case, res):
    return res["traces"] if "traces" in res else [res]


POST = {"RecDbTrace": split}


def two(ctx, cases):
    """two databases iterated at the same time"""
    rnd = random.Random(ctx.seed + 5)
    some = [c for c in cases if not c.get("blocks") and len(c["img"]) < 200000 and len(c["ops"]) > 4 and c["want"] == "good"]
    pairs = []
    for _ in range(ctx.n(100, 1000)):
        a, b = rnd.sample(some, 2)
        pairs.append(dict(a, twin=b, seed=rnd.randrange(2 ** 31)))
    ctx.conform("recdb", "RecDbTrace", pairs, cfg="RecDbTrace.cfg", post=split, label="two databases")


def c11(ctx):
    ctx.model("RecDbGen", GENM % 4)
    rnd = random.Random(ctx.seed)
    cases = histories(ctx, ["small", "full", "deleted"], 0)
    # refused files
    good = head(1) + encode(entry(rnd, 2, 1, 5))
    bad = [(head(1, lock) + good[19:], "locked") for lock in (1, 2, 128, 255)]
    bad += [(good[:k], "bad") for k in range(19)]
    for k in range(5):
        for x in (1, 32, 128):
            bad.append((good[:k] + bytes([good[k] ^ x]) + good[k + 1:], "bad"))
    for img, want in bad:
        for os_ in (False, True):
            cases.append({"kind": "iter", "img": img.hex(), "want": want, "layout": [0, 19], "entries": [],
                          "ops": [], "os": os_})
    ctx.conform("recdb", "RecDbTrace", cases, cfg="RecDbTrace.cfg", label="iterations")
    two(ctx, cases)
    ctx.conform("recdb", "RecDbTrace", faults(ctx, [], 50), cfg="RecDbTrace.cfg", label="failing operations")
    marks.run(ctx, "recdb", 14, head(0))


def every_free_space(ctx):
    """rewrites that leave every number of bytes free, up to some bound and around the multiples of 100"""
    rnd = random.Random(ctx.seed)
    cases = []
    bound = ctx.n(560, 2500)
    for r in range(8):
        cap = 21 + 8 * (bound // 8 + 1) + r
        es = [entry(rnd, 1, 0, cap - 29) for _ in range(3)]
        sets = []
        for t in range(r, bound, 8):
            e = entry(rnd, (cap - 21 - t) // 8, 0, 0)
            e["cap"] = cap
            sets.append({"e": "set", "ent": e, "how": ""})
        rnd.shuffle(sets)
        c = iter_case(rnd, es, [])
        h = len(sets) // 2
        # all of them on the last entry: an excess zero goes unnoticed in the high byte of the next entry's capacity
        c["ops"] = [{"e": "next"}] + sets[:h] + [{"e": "next"}] + sets[h:] + [{"e": "next"}] + sets + \
            [{"e": "rewind"}] + [{"e": "next"}] * 3
        cases.append(c)
    return cases


def c12(ctx):
    ctx.model("RecDbGen", GENM % 4)
    cases = histories(ctx, ["small", "full", "deleted", "big", "wider", "narrower"], 100)
    ctx.conform("recdb", "RecDbTrace", every_free_space(ctx) + cases, cfg="RecDbTrace.cfg", label="rewrites")
    two(ctx, cases)
    ctx.conform("recdb", "RecDbTrace", faults(ctx, ["small", "full", "deleted", "big", "wider", "narrower"], 150),
                cfg="RecDbTrace.cfg", label="failing operations")


def c13(ctx):
    rnd = random.Random(ctx.seed)
    cases = [{"kind": "misc", "img": "", "ops": [{"e": "create"}, {"e": "createfile"}]}]
    for n in (0, 1, 3, 20):
        img = head(n, rnd.choice([0, 0, 1])) + b"".join(encode(e) for e in database(rnd, n, True))
        cases.append({"kind": "misc", "img": img.hex(), "ops": [{"e": "openfile"}]})
    cases.append({"kind": "misc", "img": head(0).hex(), "ops": [{"e": "openfile"}]})
    # damaged ones are not replaced either
    full = head(1) + encode(entry(rnd, 1, 2, 3))
    for k in [1, 4, 5, 6, 14, 15, 18, 20, len(full) - 1]:
        cases.append({"kind": "misc", "img": full[:k].hex(), "ops": [{"e": "openold"}]})
    cases.append({"kind": "misc", "img": "", "ops": [{"e": "openold"}]})
    for k in (0, 5, 6, 14):
        cases.append({"kind": "misc", "img": (full[:k] + b"\xff" + full[k + 1:]).hex(), "ops": [{"e": "openold"}]})
    # the sizes around every threshold of the prediction and of the padding
    plans = [(a, b) for a in range(ctx.n(45, 80)) for b in range(ctx.n(45, 80))]
    plans += [(a, b) for a, b in SIZES] + [(b, a) for a, b in SIZES]
    plans += [(rnd.randrange(3000), rnd.randrange(3000)) for _ in range(ctx.n(40, 400))]
    plans += [(a, b) for a in (0, 1, 4000, 8190, 8193, 12000, 33000, 65535, 65536) for b in (0, 2, 4190, 9000, 40000)]
    plans += [(int(2 ** (rnd.random() * 17)), int(2 ** (rnd.random() * 17))) for _ in range(ctx.n(40, 400))]
    for k in range(0, len(plans), 40):
        cases.append({"kind": "misc", "img": "", "ops": [{"e": "plan", "nl": a, "nd": b} for a, b in plans[k:k + 40]],
                      "reuse": k % 80 == 0})
    ctx.model("RecDbFileMC", "CONSTANT MaxItems = %d\nSPECIFICATION Spec\nINVARIANTS RoundTrip Tight CutIsBad\nCHECK_DEADLOCK FALSE\n" % ctx.n(2, 3))
    ctx.conform("recdb", "RecDbFileTrace", cases, cfg="Trace.cfg", label="creation and planning")


def c14(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("RecDbFileMC", "CONSTANT MaxItems = %d\nSPECIFICATION Spec\nINVARIANTS RoundTrip Tight CutIsBad\nCHECK_DEADLOCK FALSE\n" % ctx.n(2, 3))
    cases = []

    def case(img, n, caps=()):
        ops = [{"e": "next"}] * (n + 3) + [{"e": "rewind"}] + [{"e": "next"}] * (n + 2)
        if caps and rnd.random() < 0.5:      # rewrites on the way, also after the malformed entry
            ops = [{"e": "next"}] * rnd.randrange(n + 2)
            for _ in range(rnd.choice([1, 2, 4])):
                cap = rnd.choice(caps)
                r = max(0, cap - 21) // 8
                nl = rnd.randrange(min(r, 600) + 1)
                e = entry(rnd, nl, rnd.choice([0, r - nl]) if r < 600 else 0, 0)
                e["cap"] = cap
                ops += [{"e": "set", "ent": e}] + [{"e": "next"}] * rnd.choice([0, 1, 1, 2])
            ops += [{"e": "next"}] * (n + 2) + [{"e": "rewind"}] + [{"e": "next"}] * (n + 2)
        cases.append({"kind": "bytes", "img": img.hex(), "ops": ops, "os": rnd.random() < 0.1,
                      "short": rnd.choice([0, 0, 0, 1, 3, 8, 100])})
    # every truncation of a small database
    es = [entry(rnd, 1, 0, 0), entry(rnd, 0, 1, 3), entry(rnd, 2, 1, 30)]
    full = head(3) + b"".join(encode(e) for e in es)
    for k in range(19, len(full)):
        case(full[:k], 3, [x["cap"] for x in es])
    # every field of every entry damaged: capacity, numbers of items
    vals = [0, 1, 4, 5, 6, 12, 16, 20, 21, 22, 28, 29, 30, 37, 2 ** 16, 2 ** 24, 2 ** 28, 2 ** 29, 2 ** 31 - 1,
            2 ** 31, 2 ** 32 - 1, 2 ** 32 - 21]
    for v in vals:
        o = 19
        for e in es:
            b = encode(e)
            for f in (0, 13, 17 + 8 * len(e["likes"])):
                case(full[:o + f] + struct.pack(">I", v) + full[o + f + 4:], 3)
            o += len(b)
    # a damaged number of items that a damaged capacity leaves room for; the file is short
    o = 19
    for e in es:
        b = encode(e)
        for f in (13, 17 + 8 * len(e["likes"])):
            for cnt in (200, 2 ** 10, 2 ** 13, 2 ** 17, 2 ** 21, 2 ** 25, 2 ** 26, 2 ** 27 - 1, 2 ** 28, 2 ** 29 - 40):
                for cap in {8 * cnt + 21 + 8 * len(e["likes"]), min(2 ** 32 - 1, 8 * cnt + 500), 2 ** 31, 2 ** 32 - 1}:
                    img = bytearray(full + bytes(rnd.choice([0, 0, 9, 500])))
                    img[o:o + 4] = struct.pack(">I", cap)
                    img[o + f:o + f + 4] = struct.pack(">I", cnt)
                    case(bytes(img), 3)
        o += len(b)
    for _ in range(ctx.n(500, 6000)):
        n = rnd.randrange(1, 6)
        es = database(rnd, n, rnd.random() < 0.85)
        if rnd.random() < 0.15:
            es = [entry(rnd, rnd.choice([0, 40, 600]), rnd.choice([0, 1, 500]), rnd.choice([0, 4000])) for _ in range(n)]
        img = bytearray(head(n + rnd.choice([0, 0, 0, 1, 3])) + b"".join(encode(e) for e in es))
        o, k = 19, rnd.randrange(n)
        for e in es[:k]:
            o += len(encode(e))
        e = es[k]
        r = rnd.random()
        size = 21 + 8 * (len(e["likes"]) + len(e["dislikes"]))
        if r < 0.3:
            f = 0
            v = rnd.choice([size - 1, size - 8, max(0, size - 9), size // 2, 5, 21, e["cap"] + 1, e["cap"] + 500,
                            rnd.randrange(2 ** 32)])
        elif r < 0.75:
            f = rnd.choice([13, 17 + 8 * len(e["likes"])])
            room = (e["cap"] - size) // 8
            cur = len(e["likes"] if f == 13 else e["dislikes"])
            v = rnd.choice([cur + room + 1, cur + room + 2, cur + room + 100, 2 ** 20, 2 ** 27, 2 ** 29, 2 ** 32 - 1,
                            e["cap"] // 8, e["cap"] // 8 + 1, rnd.randrange(2 ** 32), cur + room])
        else:
            f = None
            img = img[:rnd.randrange(19, len(img) + 1)]
        if f is not None:
            img[o + f:o + f + 4] = struct.pack(">I", v % 2 ** 32)
        case(bytes(img), n, [x["cap"] for x in es])
    ctx.conform("recdb", "RecDbFileTrace", cases, cfg="Trace.cfg", label="malformed databases")
