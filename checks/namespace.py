"""Namespaces: C15 C16."""
import random

from delta import some_id

GEN = """CONSTANTS
  N = %d
  Sizes = {%s}
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""
IMPL = """CONSTANTS
  Requests = {%s}
  Reads = {%s}
  Cap = %d
  MaxTicks = 1
SPECIFICATION Spec
INVARIANTS RightAnswer SettledWhenQuiet Nothing
PROPERTIES Refines Answered Released
CHECK_DEADLOCK FALSE
"""
# whatever happened before: the storages get going, everything settles, the namespace is stopped
# (again), requests after that and a second stop
EPILOGUE = [{"e": "settle"}, {"e": "release"}, {"e": "settle"}, {"e": "stop"}, {"e": "settle"},
            {"e": "burst", "n": 2, "with": "stop"}, {"e": "settle"}]


def users(rnd, n):
    s = set()
    for _ in range(n):
        x = some_id(rnd)
        s.add(x if x not in s else rnd.randrange(2 ** 64))
    while len(s) < n:
        s.add(rnd.randrange(2 ** 64))
    s = [str(x) for x in s]
    rnd.shuffle(s)
    return s


def case(rnd, hist, **kw):
    ops = [{"e": o["e"], "n": o["n"], "with": o["with"]} for o in hist]
    if rnd.random() < 0.1:
        # nothing happens for hours
        for o in ops:
            if o["e"] == "settle":
                o["n"] = rnd.choice([0, 50, 700, 4000, 30000, 100000])
    n = sum(o["n"] for o in ops if o["e"] == "burst") + 2
    c = {"ops": ops + EPILOGUE, "auto": rnd.random() < 0.6, "real": rnd.random() < 0.15,
         "failat": [], "name": rnd.choice(["a", "ns", "A-b_9"]), "reset": rnd.choice([0, 0, 0, 1, 1, 2]),
         "closee": rnd.random() < 0.2, "spread": rnd.choice([0, 0, 0, 20, 60, 100, 150]),
         "mixed": rnd.random() < 0.4, "kin": rnd.choice([0, 0, 20, 50, 80]),
         "seed": rnd.randrange(2 ** 31), "users": users(rnd, n), "nolike": rnd.random() < 0.04}
    if rnd.random() < 0.3:
        c["failat"] = sorted(rnd.sample(range(1, n + 1), min(n, rnd.randrange(1, 4))))
    c.update(kw)
    return c


def scripts(ctx, shift):
    rnd = random.Random(ctx.seed + shift)
    cases = []
    for h in ctx.generate("NamespaceGen", GEN % (ctx.n(2, 3), "1, 3"), name="NamespaceGen"):
        cases.append(case(rnd, [{"e": "start", "n": 0, "with": ""}] + h))
        cases.append(case(rnd, h))
    for n, sizes, sim in ((4, "1, 2, 6", ctx.n(600, 6000)), (7, "1, 2, 5", ctx.n(500, 5000)),
                          (16, "1, 2, 3", ctx.n(150, 1500))):
        for h in ctx.generate("NamespaceGen", GEN % (n, sizes), simulate=sim, depth=n + 2, seed_shift=shift + n):
            if rnd.random() < 0.7:
                # let it work for most of the time
                k = len(h) - rnd.randrange(3)
                h = [o if i >= k else
                     {"e": "settle", "n": 0, "with": ""} if o["e"] in ("stop", "cancel") else
                     dict(o, **{"with": ""}) if o["with"] in ("stop", "cancel", "stops") else o
                     for i, o in enumerate(h)]
            if rnd.random() < 0.5:
                h = [{"e": "start", "n": 0, "with": ""}] + h
            cases.append(case(rnd, h))
    # the end of the pause before a batch, to the millisecond
    for w in ("stop", "cancel"):
        for _ in range(ctx.n(40, 400)):
            cases.append(case(rnd, [{"e": "start", "n": 0, "with": ""}, {"e": "burst", "n": rnd.randrange(1, 9), "with": w}],
                              spread=rnd.choice([50, 60, 100])))
    return cases


def crowds(ctx, shift):
    """more requests than the queue holds"""
    rnd = random.Random(ctx.seed + shift)
    cases = []
    for _ in range(ctx.n(6, 40)):
        ops = []
        if rnd.random() < 0.5:
            ops.append({"e": "start", "n": 0, "with": ""})
        while sum(o["n"] for o in ops) < rnd.randrange(120, 260):
            ops.append({"e": "burst", "n": rnd.choice([1, 3, 30, 101]), "with": ""})
            ops.append({"e": rnd.choice(["wait", "settle", "wait", "permit"]), "n": 3, "with": ""})
        ops.append(rnd.choice([{"e": "burst", "n": 3, "with": "start"}, {"e": "burst", "n": 3, "with": "stop"},
                               {"e": "start", "n": 0, "with": ""}, {"e": "permit", "n": 400, "with": ""}]))
        cases.append(case(rnd, ops, auto=rnd.random() < 0.5, spread=0, failat=[]))
    return cases


def lives(ctx, shift):
    """namespaces in use for long, with pauses of up to a day and more than a thousand requests"""
    rnd = random.Random(ctx.seed + shift)
    cases = []
    for k in range(ctx.n(24, 200)):
        ops = [{"e": "start", "n": 0, "with": ""}]
        long = k % 6 == 0
        while sum(o["n"] for o in ops if o["e"] == "burst") < (1200 if long and k == 0 else 400 if long else 12):
            ops.append({"e": "burst", "n": rnd.choice([1, 1, 2, 3] if not long else [1, 7, 40]), "with": ""})
            ops.append({"e": "settle", "n": 0 if long else rnd.choice([0, 700, 4000, 20000, 100000]), "with": ""})
        cases.append(case(rnd, ops, auto=True, failat=[], kin=0, mixed=rnd.random() < 0.5))
    return cases


def run(ctx, shift):
    ctx.model("NamespaceImpl", IMPL % (("1, 2", "1", 1) if not ctx.thorough else ("1, 2, 3", "1", 1)), workers=8, timeout=800)
    if ctx.thorough:
        ctx.model("NamespaceImpl", IMPL % ("1, 2, 3", "1, 2", 2), workers=8, timeout=800)
    cases = scripts(ctx, shift)
    ctx.conform("namespace", "NamespaceTrace", cases, cfg="NamespaceTrace.cfg", label="scripts")
    ctx.conform("namespace", "NamespaceTrace", crowds(ctx, shift + 50), cfg="NamespaceTrace.cfg", label="crowds")
    ctx.conform("namespace", "NamespaceTrace", lives(ctx, shift + 60), cfg="NamespaceTrace.cfg", label="lives")
    rnd = random.Random(ctx.seed + 7)
    some = [dict(c) for c in rnd.sample(cases, min(len(cases), ctx.n(400, 4000)))]
    ctx.conform("namespace", "NamespaceTrace", some, cfg="NamespaceTrace.cfg", race=True, label="scripts, race detector")


def c15(ctx):
    run(ctx, 0)


def c16(ctx):
    run(ctx, 1000)
