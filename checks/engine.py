"""Namespaces over real storages and directories: C17."""
import random

from delta import some_id

MC = """CONSTANTS
  Names = {1, 2}
  Pairs = {%s}
  Ids = {0}
  Values = {1%s}
SPECIFICATION Spec
INVARIANT NeverBoth
PROPERTIES Durable Apart
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS
  Names = {%s}
  Pairs = {0, 1, 2}
  Ids = {0, 1, 2}
  Values = {1, 2, 3}
  N = %d
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""
NAMES = [("a", "b"), ("ns", "ns-2"), ("A", "a"), ("x", "x_index"), ("delta", "index"), ("namespaces", "n" * 60),
         ("n" * 249, "n" * 248), ("y" * 248 + "1", "y" * 248 + "2"), ("Z" * 33, "Z" * 32), ("q" * 64 + "a", "q" * 64),
         ("a--" * 43 + "b", "a--" * 43 + "c"), ("A" * 100, "A" * 99 + "a")]


def distinct(rnd, n):
    s = []
    while len(s) < n:
        x = some_id(rnd)
        if x in s:
            x = rnd.randrange(2 ** 64)
        if x not in s:
            s.append(x)
    return [str(x) for x in s]


def split(case, res):
    if res.get("died") or res.get("skipped"):
        return [res]
    return [{"id": res["id"], "steps": t["steps"]} for t in res["traces"]]


def c17(ctx):
    ctx.model("Engine", MC % (("0", "") if not ctx.thorough else ("0, 1", "")), workers=8, timeout=800)
    rnd = random.Random(ctx.seed)
    cases = []
    plans = ((8, ctx.n(120, 1200), 1, 1.0, 12), (16, ctx.n(60, 600), 1, 0.5, 8), (8, ctx.n(40, 400), 2, 0.4, 4),
             (50, ctx.n(12, 120), 1, 0.1, 8))
    for n, sim, depth, rate, mx in plans:
        for h in ctx.generate("EngineGen", GEN % ("1, 2", n), simulate=sim, depth=n + 2, seed_shift=n + depth):
            us = distinct(rnd, 2)
            it = distinct(rnd, 2)
            cases.append({"ops": h, "names": rnd.choice(NAMES), "pairs": [[us[0], it[0]], [us[0], it[1]], [us[1], it[0]]],
                          "ids": distinct(rnd, 3), "vals": distinct(rnd, 3), "rate": rate, "max": mx, "depth": depth,
                          "seed": rnd.randrange(2 ** 31), "sub": rnd.choice(["", "", "data", "x/y"])})
    # more namespaces, longer lives
    for n, sim, rate, mx in ((60, ctx.n(12, 150), 0.05, 4), (400, ctx.n(3, 30), 0.01, 3)):
        for h in ctx.generate("EngineGen", GEN % ("1, 2, 3, 4, 5", n), simulate=sim, depth=n + 2, seed_shift=n):
            us = distinct(rnd, 2)
            it = distinct(rnd, 2)
            names = list(dict.fromkeys(x for y in rnd.sample(NAMES, 5) for x in y))[:5]
            cases.append({"ops": h, "names": names, "pairs": [[us[0], it[0]], [us[0], it[1]], [us[1], it[0]]],
                          "ids": distinct(rnd, 3), "vals": distinct(rnd, 3), "rate": rate, "max": mx, "depth": 1,
                          "seed": rnd.randrange(2 ** 31), "sub": rnd.choice(["", "data"])})
    for c in cases:  # data in the working directory
        c["here"], c["base"] = rnd.random() < 0.25, rnd.choice(["", "./"])
        # named before, or renamed while, it is started
        c["named"], c["renamed"] = rnd.choice([(0, 0), (0.3, 0), (0, 0.3)])
    ctx.conform("engine", "EngineTrace", cases, cfg="EngineTrace.cfg", post=split, label="histories and crashes")
