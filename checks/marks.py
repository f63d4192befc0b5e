"""The mark of a file that is in use, at the level of the protocols (part of C07, C10, C11)."""
import random

MC = """CONSTANTS
  At = 1
  Bytes = {0, 1, 2}
SPECIFICATION Spec
PROPERTIES OnlyTheMark Last
CHECK_DEADLOCK FALSE
"""
TRACE = """CONSTANTS
  At = %d
  Bytes = {0}
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
"""


def run(ctx, family, at, head):
    """at: where the mark is; head: a sound beginning of such a file"""
    ctx.model("Mark", MC)
    rnd = random.Random(ctx.seed + 77)
    cases = []
    for k in range(ctx.n(150, 1500)):
        img = list(head) if rnd.random() < 0.7 else [rnd.randrange(256) for _ in head]
        img[at] = rnd.choice([0, 1, 1, 2, 128, 255])
        img += [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 30, 200]))]
        ops = []
        for _ in range(rnd.choice([1, 3, 8, 20])):
            o = {"e": rnd.choice(["lock", "unlock", "asked", "asked", "move"]), "p": rnd.randrange(len(img) + 1)}
            if o["e"] != "move" and k % 3 == 0 and rnd.random() < 0.4:
                o.update({"at": rnd.choice([1, 2, 3, 4]), "n": rnd.choice([1, 1, 2, 99]), "part": rnd.choice([0, 0, 1])})
            ops.append(o)
        cases.append({"kind": "mark", "image": img, "short": rnd.choice([0, 1]), "marks": ops})
    ctx.conform(family, "MarkTrace", cases, cfg=TRACE % at, label="the mark")
