"""The server process: C24."""
import os
import random
import socket

MC = """CONSTANTS
  NameSet = {%s}
  Limits = {"0", "5"}
SPECIFICATION Spec
INVARIANTS Unique Settled
PROPERTY Kept
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS
  N = %d
  K = 3
  Hosts = {%s}
  Ports = {%s}
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""
HOSTS = {1: "127.0.0.1", 2: "localhost", 3: "127.0.0.2", 4: "0.0.0.0", 5: "", 6: "192.0.2.1", 7: "bad host", 8: "127.0.0.1:1",
         9: "::1", 10: "[::1]"}
PORTS = {1: "free", 2: "busy", 3: "70000", 4: "65536", 5: "", 6: "junk"}
JUNK = ["abc", "80a", "1.5", " 3000", "3000 ", "0x50", "99999999999999999999", "-1", "-3000", "--1", "three"]
NAMES = ["aa", "bb", "cc", "dd"]
SLOW = [(0, 1200), (0, 2200), (0, 3200), (0, 3700), (1200, 0), (2200, 0), (3200, 0), (3700, 0), (1000, 1500), (2500, 1500), (500, 3300),
        (2000, 2000)]
LIMITS = ["0", "1", "7", "1000", "65536"]


def has_v6():
    try:
        with socket.socket(socket.AF_INET6) as x:
            x.bind(("::1", 0))
        return True
    except OSError:
        return False


def fresh(rnd, n):
    """names nobody has"""
    return ["x%015d" % x for x in rnd.sample(range(10 ** 15), n)]


def start(rnd, h, p, v):
    s = {"E": "start", "Host": HOSTS[h], "Via": ["env", "file", "both"][v - 1], "Port": PORTS[p], "Busy": ""}
    if p == 2:
        s["Port"] = "free"
        s["Busy"] = {"127.0.0.2": "127.0.0.2", "::1": "::1", "[::1]": "::1", "0.0.0.0": rnd.choice(["127.0.0.1", "127.0.0.2"])}.get(HOSTS[h], "127.0.0.1")
    elif p == 1 and h in (1, 2, 3, 5, 9) and rnd.random() < 0.2:
        # somebody listens on the same port of another address
        s["Busy"] = "127.0.0.1" if h == 3 else "127.0.0.2"
    elif p == 6:
        s["Port"] = rnd.choice(JUNK)
    return s


def case(rnd, hist):
    steps, alive = [], False
    present = []    # names surely there
    for h in hist:
        e = h["e"]
        if e == "start":
            steps.append(start(rnd, h["a"], h["b"], h["c"]))
        elif e == "create":
            nm = NAMES[h["a"] - 1] if rnd.random() < 0.7 else fresh(rnd, 1)[0]
            steps.append({"E": "create", "Name": nm, "Msp": rnd.choice(LIMITS)})
            if nm not in present:
                present.append(nm)
        elif e == "update":
            a, b = NAMES[h["a"] - 1], NAMES[h["b"] - 1]
            steps.append({"E": "update", "Name": a, "New": b, "Msp": rnd.choice(LIMITS)})
            if a in present and (a == b or b not in present):
                present[present.index(a)] = b
        elif e == "stop":
            steps.append({"E": "stop", "Sig": [["TERM"], ["INT"], ["INT", "TERM"]][h["a"] - 1],
                          "Inflight": [{"Old": "", "New": n, "Msp": rnd.choice(LIMITS)} for n in fresh(rnd, h["b"])],
                          "Before": 0, "Slow": rnd.choice([0, 0, 50, 400])})
            for c in steps[-1]["Inflight"]:
                if present and rnd.random() < 0.4:
                    c["Old"] = present.pop(rnd.randrange(len(present)))
            present += [c["New"] for c in steps[-1]["Inflight"]]
        elif e == "kill":
            burst = []
            olds = rnd.sample(present, min(len(present), rnd.randrange(3)))
            for n in fresh(rnd, h["a"]):
                old = olds.pop() if olds else ""
                burst.append({"Old": old, "New": n, "Msp": rnd.choice(LIMITS)})
                if old:
                    # it is not known which of both names it has
                    present.remove(old)
                elif h["b"] == 1:
                    present.append(n)
            steps.append({"E": "kill", "Burst": burst, "Delay": {1: -1, 2: rnd.randrange(3000), 3: rnd.randrange(20000)}[h["b"]]})
    return {"Steps": steps, "Path": rnd.choice(["env", "file", "cwd"])}


def c24(ctx):
    ctx.model("Server", MC % ('"a", "b"'), workers=1)
    rnd = random.Random(ctx.seed)
    env = {"VF_MAIN": ctx.build_main()}
    cfg = "ServerTrace.cfg"
    v6 = ", 9, 10" if has_v6() else ""
    # how the environment is understood
    steps = []
    for host in ("", "localhost", "0.0.0.0", "example.org", "::1", "fe80::1", "[::1]", "10.0.0.1"):
        for port in ["", "0", "1", "80", "8080", "3000", "65535", "65536", "2147483647", "+80", "007"] + JUNK:
            for d in (None, ("localhost", 8080), ("h", 1), ("", 0), ("x", -1)):
                steps.append({"E": "config", "Host": host, "Port": port, "Via": rnd.choice(["", "unset"]), "Defaults": d is not None,
                              "DHost": d[0] if d else "", "DPort": d[1] if d else 0})
    ctx.conform("server", "ServerTrace", [{"Steps": steps[i:i + 50]} for i in range(0, len(steps), 50)], cfg=cfg, label="configuration",
                drvenv=env)
    end = [{"e": "start", "a": 1, "b": 1, "c": 1}, {"e": "create", "a": 1}, {"e": "stop", "a": 1, "b": 0}]
    cases = []
    for h in ctx.generate("ServerGen", GEN % (1, "1, 2, 3, 4, 5, 6, 7, 8" + v6, "1, 2, 3, 4")):
        cases.append(case(rnd, h + end))
    for n, sim in ((6, ctx.n(60, 900)), (14, ctx.n(40, 600))):
        for h in ctx.generate("ServerGen", GEN % (n, "1, 2, 3, 4, 5" + v6, "1"), simulate=sim, depth=n + 2, seed_shift=n):
            cases.append(case(rnd, h + end))
    ctx.conform("server", "ServerTrace", cases, cfg=cfg, label="runs", drvenv=env, case_timeout=200)
    # requests in progress for up to 5 seconds in all
    slow = []
    for before, after in SLOW * ctx.n(1, 4):
        h = [{"e": "start", "a": rnd.choice([1, 2, 3, 4, 5] + ([9] if v6 else [])), "b": 1, "c": rnd.randrange(1, 4)}]
        h += [{"e": "create", "a": rnd.randrange(1, 4)} for _ in range(rnd.randrange(3))]
        h += [{"e": "stop", "a": rnd.randrange(1, 4), "b": rnd.randrange(1, 4)}]
        c = case(rnd, h + end)
        for s in c["Steps"]:
            if s.get("Inflight"):
                s["Before"], s["Slow"] = before, after
        slow.append(c)
    ctx.conform("server", "ServerTrace", slow, cfg=cfg, label="slow requests", drvenv=env, case_timeout=200)
    # the saved registry cannot be read for a while
    cases = []
    for how in ("cut", "empty", "last", "garbage", "type", "dir"):
        for _ in range(ctx.n(2, 12)):
            h = [{"e": "start", "a": rnd.choice([1, 2, 3, 4, 5]), "b": 1, "c": rnd.randrange(1, 4)}]
            h += [{"e": "create", "a": rnd.randrange(1, 4)} for _ in range(rnd.choice([1, 1, 2, 6]))]
            h += [rnd.choice([{"e": "stop", "a": rnd.randrange(1, 4), "b": rnd.randrange(3)}, {"e": "kill", "a": rnd.randrange(3), "b": 1}])]
            bad = {"e": "start", "a": rnd.choice([1, 2, 3, 4, 5]), "b": 1, "c": rnd.randrange(1, 4)}
            c = case(rnd, h + [bad] * rnd.choice([1, 1, 2]) + end)
            for s in c["Steps"][len(h):-len(end)]:
                s["Damage"] = how
            cases.append(c)
    ctx.conform("server", "ServerTrace", cases, cfg=cfg, label="unreadable registries", drvenv=env, case_timeout=200)
    # many requests in progress
    cases = []
    for n, k in ctx.n([(30, 120), (3, 300)], [(30, 120), (3, 300), (200, 60), (0, 900), (60, 500), (10, 200)]):
        c = case(rnd, [{"e": "start", "a": rnd.choice([1, 2, 3, 4, 5]), "b": 1, "c": rnd.randrange(1, 4)}]
                 + [{"e": "create", "a": rnd.randrange(1, 4)} for _ in range(n)]
                 + [{"e": "stop", "a": rnd.randrange(1, 4), "b": k}] + end
                 + [{"e": "start", "a": 1, "b": 1, "c": 1}, {"e": "kill", "a": k // 3, "b": 1}] + end)
        for s in c["Steps"]:
            if s.get("Inflight"):
                s["Slow"] = rnd.choice([0, 300])
        cases.append(c)
    ctx.conform("server", "ServerTrace", cases, cfg=cfg, label="crowds", drvenv=env, case_timeout=300)
    # the default port is one for all
    cases = [case(rnd, h + end) for h in ctx.generate("ServerGen", GEN % (1, "1, 3, 5" + v6, "5, 6"))]
    if not ctx.thorough:
        cases = rnd.sample(cases, 8)
    ctx.conform("server", "ServerTrace", cases, cfg=cfg, label="default port", drvenv=env, jobs=1)
