"""The list of namespaces: C18 C19 C20."""
import json
import random
import struct
import urllib.parse

MC = """CONSTANTS
  Objects = {1, 2, 3}
  NameSet = {"a", "b"}
  Limits = {"0", "5"}
  Factors = {"x"}
SPECIFICATION Spec
INVARIANTS UniqueNames UniqueObjects InStep
CHECK_DEADLOCK FALSE
"""
IMPL = """CONSTANTS
  Objects = {1, 2, 3}
  NameSet = {%s}
  Limits = {"0", "5"}
  Factors = {"x"}
  Procs = {%s}
  MaxOps = %d
SPECIFICATION Spec
INVARIANTS Unique NeverTorn LookedAt InMemory
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""


def op(kind, name="", new="", msp="", df=""):
    return {"op": kind, "name": name, "new": new, "msp": msp, "df": df}


def some(rnd, kind, names):
    msp, df = rnd.choice(["0", "1", "7", "1000", "65536"]), rnd.choice(["0", "0.5", "1", "0.25"])
    if kind == "create":
        return op("create", rnd.choice(names), "", msp, df)
    if kind == "update":
        a = rnd.choice(names)
        return op("update", a, a if rnd.random() < 0.4 else rnd.choice(names), msp, df)
    if kind == "list":
        return op("list")
    return op(kind, rnd.choice(names))


MIXES = [("create", "create", "delete", "list", "lookup"), ("create", "update", "list", "lookup", "delete"),
         ("create",), ("create", "delete"), ("update", "update", "list"), ("create", "list"),
         ("update", "create", "delete"), ("delete", "create", "lookup")]


def races(rnd, n, http):
    cases = []
    for _ in range(n):
        # names of a lower-case letter only, and others alike in many ways
        names = rnd.choice([["a"], ["a", "b"], ["a", "b", "c"], ["a", "b", "c", "d", "e"]])
        if rnd.random() < 0.4:
            alike = [["a", "a0", "aa", "aa0", "b"], ["n" * 40, "n" * 41, "n" * 39 + "m", "m" + "n" * 39, "n"],
                     ["x" * 300 + "1", "x" * 300 + "2", "x" * 301, "x" * 299, "x"], ["null", "like", "namespaces", "name", "list"]]
            names = rnd.choice(alike if http else alike + [["a", "A", "aA", "Aa", "AA"], ["x-", "x_", "x0", "x", "X"]])[:len(names)]
        mix = rnd.choice(MIXES)
        if http:
            mix = tuple(k for k in mix if k != "delete") or ("create",)
        nt = rnd.choice([2, 2, 3, 3, 4, 6])
        k = rnd.choice([1, 2, 3, 4, 6]) if nt < 4 else rnd.choice([1, 1, 2, 3])
        if rnd.random() < 0.15:
            # everybody does the same
            same = [some(rnd, rnd.choice(mix), names) for _ in range(k)]
            th = [same] * nt
        elif rnd.random() < 0.3:
            # everybody creates names of its own: none is lost
            th = [[op("create", "n%dx%d" % (t, j), "", "3", "0.5") for j in range(k)] for t in range(nt)]
        else:
            th = [[some(rnd, rnd.choice(mix), names) for _ in range(k)] for _ in range(nt)]
        pre = [op("create", x, "", "9", "0.125") for x in names if rnd.random() < 0.6]
        if rnd.random() < 0.1:
            pre = [op("create", "p%d" % j, "", "9", "0.125") for j in range(rnd.choice([10, 40]))] + pre
        cases.append({"Mode": "conc", "HTTP": http, "Pre": pre, "Threads": th, "Seed": rnd.randrange(2 ** 31)})
    return cases


def crowded(rnd, n, http):
    """long lists, read while many of their elements change one after the other"""
    cases = []
    for _ in range(n):
        size = rnd.choice([9, 20, 60, 130] if http else [9, 40, 130])
        names = ["n%d" % j for j in range(size)]
        pre = [op("create", x, "", "9", "0.125") for x in names]
        reads = [op("list") if rnd.random() < 0.8 else op("lookup", rnd.choice(names)) for _ in range(rnd.choice([4, 8]))]

        def changes(names, k):
            ch = []
            for j in range(k):
                r = rnd.random()
                x = names[j % len(names)]
                if r < 0.7:
                    ch.append(op("update", x, x, str(20 + j), "0.5"))
                elif r < 0.8 or http:
                    ch.append(op("create", "m%s%d" % (x, j), "", "5", "0.5"))
                else:
                    ch.append(op("delete", x))
            return ch
        order = rnd.choice([names, names[::-1], [names[0], names[-1]], rnd.sample(names, len(names)), names[::7] + names[3::7]])
        th = [reads, changes(order, rnd.choice([10, 25]))]
        if rnd.random() < 0.5:
            h = len(order) // 2
            th = [reads, changes(order[:h], 12), changes(order[h:], 12)]
        cases.append({"Mode": "conc", "HTTP": http, "Pre": pre, "Threads": th, "Seed": rnd.randrange(2 ** 31)})
    return cases


def c18(ctx):
    ctx.model("Registry", MC)
    ctx.model("RegistryImpl", IMPL % ('"a", "b"', "1, 2", ctx.n(3, 3)), workers=8)
    if ctx.thorough:
        ctx.model("RegistryImpl", IMPL % ('"a"', "1, 2, 3", 4), workers=8, timeout=800)
    rnd = random.Random(ctx.seed)
    cfg = "RegistryLinTrace.cfg"
    ctx.conform("registry", "RegistryLinTrace", races(rnd, ctx.n(1500, 20000), False), cfg=cfg, label="calls")
    ctx.conform("registry", "RegistryLinTrace", races(rnd, ctx.n(800, 8000), True), cfg=cfg, label="requests")
    for http in (False, True):
        ctx.conform("registry", "RegistryLinTrace", crowded(rnd, ctx.n(60, 600), http), cfg=cfg,
                    label="long lists, " + ("requests" if http else "calls"))
    ctx.conform("registry", "RegistryLinTrace", races(rnd, ctx.n(300, 4000), False), cfg=cfg, race=True,
                label="calls, race detector")
    ctx.conform("registry", "RegistryLinTrace", races(rnd, ctx.n(300, 4000), True), cfg=cfg, race=True,
                label="requests, race detector")


GEN = """CONSTANTS
  N = %d
  K = %d
  How = {%s}
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""
NAMES = [["a", "b", "c", "d"], ["a", "A", "aa", "aA"], ["x", "x-", "x_", "x0"], ["n" * 100, "n" * 101, "m" * 300, "null"],
         ["namespaces", "json", "tmp", "like"]]
LIMITS = ["0", "1", "2", "7", "999", "1000", "1001", "65536", str(2 ** 31), str(2 ** 32), str(2 ** 53 + 1), str(2 ** 63),
          str(2 ** 64 - 1)]
FACTORS = ["0", "1", "0.5", "0.1", "0.3333333", "0.99999994", "1e-45", "3.4028235e+38", "-0.5", "1.1754944e-38", "16777216",
           "123456.79"]
# system calls before which the process dies; "size": in the middle of a write
DEATHS = ["size", "size", "size", "creat", "write", "sync", "close", "rename", "unlink", "link", "truncate", "chmod"]
FAULTS = ["size", "size", "dir", "files", "tmpdir", "target"]


def history(rnd, hist, fault=None, death=None, size=None):
    names = rnd.choice(NAMES)
    steps = []
    for h in hist:
        if h["e"] == "end":
            continue
        nm = names[h["a"] - 1] if h["a"] else ""
        new = names[h["b"] - 1] if h["b"] else ""
        o = op(h["op"], nm, new)
        if h["op"] in ("create", "update"):
            o["msp"], o["df"] = rnd.choice(LIMITS), rnd.choice(FACTORS)
        s = {"E": h["e"], "Op": o, "Fault": "", "N": 0}
        if h["e"] == "bad":
            if rnd.random() < 0.5:
                o["op"] = "createbad"
            else:
                o["df"] = rnd.choice(["NaN", "+Inf", "-Inf"])
            s["E"] = "op"
        elif h["e"] in ("fault", "badsave"):
            s["E"] = "op" if h["e"] == "fault" else "save"
            s["Fault"] = fault or rnd.choice(FAULTS)
            s["N"] = size if size is not None else rnd.choice([0, 1, 2, rnd.randrange(90), rnd.randrange(400)])
        elif h["e"] == "crash":
            s["Fault"] = death or rnd.choice(DEATHS)
            s["N"] = size if size is not None else rnd.choice([0, 1, 2, rnd.randrange(90), rnd.randrange(400)])
        steps.append(s)
        if rnd.random() < 0.08:
            steps.append({"E": "badload", "Op": op("none"), "N": 0, "Fault": rnd.choice(
                ["cut", "last", "empty", "type", "type", "name", "garbage", "dir", "files", "target"])})
    if rnd.random() < 0.8:
        steps.append({"E": "stopped", "Op": op("none"), "Fault": "", "N": 0})
    steps.append({"E": "restart", "Op": op("none"), "Fault": "", "N": 0})
    # and it still works
    nm = rnd.choice(names)
    for k in ("create", "delete"):
        steps.append({"E": "op", "Op": op(k, nm, "", "5" if k == "create" else "", "0.5" if k == "create" else ""),
                      "Fault": "", "N": 0})
    steps.append({"E": "restart", "Op": op("none"), "Fault": "", "N": 0})
    return {"Mode": "seq", "Steps": steps, "Slash": rnd.random() < 0.3, "Cwd": rnd.random() < 0.2}


def large(rnd, n, size):
    """a list of n namespaces with names of about the given length, changed, restarted, and with
    a process that dies while it is saved"""
    names = list(range(n))
    rnd.shuffle(names)

    full = ["%s%d" % ("x" * max(1, size - rnd.randrange(6) - 4), k) for k in names]

    def create(x):
        return op("create", x, "", rnd.choice(["0", "5", "1000", "7"]), rnd.choice(["0", "0.5", "1", "0.25"]))
    many = {"E": "many", "Op": op("none"), "Fault": "", "N": 0, "Many": [create(x) for x in full]}
    restart = {"E": "restart", "Op": op("none"), "Fault": "", "N": 0}
    steps = [many, restart]
    for k in range(3):
        x = rnd.choice(full)
        o = rnd.choice([create("n%d" % k), op("delete", x), op("update", x, rnd.choice([x, "u%d" % k]), "9", "0.5")])
        if o["op"] != "create":
            full.remove(x)
        steps.append({"E": "op", "Op": o, "Fault": "", "N": 0})
        if rnd.random() < 0.5:
            steps.append(restart)
    x = rnd.choice(full)
    steps.append({"E": "crash", "Op": rnd.choice([op("delete", x), create("cr"), op("update", x, x, "9", "0.5")]),
                  "Fault": rnd.choice(["size", "size", "write", "rename", "sync"]),
                  "N": rnd.choice([4095, 4096, 65536, 100000, n * size // 2])})
    steps.append(restart)
    return {"Mode": "seq", "Steps": steps, "Slash": False, "Cwd": False}


def c19(ctx):
    ctx.model("Registry", MC)
    ctx.model("RegistryImpl", IMPL % ('"a", "b"', "1", ctx.n(4, 6)), workers=8)
    rnd = random.Random(ctx.seed)
    cases = []
    for h in ctx.generate("RegistryGen", GEN % (3, 2, '"op"')):
        cases.append(history(rnd, h))
    for n, k, sim in ((8, 3, ctx.n(400, 4000)), (20, 4, ctx.n(100, 1500))):
        for h in ctx.generate("RegistryGen", GEN % (n, k, '"op", "op2", "fault"'), simulate=sim, depth=n + 2, seed_shift=n):
            cases.append(history(rnd, [dict(s, e="op") if s["e"] == "op2" else s for s in h]))
    # a failure, and after it the same again or something else
    for h in ctx.generate("RegistryGen", GEN % (2, 2, '"op"'), name="RegistryGen"):
        for f in sorted(set(FAULTS)):
            pre = [dict(h[0], op="create", a=1, b=0), dict(h[0], op="create", a=3, b=0)][:rnd.randrange(3)]
            cases.append(history(rnd, pre + [h[0], dict(h[1], e="fault"), dict(h[1])], fault=f,
                                 size=rnd.choice([0, 1, rnd.randrange(60), rnd.randrange(200)])))
    ctx.conform("registry", "RegistryTrace", cases, cfg="RegistryTrace.cfg", label="failures and restarts")
    cases = [large(rnd, n, k) for n, k in ctx.n([(300, 1), (40, 3000), (350, 1000), (2500, 8)],
                                                [(300, 1), (40, 3000), (400, 1000), (1200, 6), (1500, 1000), (3000, 10)]) for _ in range(ctx.n(1, 3))]
    ctx.conform("registry", "RegistryTrace", cases, cfg="RegistryTrace.cfg", label="long lists", case_timeout=300)
    cases = []
    for h in ctx.generate("RegistryGen", GEN % (2, 2, '"op"'), name="RegistryGen"):
        pre = [dict(h[0], op="create", a=1, b=0), dict(h[0], op="create", a=3, b=0)]
        if rnd.random() < ctx.n(0.7, 1):
            for d in sorted(set(DEATHS)):
                for n in range(0, 1 if d != "size" else ctx.n(200, 300), ctx.n(13, 1)):
                    cases.append(history(rnd, pre[:1 + rnd.randrange(2)] + [h[0], dict(h[1], e="crash")], death=d, size=n))
    for h in ctx.generate("RegistryGen", GEN % (12, 4, '"op", "crash"'), simulate=ctx.n(150, 2500), depth=14, seed_shift=1):
        cases.append(history(rnd, h))
    ctx.conform("registry", "RegistryTrace", cases, cfg="RegistryTrace.cfg", label="deaths")
    for http in (False, True):
        ctx.conform("registry", "RegistryLinTrace", races(rnd, ctx.n(300, 4000), http), cfg="RegistryLinTrace.cfg",
                    label="concurrent " + ("requests" if http else "calls"))


# ---- the HTTP API
API = """CONSTANTS
  Objects = {%s}
  NameSet = {"a", "b"}
  Limits = {"0", "5"}
  Factors = {"0", "1"}
SPECIFICATION ApiSpec
INVARIANTS UniqueNames UniqueObjects InStep OnlyGood
PROPERTY IsRegistry
CHECK_DEADLOCK FALSE
"""
AGEN = """CONSTANTS
  N = %d
  Draw = DRAW
  Methods = {%s}
  Paths = {%s}
  Forms = {%s}
  Names = {%s}
  Types = {%s}
  Msps = {%s}
  Dfs = {%s}
  Full = %s
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
"""


AGEN1, AGEN = AGEN.replace("DRAW", "FALSE"), AGEN.replace("DRAW", "TRUE")


def rng(n):
    return ", ".join(str(i) for i in range(1, n + 1))


def text(s):
    return {"k": "text", "s": s, "c": [ord(c) for c in s]}


def chars(rnd, s):
    """a JSON string; now and then with escapes"""
    if rnd.random() < 0.2:
        return '"' + "".join("\\u%04x" % ord(c) if ord(c) < 65536 and rnd.random() < 0.5 else json.dumps(c)[1:-1]
                             for c in s) + '"'
    return json.dumps(s, ensure_ascii=rnd.random() < 0.5)


NOTHING = {"k": "absent", "s": "", "c": []}
GOOD = ["aa", "bb", "c3", "z" * 64, "a", "q0123456789", "like", "null", "namespaces"]
OTHERS = ["null", "5", "true", "[]", "{}", '["aa"]', '{"a":1}', "1.5", "-1"]
BADNAMES = [["Aa", "AA", "aA", "aAa", "Z"], ["a-b", "a_b", "a-", "-a", "_a", "a.b"], ["9a", "1", "0a", "09"], [""],
            ["ä", "ａ", "aß", "a٣", "aª", "é1", "a\u0301", "а", "a😀"], [" a", "a ", "a b", "a\n", "\na", "a\t", "a\u0000", "\u0000"],
            ["a/b", "/", "../a", "a\\b", "a\"b", "a'b", "a%20", "a,b", "a;b", "a{", "a[", "a`", "a@", "a:"]]
PATHS = {5: ["9a", "a b", "a.b", "é", "-x", "_", "a\n", ".", "..", "a%", "0", " ", "a😀", "[", "a@", "`a", "ａ", "aß"]}
TYPES = {2: ["Like", "LIKE", "likes", "lik", "", "dislike", "like ", " like", "lıke", "null"]}
NUMBERS = {1: ["0.5", "0.25", "0.75", "0.125", "0.001", "0.999", "0.3", "0.1", "0.7", "5e-1", "2.5E-1"],
           2: ["0", "0.0", "0e5", "0.000"], 3: ["1", "1.0", "1e0", "10e-1"],
           4: ["1.001", "1.5", "2", "100", "1e2", "1e30", "3e38"], 5: ["-0.001", "-1", "-0.5", "-1e-2", "-1e30"]}


def f32(s):
    x = struct.unpack("f", struct.pack("f", float(s)))[0]
    for p in range(1, 12):
        t = "%.*g" % (p, x)
        if struct.unpack("f", struct.pack("f", float(t)))[0] == x:
            return t
    raise ValueError(s)


def request(rnd, h):
    """the request of the classes: what is sent and what it means"""
    fields = []
    c = h["n"]
    if c <= 3:
        nm = GOOD[c - 1]
    elif c == 4:
        nm = rnd.choice(GOOD[3:] + [rnd.choice("abcdxyz") + str(rnd.randrange(10 ** 6)) for _ in range(6)])
    elif c <= 11:
        nm = rnd.choice(BADNAMES[c - 5])
    else:
        nm = None
    if nm is not None:
        name = text(nm)
        fields.append('"name":' + chars(rnd, nm))
    else:
        name = NOTHING
        if c == 12:
            fields.append('"name":' + rnd.choice(OTHERS))
    if h["t"] == 1:
        typ = text("like")
        fields.append('"type":' + chars(rnd, "like"))
    elif h["t"] == 2:
        x = rnd.choice(TYPES[2])
        typ = text(x)
        fields.append('"type":' + chars(rnd, x))
    else:
        typ = NOTHING
        if h["t"] == 3:
            fields.append('"type":' + rnd.choice(OTHERS))
    if h["l"] <= 2:
        x = rnd.choice(["1", "2", "7", "999", "1000", "65536", str(2 ** 31), str(2 ** 32 + 1), str(2 ** 63), str(2 ** 64 - 1)]
                       if h["l"] == 1 else ["0"])
        msp = {"k": "natural", "s": x}
        fields.append('"maxSimilarProfiles":' + x)
    elif h["l"] == 3:
        msp = {"k": "absent", "s": ""}
    elif h["l"] == 4:
        x = rnd.choice(["-1", "-5", "-1000", "-9223372036854775808", "-18446744073709551615"])
        msp = {"k": "negative", "s": x}
        fields.append('"maxSimilarProfiles":' + x)
    else:
        msp = {"k": "other", "s": ""}
        fields.append('"maxSimilarProfiles":' + rnd.choice(['"5"', "true", "[]", "{}", '""', "[5]", '"x"', "2.5", "false"]))
    if h["d"] <= 5:
        x = rnd.choice(NUMBERS[h["d"]])
        df = {"k": "number", "s": f32(x), "v": max(-5000, min(5000, round(float(x) * 1000)))}
        fields.append('"dislikeFactor":' + x)
    else:
        df = {"k": "absent", "s": "", "v": 0}
        if h["d"] == 6:
            fields.append('"dislikeFactor":' + rnd.choice(["null", '"0.5"', "true", "[]", "{}", '""', "[0.5]", "false"]))
    if rnd.random() < 0.05:
        fields.append(rnd.choice(['"x":1', '"other":{"name":"zz"}', '"id":"5"', '"y":[1,2]']))
    if rnd.random() < 0.5:
        rnd.shuffle(fields)
    sep = rnd.choice([",", ",", " , ", ",\n\t"])
    sent = rnd.choice(["", "", " ", "\n"]) + "{" + sep.join(fields) + "}" + rnd.choice(["", "", "\n", "  "])
    form = "object"
    if h["f"] != 2 and rnd.random() < 0.05:  # what follows the object is ignored
        sent += rnd.choice(["}", "]", "x", ",", " 5", '{"name":"zz"}', "\n" + sent, " null", "\x00", "{"])
    if h["f"] == 2:
        form = "bad"
        cut = sent.rstrip()
        sent = rnd.choice(["", " ", "null", "5", '"x"', "true", "[" + cut + "]", cut[:-1], cut[:rnd.randrange(1, len(cut))],
                           "x" + cut, cut.replace(":", "", 1), cut.replace('"', "", 1), cut.replace("{", "{,", 1),
                           "name=aa&type=like", "<a/>", "{" + cut, "\ufeff" + cut, cut[:-1] + ",}", cut.replace('"', "'")])
    if form == "object" and rnd.random() < 0.1:
        # long requests
        k = rnd.choice([500, 1000, 4096, 5000, 10000, 70000])
        sent = rnd.choice([" " * k + sent, sent + "\n" * k, sent.replace("{", "{" + "\t" * k, 1),
                           sent.replace("{", '{"%s":"%s",' % (rnd.choice("xyz"), "v" * k), 1) if fields else sent])
    path = {1: "aa", 2: "bb", 3: "c3", 4: "Z-z_9"}.get(h["p"]) or rnd.choice(PATHS[5])
    url = "/api/v1/namespaces"
    if h["m"] in ("GET", "PUT"):
        url += "/" + "".join(ch if ch.isascii() and ch.isalnum() and rnd.random() < 0.9 else urllib.parse.quote(ch, safe="").replace(".", "%2E")
                             for ch in path)
    if rnd.random() < 0.1:
        url += rnd.choice(["?", "?name=zz", "?a=1&b=2", "?limit=1", "?namespace=bb"])
    header = rnd.choice([""] * 3 + ["application/json", "application/json; charset=utf-8", "text/plain", "application/xml",
                                    "application/x-www-form-urlencoded", "multipart/form-data; boundary=x"])
    return {"Method": {"LIST": "GET"}.get(h["m"], h["m"]), "Path": url, "Body": sent, "Header": header, "Pieces": rnd.random() < 0.15,
            "Info": {"m": h["m"], "path": text(path), "body": {"form": form, "name": name, "type": typ, "msp": msp, "df": df}}}


def plain(m, path="aa", name="aa", msp="5", df="0.5"):
    """an ordinary request"""
    body = {"form": "object", "name": text(name), "type": text("like"), "msp": {"k": "natural", "s": msp},
            "df": {"k": "number", "s": f32(df), "v": round(float(df) * 1000)}}
    url = "/api/v1/namespaces" + ("/" + path if m in ("GET", "PUT") else "")
    sent = '{"name":"%s","type":"like","maxSimilarProfiles":%s,"dislikeFactor":%s}' % (name, msp, df)
    return {"Method": {"LIST": "GET"}.get(m, m), "Path": url, "Body": sent,
            "Info": {"m": m, "path": text(path), "body": body}}


def crowd(rnd, n, longest):
    """many namespaces, names of every length, read and updated one by one"""
    have, steps, seen = [], [], set()

    def fresh():
        while True:
            k = rnd.choice([1, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, longest])
            x = rnd.choice("abcxyz") + "".join(rnd.choice("abz019") for _ in range(min(k, longest) - 1))
            if x not in seen:
                seen.add(x)
                return x
    while len(have) < n:
        r = rnd.random()
        m, d = str(rnd.choice([1, 5, 99, 1000, 2 ** 32 + 3])), rnd.choice(["0", "0.5", "1", "0.25"])
        if r < 0.75 or not have:
            have.append(fresh())
            steps.append(plain("POST", name=have[-1], msp=m, df=d))
        elif r < 0.80:
            steps.append(plain("POST", name=rnd.choice(have), msp=m, df=d))
        elif r < 0.87:
            x = rnd.choice(have)
            steps.append(plain("PUT", x, x, m, d))
        elif r < 0.91:
            x = rnd.choice(have)
            y = fresh()
            have[have.index(x)] = y
            steps.append(plain("PUT", x, y, m, d))
        elif r < 0.95:
            steps.append(plain("PUT", rnd.choice(have), rnd.choice(have), m, d))
        else:
            steps.append(plain("GET", rnd.choice(have)))
    steps += [plain("GET", x) for x in rnd.sample(have, min(20, n))] + [plain("GET", fresh()), plain("LIST")]
    return {"Mode": "http", "Pre": [], "Steps": steps}


def bursts(rnd, sizes):
    """many requests at the same time that do not depend on each other"""
    have, steps, n = [], [], 0
    for size in sizes:
        burst, busy = [], set()
        kinds = rnd.choice([("POST",), ("POST", "PUT"), ("POST", "PUT", "GET", "LIST"), ("GET",), ("PUT",)]) if have else ("POST",)
        for _ in range(size):
            m, d = str(rnd.choice([1, 5, 99, 1000, 2 ** 32 + 3])), rnd.choice(["0", "0.5", "1", "0.25"])
            k = rnd.choice(kinds)
            free = [x for x in have if x not in busy]
            if k == "PUT" and free:
                x = rnd.choice(free)
                busy.add(x)
                burst.append(plain("PUT", x, x, m, d))
            elif k == "LIST":
                burst.append(plain("LIST"))
            elif k == "POST":
                n += 1
                burst.append(plain("POST", name="n%d" % n, msp=m, df=d))
        if "GET" in kinds:
            free = [x for x in have if x not in busy]
            burst += [plain("GET", rnd.choice(free + ["none"])) for _ in range(size)]
        rnd.shuffle(burst)
        have += [b["Info"]["body"]["name"]["s"] for b in burst if b["Info"]["m"] == "POST"]
        if burst:
            steps.append({"Burst": burst})
        steps.append(plain("LIST"))
    return {"Mode": "http", "Pre": [], "Steps": steps}


def c20(ctx):
    ctx.model("Api", API % ("1, 2" if not ctx.thorough else "1, 2, 3"), workers=8)
    rnd = random.Random(ctx.seed)
    pres = [[], [op("create", "aa", "", "3", "0.1")], [op("create", "aa", "", "7", "0.5")], [op("create", "aa", "", "7", "0.5"), op("create", "bb", "", "0", "1")],
            [op("create", "bb", "", "9", "0"), op("create", "Z-z_9", "", "5", "0.25"), op("create", "aa", "", "1", "0.5")]]

    def case(hist, tail):
        return {"Mode": "http", "Pre": rnd.choice(pres), "Steps": [request(rnd, h) for h in hist if "m" in h] + tail}
    usual = {"m": "LIST", "p": 1, "f": 1, "n": 1, "t": 1, "l": 1, "d": 1}
    every, single = [], []
    for m in ('"POST"', '"PUT"'):
        sizes = (rng(5), rng(2), rng(13), rng(4) if m == '"POST"' else "1, 3", rng(5), rng(7))
        for h in ctx.generate("ApiGen", AGEN1 % ((1, m) + sizes + ("TRUE",))):
            # most updates are of something that is there
            every.append(dict(h[0], p=rnd.choice([1, 1, 2]) if m == '"PUT"' and rnd.random() < 0.8 else h[0]["p"]))
        single += [h[0] for h in ctx.generate("ApiGen", AGEN1 % ((1, m) + sizes + ("FALSE",)))]
    single += [h[0] for h in ctx.generate("ApiGen", AGEN1 % (1, '"GET", "LIST"', rng(5), "1", "1", "1", "1", "1", "FALSE"))] * 6
    every = every * ctx.n(1, 12) + single * ctx.n(4, 40)
    rnd.shuffle(every)
    cases = [case(every[i:i + 10], [request(rnd, usual)]) for i in range(0, len(every), 10)]
    ctx.conform("registry", "ApiTrace", cases, cfg="ApiTrace.cfg", label="every combination")
    cases = []
    for n, sim in ((12, ctx.n(300, 3000)), (40, ctx.n(60, 600))):
        for h in ctx.generate("ApiGen", AGEN % (n, '"POST", "PUT", "GET", "LIST"', rng(5), "1, 2", "1, 2, 3, 4, 1, 2, 3, 4, 5", "1, 2", "1, 2, 3, 4",
                                                "1, 2, 3, 4, 5, 7", "FALSE"), simulate=sim, depth=n + 2, seed_shift=n):
            cases.append(case(h, [request(rnd, usual)]))
    ctx.conform("registry", "ApiTrace", cases, cfg="ApiTrace.cfg", label="histories")
    # nothing can be saved, and services that are started again
    cases = []
    for n, sim in ((8, ctx.n(200, 2000)), (30, ctx.n(30, 300))):
        for h in ctx.generate("ApiGen", AGEN % (n, '"POST", "PUT", "GET", "LIST"', rng(4), "1", "1, 2, 3, 4", "1", "1, 2", "1, 2, 3, 4, 5", "FALSE"),
                              simulate=sim, depth=n + 2, seed_shift=n + 1):
            c = case(h, [request(rnd, usual)])
            kind = rnd.choice(FAULTS + [None])
            steps = []
            for s in c["Steps"]:
                if rnd.random() < 0.4 and "Method" in s:
                    s = dict(s, Fault=kind or rnd.choice(FAULTS), N=rnd.choice([0, 1, 2, rnd.randrange(90), rnd.randrange(400)]))
                steps.append(s)
                if rnd.random() < 0.15:
                    steps.append({"E": "restart"})
            c["Steps"] = steps + [{"E": "restart"}]
            c["Slash"] = rnd.random() < 0.3
            cases.append(c)
    ctx.conform("registry", "ApiTrace", cases, cfg="ApiTrace.cfg", label="failures and restarts")
    cases = [crowd(rnd, n, k) for n in ctx.n((3, 20, 130, 300), (3, 10, 20, 70, 130, 257, 300, 600)) for k in (20, 200)]
    ctx.conform("registry", "ApiTrace", cases, cfg="ApiTrace.cfg", label="crowds", case_timeout=300)
    cases = [bursts(rnd, s) for s in ctx.n([(8, 8, 8), (40, 40), (200, 200), (20, 60, 60), (120,)],
                                           [(8, 8, 8), (40, 40), (200, 200), (20, 60, 60), (120,), (500, 300)]) for _ in range(ctx.n(3, 10))]
    ctx.conform("registry", "ApiTrace", cases, cfg="ApiTrace.cfg", label="bursts", case_timeout=300)
