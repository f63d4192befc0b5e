"""Shared machinery of the checks: building the drivers from /repo's current tree, running
TLC (exhaustive checks, generation of behaviours, trace validation), replays, evidence.

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 error of the check itself."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.environ.get("VF_OUT", VERIF)  # where evidence/ and replays/ are written
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
JOBS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.models = []
        self.gen = []
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.extra = {}
        self.assumptions = []
        self._bins = {}

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *p):
        d = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        return d

    # ------------------------------------------------------------------ Go
    def goenv(self):
        env = dict(os.environ)
        env.update({
            "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin",
            "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off",
            "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        })
        env.setdefault("HOME", "/root")
        env.setdefault("GOCACHE", "/root/.cache/go-build")
        for k in ("GIN_MODE",):
            env[k] = "release"
        return env

    def build(self, family, race=False):
        """Builds the driver of a family from /repo's working tree. The driver is a test
        package that exists in an overlay only."""
        key = (family, race)
        if key in self._bins:
            return self._bins[key]
        pkg = os.path.join(REPO, "internal", "verifdrv", family)
        repl = {}
        for src in ("common", family):
            for f in sorted(os.listdir(os.path.join(HARNESS, src))):
                if f.endswith(".go"):
                    txt = open(os.path.join(HARNESS, src, f)).read()
                    # one package per family: the shared file takes its package name
                    out = self.path("ovl-%s" % family, f)
                    with open(out, "w") as fh:
                        fh.write(re.sub(r"(?m)^package \w+", "package " + family, txt, count=1))
                    repl[os.path.join(pkg, f)] = out
        ovl = self.path("overlay-%s.json" % family)
        json.dump({"Replace": repl}, open(ovl, "w"))
        binp = self.path("drv-%s%s" % (family, "-race" if race else ""))
        cmd = ["go", "test", "-vet=off", "-overlay", ovl, "-c", "-o", binp]
        if race:
            cmd.append("-race")
        # the module files stay as they are
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), self.path("mod-" + f))
        os.replace(self.path("mod-go.mod"), self.path("vf.mod"))
        os.replace(self.path("mod-go.sum"), self.path("vf.sum"))
        cmd += ["-modfile", self.path("vf.mod"), "./internal/verifdrv/" + family]
        r = subprocess.run(cmd, cwd=REPO, env=self.goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("cannot build the %s driver:\n%s" % (family, (r.stdout + r.stderr)[-4000:]))
        self._bins[key] = binp
        return binp

    def build_main(self):
        binp = self.path("recengine")
        r = subprocess.run(["go", "build", "-o", binp, "."], cwd=REPO, env=self.goenv(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("cannot build the server:\n" + r.stderr[-4000:])
        return binp

    def drive(self, family, cases, race=False, env=None, jobs=None, case_timeout=60,
              quiet=False):
        """Runs the cases on the real code; returns one trace (dict) per case, in order. A
        case that kills its driver or hangs yields {"died": reason}."""
        binp = self.build(family, race)
        for i, c in enumerate(cases):
            c["id"] = i
        jobs = max(1, min(jobs or JOBS, len(cases)))
        shards = [cases[k::jobs] for k in range(jobs)]
        results = {}
        tag = hashlib.sha1(os.urandom(8)).hexdigest()[:8]

        def run(k):
            todo = shards[k]
            got = {}
            rounds = 0
            while todo:
                rounds += 1
                d = self.path("run-%s-%d" % (tag, k), "x")[:-2]
                inp, outp = os.path.join(d, "in%d" % rounds), os.path.join(d, "out%d" % rounds)
                work = os.path.join(d, "work%d" % rounds)
                os.makedirs(work, exist_ok=True)
                with open(inp, "w") as fh:
                    for c in todo:
                        fh.write(json.dumps(c) + "\n")
                e = self.goenv()
                e.update({"VF_IN": inp, "VF_OUT": outp, "VF_WORK": work, "TMPDIR": work,
                          "VF_CASE_TIMEOUT": str(case_timeout), "VF_SEED": str(self.seed)})
                if race:
                    e["GORACE"] = "halt_on_error=1 exitcode=66"
                e.update(env or {})
                errp = os.path.join(d, "err%d" % rounds)
                with open(errp, "w") as eh:
                    p = subprocess.Popen([binp, "-test.run", "^TestDrive$", "-test.timeout", "0"],
                                         cwd=work, env=e, stdout=subprocess.DEVNULL, stderr=eh,
                                         start_new_session=True)
                    dead = None
                    last, lastt = -1, time.time()
                    while True:
                        try:
                            p.wait(timeout=5)
                            break
                        except subprocess.TimeoutExpired:
                            sz = os.path.getsize(outp) if os.path.exists(outp) else 0
                            if sz != last:
                                last, lastt = sz, time.time()
                            elif time.time() - lastt > case_timeout + 30:
                                dead = "hang"
                                try:
                                    os.killpg(p.pid, 9)
                                except ProcessLookupError:
                                    pass
                                p.wait()
                                break
                started = None
                done = False
                if os.path.exists(outp):
                    for line in open(outp, errors="replace"):
                        if line.startswith("#start "):
                            started = int(line.split()[1])
                        elif line.startswith("#end"):
                            done = True
                        elif line.startswith("{"):
                            try:
                                r = json.loads(line)
                            except ValueError:
                                continue
                            got[r["id"]] = r
                            if started == r["id"]:
                                started = None
                shutil.rmtree(work, ignore_errors=True)
                if done and p.returncode == 0:
                    break
                tail = open(errp, errors="replace").read()[-3000:]
                if started is None:
                    if p.returncode == 77:   # the driver itself gives up
                        raise CheckError("driver error:\n" + tail)
                    raise CheckError("driver of %s died outside of a case (%s):\n%s" % (
                        family, p.returncode, tail))
                if p.returncode == 77:
                    raise CheckError("driver error:\n" + tail)
                got[started] = {"id": started, "died": dead or ("exit %s" % p.returncode),
                                "stderr": tail[-1500:], "steps": []}
                ids = [c["id"] for c in todo]
                todo = [c for c in todo[ids.index(started) + 1:] if c["id"] not in got]
                if rounds > 20:
                    # enough of it: the remaining cases are not needed for a verdict
                    for c in todo:
                        got[c["id"]] = {"id": c["id"], "skipped": True, "steps": []}
                    break
            return got

        with cf.ThreadPoolExecutor(jobs) as ex:
            for g in ex.map(run, range(jobs)):
                results.update(g)
        missing = [c["id"] for c in cases if c["id"] not in results]
        if missing:
            raise CheckError("driver returned no result for %d cases" % len(missing))
        return [results[c["id"]] for c in cases]

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=1, env=None, args=(), timeout=800, heap="3g", props=()):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfgp = cfg
        if not os.path.isabs(cfg):
            if "\n" in cfg:
                cfgp = os.path.join(meta, "M.cfg")
                open(cfgp, "w").write(cfg)
            else:
                cfgp = os.path.join(SPEC, cfg)
        gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
        cmd = ["java", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + meta] + gc + ["-XX:+IgnoreUnrecognizedVMOptions"]
        cmd += list(props)
        cmd += ["-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
                "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE", "-config", cfgp]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        outp = os.path.join(meta, "out")
        with open(outp, "w") as fh:
            try:
                r = subprocess.run(cmd, cwd=meta, env=e, stdout=fh, stderr=subprocess.STDOUT,
                                   timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        out = open(outp, errors="replace").read()
        shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
        return rc, out

    def model(self, module, cfg, workers=4, timeout=600, heap="6g", args=(), env=None,
              coverage=True, name=None):
        """Exhaustive check of a specification. A failure is an error of the check: it says
        something about the specification, nothing about the code."""
        t = time.time()
        a = list(args)
        if coverage:
            a += ["-coverage", "60"]
        rc, out = self.tlc(module, cfg, workers, env=env, args=a, timeout=timeout, heap=heap)
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        if rc != 0 or m is None:
            raise CheckError("TLC on %s (%s) failed, exit %s:\n%s" % (module, cfg, rc, out[-4000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        never = []
        if coverage:
            last = out.rfind("The coverage statistics at")
            for mm in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)",
                                  out[last:]):
                if mm.group(4) == "0":
                    never.append(mm.group(1))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": name or module, "config": cfg if "\n" not in cfg else "inline",
                            "distinct_states": dist, "states_generated": gen,
                            "actions_never_taken": sorted(set(never)),
                            "seconds": round(time.time() - t, 1)})
        log("  model %s: %d distinct states, %d generated, %.1fs%s" % (
            name or module, dist, gen, time.time() - t,
            (" NEVER TAKEN: %s" % sorted(set(never))) if never else ""))
        return dist

    def generate(self, module, cfg, simulate=None, depth=None, timeout=600, env=None, workers=1,
                 seed_shift=0, name=None, heap="3g"):
        """Behaviours of a specification: every line PrintT'ed as a "GEN <json>" string."""
        t = time.time()
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100),
                    "-seed", str(self.seed * 1000 + seed_shift)]
        rc, out = self.tlc(module, cfg, workers, env=env, args=args, timeout=timeout, heap=heap)
        if rc != 0:
            raise CheckError("generation from %s failed, exit %s:\n%s" % (module, rc, out[-3000:]))
        res, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"GEN '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        if not res:
            raise CheckError("no behaviours generated from %s:\n%s" % (module, out[-2000:]))
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        self.gen.append({"module": module, "mode": "simulate" if simulate else "exhaustive",
                         "behaviours": len(res), "seconds": round(time.time() - t, 1)})
        if m:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        log("  generated %d behaviours from %s (%s, %.1fs)" % (
            len(res), name or module, "simulation" if simulate else "exhaustive", time.time() - t))
        return res

    def validate(self, module, traces, cfg=None, env=None, chunk_steps=60000, timeout=800,
                 props=None, heap="3g"):
        """Which of the traces are behaviours of the specification? Returns the rejected ones
        as (index, position of the first step that no behaviour explains). TLC decides."""
        cfg = cfg or "Trace.cfg"
        prop = props or self.prop
        idx = [i for i, t in enumerate(traces) if not t.get("skipped")]
        rejected = []
        live = []
        for i in idx:
            if traces[i].get("died"):
                rejected.append((i, len(traces[i].get("steps", [])) + 1))
            else:
                live.append(i)
        chunks, cur, sz = [], [], 0
        total = sum(len(traces[i]["steps"]) + 3 for i in live)
        limit = max(200, min(chunk_steps, total // JOBS + 1))
        for i in live:
            cur.append(i)
            sz += len(traces[i]["steps"]) + 3
            if sz >= limit:
                chunks.append(cur)
                cur, sz = [], 0
        if cur:
            chunks.append(cur)

        def run(ch):
            fd, p = tempfile.mkstemp(dir=self.scratch, suffix=".ndjson")
            with os.fdopen(fd, "w") as fh:
                for i in ch:
                    t = {k: v for k, v in traces[i].items() if k not in ("stderr",)}
                    fh.write(json.dumps(t) + "\n")
            e = {"VF_TRACES": p, "VF_PROP": prop}
            e.update(env or {})
            rc, out = self.tlc(module, cfg, 1, env=e, timeout=timeout, heap=heap)
            os.unlink(p)
            m = re.search(r'"VERDICT (.*)"', out)
            if (not m or rc) and re.search(r"Attempted to (select|apply|compare|check|evaluate|access)", out):
                # something recorded is not even of the kind the specification speaks of: it
                # is no behaviour of it. Which one?
                if len(ch) == 1:
                    return [(ch[0], len(traces[ch[0]]["steps"]))], (0, 0)
                h = len(ch) // 2
                (ra, sa), (rb, sb) = run(ch[:h]), run(ch[h:])
                return ra + rb, (sa[0] + sb[0], sa[1] + sb[1])
            if not m or rc not in (0,):
                k = max(0, out.find("Error:") - 200)
                raise CheckError("trace validation with %s failed, exit %s:\n%s\n...\n%s" % (
                    module, rc, out[k:k + 2500], out[-2500:]))
            v = json.loads(json.loads('"' + m.group(1) + '"'))
            if v["n"] != len(ch):
                raise CheckError("trace validation with %s saw %s traces of %d" % (module, v["n"], len(ch)))
            ms = None
            for ms in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
                pass
            rej = v["rejected"]
            return [(ch[k - 1], l) for k, l in rej], (int(ms.group(1)), int(ms.group(2))) if ms else (0, 0)

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for rej, st in ex.map(run, chunks):
                rejected += rej
                self.transitions += st[0]
                self.states += st[1]
        self.traces += len(idx)
        self.steps += sum(len(traces[i]["steps"]) for i in idx)
        return sorted(rejected)

    # ------------------------------------------------------------- verdicts
    def conform(self, family, module, cases, race=False, cfg=None, env=None, jobs=None,
                case_timeout=60, confirm=True, post=None, label="", drvenv=None, split=None):
        """Replays the cases, validates the traces, confirms and reports rejections.
        post: trace -> trace (or list of traces) before validation."""
        if self.violations:
            return []       # one violation decides
        t = time.time()
        res = self.drive(family, cases, race=race, env=drvenv, jobs=jobs, case_timeout=case_timeout)
        traces, owner = [], []
        for c, r in zip(cases, res):
            rs = [r]
            if post:
                rs = post(c, r)
            for x in rs:
                traces.append(x)
                owner.append(c)
        rej = self.validate(module, traces, cfg=cfg, env=env)
        nsteps = sum(len(x.get("steps", [])) for x in traces)
        log("  %s%s: %d cases, %d traces, %d steps validated, %d rejected (%.1fs)" % (
            module, " " + label if label else "", len(cases), len(traces), nsteps, len(rej),
            time.time() - t))
        self._sample(owner, traces)
        if not rej:
            return []
        found = []
        for i, l in rej[:3]:
            c = dict(owner[i])
            again = None
            if confirm:
                for _ in range(2 if confirm is True else confirm):
                    r2 = self.drive(family, [dict(c)], race=race, env=drvenv, jobs=1,
                                    case_timeout=case_timeout)[0]
                    t2 = post(c, r2) if post else [r2]
                    rj2 = self.validate(module, t2, cfg=cfg, env=env)
                    if rj2:
                        again = (t2[rj2[0][0]], rj2[0][1])
                        break
            if again is None and confirm:
                d = traces[i].get("died")
                if d and not d.startswith("panic") and not re.search(
                        r"(?m)^(panic:|fatal error:)", traces[i].get("stderr", "")):
                    raise CheckError("the driver died (%s) and it did not repeat: %s" % (d, json.dumps(c)[:500]))
                again = (traces[i], l)
                self.notes.append("a rejected trace did not repeat on rerun; the recorded trace is the evidence")
            if again is None:
                again = (traces[i], l)
            found.append(self.violation(family, module, c, again[0], again[1], cfg=cfg, race=race))
        return found

    def violation(self, family, module, case, trace, pos, cfg=None, race=False, what=None):
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        steps = trace.get("steps", [])
        rec = {"property": self.prop, "family": family, "module": module, "cfg": cfg, "race": race,
               "case": case, "trace": trace, "rejected_at_step": pos,
               "rejected_step": steps[pos - 1] if 0 < pos <= len(steps) else (trace.get("died") or what or "end"),
               "rerun": "python3 bin/check.py --replay <this file>"}
        blob = json.dumps(rec, indent=1)
        p = os.path.join(OUT, "replays", "%s-%s.json" % (self.prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        open(p, "w").write(blob)
        self.violations.append(p)
        log("  rejected at step %d: %s" % (pos, json.dumps(rec["rejected_step"])[:1500]))
        return p

    def _sample(self, owner, traces):
        live = [i for i, t in enumerate(traces) if t.get("steps")]
        for i in live[:1] + live[len(live) // 2:len(live) // 2 + 1]:
            if len(self.samples) < 6:
                s = json.dumps(traces[i])
                if len(s) > 1500:
                    x = dict(traces[i])
                    x["steps"] = x["steps"][:3]
                    s = json.dumps(x)
                    self.samples.append({"trace_prefix": s[:1500]})
                else:
                    self.samples.append({"trace": json.loads(s)})

    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_steps": self.steps,
               "models": self.models, "generated": self.gen,
               "samples": self.samples[:6] or ["none"]}
        if self.notes:
            cov["notes"] = self.notes
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.prop + ".json"), "w"), indent=1)
        known = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(known):
            for line in open(known):
                if line.startswith("finding: property=%s " % self.prop):
                    log("KNOWN-FINDING: " + line[len("finding: "):].strip())
        if self.violations:
            for p in self.violations:
                log("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        log("OK property=%s tier=%s seed=%d states=%d traces=%d steps=%d wall=%.1fs" % (
            self.prop, self.tier, self.seed, self.states, self.traces, self.steps,
            time.time() - self.t0))
        return 0
