#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property: model-checks its design specification with TLC, makes cases (from TLC behaviours
and from a seeded generator), runs them against the real code with the driver in /verif/harness (rebuilt
from /repo's working tree), and has TLC judge what was observed against the trace specification.

Exit 0: held on everything explored.  Exit 1 and VIOLATION lines: broken.  Exit 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

sys.path.insert(0, os.path.join(VERIF, "bin"))


class CheckError(Exception):
    pass


def goenv():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], stdout=subprocess.PIPE, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode()
    env.pop("GOROOT", None)
    env.pop("SOURCE_DATE_EPOCH", None)
    return env


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.scratch, 0o711)     # some commands run as an unprivileged user
        self.env = goenv()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.evaluated = 0
        self.distinct = set()
        self.samples = []
        self.violations = []     # (case, why)
        self.known = []
        self.stages = []
        self.deadline = self.t0 + (800 if not THOROUGH else 7200)
        self.lock = threading.Lock()
        self.known_keys = load_known(prop)

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    # ---- building ----
    def build(self, race=False):
        """Build the driver and the ocibuild command from the current tree; with race, also a driver that ends at the first data race."""
        bindir = self.path("bin")
        os.makedirs(bindir, exist_ok=True)
        hdir = self.path("harness")
        shutil.copytree(os.path.join(VERIF, "harness"), hdir)
        if REPO != "/repo":
            gm = os.path.join(hdir, "go.mod")
            s = open(gm).read().replace("=> /repo", "=> " + REPO)
            open(gm, "w").write(s)
        def run(args, cwd):
            r = subprocess.run(args, cwd=cwd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise CheckError("build failed: %s\n%s" % (args, r.stdout.decode(errors="replace")[-4000:]))
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(run, ["go", "build", "-o", os.path.join(bindir, "vdrv"), "."], hdir)
            b = ex.submit(run, ["go", "build", "-o", os.path.join(bindir, "ocibuild"), "."], REPO)
            if race:
                ex.submit(run, ["go", "build", "-race", "-o", os.path.join(bindir, "vdrv-race"), "."], hdir).result()
            a.result(); b.result()
        self.env["VERIF_OCIBUILD"] = os.path.join(bindir, "ocibuild")
        self.env["VERIF_SCRATCH"] = self.path("work")
        self.env["VERIF_BIN"] = os.path.join(VERIF, "bin")
        os.makedirs(self.path("work"), exist_ok=True)
        os.chmod(self.path("work"), 0o711)
        os.chmod(bindir, 0o711)
        self.env["TMPDIR"] = self.path("work")
        self.env["GORACE"] = "halt_on_error=1"
        vdrv = os.path.join(bindir, "vdrv")
        return (vdrv, vdrv + "-race") if race else vdrv

    # ---- TLC ----
    def tlc(self, module, cfg, workers, env=None, args=(), heap="3g", timeout=None, name="m"):
        md = tempfile.mkdtemp(prefix="md-", dir=self.scratch)
        cfgp = os.path.join(md, name + ".cfg")
        open(cfgp, "w").write(cfg)
        e = dict(self.env)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + md, "-Xss256m", gc, "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
               "-nowarning", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfgp] + list(args) + [module + ".tla"]
        left = self.deadline - time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=max(5, min(left, timeout or left)))
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout.decode(errors="replace")

    def design(self, module, cfg, workers=NCPU, heap="8g", args=(), what=""):
        """Model-check a design; a counterexample here is an error of the specification."""
        if os.environ.get("VERIF_NODESIGN"):     # for mutation campaigns: the design does not depend on the tree
            return ""
        t = time.time()
        rc, out = self.tlc(module, cfg, workers, heap=heap, args=args)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if rc != 0 or "No error has been found" not in out or not m:
            raise CheckError("model checking of %s failed (rc %d):\n%s" % (module, rc, tail(out)))
        gen, dist, left = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.stages.append(dict(stage="design", module=module, what=what, distinct_states=dist, states_generated=gen,
                                seconds=round(time.time() - t, 1)))
        return out

    def tlc_cases(self, module, cfg, wrap, simulate=None, workers=1, limit=None):
        """Cases printed by a specification as "CASE {json}" lines."""
        args = []
        if simulate:
            num, depth = simulate
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED * 7919 + 13)]
        rc, out = self.tlc(module, cfg, workers, args=args, heap="4g")
        cases, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"CASE '):
                js = json.loads(line)[5:]     # a TLA+ string literal is a JSON string here
                if js in seen:
                    continue
                seen.add(js)
                cases.append(wrap(json.loads(js)))
        if rc not in (0,) or not cases:
            raise CheckError("case generation from %s failed (rc %d):\n%s" % (module, rc, tail(out)))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        self.stages.append(dict(stage="behaviours", module=module, cases=len(cases), simulate=bool(simulate)))
        return cases[:limit] if limit else cases

    # ---- conformance ----
    def gen(self, vdrv, suite, n, seed=None):
        r = subprocess.run([vdrv, "gen", suite, "-seed", str(SEED if seed is None else seed), "-n", str(n)], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise CheckError("gen %s: %s" % (suite, r.stderr.decode(errors="replace")[-2000:]))
        return [json.loads(l) for l in r.stdout.decode().splitlines()]

    def execute(self, vdrv, suite, cases, timeout="20s", jobs=NCPU):
        inp = "".join(json.dumps(c) + "\n" for c in cases)
        left = max(10, self.deadline - time.time())
        budget = max(20, left - 320)  # what is left then is for cases under way, confirming hangs, and judging
        try:
            r = subprocess.run([vdrv, "exec", suite, "-j", str(jobs), "-timeout", timeout, "-budget", "%ds" % budget], input=inp.encode(), env=self.env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out on %s" % suite)
        if r.returncode != 0:
            raise CheckError("driver %s failed: %s" % (suite, r.stderr.decode(errors="replace")[-3000:]))
        evs = [json.loads(l) for l in r.stdout.decode().splitlines()]
        ab = sum(1 for e in evs if e["abnormal"])
        stopped = b"vdrv: stopped" in r.stderr
        if len(evs) != len(cases) and not stopped:
            raise CheckError("driver %s: %d events for %d cases" % (suite, len(evs), len(cases)))
        return evs

    def judge(self, trace_module, events, shards=NCPU, heap="3g", min_per_shard=20):
        """Have TLC step through the events; returns {index: reason}."""
        n = max(1, min(shards, len(events) // min_per_shard or 1))
        bad = {}
        def one(k):
            idx = list(range(k, len(events), n))
            tr = self.path("trace-%s-%d-%d.ndjson" % (trace_module, k, time.time_ns()))
            with open(tr, "w") as f:
                for i in idx:
                    e = events[i]
                    f.write(json.dumps({"ab": e["abnormal"], "ev": e.get("ev") if e.get("ev") is not None else {}}) + "\n")
            rc, out = self.tlc(trace_module, "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", 1,
                               env={"TRACE": tr, "PROP": self.prop}, heap=heap)
            os.unlink(tr)
            m = re.search(r'"CONSUMED (\d+)"', out)
            if rc != 0 or not m or int(m.group(1)) != len(idx):
                raise CheckError("trace checking with %s failed (rc %d):\n%s" % (trace_module, rc, tail(out)))
            res = {}
            for line in out.splitlines():
                if line.startswith('"MISMATCH '):
                    s = json.loads(line)
                    _, pos, why = s.split(" ", 2)
                    res[idx[int(pos) - 1]] = why
            return res
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(one, range(n)):
                bad.update(r)
        return bad

    def conform(self, vdrv, suite, trace_module, cases, what="", timeout="20s", jobs=NCPU, describe=None, reproduce=True, nontrivial=None):
        if self.violations:
            self.stages.append(dict(stage="conformance", suite=suite, what="skipped: there is a violation already", cases=0, events_judged=0, mismatches=0, seconds=0))
            return
        t = time.time()
        recorded = kf_cases(suite)      # the cases that showed the repaired defects come first
        cases = recorded + [c for c in cases if c not in recorded]
        events = self.execute(vdrv, suite, cases, timeout, jobs)
        bad = self.judge(trace_module, events)
        for c in cases:
            if nontrivial is None or nontrivial(c):
                self.distinct.add(hashlib.md5(json.dumps(c, sort_keys=True).encode()).digest())
        self.evaluated += len(cases)
        self.validated += len(events)
        if events and len(self.samples) < 6:
            for e in events[:2]:
                self.samples.append(dict(suite=suite, observed=shorten(e)))
        for i in sorted(bad):
            e = events[i]
            kf = e["case"].get("kf", "") if isinstance(e["case"], dict) else ""
            if kf and kf in self.known_keys:
                self.known.append((kf, bad[i]))
            else:
                self.violations.append(dict(suite=suite, trace_module=trace_module, case=e["case"], why=bad[i],
                                            abnormal=e["abnormal"], text=e.get("text", ""), observed=shorten(e, 20000)))
        self.stages.append(dict(stage="conformance", suite=suite, trace_spec=trace_module, what=what, cases=len(cases),
                                events_judged=len(events), mismatches=len(bad), seconds=round(time.time() - t, 1)))

    # ---- results ----
    def finish(self, level, rule, assumptions, exhaustive=None):
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated,
                                evaluations=self.evaluated, distinct_nontrivial=len(self.distinct), rule=rule,
                                samples=self.samples, stages=self.stages),
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, why in sorted(set((k, self.known_keys[k]) for k, _ in self.known)):
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, key, why))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for n, v in enumerate(self.violations[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, n))
                with open(p, "w") as f:
                    json.dump(dict(property=self.prop, **v), f, indent=1)
                print("  %s" % v["why"][:500])
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            if len(self.violations) > 5:
                print("  ... %d violations in all" % len(self.violations))
            return 1
        print("OK property=%s tier=%s seed=%d design-states=%d events-judged=%d wall=%.1fs" %
              (self.prop, TIER, SEED, self.states, self.validated, time.time() - self.t0))
        return 0


def tail(s, n=3500):
    keep = [l for l in s.splitlines() if not re.match(r"(Parsing file|Semantic processing|Linting of)", l)]
    return "\n".join(keep)[-n:]


def shorten(e, n=1500):
    s = json.dumps(e)
    return e if len(s) <= n else s[:n] + "..."


def load_known(prop):
    keys = {}
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            keys[m.group(2)] = m.group(3)
    return keys


def kf_cases(suite):
    p = os.path.join(VERIF, "cases", suite + ".ndjson")
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith("//")]


def main():
    prop = sys.argv[1]
    import plans
    ctx = Ctx(prop)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            v = json.load(open(sys.argv[3]))
            vdrv = ctx.build()
            evs = ctx.execute(vdrv, v["suite"], [v["case"]])
            bad = ctx.judge(v["trace_module"], evs)
            print(json.dumps(evs[0], indent=1)[:6000])
            print("still violated: %s" % bad[0] if bad else "not violated")
            return 1 if bad else 0
        return plans.run(prop, ctx)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s the machinery failed" % prop)
        return 2
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", ctx.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
