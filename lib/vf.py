"""Machinery shared by all checks: TLC, the Go harness, verdicts, evidence.

A check (checks/cNN.py: run(c)) combines
  c.model(...)     TLC explores a specification and checks its properties
  c.generate(...)  TLC prints behaviours of a specification as JSON scripts
  c.execute(...)   the harness runs scripts against /repo and records traces
  c.validate(...)  TLC decides whether recorded traces are behaviours
"""
import json, os, re, shutil, subprocess, sys, time, random, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict)."""


class Undecided(CheckError):
    """TLC came to no end."""


class Enough(Exception):
    """Nothing more needs to be explored, or there is no time for it."""


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random("%s/%d/%s" % (prop, seed, tier))
        self.work = os.path.join(VERIF, "work", "%s.%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays", prop)
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        samples=[], models=[], executions=[])
        self.assumptions = []
        self.binaries = {}
        self.nfile = 0

    # ---------------------------------------------------------------- util
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.work, "%03d-%s" % (self.nfile, name))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    BUDGET = 540  # seconds of a quick check after which nothing new is begun (it normally takes 30 to 150)

    def left(self):
        """seconds that may still be used to run scripts"""
        return 10 ** 6 if self.thorough else max(0, self.BUDGET + 60 - (time.time() - self.t0))

    def begin(self):
        """Before every stage. A violation decides the property: the rest of the
        exploration cannot change the verdict."""
        if self.violations:
            raise Enough("decided")
        if not self.thorough and time.time() - self.t0 > self.BUDGET:
            self.cov["cut_short"] = "stopped after %d s" % (time.time() - self.t0)
            raise Enough("time is up; what was explored counts")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=1, env=None, timeout=850, args=(), xmx="4g", dirs=()):
        d = self.path(module + ".d")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-config", module + ".cfg", *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(d, "out.txt")
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Undecided("TLC %s: no end within %d s" % (module, timeout))
        return rc, out

    @staticmethod
    def stats(text):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", text)
        if not m:
            m2 = re.findall(r"generated ([\d,]+) states|The number of states generated: ([\d,]+)", text)
            if m2:
                n = int((m2[-1][0] or m2[-1][1]).replace(",", ""))
                return n, 0
            return 0, 0
        g, s = m[-1]
        return int(g.replace(",", "")), int(s.replace(",", ""))

    def model(self, module, cfg, what, workers=CORES, expect_violation=None, **kw):
        """Explore a specification; its properties must hold. With
        expect_violation, the named property must fail (a model of a known
        mistake: shows that the property can see it)."""
        self.begin()
        if expect_violation is not None:
            workers = 1  # several workers may come upon another violation first
        rc, out = self.tlc(module, cfg, workers=workers, **kw)
        text = open(out).read()
        gen, dist = self.stats(text)
        if expect_violation is not None:
            if rc == 0 or expect_violation not in text:
                raise CheckError("model %s (%s): the expected violation of %s did not show:\n%s"
                                 % (module, what, expect_violation, text[-3000:]))
        elif rc != 0:
            raise CheckError("model %s (%s) fails, rc=%d:\n%s" % (module, what, rc, text[-6000:]))
        if expect_violation is None:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        self.cov["models"].append(dict(module=module, what=what, states=dist, transitions=gen,
                                       **({"must_fail": expect_violation} if expect_violation else {})))
        self.log("model", module, "-", what, "- %d states %d transitions" % (dist, gen),
                 "(violated as it must)" if expect_violation else "")
        return text

    def generate(self, module, cfg, what, limit=None, simulate=None, **kw):
        """Behaviours printed by the specification, as Python objects."""
        self.begin()
        args = []
        if simulate:
            num, depth = simulate
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed + 1)]
        rc, out = self.tlc(module, cfg, workers=1, args=args, **kw)
        tests, rest = [], []
        with open(out) as f:
            for line in f:
                if line.startswith('"T '):
                    tests.append(line)
                else:
                    rest.append(line)
        text = "".join(rest)
        if rc != 0:
            raise CheckError("generator %s (%s) fails, rc=%d:\n%s" % (module, what, rc, text[-6000:]))
        gen, dist = self.stats(text)
        if not simulate:
            self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append(dict(module=module, what=what, states=dist, transitions=gen,
                                       behaviours=len(tests)))
        if limit and len(tests) > limit:
            tests = self.rng.sample(tests, limit)
        res = [json.loads(json.loads(t)[2:]) for t in tests]
        self.log("generate", module, "-", what, "- %d states, %d behaviours, %d used"
                 % (dist, self.cov["models"][-1]["behaviours"], len(res)))
        if not res:
            raise CheckError("generator %s printed nothing:\n%s" % (module, text[-3000:]))
        return res

    # ---------------------------------------------------------------- harness
    def build(self, race=False):
        if race in self.binaries:
            return self.binaries[race]
        out = os.path.join(self.work, "harness-race.test" if race else "harness.test")
        src = os.path.join(VERIF, "harness")
        mod = os.path.join(self.work, "go.mod")
        if not os.path.exists(mod):
            text = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(text)
            open(os.path.join(self.work, "go.sum"), "w").close()
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
        env.setdefault("HOME", "/root")
        cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", out] + (["-race"] if race else []) + ["."]
        if race:
            env["CGO_ENABLED"] = "1"
        p = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("harness does not build:\n" + p.stdout[-4000:])
        self.binaries[race] = out
        self.log("built", os.path.basename(out))
        return out

    def _run(self, driver, scripts, race, watchdog, env):
        """One harness process over scripts; returns (records, failure|None, next index)."""
        inp, outp = self.path("in.ndjson"), self.path("out.ndjson")
        with open(inp, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ, VF_JOB=inp, VF_OUT=outp, VF_DRIVER=driver, VF_WATCHDOG=str(watchdog),
                 VF_SEED=str(self.seed), VF_RACE="1" if race else "0", VF_TIER=self.tier,
                 VF_SCRATCH=self.work, GORACE="exitcode=66 halt_on_error=1", GOTRACEBACK="all")
        e.update(env or {})
        errp = self.path("err.txt")
        with open(errp, "w") as ef:
            p = subprocess.Popen([self.build(race), "-test.run", "^TestJob$", "-test.timeout", "0"],
                                 cwd=self.work, env=e, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef,
                                 start_new_session=True)
            cut = False
            try:
                rc = p.wait(timeout=max(60, self.left()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc, cut = p.wait(), True
        res, cur, done = [None] * len(scripts), None, False
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    r = json.loads(line)
                    if "start" in r:
                        cur = r["start"]
                    elif "done" in r:
                        done = True
                    else:
                        res[r["k"]] = r
                        cur = None
        os.unlink(inp)
        if os.path.exists(outp):
            os.unlink(outp)
        if cut:  # no time for the rest
            self.log("stopped driver %s after %d of %d scripts" % (driver, sum(r is not None for r in res), len(scripts)))
            self.cov["cut_short"] = "not all scripts of driver %s were run" % driver
            return res, None, len(scripts)
        if done and rc == 0:
            os.unlink(errp)
            return res, None, len(scripts)
        with open(errp, errors="replace") as f:
            err = f.read()
        if cur is None:
            raise CheckError("harness ended (rc=%s) outside of any script (driver %s):\n%s" % (rc, driver, err[-4000:]))
        return res, dict(rc=rc, err=err, k=cur), cur + 1

    @staticmethod
    def classify(err, rc):
        """'crash' | 'race' | 'hang' | 'harness'"""
        if "WARNING: DATA RACE" in err:
            part = err[err.index("WARNING: DATA RACE"):]
            part = part[:part.find("==================")]
            # both accesses must be in the code under test
            acc = re.split(r"\n\n", part)[:2]
            tops = []
            for a in acc:
                m = re.search(r"\n  (\S+)\(.*\)\n\s+(\S+):\d+", "\n" + a)
                tops.append(a)
            if "ustack" in part and REPO + "/" in part:
                return "race"
            return "harness"
        if rc == 67 or "VF WATCHDOG" in err:
            return "hang"
        if re.search(r"^(panic:|fatal error:)", err, re.M) or "panic: " in err:
            i = err.find("panic: ")
            if i < 0:
                i = err.find("fatal error:")
            if "deadlock: " in err[i:i + 200]:
                return "hang"
            if "all goroutines are asleep" in err[i:i + 200]:
                return "hang"
            m = re.search(r"\n\ngoroutine .*?:\n(.*?)(\n\n|$)", err[i:], re.S)
            stack = m.group(1) if m else err[i:]
            if "stack overflow" in err[i:i + 300] and REPO + "/" in stack:
                return "crash"
            for fn, loc in re.findall(r"\n?(\S.*)\n\t(\S+:\d+)", stack):
                if loc.startswith("/usr/") or "/go/src/" in loc or fn.startswith(("runtime.", "panic(", "testing.", "internal/")):
                    continue
                if loc.startswith(REPO + "/"):
                    return "crash"
                if fn.startswith("ustack."):
                    return "crash"
                return "harness"
            if REPO + "/" in stack:
                return "crash"
            return "harness"
        last = err.strip().splitlines()[-1:] or [""]
        if rc == 1 and re.match(r"\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ", last[0]):
            return "crash"  # log.Fatal: the harness does not call it
        return "harness"

    def execute(self, driver, scripts, race=False, shard=None, watchdog=30, env=None, procs=CORES, confirm_hang=True):
        """Run scripts, each in isolation as far as the verdict goes. Returns the
        list of records ({k, trace} or {k, fail}) with None where the script
        ended in a crash, race or hang (those are reported as violations)."""
        self.begin()
        self.build(race)
        if shard is None:
            shard = max(1, min(250, -(-len(scripts) // procs)))
        out = [None] * len(scripts)
        crashes = []

        def work(lo):
            part = scripts[lo:lo + shard]
            at = 0
            while at < len(part) and len(crashes) < 6:
                if not self.left():
                    self.cov["cut_short"] = "not all scripts of driver %s were run" % driver
                    return
                res, failure, nxt = self._run(driver, part[at:], race, watchdog, env)
                for j, r in enumerate(res):
                    if r is not None:
                        r["k"] = lo + at + j
                        out[lo + at + j] = r
                if failure:
                    k = lo + at + failure["k"]
                    kind = self.classify(failure["err"], failure["rc"])
                    if kind == "harness":
                        raise CheckError("harness failure in driver %s, script %s\nrc=%s\n%s" % (
                            driver, json.dumps(scripts[k])[:1500], failure["rc"], failure["err"][-6000:]))
                    if kind == "hang" and confirm_hang:
                        res2, f2, _ = self._run(driver, [scripts[k]], race, 2 * watchdog, env)
                        if not f2:
                            self.log("a hang of script %d did not show again" % k)
                            res2[0]["k"] = k
                            out[k] = res2[0]
                            at += nxt
                            continue
                    crashes.append((k, kind, failure["err"]))
                at += nxt

        with ThreadPoolExecutor(procs) as ex:
            for f in [ex.submit(work, lo) for lo in range(0, len(scripts), shard)]:
                f.result()
        for k, kind, err in sorted(crashes)[:5]:
            self.violation(kind, "%s while running script %d of driver %s" % (kind, k, driver),
                           dict(driver=driver, race=race, env=env, script=scripts[k], stderr=err[-20000:]))
        n = sum(r is not None for r in out)
        self.cov["executions"].append(dict(driver=driver, scripts=len(scripts), finished=n, race=race))
        self.log("executed", driver, "%d of %d scripts%s" % (n, len(scripts), " (race detector)" if race else ""))
        if n < len(scripts) and not crashes and ("cut_short" not in self.cov or n == 0):
            raise CheckError("driver %s: %d scripts without result" % (driver, len(scripts) - n))
        return out

    def compare(self, driver, scripts, records, what, race=False, env=None):
        """Records of scripts that carry their expected results: no 'fail'."""
        bad = 0
        for s, r in zip(scripts, records):
            if r is None:
                continue
            self.cov["traces_validated_against_impl"] += 1
            if "fail" in r:
                bad += 1
                if bad <= 3:
                    self.violation("mismatch", "%s: %s" % (what, r["fail"]),
                                   dict(driver=driver, race=race, env=env, script=s, observed=r))
        if records:
            self.sample(what, scripts[len(scripts) // 2])
        self.log("compared", what, "- %d behaviours, %d mismatches" % (len(records), bad))
        return bad

    def sample(self, what, obj):
        t = json.dumps(obj)
        self.cov["samples"].append(dict(what=what, case=t if len(t) < 1500 else t[:1500] + "..."))

    def validate(self, module, traces, what, cfg=None, shards=CORES, origin=None, constants=""):
        """TLC decides which traces are behaviours of module. origin: per trace
        (driver, script) for the replay file."""
        if not traces:
            raise CheckError("nothing to validate for " + what)
        cfg = cfg or "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION AllAccepted\n" + constants
        shards = max(1, min(shards, len(traces)))
        size = [0] * shards
        parts = [[] for _ in range(shards)]
        # largest first, into the emptiest shard
        lens = [len(json.dumps(t)) for t in traces]
        for i in sorted(range(len(traces)), key=lambda i: -lens[i]):
            s = size.index(min(size))
            parts[s].append(i)
            size[s] += lens[i] + 200

        def one(idx):
            f = self.path("traces.ndjson")
            with open(f, "w") as fh:
                for i in idx:
                    fh.write(json.dumps(traces[i]) + "\n")
            try:
                rc, out = self.tlc(module, cfg, workers=1, env=dict(TRACES=f), xmx="3g",
                                   timeout=300 if self.tier == "quick" else 850)
            except Undecided as u:
                undecided.append(str(u))
                return (0, 0), []
            text = open(out).read()
            os.unlink(f)
            rej = [(idx[int(a) - 1], int(b)) for a, b in re.findall(r'"REJECT (\d+) (\d+)"', text)]
            if rc == 75:
                # the trace holds something the specification knows no meaning for: find it
                if len(idx) == 1:
                    return self.stats(text), [(idx[0], 0)]
                a, b = one(idx[:len(idx) // 2]), one(idx[len(idx) // 2:])
                return (a[0][0] + b[0][0], a[0][1] + b[0][1]), a[1] + b[1]
            if '"VALIDATED %d"' % len(idx) not in text or (rc != 0):
                raise CheckError("trace validation %s (%s) fails, rc=%d:\n%s" % (module, what, rc, text[-5000:]))
            return self.stats(text), rej

        rej, gen, dist = [], 0, 0
        undecided = []
        with ThreadPoolExecutor(shards) as ex:
            for (g, d), r in ex.map(one, parts):
                gen += g
                dist += d
                rej += r
        if undecided and not rej and not self.violations:
            raise CheckError("%s: %s" % (what, undecided[0]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["models"].append(dict(module=module, what=what, traces=len(traces), states=dist, transitions=gen,
                                       rejected=len(rej)))
        self.sample(what, traces[len(traces) // 2])
        self.log("validated", module, "-", what, "- %d traces, %d states, %d rejected" % (len(traces), dist, len(rej)))
        for i, at in sorted(rej)[:3]:
            ev = traces[i].get("ev", [])
            bad = ev[at - 1] if 0 < at <= len(ev) else None
            self.violation("rejected", "%s: no behaviour of %s explains step %d: %s"
                           % (what, module, at, json.dumps(bad)[:600]),
                           dict(module=module, constants=constants, step=at, event=bad, trace=traces[i],
                                **(dict(zip(("driver", "script"), origin[i])) if origin else {})))
        return rej

    # ---------------------------------------------------------------- verdict
    def violation(self, kind, text, obj):
        os.makedirs(self.replays, exist_ok=True)
        f = os.path.join(self.replays, "%s-%s-%d-%d.json" % (self.tier, kind, self.seed, len(self.violations)))
        with open(f, "w") as fh:
            json.dump(dict(property=self.prop, kind=kind, what=text, **obj), fh, indent=1)
        self.violations.append((text, f))
        self.log("violation:", text[:1500])
        if obj.get("stderr"):
            self.log("  " + "\n  ".join(obj["stderr"][:2500].splitlines()[:40]))

    def finish(self):
        self.cov["samples"] = self.cov["samples"][:12]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        try:
            os.rmdir(os.path.join(VERIF, "work"))
        except OSError:
            pass
        for text, f in self.violations[:1]:
            print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
        if not self.violations:
            self.log("held on everything explored")
        return 1 if self.violations else 0
