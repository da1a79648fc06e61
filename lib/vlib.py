"""Shared machinery of the checks: building the drivers from /repo's working tree,
running them, letting TLC judge what they recorded, writing evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, random, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = min(8, os.cpu_count() or 1)
SPEC = os.path.join(VERIF, "spec")


class HarnessError(Exception):
    """The check could not decide: neither pass nor violation."""


class TLCResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.prints = []
        self.violation = None
        self.out = ""


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.n = 0
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []   # (message, replay dict)
        self.known = []
        self.procs = []
        self.lock = threading.Lock()

    thorough = property(lambda s: s.tier == "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.tmp, "%d-%s" % (self.n, name))

    # ------------------------------------------------------------ building
    def goenv(self):
        env = dict(os.environ)
        env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on",
                   GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
        env.pop("GOMAXPROCS", None)
        if not env.get("HOME"):
            env["HOME"] = self.tmp
        if not env.get("GOCACHE") and not os.access(os.path.expanduser("~"), os.W_OK):
            env["GOCACHE"] = os.path.join(self.tmp, "gocache")
        return env

    def go(self, args, cwd):
        p = subprocess.run(["go"] + args, cwd=cwd, env=self.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout

    def build(self, pkg, instr=("." , "ring", "message:!messages"), race=False, files=None):
        """Compile driver package `pkg' against REPO's working tree; `files' are generated
        sources placed into the copy of the harness."""
        src = os.path.join(self.tmp, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            gm = os.path.join(src, "go.mod")
            text = open(gm).read().replace("=> /repo", "=> " + REPO)
            open(gm, "w").write(text)
        for name, text in (files or {}).items():
            open(os.path.join(src, name), "w").write(text)
        tool = os.path.join(self.tmp, "instr")
        if not os.path.exists(tool):
            d = os.path.join(self.tmp, "instrsrc")
            shutil.copytree(os.path.join(VERIF, "instr"), d)
            rc, out = self.go(["build", "-o", tool, "."], d)
            if rc:
                raise HarnessError("cannot build instr:\n" + out)
        for flags, attempt in ((["-locks"], instr), ([], instr), ([], ())):
            ov = self.path("overlay")
            p = subprocess.run([tool] + flags + [REPO, ov] + list(attempt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                self.log("instrumentation failed, continuing without preemption points:", p.stdout[-500:])
                continue
            out = self.path(pkg.replace("/", "_"))
            args = ["test", "-vet=off", "-c", "-tags", "verif", "-overlay", os.path.join(ov, "overlay.json"), "-o", out]
            if race:
                args.append("-race")
            rc, log = self.go(args + ["./" + pkg], src)
            if rc == 0:
                if attempt != instr:
                    self.assumptions.append("built without preemption points (instrumented source did not compile)")
                return out
        raise HarnessError("cannot build driver %s:\n%s" % (pkg, log))

    # ------------------------------------------------------------ drivers
    def run_driver(self, binary, test, scenarios, procs=None, gomaxprocs=1, hang=30, env=None, mem=None, confirm=True, async_off=True):
        """Run scenarios (list of dicts), sharded; returns a list parallel to scenarios of
        result dicts, {"crash": text} or {"hang": true}."""
        procs = min(procs or NPROC, max(1, len(scenarios)))
        shards = [list(range(i, len(scenarios), procs)) for i in range(procs)]
        results = [{"skipped": True}] * len(scenarios)
        errs = []
        self.bad_outcomes = 0

        def shard(ix):
            try:
                for i, r in zip(ix, self._shard(binary, test, [scenarios[i] for i in ix], gomaxprocs, hang, env, mem, confirm, async_off)):
                    results[i] = r
            except BaseException as e:  # reported below
                errs.append(e)
        ts = [threading.Thread(target=shard, args=(ix,), daemon=True) for ix in shards]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        return results

    def _proc(self, binary, test, fin, fout, start, gomaxprocs, hang, env, mem, async_off):
        e = dict(os.environ)
        e.update(VERIF_IN=fin, VERIF_OUT=fout, VERIF_START=str(start), VERIF_TMP=self.tmp, GOTRACEBACK="all", TMPDIR=self.tmp)
        if gomaxprocs:
            e["GOMAXPROCS"] = str(gomaxprocs)
        if async_off:
            e["GODEBUG"] = "asyncpreemptoff=1"
        e.update(env or {})
        cmd = [binary, "-test.run", "^%s$" % test, "-test.timeout", "0"]
        if mem:
            cmd = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % mem, "x"] + cmd
        err = self.path("stderr")
        with open(err, "w") as ef:
            p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=ef, cwd=self.tmp)
        with self.lock:
            self.procs.append(p)
        last, seen, wait = time.time(), -1, 0.005
        hung = False
        while p.poll() is None:
            time.sleep(wait)
            wait = min(0.1, wait * 1.5)
            sz = os.path.getsize(fout) if os.path.exists(fout) else 0
            if sz != seen:
                seen, last = sz, time.time()
            elif time.time() - last > hang or (self.bad_outcomes >= 3 and time.time() - last > 3):
                hung = True
                p.send_signal(signal.SIGQUIT)
                time.sleep(0.5)
                p.kill()
                p.wait()
        with self.lock:
            self.procs.remove(p)
        text = open(err, errors="replace").read()
        return p.returncode, hung, text

    def _shard(self, binary, test, scen, gomaxprocs, hang, env, mem, confirm, async_off):
        fin, fout = self.path("in"), self.path("out")
        with open(fin, "w") as f:
            for s in scen:
                f.write(json.dumps(s) + "\n")
        out = []
        while len(out) < len(scen):
            if self.bad_outcomes >= 3:
                break  # enough evidence; leave the rest
            open(fout, "w").close()
            rc, hung, err = self._proc(binary, test, fin, fout, len(out), gomaxprocs, hang, env, mem, async_off)
            got = [json.loads(l) for l in open(fout) if l.endswith("\n")]
            out += got
            if len(out) >= len(scen):
                break
            if rc == 3:
                if not got:
                    raise HarnessError("driver stopped without output: " + err[-2000:])
                continue
            if rc == 0:
                raise HarnessError("driver %s ended early: %s" % (test, err[-2000:]))
            # the scenario after the last result crashed or hung
            if self.bad_outcomes >= 3 and hung:
                break
            bad = {"hang": True, "stderr": err[:6000]} if hung else {"crash": err[:6000], "rc": rc}
            if not hung and not self.library_crash(err):
                raise HarnessError("driver %s failed (rc=%s): %s" % (test, rc, err[:4000]))
            if confirm:
                one = self.path("one")
                with open(one, "w") as f:
                    f.write(json.dumps(scen[len(out)]) + "\n")
                for _ in range(2):
                    o1 = self.path("out")
                    open(o1, "w").close()
                    rc1, hung1, err1 = self._proc(binary, test, one, o1, 0, gomaxprocs, hang, env, mem, async_off)
                    if rc1 == 0 or (hung1 and not hung):
                        if hung and confirm == "ignore-hang":
                            bad = {"skipped": True}
                            break
                        if hung:
                            raise HarnessError("driver %s hung once, not reproducible" % test)
                        # a crash is a crash: keep it, but say that it is schedule dependent
                        bad["flaky"] = True
            out.append(bad)
            with self.lock:
                self.bad_outcomes += 3 if hung else 1
        return out

    @staticmethod
    def library_crash(err):
        """Is this crash report about library code (not about the driver or the machine)?"""
        if "HARNESS-ERROR" in err:
            return False
        m = re.search(r"^(panic:|fatal error:|SIGSEGV|unexpected fault|runtime: out of memory|WARNING: DATA RACE)", err, re.M)
        if not m:
            return False
        tail = err[m.start():]
        # the goroutine that failed comes first
        first = tail.split("\n\n", 2)
        head = "\n\n".join(first[:2])
        return "github.com/savaki/kafka" in head or ("fatal error: all goroutines" in head)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, heap="3g", args=(), simulate=None, count=True):
        """Run TLC on spec/<module>.tla with configuration text `cfg'."""
        d = self.path("tlc")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        c = os.path.join(d, "MC.cfg")
        open(c, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        jar = "/opt/veriftools/tla"
        cp = ":".join(os.path.join(jar, j) for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-config", c] + list(args)
        if workers == 1:
            cmd[1:1] = ["-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += [os.path.join(d, module + ".tla")]
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        with self.lock:
            self.procs.append(p)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            raise HarnessError("TLC timed out on %s: %s" % (module, out[-1500:]))
        finally:
            with self.lock:
                if p in self.procs:
                    self.procs.remove(p)
        shutil.rmtree(d, ignore_errors=True)
        r = TLCResult()
        tags = ("GEN ", "BAD ", "REJECT ", "KNOWN ", "OUT ")
        rest = []
        for line in out.split("\n"):
            bare = line[1:-1] if line.startswith('"') and line.endswith('"') else line
            if bare.startswith(tags):
                r.prints.append(bare)
            else:
                rest.append(line)
        r.out = out = "\n".join(rest)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.search(r"Progress: ([\d,]+) states checked", out)
        m2 = re.findall(r"([\d,]+) states checked", out)
        if simulate and m2:
            r.states = r.distinct = int(m2[-1].replace(",", ""))
        m = re.search(r"Error: (Invariant|Action property|Temporal prop\w*) ?(\w*)", out)
        if m:
            r.violation = m.group(0)
        elif "Error:" in out or p.returncode not in (0,):
            if not (simulate and p.returncode == 0):
                raise HarnessError("TLC failed on %s (rc=%s):\n%s" % (module, p.returncode, "\n".join(l for l in out.split("\n") if not l.startswith(("Parsing", "Semantic", "Linting")))[-3500:]))
        if count:
            with self.lock:
                self.states += r.distinct
                self.transitions += r.states
        return r

    def model(self, module, cfg, expect_ok=True, **kw):
        """Model check a design; a failure here is an error of the check, never a verdict on the code."""
        kw.setdefault("workers", NPROC)
        r = self.tlc(module, cfg, **kw)
        if expect_ok and r.violation:
            raise HarnessError("the specification %s violates its own property: %s\n%s" % (module, r.violation, r.out[-3000:]))
        if not expect_ok and not r.violation:
            raise HarnessError("the defective variant of %s was not rejected: the property is vacuous" % module)
        return r

    def apalache(self, module, args, expect_ok=True, timeout=300):
        """Check spec/<module>.tla symbolically; returns False if the tool gives no answer here."""
        d = self.path("apalache")
        os.makedirs(d)
        shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        e = dict(os.environ, TMPDIR=d, JVM_ARGS="-Xmx3g -Duser.home=" + d)
        p = subprocess.Popen(["apalache-mc", "check", "--out-dir=" + os.path.join(d, "out")] + list(args) + [module + ".tla"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        with self.lock:
            self.procs.append(p)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        finally:
            with self.lock:
                if p in self.procs:
                    self.procs.remove(p)
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r"The outcome is: (\w+)", out)
        if not m or m[1] not in ("NoError", "Error"):
            self.assumptions.append("Apalache gave no answer on %s %s" % (module, " ".join(args)))
            self.log("note: Apalache gave no answer on %s: %s" % (module, out[-300:]))
            return False
        if (m[1] == "NoError") != expect_ok:
            raise HarnessError("Apalache on %s %s: %s" % (module, " ".join(args), m[1]))
        return True

    def parallel(self, jobs):
        """Run thunks in NPROC threads, return results in order."""
        res, errs, it, lk = [None] * len(jobs), [], iter(range(len(jobs))), threading.Lock()

        def work():
            while True:
                with lk:
                    i = next(it, None)
                if i is None or errs:
                    return
                try:
                    res[i] = jobs[i]()
                except BaseException as e:
                    errs.append(e)
        ts = [threading.Thread(target=work, daemon=True) for _ in range(min(NPROC, len(jobs)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        return res

    def judge(self, module, items, cfg=None, chunks=None, env=None, deterministic=None, size=None, timeout=800):
        """Let TLC judge recorded items (dicts).  Returns the list of (index, rest) TLC rejected.
        `deterministic': function giving the exact number of distinct states of an accepted item."""
        if not items:
            return []
        cfg = cfg or "SPECIFICATION TraceSpec\nINVARIANTS Accepted Inv\nCHECK_DEADLOCK FALSE\n"
        weight = size or (lambda x: 1)
        k = chunks or NPROC
        k = max(1, min(k, len(items)))
        # balance the chunks by weight
        order = sorted(range(len(items)), key=lambda i: -weight(items[i]))
        load, parts = [0] * k, [[] for _ in range(k)]
        for i in order:
            j = load.index(min(load))
            load[j] += weight(items[i]) + 1
            parts[j].append(i)
        parts = [sorted(p) for p in parts if p]

        def job(ix):
            def run():
                f = self.path("trace.ndjson")
                with open(f, "w") as fh:
                    for i in ix:
                        fh.write(json.dumps(items[i]) + "\n")
                e = {"TRACE_FILE": f}
                e.update(env or {})
                r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout)
                os.unlink(f)
                if r.violation:
                    raise HarnessError("unexpected TLC violation in %s: %s" % (module, r.out[-2500:]))
                out = []
                for pr in r.prints:
                    w = pr.split(" ", 2)
                    if w[0] in ("BAD", "REJECT", "KNOWN"):
                        out.append((w[0], ix[int(w[1]) - 1], w[2] if len(w) > 2 else ""))
                if not out and deterministic:
                    want = sum(deterministic(items[i]) for i in ix)
                    if r.distinct != want:
                        raise HarnessError("%s visited %d states, expected %d: traces were not fully judged" % (module, r.distinct, want))
                return out
            return run
        res = []
        for part in self.parallel([job(p) for p in parts]):
            res += part
        with self.lock:
            self.traces += len(items)
        return sorted(set(res), key=lambda x: (x[1], x[0], x[2]))

    def judge_own(self, module, items, **kw):
        """judge() for traces that name the properties they break: a trace that (first) breaks
        another property is judged again with such steps let pass.  Returns (breaking, others)."""
        own, others = [], []
        for kind, i, rest in self.judge(module, items, env={"LENIENT": ""}, **kw):
            (own if self.pid in rest.split(" ")[1].split("+") else others).append((kind, i, rest))
        if others:
            ix = [i for _, i, _ in others][:400]
            kw.pop("deterministic", None)
            again = self.judge(module, [items[i] for i in ix], env={"LENIENT": self.pid}, **kw)
            self.traces -= len(ix)
            own += [(k, ix[j], r) for k, j, r in again if self.pid in r.split(" ")[1].split("+")]
        return own, others

    # ------------------------------------------------------------ outcome
    def violation(self, what, replay):
        self.violations.append((what, replay))

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000] + "...")

    def finish(self, level="model_checking"):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.known:
            doc["coverage"]["known_findings"] = self.known
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if not self.violations:
            self.log("held: %d states, %d traces validated" % (self.states, self.traces))
            return 0
        for i, (what, replay) in enumerate(self.violations[:5]):
            p = os.path.join(ev, "%s-replay-%d.json" % (self.pid, i))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
            print("violation: %s" % what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1

    def cleanup(self):
        for p in list(self.procs):
            try:
                p.kill()
            except OSError:
                pass
        shutil.rmtree(self.tmp, ignore_errors=True)


def main(table):
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not args or args[0] not in table:
        print("usage: check ID   (VERIF_SEED, VERIF_TIER)\nids: " + " ".join(sorted(table)))
        return 2
    c = Check(args[0])
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        table[args[0]](c)
        return c.finish()
    except HarnessError as e:
        c.log("ERROR", e)
        return c.finish() if c.violations else 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.tmp)
        else:
            c.cleanup()
