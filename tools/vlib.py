"""Common machinery of the checks: building harnesses from /repo's sources, running TLC,
validating traces, reporting violations and writing evidence."""
import json, os, re, shutil, subprocess, sys, time, random, concurrent.futures, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
CM_JAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
LIBOPK = ["algebra", "utils", "lcg", "gqtpar", "lnsrch", "linalg", "nlcg", "fmin",
          "vmlmb", "fltvector", "dblvector", "driver"]
DFO = ["cobyla", "newuoa", "bobyqa"]


class CheckError(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking", argv=None):
        argv = sys.argv if argv is None else argv
        self.pid = pid
        self.level = level
        self.tier = "thorough" if "thorough" in argv[1:] else "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays", pid)
        self.violations = []
        self.known_hits = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.notes = {}
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for k in json.load(open(kf)).get("findings", []):
                if k["property"] == pid:
                    self.known[k["key"]] = k["what"]
        self._java_ready = False

    # ------------------------------------------------------------------ build
    def build(self, name, harness, libs=LIBOPK, flags=(), wrap=True, opt="-O2", sanitize=False, extra=(), link=()):
        """Compile harness/<harness>.c with the sources of /repo into an executable."""
        odir = os.path.join(self.work, "obj-" + name)
        os.makedirs(odir, exist_ok=True)
        common = ["gcc", opt, "-g", "-w", "-I" + os.path.join(REPO, "src"),
                  "-I" + os.path.join(VERIF, "harness")] + list(flags)
        if sanitize:
            common += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        jobs = []
        for s in libs:
            jobs.append((os.path.join(REPO, "src", s + ".c"), os.path.join(odir, s + ".o")))
        jobs.append((os.path.join(VERIF, "harness", harness + ".c"), os.path.join(odir, "h_" + harness + ".o")))
        for e in extra:
            jobs.append((os.path.join(VERIF, "harness", e + ".c"), os.path.join(odir, "x_" + e + ".o")))

        def comp(j):
            return subprocess.run(common + ["-c", j[0], "-o", j[1]], capture_output=True, text=True,
                                  cwd=os.path.join(REPO, "src"))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for j, r in zip(jobs, ex.map(comp, jobs)):
                if r.returncode != 0:
                    raise CheckError("compilation of %s failed:\n%s" % (j[0], r.stderr[-3000:]))
        exe = os.path.join(self.work, name)
        ld = list(link)
        link = ["gcc", "-g", "-o", exe] + [j[1] for j in jobs] + ld
        if sanitize:
            link += ["-fsanitize=address"]
        if wrap:
            link += ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
        link += ["-lm", "-lpthread"]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("link of %s failed:\n%s" % (name, r.stderr[-3000:]))
        return exe

    def run(self, exe, args=(), stdin=None, timeout=300, env=None):
        """Run a harness; returns (returncode or 'timeout', stdout, stderr)."""
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            r = subprocess.run([exe] + [str(a) for a in args], input=stdin, capture_output=True,
                               text=True, timeout=timeout, env=e, cwd=self.work, errors="replace")
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as ex:
            so = ex.stdout or b""
            if isinstance(so, bytes):
                so = so.decode(errors="replace")
            return "timeout", so, ""

    # ------------------------------------------------------------------ TLC
    def _java(self):
        if self._java_ready:
            return
        self.classes = os.path.join(self.work, "classes")
        self.specdir = os.path.join(self.work, "spec")
        os.makedirs(self.classes)
        shutil.copytree(os.path.join(VERIF, "spec"), self.specdir)
        r = subprocess.run(["javac", "-cp", TLA_JAR, "-d", self.classes,
                            os.path.join(VERIF, "spec", "F64.java")], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("javac failed: " + r.stderr)
        self._java_ready = True

    _run_no = 0

    def tlc(self, module, cfg, workers=4, extra=(), env=None, timeout=800, heap="3g", stdout_to=None):
        """Run TLC on spec/<module>.tla with the given cfg text. Returns a result dict."""
        self._java()
        Check._run_no += 1
        n = Check._run_no
        cfgf = os.path.join(self.specdir, "%s_%d.cfg" % (module, n))
        with open(cfgf, "w") as f:
            f.write(cfg)
        meta = os.path.join(self.work, "meta%d" % n)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp",
               ":".join([self.classes, TLA_JAR, CM_JAR]), "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-lncheck", "final", "-config", cfgf] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        if env:
            e.update(env)
        outf = stdout_to or os.path.join(self.work, "tlc%d.out" % n)
        t = time.time()
        try:
            with open(outf, "w") as f:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=self.specdir, env=e,
                                   timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        out = open(outf, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        self.log("tlc %s %.1fs" % (module, time.time() - t))
        res = dict(rc=rc, out=out, wall=time.time() - t, states=0, generated=0)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res["generated"], res["states"] = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                res["generated"] = res["states"] = int(m[-1])
        return res

    def log(self, msg):
        if os.environ.get("VERIF_VERBOSE"):
            print("[%6.1f] %s" % (time.time() - self.t0, msg), file=sys.stderr)

    def model_check(self, module, cfg, what=None, count=True, **kw):
        """TLC must finish without error; an invariant violation of a *model* (no code involved)
        is an error of the check, not a violation of the property by the code."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0:
            tail = "\n".join(l for l in r["out"].splitlines() if not l.startswith('"')and not l.startswith("Loading"))[-1200:]
            m = re.search(r"^Error: .*$", r["out"], re.M)
            raise CheckError("TLC failed on %s (rc=%s): %s\n%s" % (module, r["rc"], m.group(0)[:200] if m else "", tail))
        if count:
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["generated"]
        return r

    @staticmethod
    def printed(out):
        """JSON objects printed by PrintT(ToJson(...))."""
        res = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                s = line.rstrip()
                try:
                    res.append(json.loads(json.loads(s)))
                except ValueError:
                    res.append(json.loads(s[1:-1].replace('\\"', '"').replace("\\\\", "\\")))
        return res

    # ------------------------------------------------------------------ traces
    def validate(self, module, traces, consts="", shards=6, invariants=(), heap="2g", timeout=800,
                 max_reports=3, key=None, describe=None, label="trace"):
        """Validate recorded traces (lists of event dicts) against spec/<module>.tla.
        Every trace is preceded by a 'reset' event. Reports a violation for each rejected trace."""
        if not traces:
            raise CheckError("no trace to validate with " + module)
        traces = [list(t) for t in traces]
        idx = list(range(len(traces)))
        # balance the shards by number of events
        shards = max(1, min(shards, len(traces)))
        bins = [[] for _ in range(shards)]
        load = [0] * shards
        for i in sorted(idx, key=lambda i: -len(traces[i])):
            b = load.index(min(load))
            bins[b].append(i)
            load[b] += len(traces[i]) + 1

        def attempt(ids, tag):
            path = os.path.join(self.work, "%s-%s.ndjson" % (module, tag))
            starts = []
            n = 0
            with open(path, "w") as f:
                for i in ids:
                    starts.append(n)
                    f.write(json.dumps({"ev": "reset", "trace": i}) + "\n")
                    n += 1
                    for e in traces[i]:
                        f.write(json.dumps(e) + "\n")
                        n += 1
            cfg = "SPECIFICATION TraceSpec\nCONSTRAINT TraceTrack\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\n" + consts
            for inv in invariants:
                cfg += "INVARIANT %s\n" % inv
            r = self.tlc(module, cfg, workers=1, env={"TRACE": path}, heap=heap, timeout=timeout)
            m = re.findall(r'<<"MAXL", (\d+), (\d+)>>', r["out"])
            viol = re.search(r"Error: Invariant (\w+) is violated", r["out"])
            if viol:
                # the violating state is the last one printed; the number of its steps gives l
                k = re.findall(r"^State (\d+):", r["out"], re.M)
                maxl = int(k[-1]) - 1 if k else 1
                return r, starts, n, maxl, viol.group(1)
            if not m:
                tail = "\n".join(l for l in r["out"].splitlines() if not l.startswith("Loading"))[-1200:]
                k = r["out"].find("Error:")
                raise CheckError("TLC failed on %s (rc=%s):\n%s\n...%s" % (module, r["rc"], r["out"][k:k + 600] if k >= 0 else "", tail))
            maxl, length = int(m[-1][0]), int(m[-1][1])
            if length != n:
                raise CheckError("trace length mismatch %d %d" % (length, n))
            return r, starts, n, maxl, None

        found = []

        def shard(b):
            ids = list(bins[b])
            bad = []
            st = 0
            tr = 0
            ok = 0
            while ids:
                r, starts, n, maxl, inv = attempt(ids, "%d" % b)
                st += r["states"]
                tr += r["generated"]
                if maxl > n:
                    ok += len(ids)
                    break
                # event number maxl (1-based) was not accepted
                pos = max(k for k in range(len(ids)) if starts[k] < maxl)
                i = ids[pos]
                # confirm on its own
                r2, s2, n2, maxl2, inv2 = attempt([i], "%d-confirm" % b)
                if maxl2 > n2:
                    raise CheckError("rejection of trace %d by %s did not repeat" % (i, module))
                last = self._last_state(r2, module, consts, invariants, maxl2)
                bad.append((i, maxl2 - 1, inv2, last))
                found.append(i)
                ok += pos
                ids = ids[pos + 1:]
                if len(found) >= max_reports:
                    break
            return ok, bad, st, tr

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(shard, range(shards)))
        accepted = 0
        rejected = []
        for ok, bad, st, tr in results:
            accepted += ok
            rejected += bad
            self.cov["states"] += st
            self.cov["transitions"] += tr
        self.cov["traces_validated_against_impl"] += accepted
        for i, evno, inv, last in rejected[:max_reports]:
            ev = traces[i][evno - 1] if 0 < evno <= len(traces[i]) else None
            what = "%s %d rejected by %s at event %d: %s%s" % (
                label, i, module, evno, json.dumps(ev)[:600], (" (invariant %s)" % inv) if inv else "")
            if describe:
                what += " | " + describe(i)
            self.violation(what, dict(module=module, trace=traces[i], rejected_event=evno, spec_state=last),
                           key=key(i, traces[i], evno) if key else None)
        return accepted, rejected

    def _last_state(self, r, module, consts, invariants, maxl):
        return ""

    # ------------------------------------------------------------------ reporting
    def violation(self, what, data, key=None):
        """Record a violation; `key` identifies it in known_findings.json."""
        if key is not None and key in self.known:
            self.known_hits.setdefault(key, what)
            return
        os.makedirs(self.replays, exist_ok=True)
        h = hashlib.sha1((what + repr(self.seed)).encode()).hexdigest()[:10]
        path = os.path.join(self.replays, "%s-%s.json" % (self.tier, h))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, seed=self.seed, tier=self.tier, data=data), f, indent=1)
        self.violations.append((what, path))

    def sample(self, x):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(x)

    def finish(self):
        cov = dict(self.cov)
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(self.work, ignore_errors=True)
        for k, w in self.known_hits.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        for what, path in self.violations[:10]:
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if self.violations:
            return 1
        print("OK property=%s tier=%s %s wall=%.1fs" % (
            self.pid, self.tier,
            " ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, (int, float))),
            time.time() - self.t0))
        return 0


def main(pid, body, level="model_checking"):
    c = Check(pid, level)
    try:
        try:
            body(c)
        except (KeyError, ValueError, IndexError, TypeError) as e:
            import traceback
            raise CheckError("internal error: " + traceback.format_exc())
        rc = c.finish()
    except CheckError as e:
        if c.violations:
            # a violation was already established before the failure
            rc = c.finish()
        else:
            print("ERROR property=%s %s" % (pid, e), file=sys.stderr)
            rc = 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


def parse_ndjson(text):
    lines = [l for l in text.splitlines() if l.startswith("{")]
    res = []
    for k, l in enumerate(lines):
        try:
            res.append(json.loads(l))
        except ValueError:
            if k + 1 < len(lines):
                raise CheckError("bad line in the log of a harness: " + l[:300])
    return res  # (a line truncated by a crash is dropped)


def split_traces(events):
    """Split at 'reset' events (dropping them)."""
    out = []
    for e in events:
        if e.get("ev") == "reset":
            out.append([])
        elif out:
            out[-1].append(e)
    return out
