"""Machinery shared by the checks: building the drivers from /repo's working tree, running TLC on the
specification, turning TLC's behaviours into scripts, driving the real code, validating the recorded
traces against the specification, evidence and verdicts."""
import atexit, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NLA3D_REPO", "/repo")
EVID = os.environ.get("NLA3D_EVIDENCE", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8
EL_CC = "/usr/include/easylogging++.cc"


class CheckError(Exception):
    """The check itself failed: neither 'held' nor 'violated'."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


class Check:
    def __init__(self, prop, tier, seed, level, assumptions):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.assumptions = assumptions
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="nla3dv_%s_" % prop)
        if not os.environ.get("NLA3D_KEEP"):
            atexit.register(shutil.rmtree, self.work, True)
        self.rng = random.Random(seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events_validated": 0, "events_by_kind": {}, "models": []}
        self.violations = []
        self.hung = False
        self.known_hits = []
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.known = [k for k in json.load(f)["known"] if k["property"] == prop]

    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, driver, mkl=False, asan=False, opt="-O1"):
        d = os.path.join(self.work, "build_" + os.path.basename(driver) + ("_mkl" if mkl else "") + ("_asan" if asan else ""))
        os.makedirs(d, exist_ok=True)
        lib = os.path.join(REPO, "src/lib")
        srcs = sorted(glob.glob(lib + "/*.cpp") + glob.glob(lib + "/elements/*.cpp") +
                      glob.glob(lib + "/materials/*.cpp") + glob.glob(lib + "/math/*.cpp"))
        flags = ["-std=gnu++11", opt, "-g1", "-w", "-DELPP_FEATURE_PERFORMANCE_TRACKING",
                 "-I" + os.path.join(REPO, "src"), "-I" + lib, "-I/usr/include/eigen3", "-I" + HARN]
        link = ["-lpthread"]
        if mkl:
            flags += ["-DNLA3D_USE_MKL", "-I/usr/include/mkl"]
            link += ["-L/usr/lib/x86_64-linux-gnu", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core", "-lpthread", "-lm", "-ldl"]
        if asan:
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
            link += ["-fsanitize=address"]

        # the library objects are shared by the drivers of one check
        ld = os.path.join(self.work, "lib" + ("_mkl" if mkl else "") + ("_asan" if asan else "") + opt)
        fresh = not os.path.isdir(ld)
        os.makedirs(ld, exist_ok=True)
        jobs = [(os.path.join(HARN, driver), os.path.join(d, "drv.o"), True)]
        jobs += [(s, os.path.join(ld, "%03d.o" % i), fresh) for i, s in enumerate(srcs + [EL_CC])]

        def one(job):
            s, o, todo = job
            r = sh(["g++"] + flags + (["-O0"] if s.startswith(HARN) else []) + ["-c", s, "-o", o]) if todo else subprocess.CompletedProcess([], 0, "", "")
            return s, o, r
        # the driver and the largest sources first
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, sorted(jobs, key=lambda j: (j[0] != jobs[0][0], j[0] != EL_CC, -os.path.getsize(j[0])))))
        bad = [(s, r) for s, o, r in res if r.returncode]
        if bad:
            raise CheckError("compiling %s failed:\n%s" % (bad[0][0], bad[0][1].stdout[-3000:]))
        exe = os.path.join(d, "driver")
        r = sh(["g++"] + [o for _, o, _ in res] + ["-o", exe] + link)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stdout[-3000:])
        self.log("built", driver, "from", REPO)
        return exe

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, xmx="3g", extra=(), timeout=800, tag="m"):
        d = tempfile.mkdtemp(prefix="tlc_" + tag + "_", dir=self.work)
        for f in glob.glob(SPEC + "/*.tla"):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        shutil.copy(os.path.join(SPEC, cfg), os.path.join(d, "run.cfg"))
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + xmx, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", "run.cfg", "-noGenerateSpecTE",
               *extra, module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        try:
            r = sh(cmd, cwd=d, env=e, timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        shutil.rmtree(d, True)
        return rc, out

    def model(self, module, cfg, scripts=False, simulate=None, workers=NCPU, must_hold=True, env=None, timeout=800):
        """Model-check the design specification.  Returns the scripts TLC emitted (history variable printed
        once per generated transition, or once per simulated behaviour)."""
        extra = ["-deadlock"]
        if simulate:
            extra += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
            workers = 1
        rc, out = self.tlc(module, cfg, workers=workers, xmx="8g", extra=extra, env=env, timeout=timeout)
        bad = rc != 0 or "Error:" in out
        if bad:
            raise CheckError("model %s/%s does not hold (specification failure):\n%s" % (module, cfg, out[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen = dist = 0
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"(\d+) states checked", out) or re.search(r"The number of states generated: (\d+)", out)
            gen = int(m.group(1)) if m else 0
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"module": module, "cfg": cfg, "generated": gen, "distinct": dist,
                                   "mode": "simulate" if simulate else "exhaustive"})
        self.log("TLC %s/%s: %d generated, %d distinct" % (module, cfg, gen, dist))
        res = []
        if scripts:
            for line in out.splitlines():
                if line.startswith('<<"SCRIPT", "'):
                    txt = line[len('<<"SCRIPT", "'):-3]
                    res.append(json.loads(txt.encode().decode("unicode_escape")))
            seen, uniq = set(), []
            for s in res:
                k = json.dumps(s)
                if k not in seen:
                    seen.add(k); uniq.append(s)
            res = uniq
            if not res:
                raise CheckError("no scripts emitted by %s/%s" % (module, cfg))
        return res

    # ---------------------------------------------------------------- driving the code
    @staticmethod
    def to_lines(hist):
        """TLC history (sequence of sequences) -> script lines"""
        out = []
        for op in hist:
            out.append(op if isinstance(op, str) else " ".join(str(x) for x in op))
        return out

    def drive(self, exe, scripts, shards=NCPU, limit=60, env=None, timeout=850, again=False):
        """scripts: list of (id, [lines]).  Returns list of shards, each a list of (script, [events])."""
        if self.hung and self.violations and not again:
            self.log("not driven further: the code hangs, and a violation is confirmed")
            return []
        shards = max(1, min(shards, len(scripts)))
        parts = [scripts[i::shards] for i in range(shards)]

        def run(i):
            d = tempfile.mkdtemp(prefix="drv_", dir=self.work)
            sf, of = os.path.join(d, "scripts.txt"), os.path.join(d, "trace.ndjson")
            with open(sf, "w") as f:
                for sid, lines in parts[i]:
                    f.write("S %s\n" % sid)
                    for l in lines:
                        f.write(l + "\n")
            e = dict(os.environ); e.update(env or {})
            e.setdefault("ASAN_OPTIONS", "detect_leaks=0:exitcode=97:abort_on_error=0")
            e["OMP_NUM_THREADS"] = "1"; e["MKL_NUM_THREADS"] = "1"
            r = sh([exe, sf, of, str(limit)], cwd=d, env=e, timeout=timeout)
            if r.returncode:
                raise CheckError("driver ended with %d: %s" % (r.returncode, r.stdout[-2000:]))
            segs, cur = [], None
            with open(of) as f:
                for line in f:
                    if line.startswith('{"e":"begin"'):
                        cur = []
                        segs.append(cur)
                    cur.append(line.rstrip("\n"))
            shutil.rmtree(d, True)
            hung = sum(1 for g in segs if g[-1].startswith('{"e":"crash","sig":14'))
            if hung:
                self.hung = True
            if len(segs) != len(parts[i]) and hung < 2:
                raise CheckError("driver produced %d of %d segments" % (len(segs), len(parts[i])))
            return list(zip(parts[i], segs))
        with ThreadPoolExecutor(shards) as ex:
            return list(ex.map(run, range(shards)))

    # ---------------------------------------------------------------- trace validation
    def _tlc_trace(self, module, cfg, lines, env=None):
        """returns (accepted, number of consumed lines, tlc output)"""
        fd, path = tempfile.mkstemp(prefix="trace_", suffix=".ndjson", dir=self.work)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(lines) + "\n")
        e = {"TRACE": path}; e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, extra=["-deadlock"], tag="t")
        os.unlink(path)
        for bad in ("OutOfMemory", "StackOverflow", "java.lang.Error", "Parsing or semantic analysis failed",
                    "ConfigFileException", "Cannot find source file", "Fatal errors while parsing"):
            if bad in out:
                raise CheckError("TLC failed on a trace (%s):\n%s" % (bad, out[-3000:]))
        m = re.search(r'<<"CONSUMED", (\d+)>>', out)
        if m:
            n = int(m.group(1))
            return n == len(lines) and rc == 0, n, out
        m = re.findall(r"/\\ l = (\d+)", out)
        if m and ("Error:" in out):
            # evaluation error or invariant violation on the state reached: the line it stopped at
            return False, int(m[-1]) - 1, out
        if "Error:" in out:
            # evaluation error with no state printed (1st line); locate by bisection is left to the re-run
            return False, -1, out
        raise CheckError("no verdict from TLC on a trace:\n" + out[-3000:])

    def validate(self, module, cfg, shards, exe, name, env=None, drive_env=None, max_report=3, post=None):
        """shards: result of drive().  Validates each against the trace specification, re-runs and re-checks
        whatever is rejected, and records the confirmed violations."""
        if not shards:
            return

        def run(part):
            rejected = []
            todo = part
            while todo:
                lines = [l for _, seg in todo for l in seg]
                ok, n, out = self._tlc_trace(module, cfg, lines, env)
                if ok:
                    break
                # find the segment containing line n (0-based index of the first line not consumed)
                if n < 0:
                    # no position known: check one by one
                    bad = None
                    for k, item in enumerate(todo):
                        ok1, n1, out1 = self._tlc_trace(module, cfg, item[1], env)
                        if not ok1:
                            bad = (k, max(n1, 0), out1)
                            break
                    if bad is None:
                        raise CheckError("trace batch rejected, but no single trace is:\n" + out[-3000:])
                    k, off, out = bad
                else:
                    k, off = 0, n
                    while off >= len(todo[k][1]):
                        off -= len(todo[k][1]); k += 1
                rejected.append((todo[k][0], todo[k][1], off, out))
                if len(rejected) >= max_report:
                    break
                todo = todo[k + 1:]
            return rejected
        with ThreadPoolExecutor(len(shards)) as ex:
            allrej = [r for rr in ex.map(run, shards) for r in rr]
        ntr = sum(len(p) for p in shards)
        self.cov["traces_validated_against_impl"] += ntr
        for p in shards:
            for _, seg in p:
                self.cov["events_validated"] += len(seg)
                for l in seg:
                    k = l[6:l.index('"', 6)]
                    kk = name + ":" + k
                    self.cov["events_by_kind"][kk] = self.cov["events_by_kind"].get(kk, 0) + 1
        if shards and shards[0]:
            s, seg = shards[0][len(shards[0]) // 2]
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append({"driver": name, "script": s[1][:12], "trace_head": seg[:6]})
        self.log("%s: %d traces validated, %d rejected" % (name, ntr, len(allrej)))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda r: self.confirm(module, cfg, exe, name, *r, env, drive_env, post), allrej[:8]))

    def confirm(self, module, cfg, exe, name, script, seg, off, out, env, drive_env, post):
        for attempt in range(3):
            again = self.drive(exe, [script], 1, env=drive_env, again=True)
            if post:
                again = post(again)
            seg2 = again[0][0][1]
            ok, n, out2 = self._tlc_trace(module, cfg, seg2, env)
            if not ok:
                break
        if ok:
            # the driver and TLC are deterministic, so the code is not (uninitialised memory): the recorded trace decides
            seg2, n, out2 = seg, off, out
            ok, n2, _ = self._tlc_trace(module, cfg, seg, env)
            if ok:
                raise CheckError("rejection of script %s was not reproducible" % script[0])
            self.log("the code behaves differently in repeated runs of script", script[0])
        n = max(n, 0)
        what = seg2[n] if n < len(seg2) else "(end)"
        for k in self.known:
            if k.get("script") == script[0] or (k.get("match") and re.search(k["match"], "\n".join(script[1]) + "\n" + what)):
                self.known_hits.append(k)
                return
        self.violations.append({"driver": name, "module": module, "script_id": script[0], "script": script[1],
                                "first_rejected_event": what, "position": n, "trace": seg2,
                                "tlc": out2[-1500:]})

    # ---------------------------------------------------------------- verdict
    def finish(self):
        rep = None
        cov = self.cov
        if not cov["samples"]:
            cov["samples"] = [{"models": cov["models"]}]
        if self.violations:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            rep = os.path.join(rd, "%s.json" % self.prop)
            with open(rep, "w") as f:
                json.dump(self.violations, f, indent=1)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t in sorted({k["text"] for k in self.known_hits}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        if self.violations:
            for v in self.violations[:3]:
                print("  rejected in script %s at event %d: %s" % (v["script_id"], v["position"], v["first_rejected_event"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        self.log("held on everything explored: %d model states, %d transitions, %d traces, %d events" %
                 (cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["events_validated"]))
        return 0
