"""Shared machinery: build /repo into a scratch directory, run scenario batches
on the real library, run TLC on the specifications, report and record."""
import itertools
import os, sys, json, time, subprocess, tempfile, shutil, random, glob, re, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

DONE, BLOCKED = 0, 1
IO_ERROR, SYNTAX_ERROR, MEM_ERROR, INPUT_ENDED, BAD_MAGIC, UNIMPL, CORRUPT, INTERNAL, PARAM = 100, 101, 102, 103, 104, 105, 106, 107, 108
DELTA_MAGIC = bytes.fromhex("72730236")
MAGICS = {"md4": 0x72730136, "blake2": 0x72730137, "rkmd4": 0x72730146, "rkblake2": 0x72730147}


class CheckError(Exception):
    """the check itself could not do its work (exit 2)"""


TAGS = itertools.count(1)


class Ctx:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > 3 << 30 else tempfile.gettempdir())
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.viol = []
        self.states = self.trans = self.traces = 0
        self.execs = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.models = []
        self._built = {}
        self._blobs = {}
        self.unrepeated = []
        self._leaks = 0
        self.hangs = 0

    # ---------------------------------------------------------------- time
    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%6.1fs]" % self.elapsed(), *a, flush=True)

    # ---------------------------------------------------------------- files
    def path(self, *p):
        return os.path.join(self.tmp, *p)

    def blob(self, data):
        """content-addressed file with these bytes"""
        if len(data) == 0:
            return "-"
        h = hashlib.sha1(data).hexdigest()[:20]
        p = self._blobs.get(h)
        if not p:
            p = self.path("b" + h)
            with open(p, "wb") as f:
                f.write(data)
            self._blobs[h] = p
        return p

    # ---------------------------------------------------------------- build
    VARIANTS = {
        "plain": ("gcc", ["-O2", "-g", "-DNDEBUG", "-DCOUNT_ALLOC"]),
        "asan": ("gcc", ["-O1", "-g", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"]),
        "asanc": ("gcc", ["-O1", "-g", "-DNDEBUG", "-DCOUNT_ALLOC", "-fsanitize=address", "-fno-omit-frame-pointer"]),
        "msan": ("clang", ["-O1", "-g", "-DNDEBUG", "-fsanitize=memory", "-fno-omit-frame-pointer"]),
        "tsan": ("gcc", ["-O1", "-g", "-DNDEBUG", "-fsanitize=thread"]),
        "work": ("gcc", ["-O1", "-g", "-DNDEBUG", "-DCOUNT_WORK", "-fsanitize-coverage=trace-pc"]),
        "debug": ("gcc", ["-O1", "-g"]),
        "trace": ("gcc", ["-O1", "-g", "-DDO_RS_TRACE"]),
    }
    INC = ["-I" + HARN, "-DLIBRSYNC_STATIC_DEFINE"]

    def inc(self):
        return ["-I" + HARN, "-I" + REPO + "/src", "-I" + REPO + "/src/blake2", "-DLIBRSYNC_STATIC_DEFINE"]

    def alloc(self, fl):
        return [os.path.join(HARN, f + ".c") for f, d in (("alloc", "-DCOUNT_ALLOC"), ("work", "-DCOUNT_WORK")) if d in fl]

    def lib(self, variant):
        d = self.path("build-" + variant)
        a = os.path.join(d, "librsync.a")
        if os.path.exists(a):
            return a
        os.makedirs(d, exist_ok=True)
        cc, fl = self.VARIANTS[variant]
        srcs = [s for s in sorted(glob.glob(REPO + "/src/*.c")) if os.path.basename(s) not in ("rdiff.c", "isprefix.c")]
        srcs += [s for s in sorted(glob.glob(REPO + "/src/blake2/*.c"))]
        objs = []

        def comp(s):
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            return subprocess.run([cc, "-std=gnu99", *fl, *self.inc(), "-w", "-c", s, "-o", o], capture_output=True, text=True), s
        with ThreadPoolExecutor(NCPU) as ex:
            for r, s in ex.map(comp, srcs):
                if r.returncode:
                    raise CheckError("cannot compile %s:\n%s" % (s, r.stderr[-2000:]))
        names = {"-DCOUNT_ALLOC": ("malloc", "calloc", "realloc", "free", "strdup", "aligned_alloc", "posix_memalign"), "-DCOUNT_WORK": ("memcpy", "memmove", "memset", "memcmp", "memchr")}
        for d in [k for k in names if k in fl]:
            # the driver counts the library's allocations, or what it moves
            def ren(o):
                return subprocess.run(["objcopy"] + [x for f in names[d] for x in ("--redefine-sym", "%s=vf_%s" % (f, f))] + [o], capture_output=True, text=True)
            with ThreadPoolExecutor(NCPU) as ex:
                for r in ex.map(ren, objs):
                    if r.returncode:
                        raise CheckError("objcopy: " + r.stderr)
        r = subprocess.run(["ar", "rcs", a] + sorted(objs), capture_output=True, text=True)
        if r.returncode:
            raise CheckError("ar: " + r.stderr)
        return a

    def prog(self, src, variant, extra=()):
        """compile harness/<src>.c against the library"""
        key = (src, variant)
        if key in self._built:
            return self._built[key]
        a = self.lib(variant)
        out = os.path.join(os.path.dirname(a), src)
        cc, fl = self.VARIANTS[variant]
        r = subprocess.run([cc, "-std=gnu99", *fl, *self.inc(), "-w", os.path.join(HARN, src + ".c"), *extra, *self.alloc(fl), a, "-lpthread", "-o", out], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot build %s:\n%s" % (src, r.stderr[-3000:]))
        self._built[key] = out
        return out

    def rdiff(self, variant="plain"):
        key = ("rdiff", variant)
        if key in self._built:
            return self._built[key]
        a = self.lib(variant)
        out = os.path.join(os.path.dirname(a), "rdiff")
        cc, fl = self.VARIANTS[variant]
        r = subprocess.run([cc, "-std=gnu99", *fl, *self.inc(), "-w", REPO + "/src/rdiff.c", REPO + "/src/isprefix.c", *self.alloc(fl), a, "-lpopt", "-o", out], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot build rdiff:\n" + r.stderr[-3000:])
        self._built[key] = out
        return out

    # ---------------------------------------------------------------- run scenarios
    def _run_shard(self, exe, defs, lines, variant, cpu, tag):
        """lines: list of (index, text). returns {index: result}"""
        res = {}
        start = 0
        sf = self.path("scen-%s" % tag)
        with open(sf, "w") as f:
            for d in defs:
                f.write(d + "\n")
            for _, t in lines:
                f.write(t + "\n")
        env = dict(os.environ)
        env["DRV_CPU"] = str(cpu)
        env["TMPDIR"] = self.tmp
        env["ASAN_OPTIONS"] = "detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=6000:detect_stack_use_after_return=0:quarantine_size_mb=64"
        env["LSAN_OPTIONS"] = "print_suppressions=0"
        env["MSAN_OPTIONS"] = "exitcode=77"
        env["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1"
        while start < len(lines):
            of = self.path("out-%s-%d" % (tag, start))
            try:
                p = subprocess.run([exe, sf, of, str(start)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=800, cwd=self.tmp)
                rc, err = p.returncode, p.stderr.decode("latin1")
            except subprocess.TimeoutExpired:
                rc, err = -999, "wall timeout"
            last, ended = start - 1, False
            if os.path.exists(of):
                for ln in open(of, "r", errors="replace"):
                    if ln.startswith("B "):
                        last = int(ln[2:])
                    elif ln.startswith("E "):
                        ended = True
                    elif ln.startswith("{"):
                        try:
                            o = json.loads(ln)
                            res[lines[o["n"]][0]] = o
                        except Exception:
                            pass
                os.unlink(of)
            if rc == 90:
                raise CheckError("driver: " + err[-500:])
            if ended and rc == 0:
                break
            if last < start:
                raise CheckError("driver died before any scenario: rc=%s %s" % (rc, err[-800:]))
            if lines[last][0] not in res:
                if rc == 91:
                    res[lines[last][0]] = {"hang": 1, "bad": 1}
                    self.hangs += 1
                    if self.hangs >= 8:
                        # enough to report: each costs the whole time limit
                        for j in range(last + 1, len(lines)):
                            res[lines[j][0]] = {"hang": 1, "skipped": 1, "bad": 1}
                        break
                elif rc == -999:
                    raise CheckError("driver wall timeout")
                else:
                    res[lines[last][0]] = {"crash": rc, "bad": 1, "stderr": _san(err)}
            start = last + 1
        os.unlink(sf)
        return res

    def run(self, lines, variant="plain", defs=(), cpu=20, prog="drv", jobs=NCPU, spread=False):
        """run scenario lines on the real code; list of results in order"""
        exe = self.prog(prog, variant)
        idx = list(enumerate(lines))
        if not idx:
            return []
        k = max(1, min(jobs, (len(idx) + 3) // 4)) if not spread else min(NCPU, len(idx))
        # round robin keeps expensive neighbours apart
        shards = [idx[i::k] for i in range(k)]
        tagn = next(TAGS)
        out = {}
        with ThreadPoolExecutor(k) as ex:
            futs = [ex.submit(self._run_shard, exe, list(defs), s, variant, cpu, "%d-%s-%d" % (tagn, variant, n)) for n, s in enumerate(shards)]
            for f in futs:
                out.update(f.result())
        self.execs += len(lines)
        miss = [i for i, _ in idx if i not in out]
        if miss:
            raise CheckError("no result for %d scenarios, first: %s" % (len(miss), lines[miss[0]][:300]))
        return [out[i] for i in range(len(lines))]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=NCPU, timeout=600, args=(), heap=None, dir=SPEC, simulate=None, expect_ok=True):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        cfgp = os.path.join(dir, (cfg or module) + ".cfg") if not (cfg and "\n" in cfg) else None
        if cfgp is None:
            cfgp = os.path.join(meta, "gen.cfg")
            open(cfgp, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e["TMPDIR"] = meta
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Djava.io.tmpdir=" + meta] + (["-Xmx" + heap] if heap else ["-Xmx6g"]) + \
              ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(args) + [os.path.join(dir, module + ".tla")]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
            out, rc = p.stdout + p.stderr, p.returncode
        except subprocess.TimeoutExpired as t:
            raise CheckError("TLC timeout on %s after %ds" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate and not m:
            m2 = re.findall(r"The number of states generated: (\d+)", out)
            gen = dist = int(m2[-1]) if m2 else 0
        r = {"rc": rc, "out": out, "gen": gen, "dist": dist}
        if expect_ok and rc != 0:
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, "\n".join(l for l in out.splitlines() if "Parsing" not in l and "Semantic" not in l)[-4000:]))
        return r

    def model(self, module, cfg=None, name=None, **kw):
        """check a specification's own properties exhaustively; failure of the
        specification is an error of the check, not a violation of the code"""
        r = self.tlc(module, cfg, **kw)
        if r["dist"] == 0:
            raise CheckError("TLC explored nothing in %s" % module)
        self.states += r["dist"]
        self.trans += r["gen"]
        self.models.append({"model": name or (module + ("/" + cfg if cfg and "\n" not in cfg else "")), "distinct_states": r["dist"], "states_generated": r["gen"]})
        self.log("model %s: %d distinct states, %d generated" % (name or cfg or module, r["dist"], r["gen"]))
        return r

    def judge(self, recs, module="Judge", timeout=700, workers=NCPU, chunk=20000, env=None, per=2):
        """validate records with TLC; returns {index: reason} of rejected records"""
        rej = {}
        for c in range(0, len(recs), chunk):
            part = recs[c:c + chunk]
            f = self.path("recs-%d.ndjson" % c)
            with open(f, "w") as h:
                for r in part:
                    h.write(json.dumps(r, separators=(",", ":")) + "\n")
            en = {"RECS": f}
            en.update(env or {})
            r = self.tlc(module, None, env=en, timeout=timeout, workers=workers)
            n0 = len(rej)
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*"([^"]*)"', r["out"]):
                rej[c + int(m.group(1)) - 1] = m.group(2)
            want = per(part) if callable(per) else per * len(part)
            if r["dist"] != want and not (callable(per) and len(rej) > n0):
                raise CheckError("TLC judged %d states for %d records, expected %d" % (r["dist"], len(part), want))
            self.states += r["dist"]
            self.trans += r["gen"]
            os.unlink(f)
        self.traces += sum(len(r["traces"]) or 1 if "traces" in r else 1 for r in recs)
        return rej

    # ---------------------------------------------------------------- run + judge
    def conform(self, lines, mkrec=None, desc=lambda i: "", bad=None, variant="plain", defs=(), cpu=20, prog="drv",
                module="Judge", per=2, data=None, timeout=700, leaks=False, spread=False):
        """Run every scenario on the real code.  A scenario the driver itself
        finds bad (crash, hang, buffer misuse, difference between schedules or
        from the expected bytes) or whose record the specification rejects is
        run again; only what repeats is a violation.  Returns the results."""
        if bad is None:
            def bad(i, r):
                return bool(r.get("bad") or r.get("leak"))
        res = self.run(lines, variant, defs, cpu=cpu, prog=prog, spread=spread)
        recs, keep = [], []

        def reject(i, why, r):
            self.violation("%s %s [%s build]" % (why, desc(i), variant),
                           dict({"scenario": lines[i], "defs": list(defs), "observed": r, "how": "harness/%s.c runs the scenario line against the library" % prog},
                                **(data(i) if data else {})))

        def badwhy(r):
            return "; ".join("%s=%s" % (k, r[k]) for k in ("crash", "hang", "leak", "stderr", "res", "viol", "why") if k in r and r[k] not in ("", 0) or k == "res" and k in r)
        skipped, again = 0, []      # again: what did not repeat when run alone
        for i, r in enumerate(res):
            if self.too_many():
                return res
            if r.get("skipped"):
                skipped += 1
                continue
            if bad(i, r):
                r2 = self.run([lines[i]], variant, defs, cpu=cpu, prog=prog)[0] if len(again) < 12 else None
                if r2 and bad(i, r2):
                    reject(i, "misbehaves (%s)" % badwhy(r2), r2)
                else:
                    self.unrepeated.append(lines[i])
                    if not r.get("hang") and r.get("crash") != -9:
                        again.append(i)
                continue
            if leaks and r.get("live") and self._leaks < 20:
                # the allocation count does not balance: memory that is still reachable is no leak
                self._leaks += 1
                r2 = self.run([lines[i] + " leak=1"], "asan", defs, cpu=cpu, prog=prog)[0]
                if r2.get("leak") or r2.get("crash"):
                    reject(i, "leaks memory" if r2.get("leak") else "misbehaves (%s)" % badwhy(r2), r2)
                    continue
            rec = mkrec(i, r) if mkrec else None
            if rec is not None:
                for x in (rec if isinstance(rec, list) else [rec]):
                    recs.append(x)
                    keep.append(i)
        if skipped:
            if not self.viol:
                raise CheckError("%d scenarios ran out of time, and again did not" % self.hangs)
            return res
        if recs:
            for k, why in sorted(self.judge(recs, module=module, per=per, timeout=timeout).items()):
                if self.too_many():
                    return res
                i = keep[k]
                if len(again) >= 12:
                    again.append(i)
                    continue
                r2 = self.run([lines[i]], variant, defs, cpu=cpu, prog=prog)[0]
                rec2 = mkrec(i, r2) if not bad(i, r2) else None
                if rec2 is None or self.judge(rec2 if isinstance(rec2, list) else [rec2], module=module, per=per):
                    reject(i, why, r2)
                else:
                    self.unrepeated.append(lines[i])
                    again.append(i)
            self.last_recs = recs
        if again and not self.viol:
            # what depends on what the process did before repeats when all of it is run again
            again = sorted(set(again))[:400]
            res2 = self.run(lines, variant, defs, cpu=cpu, prog=prog, spread=spread)
            recs, keep = [], []
            for i in again:
                if self.too_many():
                    return res
                if res2[i].get("hang") or res2[i].get("skipped") or res2[i].get("crash") == -9:
                    continue
                if bad(i, res2[i]):
                    reject(i, "misbehaves after others (%s)" % badwhy(res2[i]), res2[i])
                elif mkrec:
                    rec = mkrec(i, res2[i])
                    for x in (rec if isinstance(rec, list) else [rec] if rec is not None else []):
                        recs.append(x)
                        keep.append(i)
            for k, why in sorted(self.judge(recs, module=module, per=per, timeout=timeout).items()) if recs else ():
                if self.too_many():
                    return res
                reject(keep[k], why + " (after others)", res2[keep[k]])
        return res

    def must_reject(self, rec, module="Judge", per=2, what="a corrupted record"):
        """the binding is live: TLC has to reject this record"""
        recs = rec if isinstance(rec, list) else [rec]
        if len(self.judge(recs, module=module, per=per)) != len(recs):
            raise CheckError("%s was accepted by the specification" % what)
        self.cov["corrupted_records_rejected"] = self.cov.get("corrupted_records_rejected", 0) + len(recs)

    # ---------------------------------------------------------------- outcome
    def violation(self, what, replay):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        replay = dict(replay)
        for k, v in list(replay.items()):
            if isinstance(v, bytes):
                replay[k] = v.hex() if len(v) < 200000 else v[:200000].hex() + "..."
        replay["property"] = self.prop
        replay["what"] = what
        json.dump(replay, open(p, "w"), indent=1, default=str)
        self.viol.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("  " + what[:600], flush=True)

    def too_many(self):
        return len(self.viol) >= 5

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        cov = dict(self.cov)
        cov.update({"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                    "implementation_executions": self.execs, "models": self.models, "samples": self.samples or ["none"]})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": len(self.viol)}
        if self.unrepeated:
            ev["coverage"]["unrepeated_rejections"] = self.unrepeated[:5]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        self.log("%s %s: %d violations; %d executions, %d records/traces validated by TLC, %d states" %
                 (self.prop, self.tier, len(self.viol), self.execs, self.traces, self.states))
        return 1 if self.viol else 0


def _san(err):
    m = re.search(r"(ERROR: \w+Sanitizer.*?)(?:\n\n|\Z)", err, re.S)
    return (m.group(1) if m else err)[-1500:]


def ba(b):
    """bytes -> list of ints for JSON"""
    return list(b)


def main(registry):
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    ctx = Ctx(prop, tier)
    rc = 2
    try:
        registry[prop](ctx)
        rc = ctx.finish()
    except Exception as e:
        if not isinstance(e, CheckError):
            import traceback
            traceback.print_exc()
        print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr, flush=True)
        if ctx.viol:
            ctx.finish()
            rc = 1
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.exit(rc)
