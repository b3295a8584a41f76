"""C17: the rdiff tool.  Cli.tla gives every scenario and its possible ends;
each scenario is set up in a scratch directory and run as an unprivileged
user; CliTrace decides whether what happened is one of those ends."""
import signal
from vf import *
from gen import *
from dcases import *
from chk_stats import mstat

NOBODY = 65534
STRACE = "/usr/bin/strace"


class Runner:
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.getuid() == 0
        os.chmod(ctx.tmp, 0o711)
        self.base = ctx.path("cli")
        os.mkdir(self.base)
        os.chmod(self.base, 0o711)
        self.exe = os.path.join(self.base, "rdiff")
        shutil.copy(ctx.rdiff("plain"), self.exe)
        os.chmod(self.exe, 0o755)
        self.faults = self.probe()

    def probe(self):
        """can a failing read be injected here?"""
        d = self.cwd(10 ** 9)
        self.put(os.path.join(d, "x"), b"abc")
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if self.root else {}
        try:
            ps = [subprocess.run([STRACE, "-qq", "-o", "/dev/null", "-P", os.path.join(d, "x"), "-e", "trace=read", "-e", "inject=read:error=EIO:when=%d" % n, "/bin/cat", os.path.join(d, "x")],
                                 cwd=d, capture_output=True, timeout=20, **kw) for n in (1, 9)]
            return ps[0].returncode == 1 and ps[1].stdout == b"abc"
        except (OSError, subprocess.SubprocessError):
            return False
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def cwd(self, k):
        d = os.path.join(self.base, "s%d" % k)
        os.mkdir(d)
        if self.root:
            os.chown(d, NOBODY, NOBODY)
        return d

    def put(self, path, data, mode=0o644):
        with open(path, "wb") as f:
            f.write(data)
        if self.root:
            os.chown(path, NOBODY, NOBODY)
        os.chmod(path, mode)

    def call(self, args, cwd, stdin=b"", stdout="capture", limit=None, stdindir=None, inject=None):
        """(code, stdout, stderr)"""
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if self.root else {}
        cmd = [self.exe] + args
        if limit is not None:
            # units of 512 or 1024 bytes: set with prlimit semantics through python's own limit is not thread safe
            cmd = ["/bin/bash", "-c", 'trap "" XFSZ; ulimit -f %d; exec "$@"' % limit, "x"] + cmd
        if inject:
            cmd = [STRACE, "-qq", "-o", "/dev/null", "-P", inject[0], "-e", "trace=" + inject[1], "-e", "inject=%s:error=%s:when=%s" % inject[1:]] + cmd
        si = subprocess.PIPE
        fd = rd = None
        if stdindir:
            fd = os.open(stdindir, os.O_RDONLY)
            si = fd
        so = subprocess.PIPE
        fo = None
        if stdout == "full":
            so = fo = open("/dev/full", "wb")
        elif stdout == "pipe":
            r, w = os.pipe()
            os.close(r)
            so = w
            cmd = ["/bin/bash", "-c", 'trap "" PIPE; exec "$@"', "x"] + cmd
        elif stdout != "capture":
            so = fo = open(stdout, "wb")
        try:
            p = subprocess.Popen(cmd, cwd=cwd, stdin=si, stdout=so, stderr=subprocess.PIPE, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, **kw)
            try:
                o, e = p.communicate(stdin if si == subprocess.PIPE else None, timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                return 997, b"", b"hang"
        finally:
            if fd is not None:
                os.close(fd)
            if fo:
                fo.close()
            if stdout == "pipe":
                os.close(w)
        return (p.returncode if p.returncode >= 0 else 900 - p.returncode), o or b"", e


class Data:
    """the files of one data set and the right outputs, from the library"""

    def __init__(self, ctx, big):
        rng = ctx.rng
        n = 20000 if big else 700
        self.bl, self.sl, self.m = (64, 9, M_RKB2) if big else (100, 4, M_B2)
        self.old = rng.randbytes(n)
        self.new = self.old[n // 2:] + rng.randbytes(9000 if big else 30) + self.old[:n // 3]
        m = self.m
        p = ctx.path("clisig%d" % big)
        ctx.run(["job kind=sig in=%s bl=%d sl=%d magic=%d save=%s" % (ctx.blob(self.old), self.bl, self.sl, m, p)])
        self.sig = open(p, "rb").read()
        self.sigs = {"ok": self.sig, "stdin": self.sig, "badmagic": b"XXXX" + self.sig[4:], "truncated": self.sig[:-3], "corrupt": self.sig[:4] + b"\0\0\0\0" + self.sig[8:],
                     "badparam": self.sig[:8] + b"\0\0\0\x63" + self.sig[12:], "none": mksig(m, self.bl, self.sl, [])}
        self.run = lambda l: bytes.fromhex(ctx.run([l + " sched=one hex=1"])[0]["hex"])
        self.ctx = ctx
        self.delta = self.run("job kind=delta in=%s sig=%s" % (ctx.blob(self.new), ctx.blob(self.sig)))
        d = self.delta
        self.deltas = {"ok": d, "stdin": d, "empty": DELTA + b"\0", "badmagic": b"rs\2\7" + d[4:], "truncated": d[:-1], "corrupt": d[:-1] + b"\x60\0"}
        self._exp = {}

    def expected(self, sc, unknown):
        a, i, j = sc["act"], sc["in1"], sc["in2"]
        k = (a, i, j, unknown)
        if k not in self._exp:
            self._exp[k] = self._expected(a, i, j)
        return self._exp[k]

    def _expected(self, a, i, j):
        ctx = self.ctx
        if a == "signature":
            if i not in ("ok", "empty", "stdin"):
                return b""
            return self.run("job kind=sig in=%s bl=%d sl=%d magic=%d" % (ctx.blob(self.old if i != "empty" else b""), self.bl, self.sl, self.m))
        if a == "delta":
            if i not in ("ok", "stdin", "none") or j not in ("ok", "empty", "stdin"):
                return b""
            return self.run("job kind=delta in=%s sig=%s" % (ctx.blob(self.new if j != "empty" else b""), ctx.blob(self.sigs[i])))
        if i not in ("ok", "short", "dir") or j not in self.deltas:
            return b""
        return self.run("job kind=patch in=%s basis=%s" % (ctx.blob(self.deltas[j]), ctx.blob({"ok": self.old, "short": self.old[:100], "dir": b""}[i])))


def literals(d):
    """(data of a stream of literals as far as it goes, whether it is complete), None if it is something else"""
    if not d.startswith(DELTA):
        return (b"", False) if DELTA.startswith(d) else None
    p, out = 4, b""
    while p < len(d):
        c = d[p]
        if c == 0:
            return (out, True) if p == len(d) - 1 else None
        if c > 0x44:
            return None
        w = 0 if c <= 0x40 else 1 << (c - 0x41)
        n = c if not w else int.from_bytes(d[p + 1:p + 1 + w], "big")
        if p + 1 + w > len(d):
            break
        out += d[p + 1 + w:p + 1 + w + n]
        p += 1 + w + n
    return out, False


def one(rn, k, sc, dat, rng):
    """set up, run and describe one scenario"""
    d = rn.cwd(k)
    a = sc["act"]
    args = []
    stdin, stdindir = b"", None
    files = {}

    def infile(name, st, content):
        nonlocal stdin, stdindir
        p = os.path.join(d, name)
        if st == "missing":
            return "missing-" + name
        if st == "dir":
            os.mkdir(p)
            if rn.root:
                os.chown(p, NOBODY, NOBODY)
            return name
        if st == "stdin":
            stdin = content
            return "-"
        if st == "stdindir":
            stdindir = d
            return "-"
        rn.put(p, content, 0o200 if st == "unreadable" else 0o644)
        files[p] = content
        return name
    if a == "signature":
        ins = [infile("basis", sc["in1"], b"" if sc["in1"] == "empty" else dat.old)]
    elif a == "delta":
        ins = [infile("sig", sc["in1"], dat.sigs.get(sc["in1"], dat.sig)), infile("new", sc["in2"], b"" if sc["in2"] == "empty" else dat.new)]
    else:
        ins = [infile("basis", sc["in1"], dat.old[:100] if sc["in1"] == "short" else dat.old), infile("delta", sc["in2"], dat.deltas.get(sc["in2"], dat.delta))]
    exp = dat.expected(sc, sc["in1"] == "stdin")
    old = b"previous content " * 500
    o, so, limit = sc["out"], "capture", None
    op = os.path.join(d, "out")
    oname = rng.choice(["out", "./out", op])
    if o == "existsempty":
        old = b""
    if o == "symlink":
        rn.put(os.path.join(d, "target"), old)
        os.symlink(rng.choice(["target", os.path.join(d, "target")]), op)
    elif o in ("exists", "existsempty", "writeonly", "readonly"):
        rn.put(op, old, {"exists": 0o644, "existsempty": 0o644, "writeonly": 0o200, "readonly": 0o400}[o])
    elif o == "nodir":
        oname = "no/out"
    elif o == "dir":
        os.mkdir(op)
        if rn.root:
            os.chown(op, NOBODY, NOBODY)
    elif o == "full":
        oname = "/dev/full"
    elif o == "limit":
        limit = 1            # 1024 bytes in bash
    elif o.startswith("stdout"):
        oname = rng.choice(["-", "-", None])
        so = {"stdout": "capture", "stdoutfull": "full", "stdoutpipe": "pipe"}[o]
    # options
    opts = []
    if sc["force"]:
        opts.append(rng.choice(["-f", "--force"]))
    if rng.random() < 0.3:
        opts.append(rng.choice(["-s", "--statistics", "--stats", "-v", "--verbose"]))
    if rng.random() < 0.3:
        opts += [rng.choice(["-I", "--input-size"]), str(rng.choice([1, 2, 100, 4096]))]
    if rng.random() < 0.3:
        opts += rng.choice([["-O", "7"], ["--output-size=1"], ["-O", "70000"]])
    u = sc["usage"]
    if a == "signature":
        h = "md4" if dat.m in (M_MD4, M_RKMD4) else "blake2"
        r = "rollsum" if dat.m in (M_MD4, M_B2) else "rabinkarp"
        if u == "badhash":
            h = rng.choice(["sha", "MD4", "blake", "md5", "md", "md4x", "m", "Blake2", "blake2b", "blake2x", "BLAKE2", "md4 ", "", "rollsum", "2"])
        if u == "badroll":
            r = rng.choice(["adler", "rollsum1", "roll", "Rollsum", "ROLLSUM", "rabin", "rabinkarpx", "RabinKarp", "rabinkar", "", "blake2", "r", "rollsum ", "sum"])
        if h != "blake2" or rng.random() < 0.5:
            opts += rng.choice([["-H", h], ["--hash=" + h]])
        if r != "rabinkarp" or rng.random() < 0.5:
            opts += rng.choice([["-R", r], ["--rollsum=" + r]])
        opts += rng.choice([["-b"], ["--block-size"]]) + [str(dat.bl) if u != "badblock" else "-7"]
        opts += rng.choice([["-S"], ["--sum-size"]]) + [str(dat.sl) if u != "badsum" else "77"]
    if u == "badopt":
        opts.insert(rng.randint(0, len(opts)) if not opts else 0, rng.choice(["--nonsense", "-Q"]))
    if u == "badnum":
        opts = ["-I", rng.choice(["x", "99999999999999"])] + opts
    if u == "zip":
        opts = [rng.choice(["-z", "-i", "--gzip", "--bzip2"])] + opts
    act = a[:rng.randint(1, len(a))]
    rest = ins + ([oname] if oname else [])
    # a trailing "-" may also be left out
    if oname is None:
        while rest and rest[-1] == "-" and len(rest) > (0 if a == "signature" else 1) and rng.random() < 0.5:
            rest.pop()
    if u == "toomany":
        rest = ins + [oname or "-", "extra"]
    if u == "noaction":
        args = opts
    elif u == "noarg":
        args = opts + [act]
    elif u in ("help", "version"):
        args = ((["--"] if "-" in rest else []) + [act] + rest) * rng.choice([0, 1, 1])
        args = opts + [rng.choice({"help": ["--help", "-?", "-h"], "version": ["--version", "-V"]}[u])] + args
    elif u == "badaction":
        args = opts + ["--", rng.choice(["sign1", "deltas", "x"])] + rest
    else:
        args = opts + (["--"] if "-" in rest else []) + [act] + rest
    inj = None
    if sc["flt"] != "none":
        name = {"in1": ins[0], "in2": ins[-1], "out": "target" if o == "symlink" else "out"}[sc["flt"]]
        call = rng.choice(["openat", "newfstatat", "close", "lseek"] + 4 * ["write" if sc["flt"] == "out" else "read"])
        inj = (os.path.join(d, name), call, rng.choice(["EIO", "EIO", "ENOSPC", "EINTR", "EBADF"]), "%d%s" % (rng.choice([1, 1, 2, 2, 3, 4, 5, 7]), rng.choice(["", "", "+"])))
    code, sto, err = rn.call(args, d, stdin, so, limit, stdindir, inj)
    if inj:
        args = args + ["   # with the system call %s on %s failing with %s the %s. time" % (call, name, inj[2], inj[3])]
    # what became of the files
    got = None
    info = u in ("help", "version") and code == 0
    if info and o == "stdout":
        got = b""
    elif o == "stdout":
        got = sto
    elif o in ("absent", "exists", "existsempty", "symlink", "writeonly", "readonly", "limit"):
        got = None
        if os.path.exists(op):
            try:
                os.chmod(op, 0o644)
            except OSError:
                pass
            got = open(op, "rb").read()
    outs = []
    if o in ("full", "stdoutfull", "stdoutpipe", "dir", "nodir"):
        outs = ["old", "partial", "right", "absent"]
    elif got is None:
        outs = ["absent"]
    else:
        if a == "delta" and sc["in1"] == "none" and exp:
            # nothing to copy from: literals may be split anyhow
            v, new = literals(got), literals(exp)[0]
            if v and v[1] and v[0] == new:
                outs.append("right")
            if v and new.startswith(v[0]):
                outs.append("partial")
        else:
            if got == exp:
                outs.append("right")
            if exp.startswith(got):
                outs.append("partial")
        if o == "stdout" and got == b"":
            outs.append("absent")
        if got == old:
            outs = ["old"] + (["partial"] + outs if old == b"" else [])
    if code != 0 and not err:
        outs = ["no message"]
    if info and (b"rdiff" not in sto or u == "help" and not all(w in sto for w in (b"signature", b"delta", b"patch"))):
        outs = ["no information given"]
    if o != "stdout" and sto and not info:
        outs = ["output on stdout"]
    for p, c in files.items():
        try:
            os.chmod(p, 0o644)
            if open(p, "rb").read() != c:
                outs = ["input changed"]
        except OSError:
            outs = ["input gone"]
    extra = set(os.listdir(d)) - {os.path.basename(p) for p in files} - {"out", "basis", "sig", "new", "delta", "target"}
    if extra:
        outs = ["stray file %s" % sorted(extra)[0]]
    shutil.rmtree(d, ignore_errors=True)
    rec = {"sc": {"act": a, "force": sc["force"], "usage": u, "in1": sc["in1"], "in2": sc["in2"], "out": o, "olen": len(exp), "lim": 1024, "flt": sc["flt"]}, "code": code, "outs": outs}
    return rec, ["rdiff"] + args, err[-300:].decode("latin1"), len(got) if got is not None else -1


def accept(ctx, recs):
    f = ctx.path("cli.ndjson")
    with open(f, "w") as h:
        for r in recs:
            h.write(json.dumps(r) + "\n")
    r = ctx.tlc("CliTrace", env={"RECS": f}, timeout=600)
    ctx.states += r["dist"]
    ctx.trans += r["gen"]
    ctx.traces += len(recs)
    return {int(x) - 1 for x in re.findall(r'<<\s*"ACCEPT",\s*(\d+)', r["out"])}


def c17(ctx):
    rng = ctx.rng
    r = ctx.model("CliGen", name="Cli")
    scen = []
    for m in re.finditer(r'<<\s*"SCEN",\s*"(\w+)",\s*(\w+),\s*(\w+),\s*"(\w+)",\s*"(\w+)",\s*"(\w+)",\s*"(\w+)",\s*"(\w+)"', r["out"]):
        a, f, b, o, i, j, u, x = m.groups()
        scen.append({"act": a, "force": f == "TRUE", "big": b == "TRUE", "out": o, "in1": i, "in2": j, "usage": u, "flt": x})
    if len(scen) < 5000:
        raise CheckError("the model produced only %d scenarios" % len(scen))
    rn = Runner(ctx)
    if not rn.root:
        scen = [s for s in scen if "unreadable" not in (s["in1"], s["in2"]) and s["out"] not in ("writeonly", "readonly")]
    fl = [s for s in scen if s["flt"] != "none"]
    scen = [s for s in scen if s["flt"] == "none"] + (fl * 12 if rn.faults else [])
    ctx.cov["runs with a failing system call"] = len(fl) * 12 if rn.faults else "none: strace cannot inject faults here"
    rng.shuffle(scen)
    dat = {False: Data(ctx, False), True: Data(ctx, True)}
    if not ctx.quick:
        scen = scen * 4
    seeds = [rng.getrandbits(40) for _ in scen]
    # right outputs first, in this thread
    for s in scen:
        dat[s["big"]].expected(s, s["in1"] == "stdin")

    def go(k):
        s = scen[k]
        return one(rn, k, s, dat[s["big"]], random.Random(seeds[k]))
    with ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(go, range(len(scen))))
    ctx.execs += len(got)
    recs = [g[0] for g in got]
    ok = accept(ctx, recs)
    n = len(scen)
    for k in range(len(recs)):
        if k in ok:
            continue
        n += 1
        s = scen[k]
        g = one(rn, n, s, dat[s["big"]], random.Random(seeds[k]))
        if accept(ctx, [g[0]]):
            ctx.unrepeated.append(str(g[1]))
            continue
        ctx.violation("exit status %d, output %s, message %r: not a possible end of `%s' (%s)" % (g[0]["code"], "/".join(g[0]["outs"]) or "wrong", g[2][-120:], " ".join(g[1]), json.dumps(s)),
                      {"scenario": s, "argv": g[1], "observed": g[0], "stderr": g[2], "output_length": g[3]})
        if ctx.too_many():
            return
    if ctx.viol:
        return
    # the specification refuses lies
    good = next(r for r in recs if r["code"] == 0 and r["sc"]["flt"] == "none" and r["sc"]["usage"] == "ok")
    for b in (dict(good, outs=["partial"]), dict(good, code=100), dict(good, sc=dict(good["sc"], out="exists", force=False, flt="none")), dict(good, sc=dict(good["sc"], in1="missing", flt="none")), dict(good, sc=dict(good["sc"], flt="in1"), outs=["partial"])):
        if accept(ctx, [b]):
            raise CheckError("the specification accepts a wrong outcome: %s" % b)
    ctx.cov["scenarios"] = len(scen)
    ctx.cov["outcomes"] = {str(c): sum(1 for r in recs if r["code"] == c) for c in sorted({r["code"] for r in recs})}
    ctx.sample({"argv": got[0][1], "record": recs[0]})
    ctx.log("scenarios run")
    pipelines(ctx, rn, n + 10)


def shown(sg, new, dl, errs):
    """records of the statistics rdiff prints"""
    out = []
    num = lambda rx, t: [int(x) for x in (re.search(rx, t) or re.match("", "")).groups()]
    for name, e in (("delta", errs[1]), ("patch", errs[2])):
        line = (re.findall(r"\b%s statistics: .*" % name, e) or [""])[-1]
        lit = num(r"literal\[(\d+) cmds, (\d+) bytes, (\d+) cmdbytes\]", line) or [0, 0, 0]
        cp = num(r"copy\[(\d+) cmds, (\d+) bytes, (\d+) cmdbytes, \d+ false\]", line) or [0, 0, 0]
        out.append({"t": "dstat", "in": ba(dl), "s": lit + cp if line else [-1]})
    line = (re.findall(r"\bsignature statistics: .*", errs[0]) or [""])[-1]
    b = num(r"signature\[(\d+) blocks, (\d+) bytes per block\]", line)
    out.append({"t": "ldstat", "in": ba(sg), "s": b} if b or len(sg) > 12 else {"t": "ldstat", "in": ba(sg), "s": [0, int.from_bytes(sg[4:8], "big")] if line else []})
    line = (re.findall(r"loadsig statistics: .*", errs[1]) or [""])[-1]
    b = num(r"signature\[(\d+) blocks, (\d+) bytes per block\]", line)
    if len(sg) > 12 or b:
        out.append({"t": "ldstat", "in": ba(sg), "s": b})
    if len(new) <= 60:
        out.append(mstat(errs[1], sg, new))
    return out


def pipelines(ctx, rn, k0):
    """signature, delta and patch through pipes and files with default and odd parameters: the new file comes back"""
    rng = ctx.rng
    todo = []
    for t in range(60 if ctx.quick else 600):
        n = rng.choice([0, 1, 10, 10, 30, 255, 256, 257, 5000, 60000, 300000])
        old, new = pair(rng, n, 256)
        o = []
        if rng.random() < 0.6:
            o += ["-b", str(rng.choice([1, 16, 1000, 70000]) if n < 6000 else rng.choice([16, 1000, 70000, 131072]))]
        if rng.random() < 0.6:
            o += ["-S", str(rng.choice([-1, 0, 8, 16]))]
        if rng.random() < 0.5:
            o += ["-H", rng.choice(["md4", "blake2"])]
        if rng.random() < 0.5:
            o += ["-R", rng.choice(["rollsum", "rabinkarp"])]
        io = rng.choice([[], ["-s"], ["--stats"], ["--statistics"]]) + rng.choice([[], [], ["-I", "13"], ["-O", "11"], ["-I", "70000", "-O", "5"]]) if n < 6000 else rng.choice([[], ["-I", "1000"], ["-O", "3000"]])
        todo.append((old, new, o, io, rng.choice(["pipe", "file"])))

    def go(t):
        old, new, o, io, how = todo[t]
        d = rn.cwd(k0 + t)
        rn.put(os.path.join(d, "old"), old)
        rn.put(os.path.join(d, "new"), new)
        rd = lambda x: open(os.path.join(d, x), "rb").read() if os.path.exists(os.path.join(d, x)) else None
        if how == "pipe":
            c1, s, e1 = rn.call(o + io + ["signature"], d, old)
            rn.put(os.path.join(d, "sig"), s)
            sg = s
            c2, dl, e2 = rn.call(io + ["delta", "sig"], d, new)
            c3, out, e3 = rn.call(io + ["patch", "old"], d, dl)
        else:
            c1, _, e1 = rn.call(o + io + ["signature", "old", "sig"], d)
            c2, _, e2 = rn.call(io + ["delta", "sig", "new", "delta"], d)
            c3, _, e3 = rn.call(io + ["patch", "old", "delta", "out"], d)
            sg, dl, out = rd("sig"), rd("delta"), rd("out")
        shutil.rmtree(d, ignore_errors=True)
        return [c1, c2, c3], dl, out, (e1 + e2 + e3)[-300:].decode("latin1"), [e.decode("latin1") for e in (e1, e2, e3)], sg
    with ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(go, range(len(todo))))
    ctx.execs += 3 * len(todo)
    recs, keep = [], []
    nst = 0
    for t, (cs, dl, out, err, errs, sg) in enumerate(got):
        old, new, o, io, how = todo[t]
        if cs != [0, 0, 0] or out != new:
            ctx.violation("signature, delta and patch by rdiff (%s, options %s %s, %d -> %d bytes): exit statuses %s, result %s" % (how, o, io, len(old), len(new), cs, "wrong" if out != new else "right"),
                          {"old": old.hex() if len(old) < 5000 else len(old), "new": new.hex() if len(new) < 5000 else len(new), "options": o + io, "how": how, "statuses": cs, "stderr": err})
        elif len(old) + len(new) < 2000:
            more = [{"t": "rt", "basis": ba(old), "new": ba(new), "delta": ba(dl)}]
            if any(x.startswith("-s") or x.startswith("--st") for x in io):
                nst += 1
                # the statistics shown (a signature of nothing has no searches to speak of)
                more += shown(sg, new, dl, errs)
            recs += more
            keep += [t] * len(more)
    for k, why in ctx.judge(recs).items():
        ctx.violation("%s (rdiff options %s)" % (why, todo[keep[k]][2]), {"record": recs[k]})
    ctx.cov["pipelines"] = len(todo)
    ctx.cov["pipelines with statistics"] = nst


CHECKS = {"C17": c17}
