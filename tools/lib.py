"""Machinery shared by the checks: building the drivers from /repo's working tree,
running TLC, validating recorded traces, writing evidence."""
import concurrent.futures as cf
import contextlib, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

sys.set_int_max_str_digits(0)     # the big numbers of C10, C17
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4
CXXFLAGS = ["-std=c++11", "-w", "-g1", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
LIBS = ["-lntl", "-lgmpxx", "-lgmp", "-lcryptopp", "-lpthread"]


class ToolError(Exception):
    """The check itself failed: no verdict."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ building
def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, "src")
    for d, dirs, fs in sorted(os.walk(root)):
        dirs.sort()
        if os.path.basename(d) == "test":
            continue
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".hh", ".inc", ".tpp", ".ipp")) and f != "config.h":
                h.update(os.path.relpath(os.path.join(d, f), root).encode() + b"\0")
                h.update(_read(os.path.join(d, f)))
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
        h.update(_read(f))
    h.update(" ".join(CXXFLAGS).encode())
    return h.hexdigest()


@contextlib.contextmanager
def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def _compile(src, hh, extra=()):
    key = hashlib.sha256(hh.encode() + src.encode() + " ".join(extra).encode() + _read(src)).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(["g++", *CXXFLAGS, *extra, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src", "libeopsi"),
            "-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", tmp])
    if r.returncode != 0:
        raise ToolError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
    os.replace(tmp, obj)
    return obj


def build(driver):
    """Builds harness/<driver>.cpp with the library's sources of the working tree."""
    with _lock("build"):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        hh = _headers_hash()
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "libeopsi", "*.cpp")))
        srcs.append(os.path.join(VERIF, "harness", driver + ".cpp"))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(lambda s: _compile(s, hh), srcs))
        key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, driver + "." + key)
        if not os.path.exists(exe):
            r = sh(["g++", "-fsanitize=address", *objs, *LIBS, "-o", exe + ".tmp"])
            if r.returncode != 0:
                raise ToolError("linking %s failed:\n%s" % (driver, r.stdout[-3000:]))
            os.replace(exe + ".tmp", exe)
        # keep the build directory small
        for pat in ("obj/*.o", driver + ".*"):
            old = sorted((f for f in glob.glob(os.path.join(BUILD, pat)) if not f.endswith(".lock")), key=os.path.getmtime)
            for f in old[:-120 if pat.startswith("obj") else -4]:
                with contextlib.suppress(OSError):
                    os.remove(f)
        return exe


def build_multi(drivers, slots=4):
    """Builds harness/multi.cpp with the library, and the drivers as plug-ins: (program, directory of the plug-ins)"""
    with _lock("build"):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        hh = _headers_hash()
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "libeopsi", "*.cpp"))) + [os.path.join(VERIF, "harness", "multi.cpp")]
        plug = [os.path.join(VERIF, "harness", d + ".cpp") for d in drivers]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            pobjs = [ex.submit(_compile, s, hh, ("-fPIC", "-DHARNESS_PLUGIN")) for s in plug]
            objs = list(ex.map(lambda s: _compile(s, hh), srcs))
            pobjs = [x.result() for x in pobjs]
            key = hashlib.sha256("\n".join(objs + pobjs + ["symbolic", str(slots)]).encode()).hexdigest()[:24]
            d = os.path.join(BUILD, "multi." + key)
            if not os.path.exists(d):
                tmp = d + ".tmp"
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)

                def link(cmd):
                    r = sh(cmd)
                    if r.returncode != 0:
                        raise ToolError("linking failed:\n%s" % r.stdout[-3000:])
                cmds = [["g++", "-fsanitize=address", "-shared", "-Wl,-Bsymbolic", o, *LIBS, "-o", os.path.join(tmp, n + ".0.so")] for o, n in zip(pobjs, drivers)]
                cmds.append(["g++", "-fsanitize=address", "-rdynamic", *objs, *LIBS, "-ldl", "-o", os.path.join(tmp, "multi")])
                list(ex.map(link, cmds))
                for n in drivers:
                    for k in range(1, slots):
                        shutil.copy(os.path.join(tmp, n + ".0.so"), os.path.join(tmp, "%s.%d.so" % (n, k)))
                os.rename(tmp, d)
        for f in sorted(glob.glob(os.path.join(BUILD, "multi.*")), key=os.path.getmtime)[:-2]:
            if f != d:
                shutil.rmtree(f, ignore_errors=True)
        return os.path.join(d, "multi"), d


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, heap="2g", timeout=800, extra=()):
    """Runs TLC on spec/<module>.tla; returns a dictionary with what it said."""
    md = tempfile.mkdtemp(prefix="tlc.", dir=_tmp())
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m",
           "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC on %s ran out of its %d s" % (module, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout
    res = dict(module=module, cfg=cfg, code=r.returncode, out=out, wall=time.time() - t0, generated=0, distinct=0)
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
        pass
    if m:
        res["generated"], res["distinct"] = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r'<<"REJECTED-LINE", (\d+)>>', out)
    res["rejected"] = int(m.group(1)) if m else None
    return res


_TMP = None


def _tmp():
    global _TMP
    if _TMP is None:
        os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
        _TMP = tempfile.mkdtemp(prefix="run.", dir=os.path.join(BUILD, "tmp"))
        import atexit
        atexit.register(lambda: shutil.rmtree(_TMP, ignore_errors=True))
    return _TMP


def model_check(module, cfg=None, workers=4, heap="4g", timeout=800, extra=(), coverage=True):
    """Exhaustive model checking of the specification; any error is an error of the check."""
    cfg = cfg or module + ".cfg"
    r = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=(*(("-coverage", "1") if coverage else ()), *extra))
    if r["code"] != 0 or "No error has been found" not in r["out"]:
        raise ToolError("model checking of %s/%s failed:\n%s" % (module, cfg, r["out"][-4000:]))
    # coverage: no action may be vacuous
    acts = {}
    for m in re.finditer(r"^<(\w+) line .*?>: ([\d,]+):([\d,]+)", r["out"], re.M):
        acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3).replace(",", "")))
    dead = sorted(a for a, n in acts.items() if n == 0)
    r["actions"] = acts
    if dead:
        raise ToolError("model %s/%s: actions never taken: %s" % (module, cfg, dead))
    return r


def printed(out):
    """the JSON values that a module printed after @@"""
    hs, seen = [], set()
    for m in re.finditer(r'^"?@@(.*?)"?$', out, re.M):
        t = m.group(1)
        if '\\"' in t:
            t = t.replace('\\"', '"').replace("\\\\", "\\")
        if t not in seen:
            seen.add(t)
            hs.append(json.loads(t))
    return hs


def behaviours(module, num, depth, seed, cfg=None, env=None, timeout=600, steps=None):
    """Behaviours of a Gen module, from TLC's simulator (one JSON value per behaviour)."""
    r = tlc(module, cfg or module + ".cfg", env=dict(env or {}, DEPTH=str(depth)), timeout=timeout,
            extra=("-simulate", "num=%d" % num, "-depth", str(steps or depth + 2), "-seed", str(seed)))
    hs = printed(r["out"])
    if not hs:
        raise ToolError("no behaviours from %s:\n%s" % (module, r["out"][-3000:]))
    return hs, r


# --------------------------------------------------------------- conformance
class Case:
    def __init__(self, name, ops):
        self.name, self.ops = name, ops

    def text(self):
        return "case %s\n%s\nend\n" % (self.name, "\n".join(self.ops))


ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:hard_rss_limit_mb=4000",
           LC_ALL="C")


def drive(exe, cases, tag, stderr=False):
    d = _tmp()
    sp, tp = os.path.join(d, tag + ".script"), os.path.join(d, tag + ".ndjson")
    with open(sp, "w") as f:
        for c in cases:
            f.write(c.text())
    e = dict(os.environ)
    e.update(ENV)
    if stderr:
        e["HARNESS_STDERR"] = "1"
    r = sh([exe, sp, tp], env=e, timeout=800, cwd=d)
    if r.returncode != 0:
        raise ToolError("driver failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
    return tp, r.stdout


def _validate(exe, module, cfg, cases, tag, heap, env):
    tp, _ = drive(exe, cases, tag)
    return check_trace(tp, module, cfg, heap, env)


def check_trace(tp, module, cfg="Trace.cfg", heap="2g", env=None):
    """validates the trace of a file and removes it"""
    counts, n = {}, 0
    with open(tp) as f:
        for line in f:
            n += 1
            e = json.loads(line)
            counts[e["e"]] = counts.get(e["e"], 0) + 1
            if e["e"] == "Exit" and e["code"] in (97, 98):
                raise ToolError("driver does not understand its script: %s" % line[:500])
    r = tlc(module, cfg, env=dict(env or {}, TRACE=tp), heap=heap)
    out = dict(events=n, counts=counts, generated=r["generated"], distinct=r["distinct"], wall=r["wall"], rejected=None)

    def locate(k, why):
        with open(tp) as f:
            lines = f.read().splitlines()
        i = min(k, len(lines)) - 1
        while i > 0 and json.loads(lines[i])["e"] != "Case":
            i -= 1
        j = i + 1
        while j < len(lines) and json.loads(lines[j])["e"] != "Case":
            j += 1
        idx = sum(1 for x in lines[:i] if json.loads(x)["e"] == "Case")
        out["rejected"] = dict(case=idx, line=k - i, event=lines[k - 1] if k <= len(lines) else "(end)", trace=lines[i:j], why=why)

    if r["rejected"] is not None:
        locate(r["rejected"], "no specified step")
    elif r["code"] != 0 or "No error has been found" not in r["out"]:
        # An evaluation error on a trace line means that the trace has a shape which no
        # specified behaviour has: a rejection at that line.
        ls = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", r["out"], re.M)]
        if not ls or "OutOfMemory" in r["out"] or "StackOverflow" in r["out"] or "Error:" not in r["out"]:
            raise ToolError("TLC failed on a trace of %s:\n%s" % (module, r["out"][:1500] + "\n...\n" + r["out"][-1500:]))
        locate(max(ls), re.search(r"Error:.*", r["out"]).group(0))
    os.remove(tp)
    return out


def conform(ctx, driver, module, cases, cfg="Trace.cfg", heap="2g", chunks=None, env=None, need=()):
    """Runs the cases in the real code and validates the recorded traces against the
    trace specification.  Violations are added to ctx."""
    exe = build(driver)
    n = min(len(cases), chunks or NPROC)
    parts = [cases[i::n] for i in range(n)]
    t0 = time.time()
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(_validate, exe, module, cfg, p, "%s%d.%s" % (driver, i, os.getpid()), heap, env) for i, p in enumerate(parts)]
        res = [f.result() for f in futs]
    counts = {}
    bad = 0
    for i, r in enumerate(res):
        ctx.events += r["events"]
        ctx.states += r["distinct"]
        ctx.transitions += r["generated"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if r["rejected"]:
            bad += 1
            rej = r["rejected"]
            case = parts[i][rej["case"]]
            again = _validate(exe, module, cfg, [case], "re%d.%s" % (i, driver), heap, env)
            if not again["rejected"]:
                again = _validate(exe, module, cfg, parts[i], "rp%d.%s" % (i, driver), heap, env)
            # one that is not repeated counts as well, unless the process ran out of something
            if again["rejected"] or not re.search(r'"e":"Exit".*"sig":(9|24)\b', rej["event"]):
                ctx.violation(driver, module, case, rej)
            else:
                ctx.notes.append("a rejection of case %s was not repeated" % case.name)
            ctx.traces += rej["case"]
        else:
            ctx.traces += len(parts[i])
    for k, v in counts.items():
        ctx.counts[k] = ctx.counts.get(k, 0) + v
    ctx.runs.append(dict(driver=driver, spec=module, cases=len(cases), events=sum(r["events"] for r in res), wall_s=round(time.time() - t0, 1)))
    if not bad:
        miss = [x for x in need if counts.get(x, 0) == 0]
        if miss:
            raise ToolError("vacuous: no %s event in the traces of %s" % (miss, driver))
    for c in cases[:2]:
        if len(ctx.samples) < 6:
            ctx.samples.append(dict(driver=driver, case=c.name, ops=[o[:160] for o in c.ops[:12]], n_ops=len(c.ops)))


class Group:
    """several worlds in one process: (driver, case) pairs"""

    def __init__(self, name, mode, order, worlds):
        self.name, self.mode, self.order, self.worlds = name, mode, order, worlds

    def text(self):
        return "group %s %s %s\n" % (self.name, self.mode, self.order) + "".join("world %s\n%s\n" % (d, "\n".join(c.ops)) for d, c in self.worlds) + "end\n"


def drive_multi(built, groups, tag, stderr=False):
    """runs the groups; the files of traces, by driver"""
    d = _tmp()
    sp, tp = os.path.join(d, tag + ".script"), os.path.join(d, tag + ".trace")
    for f in glob.glob(tp + ".*"):
        os.remove(f)
    with open(sp, "w") as f:
        for g in groups:
            f.write(g.text())
    e = dict(os.environ, **ENV)
    if stderr:
        e["HARNESS_STDERR"] = "1"
    r = sh([built[0], sp, tp, built[1]], env=e, timeout=800, cwd=d)
    if r.returncode != 0:
        raise ToolError("multi failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
    return {f[len(tp) + 1:]: f for f in glob.glob(tp + ".*")}, r.stdout


def conform_multi(ctx, groups, modules):
    """Runs groups of worlds and validates the trace of each world by itself; modules: driver -> trace specification"""
    built = build_multi(sorted(modules))
    t0 = time.time()
    n = min(len(groups), NPROC)
    parts = [groups[i::n] for i in range(n)]

    def part(i):
        files, _ = drive_multi(built, parts[i], "multi%d" % i)
        return {d: check_trace(f, modules[d]) for d, f in sorted(files.items())}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(part, range(n)))
    for i, r in enumerate(res):
        byname = {g.name: g for g in parts[i]}
        for d, x in r.items():
            ctx.events += x["events"]
            ctx.states += x["distinct"]
            ctx.transitions += x["generated"]
            for k, v in x["counts"].items():
                ctx.counts[k] = ctx.counts.get(k, 0) + v
            if x["rejected"]:
                g = byname[json.loads(x["rejected"]["trace"][0])["name"].split("/")[0]]
                files, _ = drive_multi(built, [g], "again%d" % i)
                again = any([check_trace(f, modules[e])["rejected"] for e, f in sorted(files.items())])
                if again or not re.search(r'"e":"Exit".*"sig":(9|24)\b', x["rejected"]["event"]):
                    ctx.violation("multi", modules[d], g, x["rejected"])
                else:
                    ctx.notes.append("a rejection of group %s was not repeated" % g.name)
        ctx.traces += sum(len(g.worlds) for g in parts[i])
    ctx.runs.append(dict(driver="multi", spec=sorted(set(modules.values())), cases=len(groups), events=sum(x["events"] for r in res for x in r.values()), wall_s=round(time.time() - t0, 1)))
    for g in groups[:3]:
        ctx.samples.append(dict(driver="multi", case=g.name, mode=g.mode, worlds=[d for d, _ in g.worlds], order=g.order[:80]))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%s/%d" % (pid, tier, seed))
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = self.events = 0
        self.counts, self.samples, self.runs, self.notes, self.models = {}, [], [], [], []
        self.violations = []
        self.t0 = time.time()

    def model(self, module, cfg=None, **kw):
        r = model_check(module, cfg, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(dict(module=module, cfg=cfg or module + ".cfg", distinct=r["distinct"], generated=r["generated"],
                                wall_s=round(r["wall"], 1), actions=r["actions"]))
        return r

    def behaviours(self, module, num, depth, **kw):
        hs, r = behaviours(module, num, depth, self.rng.randrange(1, 1 << 30), **kw)
        self.transitions += r["generated"]
        self.models.append(dict(module=module, simulated_behaviours=len(hs), wall_s=round(r["wall"], 1)))
        return hs

    def conform(self, *a, **k):
        conform(self, *a, **k)

    def violation(self, driver, module, case, rej):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            f.write("property %s: trace of the implementation rejected by %s at line %d\n\n" % (self.pid, module, rej["line"]))
            f.write("rejected event (%s):\n%s\n\n" % (rej["why"], rej["event"][:4000]))
            f.write("replay: %s/tools/replay.py %s %s THISFILE\n\n" % (VERIF, driver, module))
            f.write("----- script\n%s-----\n\ntrace:\n" % case.text())
            for x in rej["trace"][:rej["line"] + 1]:
                f.write(x[:2000] + "\n")
        self.violations.append((p, rej["event"][:300]))

    def finish(self, level, assumptions=()):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, trace_events=self.events,
                                events_by_action=dict(sorted(self.counts.items())), models=self.models,
                                conformance=self.runs, samples=self.samples or ["none"], notes=self.notes),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
