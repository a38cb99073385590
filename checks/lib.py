"""Shared machinery of the checks: building, recording, validating, reporting.

Exit codes of a check: 0 held on everything explored, 1 violated (with a VIOLATION
line), 2 the check itself could not do its work.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, what, files=None, text=""):
        super().__init__(what)
        self.what, self.files, self.text = what, files or {}, text


def repo_hash():
    """Hash of everything in /repo that can influence a build."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".h", ".c")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    mine = [p for d in ("harness", "cdriver", "cfix", "nostd")
            for p in glob.glob(os.path.join(VERIF, d, "**", "*.*"), recursive=True)]
    for p in sorted(mine):
        if "/target/" in p or not os.path.isfile(p):
            continue
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.key = repo_hash()
        self.build_root = os.path.join(VERIF, "target", self.key)
        self.work = os.path.join(VERIF, "work", f"{prop}-{os.getpid()}")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "stages": []}
        self.assumptions = []
        base = os.path.join(VERIF, "target")
        if os.path.isdir(base):
            for d in os.listdir(base):
                if d != self.key:
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        os.makedirs(self.build_root, exist_ok=True)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)


# --------------------------------------------------------------------------- building
def sh(cmd, cwd=None, env=None, timeout=600, check=True):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"timeout: {' '.join(cmd)}")
    if check and r.returncode != 0:
        raise ToolError(f"failed ({r.returncode}): {' '.join(cmd)}\n{r.stdout[-4000:]}")
    return r


def build_harness(ctx, profile):
    """Builds the driver against /repo's working tree."""
    td = os.path.join(ctx.build_root, "harness")
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    cmd = ["cargo", "build", "--offline", "--quiet"]
    if os.path.exists(lock):
        cmd.append("--locked")
    if profile == "release":
        cmd.append("--release")
    sh(cmd, cwd=os.path.join(VERIF, "harness"), env={"CARGO_TARGET_DIR": td})
    return os.path.join(td, "release" if profile == "release" else "debug", "conform")


def build_variant(ctx, profile, features):
    """The driver with the library built with just these features. Every set has a directory of its
    own, so that several can be built at once."""
    td = os.path.join(ctx.build_root, "feat-" + (features.replace(",", "+") or "none"))
    cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "--no-default-features", "--features", features]
    if profile == "release":
        cmd.append("--release")
    sh(cmd, cwd=os.path.join(VERIF, "harness"), env={"CARGO_TARGET_DIR": td, "CARGO_BUILD_JOBS": "2"})
    return os.path.join(td, "release" if profile == "release" else "debug", "conform")


# --------------------------------------------------------------------------- running the driver
def run_driver(ctx, cmd, name, timeout=240, env=None, pending_dir=None):
    """Runs a driver of the real code. Crashes and hangs of it are violations: the operations
    driven are all public and total."""

    def once(extra, tmo):
        e = dict(os.environ)
        e.update(env or {})
        e.update(extra)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=tmo)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return "timeout", out, err

    rc, out, err = once({}, timeout)
    if rc == 0:
        return out
    if rc == 2:
        raise ToolError(f"driver {name}: {err[-2000:]}")
    rc2, out2, err2 = once({"FLUSH": "1"}, timeout * 2)
    if rc2 == 0:
        raise ToolError(f"driver {name} failed once ({rc}) but not again: {err[-2000:]}")
    pend = ""
    if pending_dir:
        try:
            with open(os.path.join(pending_dir, "pending")) as f:
                pend = f.read()
        except OSError:
            pass
    how = "does not return" if rc2 == "timeout" else f"crashed (status {rc2})"
    what = f"operation {how}: {pend or name}"
    raise Violation(what, text=f"driver: {' '.join(cmd)}\n{how}\nlast operation begun: {pend}\n{err2[-3000:]}")


# --------------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=1, timeout=800, heap="2g", extra=(), tag=""):
    meta = os.path.join(ctx.work, f"meta-{tag or module}")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}",
           "-Duser.language=en", f"-Djava.io.tmpdir={ctx.work}",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, *extra, "-config", cfg, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module} {tag}")
    shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return r.returncode, out, gen, dist


def session_of(lines, i):
    """Index of the event that began the session containing line i."""
    j = i
    while j > 0 and '"e":"new"' not in lines[j]:
        j -= 1
    return j


def once_each(pairs):
    """A record with two fields of one name would hide the first from the specification."""
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ToolError("a record names a field twice: " + " ".join(k for k, _ in pairs))
    return d


def sound_records(s):
    """Looks at some of a trace's records before it is validated."""
    with open(s, errors="replace") as f:
        for i, line in enumerate(f):
            if i < 200 or i % 61 == 0:
                json.loads(line, object_pairs_hook=once_each)


def validate(ctx, module, shards, name, prop=None, env=None):
    """Validates recorded traces against a trace specification, in parallel."""
    jobs = []
    for s in shards:
        if os.path.getsize(s) > 0:
            sound_records(s)
            jobs.append(s)

    def one(s):
        tag = f"{name}-{os.path.basename(s)}"
        return s, tlc(ctx, f"{module}.tla", f"{module}.cfg", tag=tag,
                      env={"TRACE": s, "PROP": prop or ctx.prop, **(env or {})})

    fails = []
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        for s, (rc, out, gen, dist) in ex.map(one, jobs):
            n = sum(1 for _ in open(s))
            ctx.cov["states"] += dist
            ctx.cov["transitions"] += max(gen - 1, 0)
            if rc == 0:
                if dist != n + 1:
                    raise ToolError(f"TLC accepted {s} after {dist - 1} of {n} lines\n{out[-2000:]}")
                continue
            m = re.search(r'<<\s*"NONCONFORM",\s*(\d+),\s*(.*?)>>\s*$', out, re.S | re.M)
            ev = re.search(r"Error: (.*)", out)
            if m:
                fails.append((s, int(m.group(1)), " ".join(m.group(2).split())))
            elif dist >= 1 and ev and ("Evaluating" in out or "evaluat" in out or "Attempted" in out
                                       or "nondeterm" in out or "postcondition" in out.lower()):
                fails.append((s, dist, "the observation lies outside the specification: " + " ".join(out[out.find("Error:"):][:400].split())))
            else:
                raise ToolError(f"TLC failed on {s} (rc {rc})\n{out[-3000:]}")
    if fails:
        s, line, why = fails[0]
        lines = open(s).read().split("\n")
        line = min(line, len([x for x in lines if x]))
        j = session_of(lines, line - 1) if '"e":' in lines[line - 1] else line - 1
        ctxt = lines[j:line]
        raise Violation(f"{why} at line {line} of {os.path.basename(s)} ({name})",
                        files={"trace.ndjson": "\n".join(ctxt) + "\n"},
                        text=f"specification: spec/{module}.tla, property {prop or ctx.prop}\n"
                             f"aspect: {why}\nevent: {lines[line - 1][:2000]}\n"
                             f"The trace in trace.ndjson starts at the beginning of its session; its last line "
                             f"is the step the specification does not allow. To validate it again:\n"
                             f"  cd {SPEC} && PROP={prop or ctx.prop} TRACE=$PWD/../<this dir>/trace.ndjson "
                             f"tlc -workers 1 -config {module}.cfg {module}.tla\n"
                             f"({len(fails)} of {len(jobs)} shards failed)")
    return len(jobs)


def same_files(a, b):
    return all(open(os.path.join(a, f), "rb").read() == open(os.path.join(b, f), "rb").read()
               for f in sorted(os.listdir(a)) if f.endswith(".ndjson"))


def shards_of(d):
    return sorted(glob.glob(os.path.join(d, "trace*.ndjson")))


def count_sessions(d):
    n = ev = 0
    for s in shards_of(d):
        for line in open(s):
            ev += 1
            if '"e":"new"' in line:
                n += 1
    return n, ev


def pick_samples(d, k=3):
    out = []
    for s in shards_of(d):
        ls = open(s).read().split("\n")
        ls = [x for x in ls if x]
        if ls:
            out.append(ls[len(ls) // 2][:400])
        if len(out) >= k:
            break
    return out


def trace_stage(ctx, suite, module, prop=None, extra=(), shards=None, both=True):
    """Records what the real code does under `suite` and validates it against `module`."""
    dirs = []
    profiles = ["release", "dev"] if both else ["release"]
    for pr in profiles:
        exe = build_harness(ctx, pr)
        d = os.path.join(ctx.work, f"{suite}-{pr}")
        run_driver(ctx, [exe, suite, "--out", d, "--seed", str(ctx.seed), "--tier", ctx.tier,
                         "--shards", str(shards or CPUS), *extra], f"{suite} ({pr} build)", pending_dir=d,
                   timeout=900 if ctx.thorough else 240)
        dirs.append(d)
    todo = [dirs[0]]
    if both and not same_files(dirs[0], dirs[1]):
        todo.append(dirs[1])
        ctx.log("the two builds behave differently; validating both traces")
    sess, ev = count_sessions(dirs[0])
    ctx.log(f"recorded {suite}: {ev} lines, {sess} sessions")
    for d in todo:
        validate(ctx, module, shards_of(d), f"{suite}", prop)
    ctx.cov["traces_validated_against_impl"] += sess if sess else ev
    ctx.cov["samples"] += pick_samples(dirs[0], 2)
    ctx.cov["stages"].append({"stage": "trace validation", "suite": suite, "spec": module, "events": ev,
                              "sessions": sess, "builds": profiles})
    ctx.log(f"validated {suite} against {module}")
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------- the C interface
CFLAGS = ["-O1", "-Wall", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types",
          "-Werror=int-conversion", f"-I{REPO}/include"]


def build_clib(ctx, profile, features=None):
    """The shared library C users link with, built from the working tree."""
    td = os.path.join(ctx.build_root, "clib" if features is None else "clib-" + features.replace(",", "+"))
    cmd = ["build", "--offline", "--quiet", "--locked"] + (["--release"] if profile == "release" else [])
    if features is not None:
        cmd += ["--no-default-features", "--features", features]
    # an allocator without std needs a nightly compiler
    bare = features is not None and "alloc" in features.split(",")
    errs = []
    for tc in (["+nightly-2023-03-15"], ["+nightly"]) if bare else ([],):
        r = sh(["cargo", *tc, *cmd], cwd=os.path.join(REPO, "shogi_core_c"),
               env={"CARGO_TARGET_DIR": td + "".join(tc)}, check=False)
        if r.returncode == 0:
            return os.path.join(td + "".join(tc), "release" if profile == "release" else "debug")
        errs.append(r.stdout[-3000:])
    raise ToolError(f"the C library does not build ({features})\n" + "\n".join(errs))


def c_defines(features):
    """What a C user of a library with these features defines before including the header."""
    f = ["std"] if features is None else [x for x in features.split(",") if x]
    d = []
    if "std" in f or "alloc" in f:
        d.append("-DDEFINE_ALLOC=1")
    if "std" in f:
        d.append("-DDEFINE_STD=1")
    else:
        d.append("-DNO_PERSONALITY=1")
    if "experimental" in f:
        d.append("-DDEFINE_EXPERIMENTAL=1")
    return d


def build_cfix(ctx):
    td = os.path.join(ctx.build_root, "cfix")
    sh(["cargo", "build", "--offline", "--quiet", "--locked", "--release"], cwd=os.path.join(VERIF, "cfix"),
       env={"CARGO_TARGET_DIR": td})
    return os.path.join(td, "release")


def cc(ctx, src, libdir, lib, optional=False, features=None):
    """Compiles a C program against the published header and links it with the library.
    The programs use nothing but what the header has always offered, so failing here means that
    something it offers cannot be called."""
    exe = os.path.join(ctx.work, src + "-" + hashlib.sha256(libdir.encode()).hexdigest()[:8])
    r = sh(["gcc", *CFLAGS, *c_defines(features), os.path.join(VERIF, "cdriver", src + ".c"), "-o", exe, f"-L{libdir}",
            f"-Wl,-rpath,{libdir}", f"-l{lib}"], check=False)
    if r.returncode != 0:
        if optional:
            return None
        raise Violation("a C program that uses the published header does not compile and link",
                        text=r.stdout[-4000:])
    return exe


def c_stage(ctx, what, module, prop=None):
    """Records what the library does when called from C, and validates it."""
    script = None
    if what in ("pos", "sfen", "layout"):
        exe = build_harness(ctx, "release")
        name = {"pos": "pos_script", "sfen": "sfen_script", "layout": "layout"}[what]
        r = sh([exe, name, "--seed", str(ctx.seed), "--tier", ctx.tier])
        script = os.path.join(ctx.work, what + ".script")
        with open(script, "w") as f:
            f.write(r.stdout)
    dirs = []
    for pr in ("release", "dev"):
        lib = build_clib(ctx, pr)
        exe = cc(ctx, "cdrv", lib, "shogi_core_c")
        d = os.path.join(ctx.work, f"c-{what}-{pr}")
        os.makedirs(d)
        args = [exe, what, d, str(CPUS)] + ([script] if script else [str(ctx.seed), "600" if ctx.thorough else "60"])
        run_driver(ctx, args, f"C {what} ({pr} build)", pending_dir=d)
        dirs.append(d)
    todo = dirs[:1] if same_files(*dirs) else dirs
    sess, ev = count_sessions(dirs[0])
    ctx.log(f"recorded from C, {what}: {ev} lines, {sess} sessions")
    for d in todo:
        validate(ctx, module, shards_of(d), f"C {what}", prop)
    ctx.cov["traces_validated_against_impl"] += sess if sess else ev
    ctx.cov["samples"] += pick_samples(dirs[0], 1)
    ctx.cov["stages"].append({"stage": "trace validation of C calls", "suite": what, "spec": module, "events": ev,
                              "sessions": sess, "builds": ["release", "dev"]})
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)


def c_interface_stage(ctx):
    """Exports against declarations, sizes, fields, games."""
    lib = build_clib(ctx, "release")
    recs = []
    recs.append(exports_record(lib, None))
    exe = build_harness(ctx, "release")
    lay = os.path.join(ctx.work, "layout.script")
    with open(lay, "w") as f:
        f.write(sh([exe, "layout"]).stdout)
    cd = cc(ctx, "cdrv", lib, "shogi_core_c")
    d = os.path.join(ctx.work, "c-layout")
    os.makedirs(d)
    run_driver(ctx, [cd, "layout", d, "1", lay], "C layout", pending_dir=d)
    recs += open(os.path.join(d, "trace0.ndjson")).read().split("\n")
    script = os.path.join(ctx.work, "fields.script")
    with open(script, "w") as f:
        f.write(sh([exe, "pos_script", "--seed", str(ctx.seed), "--tier", ctx.tier]).stdout)
    fe = cc(ctx, "fields", lib, "shogi_core_c", optional=True)
    if fe:
        recs += run_driver(ctx, [fe, script], "C fields").split("\n")
    else:
        ctx.log("the header shows other fields than fields.c knows; their places are not compared")
    cf = build_cfix(ctx)
    ge = cc(ctx, "game", cf, "cfix")
    recs += run_driver(ctx, [ge], "C games").split("\n")
    recs = [x for x in recs if x]
    t = os.path.join(d, "trace0.ndjson")
    with open(t, "w") as f:
        f.write("\n".join(recs) + "\n")
    validate(ctx, "TraceC", [t], "C interface")
    ctx.cov["traces_validated_against_impl"] += len(recs)
    ctx.cov["samples"].append(recs[0][:400])
    ctx.cov["stages"].append({"stage": "exports, sizes, fields and games seen from C", "spec": "TraceC", "records": len(recs)})
    ctx.log(f"validated the C interface: {len(recs)} records")


# --------------------------------------------------------------------------- feature sets and build modes
FEATURE_SETS = [",".join(x for x in (a, h, o, e) if x)
                for a in ("", "alloc", "std") for h in ("", "hash") for o in ("", "ord") for e in ("", "experimental")]

# suite -> specification, property judged, features it needs
ANYWHERE = [("core", "TracePos", "ALL"), ("bbset", "TraceBB", "C08"), ("bbshift", "TraceBB", "C09"), ("bbpop", "TraceBB", "C10"),
            ("hands", "TraceHand", "C07"), ("squares", "TraceValues", "C11"), ("pieces", "TraceValues", "C12"),
            ("packed", "TraceValues", "C13"), ("sfen", "TraceText", "C14"), ("usi", "TraceText", "C15"), ("sink", "TraceSink", "C16")]
WITH_ALLOC = [("history", "TracePos", "ALL"), ("game", "TraceGame", "C18"), ("legal", "TracePos", "C19"), ("csfen", "TraceText", "C21")]
WITH_ALL = [("ords", "TraceOrd", "C17")]
AT_LENGTH = [("moves", "TracePos", "ALL"), ("turn", "TracePos", "ALL"), ("views", "TracePos", "ALL")]


def digest(d):
    h = hashlib.sha256()
    for s in shards_of(d):
        h.update(os.path.basename(s).encode())
        with open(s, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


class Groups:
    """Recordings made by many builds: what several recorded alike is validated once."""

    def __init__(self, ctx):
        self.ctx, self.of = ctx, {}

    def add(self, key, d, label):
        g = self.of.setdefault((key, digest(d)), {"dir": d, "builds": []})
        g["builds"].append(label)
        if g["dir"] != d:
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, what):
        ctx = self.ctx
        many = {}
        for (key, _), g in self.of.items():
            many.setdefault(key, []).append(g)
        for key in sorted(many):
            suite, module, prop = key
            # what the fewest builds did is the likeliest to be wrong
            for g in sorted(many[key], key=lambda g: len(g["builds"])):
                sess, ev = count_sessions(g["dir"])
                who = "; ".join(g["builds"][:4]) + (f" and {len(g['builds']) - 4} more" if len(g["builds"]) > 4 else "")
                validate(ctx, module, shards_of(g["dir"]), f"{suite}, built as: {who}", prop)
                ctx.cov["traces_validated_against_impl"] += (sess if sess else ev)
                ctx.cov["stages"].append({"stage": what, "suite": suite, "spec": module, "judged as": prop, "events": ev,
                                          "sessions": sess, "builds": g["builds"]})
            ctx.log(f"validated {suite}: {sum(len(g['builds']) for g in many[key])} builds, "
                    f"{len(many[key])} different recordings")
            for g in many[key]:
                shutil.rmtree(g["dir"], ignore_errors=True)
        if many:
            ctx.cov["samples"] += [f"{k[0]}: " + "; ".join(many[k][0]["builds"])[:300] for k in sorted(many)[:3]]


def features_stage(ctx):
    """Every feature set the crate can be built with, in both profiles."""
    jobs = []
    for f in FEATURE_SETS:
        for pr in ("release", "dev"):
            if ctx.thorough or pr == "release" or f in ("", "alloc", "std", "hash,ord"):
                jobs.append((f, pr))

    def one(job):
        f, pr = job
        fs = f.split(",")
        exe = build_variant(ctx, pr, f)
        # a copy: building another profile must not disturb it, and the intermediate files are not needed
        suites = list(ANYWHERE)
        if "alloc" in fs or "std" in fs:
            suites += WITH_ALLOC
            if ctx.thorough:
                suites += AT_LENGTH
            if "hash" in fs and "ord" in fs:
                suites += WITH_ALL
        res = []
        for suite, module, prop in suites:
            d = os.path.join(ctx.work, f"{suite}-{f or 'none'}-{pr}")
            run_driver(ctx, [exe, suite, "--out", d, "--seed", str(ctx.seed), "--tier", "quick", "--shards", str(CPUS)],
                       f"{suite} (features {f or 'none'}, {pr} build)", pending_dir=d)
            res.append(((suite, module, prop), d, f"{f or 'none'} ({pr})"))
        return res

    g = Groups(ctx)
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        for res in ex.map(one, jobs):
            for key, d, label in res:
                g.add(key, d, label)
    ctx.log(f"recorded {len(jobs)} builds")
    g.judge("trace validation of feature sets and build modes")


def c_features_stage(ctx):
    """The C library with and without an allocator, std and the experimental functions."""
    exe = build_harness(ctx, "release")
    script = os.path.join(ctx.work, "few.script")
    with open(script, "w") as f:
        f.write(sh([exe, "pos_script_few", "--seed", str(ctx.seed)]).stdout)
    g = Groups(ctx)
    recs = []
    jobs = [(f, pr) for f in ("", "alloc", "std", "experimental", "std,experimental", "alloc,experimental")
            for pr in (("release", "dev") if ctx.thorough or f in ("", "alloc") else ("release",))]

    def one(job):
        f, pr = job
        lib = build_clib(ctx, pr, f)
        drv = cc(ctx, "cdrv", lib, "shogi_core_c", features=f)
        res = []
        for what, module, prop in (("values", "TraceValues", "C20"), ("bb", "TraceBB", "C20"), ("hands", "TraceHand", "C20"),
                                   ("pos", "TracePos", "ALL")):
            d = os.path.join(ctx.work, f"c-{what}-{f or 'none'}-{pr}")
            os.makedirs(d)
            args = [drv, what, d, str(CPUS)] + ([script] if what == "pos" else [str(ctx.seed), "20"])
            run_driver(ctx, args, f"C {what} (features {f or 'none'}, {pr} build)", pending_dir=d)
            res.append(((f"C {what}", module, prop), d, f"{f or 'none'} ({pr})"))
        consts = cc(ctx, "consts", lib, "shogi_core_c", features=f)
        rec = [x for x in run_driver(ctx, [consts], f"C constants (features {f or 'none'})").split("\n") if x]
        rec.append(exports_record(lib, f))
        return res, rec

    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        for res, rec in ex.map(one, jobs):
            recs += rec
            for key, d, label in res:
                g.add(key, d, label)
    ctx.log(f"recorded {len(jobs)} builds of the C library")
    g.judge("trace validation of C calls to libraries with other features")
    d = os.path.join(ctx.work, "c-consts")
    os.makedirs(d)
    t = os.path.join(d, "trace0.ndjson")
    with open(t, "w") as f:
        f.write("\n".join(recs) + "\n")
    validate(ctx, "TraceC", [t], "exports and constants of the C library")
    ctx.cov["traces_validated_against_impl"] += len(recs)


def exports_record(lib, features):
    """The functions the header declares, and those the library exports."""
    r = sh(["gcc", "-E", "-P", *c_defines(features), f"-I{REPO}/include", "-include", "shogi_core.h", "-x", "c", "/dev/null"])
    declared = sorted(set(re.findall(r"\b([A-Z]\w*_\w+)\s*\(", r.stdout)))
    r = sh(["nm", "-D", "--defined-only", os.path.join(lib, "libshogi_core_c.so")])
    exported = sorted(set(n for n in re.findall(r"\b[TtWw] (\w+)", r.stdout) if re.match(r"[A-Z]\w*_\w+$", n)))
    f = ["std"] if features is None else features.split(",")
    return json.dumps({"f": "exports", "alloc": int("alloc" in f or "std" in f), "declared": declared, "exported": exported})


# --------------------------------------------------------------------------- the freestanding library
def build_nostd(ctx, profile):
    """The freestanding library's runtime with its allocator made callable (nostd/lib.rs)."""
    td = os.path.join(ctx.build_root, "nostd-" + profile)
    so = os.path.join(ctx.build_root, f"liballocfix-{profile}.so")
    errs = []
    for tc in ("nightly", "nightly-2023-03-15"):
        rel = ["--release"] if profile == "release" else []
        r = sh(["cargo", "+" + tc, "rustc", *rel, "--offline", "--locked", "--no-default-features", "--features", "alloc",
                "--crate-type", "rlib", "--message-format", "json"], cwd=os.path.join(REPO, "shogi_core_c"),
               env={"CARGO_TARGET_DIR": td + "-" + tc}, check=False)
        if r.returncode != 0:
            errs.append(r.stdout[-3000:])
            continue
        files = []
        for line in r.stdout.split("\n"):
            if line.startswith("{") and '"compiler-artifact"' in line:
                files += [f for f in json.loads(line)["filenames"] if f.endswith((".rlib", ".rmeta"))]
        ext, dirs = [], set()
        for f in files:
            dirs.add(os.path.dirname(f))
            if os.path.basename(f).startswith("libshogi_core_c"):
                ext += ["--extern", f"shogi_core_c={f}"]
        libs = [x for d in sorted(dirs) for x in ("-L", f"dependency={d}")]
        r = sh(["rustc", "+" + tc, "--edition", "2021", "--crate-type", "cdylib", "-O", "-C", "panic=abort",
                "--crate-name", "allocfix", os.path.join(VERIF, "nostd", "lib.rs"), *ext, *libs, "-o", so], check=False)
        if r.returncode == 0:
            return so
        errs.append(r.stdout[-3000:])
    raise ToolError("the freestanding library does not build\n" + "\n".join(errs))


def arena_of(so):
    """Where the arena is, when the symbol table tells: the one big object without contents."""
    r = sh(["nm", "-S", so])
    big = []
    for line in r.stdout.split("\n"):
        p = line.split()
        if len(p) == 4 and p[2] in "bBdD" and int(p[1], 16) >= 65536:
            big.append((int(p[0], 16), int(p[1], 16)))
    return big[0] if len(big) == 1 else (0, 0)


def alloc_stage(ctx):
    exe = os.path.join(ctx.work, "adrv")
    sh(["gcc", "-O1", "-pthread", os.path.join(VERIF, "nostd", "adrv.c"), "-o", exe, "-ldl"])
    for pr in ("release", "dev"):
        so = build_nostd(ctx, pr)
        off, size = arena_of(so)
        for what, module, n in (("alloc", "TraceAlloc", 400 if ctx.thorough else 60), ("mem", "TraceMem", 1500 if ctx.thorough else 150)):
            d = os.path.join(ctx.work, f"{what}-{pr}")
            os.makedirs(d)
            run_driver(ctx, [exe, what, so, d, str(CPUS), str(ctx.seed), str(n), str(off), str(size)],
                       f"freestanding {what} ({pr} build)", pending_dir=d, timeout=400)
            sess, ev = count_sessions(d)
            validate(ctx, module, shards_of(d), f"freestanding {what} ({pr} build)", env={"EXACT": "1" if size else "0"})
            ctx.cov["traces_validated_against_impl"] += sess if sess else ev
            ctx.cov["samples"] += pick_samples(d, 1)
            ctx.cov["stages"].append({"stage": "trace validation of the freestanding library", "suite": what, "spec": module,
                                      "events": ev, "sessions": sess, "builds": [pr], "arena_known": bool(size)})
            ctx.log(f"validated freestanding {what} ({pr} build): {ev} lines, {sess} sessions")
            shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------- the specification alone
def model_stage(ctx, module, cfg=None, consts=None, expect=None, workers=CPUS, timeout=800, extra=()):
    """Checks a specification by itself. With `expect`, the configuration is one that has to break
    (a broken variant of the algorithm): TLC must report that invariant or property violated."""
    name = cfg or module
    text = open(os.path.join(SPEC, name + ".cfg")).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(rf"^(\s*{k}\s*=).*$", lambda m: f"{m.group(1)} {v}", text, flags=re.M)
        if n != 1:
            raise ToolError(f"{name}.cfg: no constant {k}")
    tag = "-".join([name] + [f"{k}{re.sub(r'[^A-Za-z0-9]', '', str(v))}" for k, v in (consts or {}).items()])
    p = os.path.join(ctx.work, tag + ".cfg")
    with open(p, "w") as f:
        f.write(text)
    rc, out, gen, dist = tlc(ctx, module + ".tla", p, workers=workers, timeout=timeout, heap="12g", tag=tag, extra=extra,
                            env={"PROP": ctx.prop})
    if expect is None:
        if rc != 0:
            raise ToolError(f"the specification {tag} does not have its properties\n{out[-4000:]}")
        ctx.cov["states"] += dist
        ctx.cov["transitions"] += gen
        ctx.cov["stages"].append({"stage": "model checking", "spec": module, "config": tag, "states": dist, "generated": gen})
        ctx.log(f"model checked {tag}: {dist} states, {gen} generated")
    else:
        m = re.search(r"Error: (?:Invariant|Action property|Temporal properties?) ?(\w*)", out)
        if rc == 0 or not m or (m.group(1) and m.group(1) not in expect.split("|")):
            raise ToolError(f"the broken variant {tag} is not found out\n{out[-3000:]}")
        ctx.cov["stages"].append({"stage": "broken variant found out", "spec": module, "config": tag, "violates": m.group(1) or expect})
        ctx.log(f"broken variant {tag} violates {m.group(1) or expect}, as it should")
    return out


def carry_out(ctx, p, what, spec, walks, steps, **more):
    """The real objects follow the behaviours in the file `p`."""
    for pr in ("release", "dev"):
        exe = build_harness(ctx, pr)
        try:
            r = subprocess.run([exe, "replay", p, what], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        except subprocess.TimeoutExpired:
            raise Violation("carrying out a behaviour of the specification does not return", files={"walks.txt": open(p).read()})
        if r.returncode != 0:
            m = re.search(r"MISMATCH walk (\d+): (.*)", r.stdout)
            txt = re.split(r"^-1 ", open(p).read(), flags=re.M)[1:]
            one = "-1 " + txt[int(m.group(1))] if m else open(p).read()
            told = m.group(2) if m else f"crashed carrying out a behaviour of the specification: {r.stdout[-500:]}"
            raise Violation(f"the code does not follow a behaviour of the specification ({pr} build): {told}",
                            files={"walks.txt": one},
                            text=f"walks.txt is the behaviour; carry it out again with `conform replay walks.txt {what}` "
                                 "(harness/src/replay.rs describes the lines).\n" + r.stdout[-1500:])
        m = re.search(r"REPLAYED (\d+)", r.stdout)
        if not m or int(m.group(1)) < steps:
            raise ToolError(f"replay of {spec}: {r.stdout[-300:]}")
    ctx.cov["stages"].append({"stage": "replay of behaviours of the specification", "spec": spec, "walks": walks, "steps": steps,
                              "builds": ["release", "dev"], **more})
    ctx.cov["traces_validated_against_impl"] += walks
    ctx.log(f"replayed {walks} behaviours of {spec}, {steps} steps")


def simulated(ctx, module, num, env=None):
    """Behaviours of a specification, generated by TLC in parallel; as read from the files it writes."""
    def one(i):
        f = os.path.join(ctx.work, f"{module}{i}.json")
        rc, out, _, _ = tlc(ctx, module + ".tla", module + ".cfg", tag=f"{module}{i}", env={"OUT": f, **(env or {})},
                            extra=["-simulate", f"num={num}", "-depth", "200", "-seed", str(ctx.seed * 100 + i)])
        if rc != 0 or not os.path.exists(f):
            raise ToolError(f"TLC does not generate walks\n{out[-2000:]}")
        return f

    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        files = list(ex.map(one, range(CPUS)))
    for f in files:
        for line in open(f):
            yield json.loads(line)


def replay_stage(ctx, plain):
    """Behaviours of Position.tla, chosen by TLC, carried out by the real objects."""
    walks = steps = 0
    p = os.path.join(ctx.work, "walks.txt")
    with open(p, "w") as g:
        for w in simulated(ctx, "Walk", 120 if ctx.thorough else 12, {"PLAIN": "1" if plain else "0"}):
            walks += 1
            g.write(f"-1 {int(plain)}\n")
            for x in w:
                op = x["op"] + [0] * (9 - len(x["op"]))
                g.write(" ".join(map(str, op + [x["ok"]] + x["b"] + x["h"][0] + x["h"][1] + [x["c"], x["n"], x["l"]])) + "\n")
                steps += 1
    carry_out(ctx, p, "positions", "Walk", walks, steps, plain=plain)


def walk_stage(ctx, module, what, num=None, consts=None):
    """Behaviours of the other state machines: drawn by TLC, or (without `num`) all of them up to a length."""
    p = os.path.join(ctx.work, "walks.txt")
    if num:
        behaviours = simulated(ctx, module, num)
    else:
        f = os.path.join(ctx.work, module + ".json")
        os.environ["OUT"] = f
        model_stage(ctx, module, consts=consts, workers=1)
        behaviours = (json.loads(line) for line in open(f))
    walks = steps = 0
    with open(p, "w") as g:
        for w in behaviours:
            walks += 1
            g.write("-1 \n")
            for row in w:
                g.write(" ".join(map(str, row)) + "\n")
                steps += 1
    carry_out(ctx, p, what, module, walks, steps)


def write_evidence(ctx, violations):
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": ctx.cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{ctx.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def report_violation(ctx, v):
    d = os.path.join(VERIF, "replays", f"{ctx.prop}-{hashlib.sha256(v.what.encode()).hexdigest()[:10]}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "README"), "w") as f:
        f.write(f"property {ctx.prop} violated: {v.what}\n\n{v.text}\n\n"
                f"found by: VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} checks/run.py {ctx.prop}\n")
    for n, c in v.files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(c)
    print(f"property {ctx.prop}: {v.what}")
    print(f"VIOLATION property={ctx.prop} replay={d}", flush=True)
