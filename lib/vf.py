"""Build and run machinery shared by all checks."""
import json, os, re, struct, subprocess, sys, time, shutil, hashlib, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(ROOT, "build"))
NPROC = os.cpu_count() or 8
SEED = int(os.environ.get("VERIF_SEED", "1"))

PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-%s"
SLEPC = "/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-%s"

ENV = dict(os.environ)
ENV.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8")


class BuildError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def cmake_sources(listfile, skip=("dummy.cpp",)):
    """All .cpp files a CMakeLists.txt (and its subdirectories) mentions and that exist."""
    out = []
    d = os.path.dirname(listfile)
    text = re.sub(r"#.*", "", open(listfile, errors="replace").read())
    text = text.replace("${hpGEM_SOURCE_DIR}", REPO).replace("${CMAKE_CURRENT_SOURCE_DIR}", d)
    for tok in re.findall(r"[^\s()\"]+\.cpp", text):
        if "$" in tok:
            continue
        f = tok if os.path.isabs(tok) else os.path.join(d, tok)
        f = os.path.normpath(f)
        if os.path.exists(f) and os.path.basename(f) not in skip and f not in out:
            out.append(f)
    return out


def kernel_sources(petsc=False):
    out = []
    base = os.path.join(REPO, "kernel")
    for dirpath, dirs, files in sorted(os.walk(base)):
        if "CMakeLists.txt" in files:
            for f in cmake_sources(os.path.join(dirpath, "CMakeLists.txt")):
                if f not in out and f.startswith(base):
                    out.append(f)
    return out


def common_flags(opt="-O1"):
    return ["-std=c++14", opt, "-g0", "-w", "-fno-strict-aliasing", "-DHPGEM_FORCE_ASSERTS", "-DHPGEM_LOGLEVEL=Log::DEFAULT",
            "-D_GLIBCXX_ASSERTIONS",
            "-I" + os.path.join(REPO, "kernel"), "-I" + os.path.join(ROOT, "harness")]


VARIANTS = {
    # plain single-process kernel
    "serial": dict(flags=[], libs=["-llapack", "-lblas"], cxx="g++"),
    # the same with complex coefficients, as the Maxwell solver uses it
    "complex": dict(flags=["-DHPGEM_USE_COMPLEX_PETSC"], libs=["-llapack", "-lblas"], cxx="g++"),
    # kernel with the model-checking MPI
    "mcmpi": dict(flags=["-DHPGEM_USE_MPI", "-I" + os.path.join(ROOT, "mcmpi")], libs=["-llapack", "-lblas"],
                  extra=[os.path.join(ROOT, "mcmpi", "mcmpi.cpp")], cxx="g++"),
}
VARIANTS["mcmpi-complex"] = dict(VARIANTS["mcmpi"], flags=VARIANTS["mcmpi"]["flags"] + VARIANTS["complex"]["flags"])
for kind in ("real", "complex"):
    VARIANTS["petsc-" + kind] = dict(
        flags=["-DHPGEM_USE_MPI", "-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_PETSC" if kind == "real" else "-DHPGEM_USE_COMPLEX_PETSC",
               "-DHPGEM_USE_SLEPC", "-DHPGEM_USE_ANY_SLEPC",
               "-I" + PETSC % kind + "/include", "-I" + SLEPC % kind + "/include",
               "-I/usr/lib/petscdir/petsc3.19/include", "-I/usr/lib/slepcdir/slepc3.19/include",
               "-I/usr/lib/x86_64-linux-gnu/openmpi/include"],
        libs=["-L" + PETSC % kind + "/lib", "-L" + SLEPC % kind + "/lib",
              "-lslepc_" + kind, "-lpetsc_" + kind, "-lmpi_cxx", "-lmpi", "-llapack", "-lblas"], cxx="g++")


def ninja_escape(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


class Build:
    """One ninja build directory: the kernel of one variant plus harness executables."""

    def __init__(self, variant, opt="-O1", tag="", sanitize=None):
        self.v = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant + (("-" + tag) if tag else ""))
        os.makedirs(self.dir, exist_ok=True)
        self.flags = common_flags(opt) + self.v["flags"]
        if sanitize:
            self.flags += ["-fsanitize=" + sanitize, "-fno-sanitize-recover=all"]
        self.rules = []
        self.targets = []
        self.libs = list(self.v["libs"])
        if sanitize:
            self.libs.append("-fsanitize=" + sanitize)
        self.objs = []

    def obj(self, src, extra_flags=()):
        rel = hashlib.sha1((src + " ".join(extra_flags)).encode()).hexdigest()[:10] + "_" + os.path.basename(src)
        o = os.path.join(self.dir, "obj", rel + ".o")
        r = "build %s: cxx %s\n" % (ninja_escape(o), ninja_escape(src))
        if extra_flags:
            r += "  extra = " + " ".join(extra_flags) + "\n"
        if r not in self.rules:
            self.rules.append(r)
        return o

    def add_kernel(self):
        tpl = os.path.join(REPO, "kernel", "hpgem-cmake.cpp.in")
        gen = os.path.join(self.dir, "hpgem-cmake.cpp")
        text = re.sub(r"@[A-Za-z_0-9]+@", "", open(tpl).read()) if os.path.exists(tpl) else ""
        if not os.path.exists(gen) or open(gen).read() != text:
            open(gen, "w").write(text)
        objs = [self.obj(s, ("-I" + os.path.dirname(s),)) for s in kernel_sources()] + [self.obj(gen)]
        objs += [self.obj(s) for s in self.v.get("extra", [])]
        lib = os.path.join(self.dir, "libkernel.a")
        self.rules.append("build %s: ar %s\n" % (ninja_escape(lib), " ".join(map(ninja_escape, objs))))
        self.lib = lib
        return lib

    def add_exe(self, name, sources, flags=(), libs=(), kernel=True):
        objs = [self.obj(s, tuple(flags)) for s in sources]
        exe = os.path.join(self.dir, name)
        lib = self.lib if kernel else ""
        r = "build %s: link %s%s\n" % (ninja_escape(exe), " ".join(map(ninja_escape, objs)), " | " + ninja_escape(lib) if lib else "")
        r += "  elibs = -Wl,--start-group %s -Wl,--end-group %s\n" % (lib, " ".join(list(libs) + self.libs))
        self.rules.append(r)
        self.targets.append(exe)
        return exe

    def run(self, quiet=True):
        text = "ninja_required_version = 1.5\n"
        text += "rule cxx\n  command = g++ -MMD -MF $out.d %s $extra -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % " ".join(self.flags)
        text += "rule ar\n  command = rm -f $out && ar crs $out $in\n"
        text += "rule link\n  command = g++ $in $elibs -o $out\n" if not self.v.get("linkflags") else ""
        text += "".join(self.rules)
        nf = os.path.join(self.dir, "build.ninja")
        if not os.path.exists(nf) or open(nf).read() != text:
            open(nf, "w").write(text)
        t = time.time()
        r = subprocess.run(["ninja", "-C", self.dir, "-j", str(NPROC)] + [os.path.relpath(x, self.dir) if False else x for x in self.targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if r.returncode:
            log("\n".join(l for l in r.stdout.splitlines() if not l.startswith("["))[:6000])
            raise BuildError("build of %s failed" % self.dir)
        log("# built %s in %.1fs" % (os.path.basename(self.dir), time.time() - t))


def known_keys(prop):
    out = []
    f = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d["property"] == prop and d.get("status", "open") == "open":
                    out.append(d)
    return out


def read_hashes(fn):
    try:
        b = open(fn, "rb").read()
    except OSError:
        return set()
    return set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))


def read_status(fn):
    try:
        b = open(fn, "rb").read()
        n = struct.unpack_from("<i", b)[0]
        return ",".join(map(str, struct.unpack_from("<%di" % n, b, 4)))
    except Exception:
        return ""


class Result:
    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.counters = {}
        self.samples = []
        self.violations = []   # dict(choices, trace, msg, key, cmd)
        self.known = {}
        self.errors = []

    def merge(self, other):
        self.evaluations += other.evaluations
        self.transitions += other.transitions
        self.states |= other.states
        self.outcomes |= other.outcomes
        for k, v in other.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples += other.samples
        self.violations += other.violations
        for k, v in other.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.errors += other.errors


def run_shards(exe, prop, tier, args=(), nshards=None, timeout=800, case_seconds=60, cwd=None, tag="", env=None):
    """Runs an mc.h harness in parallel shards and merges what they covered."""
    nshards = nshards or NPROC
    work = os.path.join(BUILD, "run", prop + tag)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    kk = known_keys(prop)
    kargs = []
    for d in kk:
        kargs += ["--known", d["key"]]
    e = dict(ENV)
    if env:
        e.update(env)
    procs = []
    deadline = time.time() + timeout
    def start(i, extra=()):
        out = os.path.join(work, "s%d.json" % i)
        cmd = [exe, "--tier", tier, "--shard", str(i), "--nshards", str(nshards), "--seconds", str(case_seconds), "--out", out] + kargs + list(args) + list(extra)
        f = open(out + ".log", "w")
        return (i, out, cmd, subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd or work))
    for i in range(nshards):
        procs.append(start(i))
    res = Result()
    for i, out, cmd, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
            to = False
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            to = True
        if to:
            res.errors.append("shard %d ran out of its %d s" % (i, timeout))
            continue
        rc = p.returncode
        if rc in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            r = Result()
            r.evaluations, r.transitions = d["evaluations"], d["transitions"]
            r.counters, r.samples, r.known = d["counters"], d["samples"], d["known"]
            r.states, r.outcomes = read_hashes(out + ".states"), read_hashes(out + ".outcomes")
            for v in d["violations"]:
                v["exe"], v["args"] = exe, list(args)
                r.violations.append(v)
            res.merge(r)
        elif rc in (70, 71):
            res.errors.append("shard %d: harness error (exit %d): %s" % (i, rc, tail(out + ".log")))
        else:
            ch = read_status(out + ".status")
            what = "execution crashed" if rc != 100 + 14 else "execution did not terminate within %d s" % case_seconds
            res.violations.append(dict(choices=ch, trace="", msg="%s (exit %d): %s" % (what, rc, tail(out + ".log")), key="",
                                       exe=exe, args=list(args), crash=True, shardcmd=cmd))
    # replay before reporting
    confirmed = []
    for v in res.violations[:6]:
        rp = os.path.join(work, "replay.json")
        if os.path.exists(rp):
            os.remove(rp)
        cmd = [exe, "--tier", tier, "--out", rp, "--seconds", str(3 * case_seconds), "--replay", v["choices"]] + list(args)
        v["replay_cmd"] = " ".join(cmd)
        again = False
        for attempt in range(1):
            with open(rp + ".log", "w") as f:
                try:
                    rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd or work, timeout=4 * case_seconds + 30).returncode
                except subprocess.TimeoutExpired:
                    rc = -1
            if rc == 1 and os.path.exists(rp):
                d = json.load(open(rp))
                if d["violations"]:
                    v["trace"] = d["violations"][0]["trace"]
                    if v.get("crash"):
                        v["msg"] += " / alone: " + d["violations"][0]["msg"]
                    again = True
            elif rc not in (0, 1, 70, 71):
                again = True
            elif rc == 0 and not os.path.exists(rp):
                again = True  # the code under test ended the process itself
        if not again:
            # state kept by the library between executions: reproduce with the whole shard
            sc = v.get("shardcmd")
            if sc is None:
                for i, out, cmd2, p in procs:
                    pass
            cmds = [sc] if sc else [c for _, _, c, _ in procs]
            for c in cmds:
                if time.time() > deadline + 60:
                    break
                c2 = list(c)
                c2[c2.index("--out") + 1] = rp
                with open(rp + ".log", "w") as f:
                    try:
                        rc = subprocess.run(c2, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd or work, timeout=300).returncode
                    except subprocess.TimeoutExpired:
                        rc = 0
                if rc == 1 and any(x["choices"] == v["choices"] for x in json.load(open(rp))["violations"]):
                    again = True
                elif rc not in (0, 1, 70, 71) and v.get("crash"):
                    again = True
                if again:
                    v["replay_cmd"] = " ".join(c2)
                    break
        if again:
            confirmed.append(v)
        else:
            res.errors.append("violation did not reproduce: %s %s" % (v["choices"], v["msg"]))
    res.violations = confirmed + (res.violations[6:] if confirmed else [])
    return res


def tail(fn, n=600):
    try:
        return open(fn, errors="replace").read()[-n:].strip()
    except OSError:
        return ""


def finish(prop, tier, level, res, t0, rule="", assumptions=(), extra=None, exhaustive=True):
    """Writes evidence, prints the verdict, returns the exit code."""
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {}
    ncount = dict(res.counters)
    nontriv = ncount.pop("nontrivial", 0)
    if level == "model_checking":
        cov.update(states=len(res.states), transitions=res.transitions, traces_validated_against_impl=res.evaluations)
        if res.outcomes:
            cov["distinct_outcomes"] = len(res.outcomes)
    else:
        cov.update(evaluations=res.evaluations, distinct_nontrivial=nontriv)
        if res.states:
            cov["distinct_results"] = len(res.states)
    cov["rule"] = rule
    cov["samples"] = res.samples[:8] + res.samples[-4:] if len(res.samples) > 12 else res.samples
    cov["exhaustive"] = bool(exhaustive and not res.errors and not res.violations)
    if ncount:
        cov["counters"] = ncount
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=list(assumptions), violations=len(res.violations))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d in known_keys(prop):
        if res.known.get(d["key"]):
            log("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    if res.violations:
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        for k, v in enumerate(res.violations[:int(os.environ.get("MC_MAXV", "3"))]):
            path = os.path.join(rd, "%s-%d.json" % (prop, k))
            json.dump(v, open(path, "w"), indent=1)
            log("  %s | %s | %s" % (v["msg"][:1500], v.get("trace", "")[:1500], v["choices"][:300]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if res.errors:
        for e in res.errors[:10]:
            log("ERROR", e)
        return 3
    log("OK property=%s %s" % (prop, json.dumps({k: v for k, v in cov.items() if k not in ("samples", "rule")})))
    return 0
