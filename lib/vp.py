"""Shared machinery: builds of /repo's current tree, the fork server, verdicts, evidence."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
NCPU = min(8, os.cpu_count() or 1)

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined"
VARIANTS = {
    # heap bounds of every Minim object; no collection
    "asan": dict(cc="gcc", flags="-O1 -g1 -fno-omit-frame-pointer " + SAN +
                 " -fno-sanitize=signed-integer-overflow,shift,alignment,vptr",
                 defs="-DVP_GC_MALLOC", shim=True, ld=SAN),
    # uninitialised reads
    "msan": dict(cc="clang", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all",
                 defs="-DVP_GC_MALLOC", shim=True, ld="-fsanitize=memory"),
    # a collector that runs when told to and never hands out freed storage again
    "quar": dict(cc="gcc", flags="-O2 -g", defs="-DVP_GC_QUAR", shim=True, ld=""),
    # the project's other collector, collecting every VP_GC_PERIOD allocations
    "mgc": dict(cc="gcc", flags="-O2 -g1 -fno-omit-frame-pointer -fsanitize=address", defs="-DVP_GC_MINIM", shim=True,
                ld="-fsanitize=address -no-pie", mgc=True),
    # the project's own configuration: -O2, Boehm
    "plain": dict(cc="gcc", flags="-O2 -g", defs="-DVP_GC_BOEHM", shim=False, ld="-lgc", wrap=True),
}


class HarnessError(Exception):
    pass


def die(msg):
    """Harness failure: neither 0 nor 1."""
    sys.stderr.write("HARNESS-ERROR: %s\n" % msg)
    sys.exit(3)


# --------------------------------------------------------------------------- builds

def _tree_files(base):
    out = []
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ("build", ".git", "_build", "boehm-gc"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".c", ".h", ".min")):
                out.append(p)
    return out


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for p in _tree_files(os.path.join(REPO, "src")) + sorted(glob.glob(ROOT + "/harness/**/*.[ch]", recursive=True)):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(variant, regen=False):
    """Copy /repo's sources and build the named variant of the runtime, the CLI (minim) and
    the fork server (mserver).  Returns the directory.  regen: boot.min is regenerated from
    src/library with the plain build first, so that changes to the expander, module system and
    reader sources are what runs."""
    os.makedirs(BUILD, exist_ok=True)
    key = "%s%s-%s" % (variant, "-regen" if regen else "", tree_hash(json.dumps(VARIANTS[variant])))
    out = os.path.join(BUILD, key)
    lock = open(os.path.join(BUILD, ".lock-" + variant + ("-regen" if regen else "")), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out + "/.ok"):
            return out
        for old in glob.glob(os.path.join(BUILD, variant + ("-regen-*" if regen else "-[0-9a-f]*"))):
            if time.time() - os.path.getmtime(old) > 120:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        shutil.copytree(REPO + "/src", out + "/src",
                        ignore=shutil.ignore_patterns("build", "*.a", "*.o", "minim", "boehm-gc"))
        if regen:
            regenerate_boot(out)
        _compile(out, VARIANTS[variant])
        open(out + "/.ok", "w").close()
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def regenerate_boot(out):
    pl = build("plain")
    dst = out + "/boot.regen"
    r = run(["bash", "-c", "cd %s && ulimit -v 8000000 && timeout 300 %s/minim -q src/library/gen-boot.min src/library %s"
             % (out, pl, dst)])
    if r.returncode != 0 or not os.path.exists(dst) or os.path.getsize(dst) < 10000:
        # the caller decides: boot-file generation itself is a stable test, so a tree that
        # cannot do it is broken for every property that depends on the regenerated file
        raise HarnessError("boot file cannot be regenerated: %s" % r.stdout[-2000:])
    os.replace(dst, out + "/src/boot/s/boot.min")


def library_hash():
    h = hashlib.sha256()
    for p in _tree_files(REPO + "/src/library") + [REPO + "/src/boot/s/boot.min"]:
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()[:24]


def boot_differs(ck):
    """whether the library's sources make another boot file than the one in the tree, so that both systems have
    to be judged.  bootstrap.json lists sources for which C19 found that they do not; it only saves the time."""
    try:
        with open(ROOT + "/bootstrap.json") as f:
            if library_hash() in json.load(f)["fixpoints"]:
                ck.count("boot file known to be the one the library makes")
                return False
    except (OSError, ValueError, KeyError):
        pass
    a, b = build("plain"), None
    try:
        b = build("plain", regen=True)
    except HarnessError:
        ck.count("boot file not regenerated: the generator fails")
        return False
    with open(a + "/src/boot/s/boot.min", "rb") as f, open(b + "/src/boot/s/boot.min", "rb") as g:
        same = f.read() == g.read()
    ck.count("boot file the same when regenerated" if same else "boot file differs when regenerated")
    return not same


def _compile(out, v):
    src = out + "/src"
    for d in ("gc", "core", "boot"):
        os.makedirs("%s/%s/build" % (src, d), exist_ok=True)
    open(src + "/gc/build/config.h", "w").write("#define USE_MINIM_GC 1\n" if v.get("mgc") else "// #define USE_MINIM_GC 1\n")
    open(src + "/core/build/config.h", "w").write(
        '#define MINIM_X86_64 1\n#define PRELUDE_PATH "%s/core/s/prelude.min"\n' % src)
    open(src + "/boot/build/config.h", "w").write('#define BOOT_DIR "%s/boot/s/"\n' % src)
    open(out + "/bootcfg.h", "w").write('#define BOOT_DIR "%s/boot/s/"\n' % src)
    shim = out + "/shim"
    if v["shim"]:
        os.makedirs(shim + "/boehm-gc/include")
        shutil.copy(ROOT + "/harness/shim/boehm-gc/include/gc.h", shim + "/boehm-gc/include/gc.h")
    else:
        os.makedirs(shim + "/boehm-gc")
        os.symlink("/usr/include", shim + "/boehm-gc/include")
    wrap = "-DGC_malloc=vp_GC_malloc -DGC_malloc_atomic=vp_GC_malloc_atomic" if v.get("wrap") else ""
    if v.get("mgc"):
        wrap = " ".join("-DGC_%s=vp_GC_%s" % (x, x) for x in ("alloc", "alloc_atomic", "calloc", "calloc_atomic"))
    base = "%s -std=c11 -D_GNU_SOURCE=1 -w %s %s -I%s -I%s" % (
        v["cc"], v["flags"], v["defs"], shim, out)
    base = base.replace("-D_GNU_SOURCE=1 ", "")
    jobs = []
    objs = []
    cfiles = sorted(glob.glob(src + "/core/c/**/*.c", recursive=True)) + sorted(glob.glob(src + "/boot/c/**/*.c", recursive=True))
    if v.get("mgc"):
        cfiles += sorted(glob.glob(src + "/gc/minim-gc/*.c"))
    for i, c in enumerate(cfiles):
        o = "%s/o%d.o" % (out, i)
        objs.append(o)
        jobs.append("%s %s -c %s -o %s" % (base, "" if "/gc/" in c else wrap, c, o))
        if "/boot/c/" in c:
            jobs.append("%s %s -Dmain=vp_boot_main -c %s -o %s" % (base, wrap, c, o[:-2] + "h.o"))
    jobs.append("%s -c %s/harness/gcshim.c -o %s/gcshim.o" % (base, ROOT, out))
    jobs.append("%s -std=gnu11 -c %s/harness/mserver.c -o %s/mserver.o" % (base, ROOT, out))
    ps = []
    errs = []

    def drain(n):
        while len(ps) > n:
            j, p = ps.pop(0)
            t = p.communicate()[0]
            if p.returncode:
                errs.append("%s\n%s" % (j, t))
    for j in jobs:
        drain(NCPU - 1)
        ps.append((j, subprocess.Popen(j, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    drain(0)
    if errs:
        raise HarnessError("build failed: " + errs[0][-3000:])
    hobjs = [o[:-2] + "h.o" if os.path.exists(o[:-2] + "h.o") else o for o in objs]
    for exe, oo in (("minim", objs), ("mserver", hobjs + [out + "/mserver.o"])):
        r = run("%s %s %s/gcshim.o -o %s/%s %s -lm" % (v["cc"], " ".join(oo), out, out, exe, v["ld"]), shell=True)
        if r.returncode:
            raise HarnessError("link failed: " + r.stdout[-3000:])
    for o in glob.glob(out + "/*.o"):
        os.unlink(o)


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:malloc_context_size=2:max_redzone=64:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86",
    "MSAN_OPTIONS": "exitcode=86",
}


def env_for(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    if extra:
        e.update(extra)
    return e


# --------------------------------------------------------------------------- fork server

class Result:
    __slots__ = ("kind", "code", "out", "err", "stats")

    def __init__(self, kind, code, out, err):
        self.kind, self.code, self.out, self.err = kind, code, out, err
        self.stats = {}
        m = re.search(rb"\nVP-STATS ([^\n]*)\n", err) if isinstance(err, bytes) else None
        if m:
            self.stats = {k: int(x) for k, x in (kv.split("=") for kv in m.group(1).decode().split())}
            self.err = err[:m.start()] + err[m.end():]

    @property
    def sanitizer(self):
        """the sanitizer's headline, or None"""
        t = self.err.decode("latin1")
        if self.kind == "exit" and self.code == 86 or "Sanitizer" in t or "runtime error:" in t:
            m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", t)
            if m:
                loc = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*/(src/(?:core|boot|gc)/[^\n: ]+)", t)
                return m.group(1) + (" in %s %s" % (loc.group(1), loc.group(2)) if loc else "")
            return "sanitizer exit"
        return None

    @property
    def crashed(self):
        """memory-unsafe or abnormal end: a signal, or a sanitizer report"""
        if self.sanitizer:
            return self.sanitizer
        if self.kind == "signal":
            return "killed by signal %d" % self.code
        return None

    @property
    def ok(self):
        return self.kind == "exit" and self.code == 0

    def brief(self):
        return "%s %s; stdout %r; stderr %r" % (self.kind, self.code, self.out[-600:], self.err[-900:])


class Server:
    def __init__(self, builddir, boot=False, preload=None, jobs=NCPU, env=None, scratch=None):
        self.dir = scratch or tempfile.mkdtemp(prefix="vp-srv-")
        self.own = scratch is None
        cmd = [builddir + "/mserver", "--jobs", str(jobs)]
        if boot:
            cmd.append("--boot")
        if preload:
            cmd += ["--preload", preload]
        self.errf = open(self.dir + "/server.err", "wb")
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env_for(env), cwd=self.dir)
        self.n = 0
        self.ready = None

    def wait_ready(self):
        if self.ready is None:
            line = self.p.stdout.readline().decode()
            self.ready = line.startswith("ready")
            if not self.ready:
                self.p.wait()
        return self.ready

    def boot_error(self):
        self.errf.flush()
        rc = self.p.poll()
        return "startup ended with %s: %s" % (rc, open(self.dir + "/server.err", errors="replace").read()[-3000:])

    def run(self, jobs, cpu=10, mem=0, keep=False):
        """jobs: list of dict(mode, text|path, stdin=b'', cwd=None). -> list of Result, in order."""
        if not self.wait_ready():
            raise HarnessError("server not ready: " + self.boot_error())
        res = [None] * len(jobs)
        meta = {}

        def feed():
            try:
                for k, j in enumerate(jobs):
                    self.n += 1
                    ident = "j%d" % self.n
                    base = "%s/%s" % (self.dir, ident)
                    path = j.get("path")
                    if path is None:
                        path = base + ".min"
                        t = j["text"]
                        with open(path, "wb") as f:
                            f.write(t if isinstance(t, bytes) else t.encode("latin1"))
                    sin = "/dev/null"
                    if "stdin" in j:
                        sin = base + ".in"
                        with open(sin, "wb") as f:
                            f.write(j["stdin"] if isinstance(j["stdin"], bytes) else j["stdin"].encode("latin1"))
                    meta[ident] = (k, base, path if "path" not in j else None)
                    line = "\t".join([ident, j["mode"], path, base + ".out", base + ".err", sin,
                                      j.get("cwd") or self.dir, str(j.get("cpu", cpu)), str(j.get("mem", mem))]) + "\n"
                    self.p.stdin.write(line.encode())
                    self.p.stdin.flush()
            except (BrokenPipeError, OSError):
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        left = len(jobs)
        while left:
            line = self.p.stdout.readline().decode()
            if not line:
                raise HarnessError("fork server died: " + self.boot_error())
            ident, what = line.rstrip("\n").split("\t")
            k, base, tmp = meta[ident]
            parts = what.split()
            kind, code = parts[0], int(parts[1]) if len(parts) > 1 else 0
            out = _slurp(base + ".out")
            err = _slurp(base + ".err")
            res[k] = Result(kind, code, out, err)
            if not keep:
                for f in (base + ".out", base + ".err", base + ".in", tmp):
                    if f and os.path.exists(f):
                        os.unlink(f)
            left -= 1
        th.join()
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=30)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.errf.close()
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _slurp(p, lim=8 << 20):
    try:
        with open(p, "rb") as f:
            return f.read(lim)
    except OSError:
        return b""


# --------------------------------------------------------------------------- verdicts

class Check:
    """One property's check: collects observations and violations, writes the evidence."""

    def __init__(self, prop, rule, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        self.prop = prop
        self.tier = "thorough" if "thorough" in argv else os.environ.get("VERIF_TIER") or "quick"
        if "quick" in argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.rule = rule
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.viol = []          # (key, text)
        self.counts = {}
        self.inconclusive = []
        self.assumptions = []
        self.known = load_known().get(prop, [])
        self.seen_known = set()
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)

    def server(self, variant, regen=False, **kw):
        """a ready fork server on a build of the tree; a runtime that cannot start violates the
        property whose programs it cannot run"""
        s = Server(build(variant, regen=regen), **kw)
        if not s.wait_ready():
            self.observe("startup")
            self.violate("startup", "the %s build of the runtime does not start: %s" % (variant, s.boot_error()))
            s.close()
            self.finish()
        return s

    def library(self, regen=False, variant="plain", env=None, jobs=NCPU, also=()):
        """a ready server with boot.min and the base library loaded.  Jobs are module files in its
        directory; they import the library as "lib/base.min" (a copy of the tree's)."""
        b = build(variant, regen=regen)
        d = tempfile.mkdtemp(prefix="lib-", dir=self.scratch)
        shutil.copytree(b + "/src/library", d + "/lib")
        with open(d + "/pre.min", "w") as f:
            f.write('(import %s)\n' % " ".join('"lib/%s"' % x for x in ("base.min",) + tuple(also)))
        s = Server(b, boot=True, preload="pre.min", jobs=jobs, env=env, scratch=d)
        if not s.wait_ready():
            self.observe("startup")
            self.violate("startup", "the runtime does not load the base library: %s" % s.boot_error())
            s.close()
            self.finish()
        return s

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def observe(self, key=None, n=1):
        self.evals += n
        if key is not None:
            self.distinct.add(hashlib.md5(repr(key).encode()).digest()[:10])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) else json.dumps(s))

    def violate(self, key, text, replay=None):
        """key: identifies the failing input / call site / history, stable across runs."""
        for k in self.known:
            if k["key"] == key:
                self.seen_known.add(key)
                return
        if len(self.viol) < 40:
            self.viol.append((key, text, replay))

    def expect(self, cond, key, text, replay=None):
        if not cond:
            self.violate(key, text, replay)
        return cond

    def finish(self):
        wall = time.time() - self.t0
        vio = []
        for i, (key, text, replay) in enumerate(self.viol[:10]):
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.txt" % (self.prop, i))
            with open(p, "w") as f:
                f.write("property %s\nkey %s\n%s\n" % (self.prop, key, text))
                if replay is not None:
                    f.write("---- replay input ----\n%s\n" % (replay if isinstance(replay, str) else repr(replay)))
            vio.append(p)
        ev = {
            "property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
            "level": "exploration",
            "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
                         "rule": self.rule, "samples": self.samples or ["none"],
                         "counts": self.counts, "inconclusive": len(self.inconclusive)},
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.viol),
        }
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (ROOT, self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for (key, text, _), p in zip(self.viol, vio):
            print("-- %s: %s" % (key, text[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs %s" % (
            self.prop, ev["tier"], self.evals, len(self.distinct), len(self.viol), len(self.inconclusive), wall,
            json.dumps(self.counts)))
        sys.stdout.flush()
        if self.viol:
            sys.exit(1)
        if self.evals == 0 or len(self.inconclusive) > max(3, self.evals // 20):
            die("inconclusive: %s" % self.inconclusive[:5])
        sys.exit(0)


def load_known():
    p = ROOT + "/known_findings.json"
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            out.setdefault(e["property"], []).append(e)
    return out


def main(fn):
    try:
        fn()
    except HarnessError as e:
        die(str(e))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
