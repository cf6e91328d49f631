#!/usr/bin/env python3
import _p
import glob, hashlib, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vp, derive, rdr, mon
from sexp import *
from refeval import big_stack
import c20

RULE = ("boot files generated by the real generator from the library's sources, under several working directories, spellings of paths, environments and address layouts, compared byte by "
        "byte; the system that starts from the generated file generates again (a third time if the file in the tree is another one); the generated file is read by an independent reader; a "
        "corpus of programs runs on both systems and must behave identically; a case is one generation or one program")


def generate(exe, lib, cwd, dst, env=None, pre=()):
    """-> (bytes or None, report)"""
    e = {"PATH": os.environ.get("PATH", ""), "LANG": "C"}
    e.update(env or {})
    try:
        x = subprocess.run(["bash", "-c", 'ulimit -v 12000000; exec "$@"', "x", *pre, exe, "-q", lib + "/gen-boot.min", lib, dst], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
    except subprocess.TimeoutExpired:
        return None, "no end after 500 s"
    if x.returncode != 0:
        return None, "status %d: %s" % (x.returncode, x.stdout.decode("latin1")[-500:])
    if not os.path.exists(dst):
        return None, "no boot file written: %s" % x.stdout.decode("latin1")[-500:]
    with open(dst, "rb") as f:
        return f.read(), x.stdout.decode("latin1")


def with_boot(d, boot, scratch, n):
    """a copy of build d whose boot file is the given one; the path of its CLI"""
    o = os.path.join(scratch, "sys%d" % n)
    shutil.copytree(d, o, symlinks=True, ignore=shutil.ignore_patterns("minim", "mserver", "*.o"))
    with open(o + "/src/boot/s/boot.min", "wb") as f:
        f.write(boot)
    shutil.rmtree(o + "/src/core/build", ignore_errors=True)
    shutil.rmtree(o + "/src/boot/build", ignore_errors=True)
    shutil.rmtree(o + "/src/gc/build", ignore_errors=True)
    shutil.rmtree(o + "/shim", ignore_errors=True)
    vp._compile(o, vp.VARIANTS["plain"])
    return o


def diff(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            return "line %d, column %d: %r against %r" % (i + 1, k, x[max(0, k - 60):k + 60], y[max(0, k - 60):k + 60])
    return "%d lines against %d" % (len(la), len(lb))


def shape(ck, boot):
    """the boot file, read by the independent reader: definitions, each name once"""
    forms = []
    for i, l in enumerate(boot.decode("latin1").split("\n")):
        try:
            d, err = rdr.parse_all(l)
        except rdr.Unjudged:
            ck.count("definitions not read: tokens outside of the judged syntax")
            continue
        if err or len(d) > 1:
            return "line %d of the generated file is not one datum: %s %r" % (i + 1, err, l[:200])
        forms += d
    seen = set()
    for f in forms:
        xs = unlist(f)[0] if isinstance(f, Pair) else None
        if not xs or xs[0] != "define-values" or len(xs) != 3 or not isinstance(xs[1], Pair):
            continue
        ck.count("definitions in the generated file")
        for n in unlist(xs[1])[0]:
            if n in seen:
                return "%s is defined twice in the generated file" % n
            seen.add(n)
    return None


def corpus(r, n):
    """texts of programs over lib/base.min"""
    out = []
    for p in sorted(glob.glob(vp.REPO + "/test/base/*.min")):
        with open(p) as f:
            t = f.read()
        out.append(("test " + os.path.basename(p), re.sub(r'"[./]*/src/library/', '"lib/', t)))
    class CK:
        def count(self, *a): pass
    for i in range(n):
        if i % 2:
            out.append(("pattern macros", c20.Case(r, CK()).text()))
        else:
            g = derive.G17(r)
            f = g.program()
            out.append(("derived forms", '(import "lib/base.min")\n' + "\n".join(write(x) if not isinstance(x, list) else write(tolst(x)) for x in f) + "\n"))
    return out


def tolst(x):
    return lst([tolst(y) for y in x]) if isinstance(x, list) else x


BADLIB = ['(import "lib/base.min")\n(car 5)', '(import "lib/base.min")\n(let ((x)) x)', '(import "lib/none.min")', '(import "lib/base.min")\n(define x 1)\n(undefined-name x)', '(import "lib/base.min")\n(export nope)',
          '(import "lib/base.min")\n(raise 5)', '(import "lib/base.min")\n(exit 7)', '(import "lib/base.min")\n(define-syntax (m stx) (syntax-case stx () [(_ a) #\'a]))\n(m)', '(import "lib/base.min")\n(display "x',
          '(import "lib/base.min")\n(lambda)', '(import "lib/base.min")\n(define (f x) (f x x))\n(f 1)', '(import "lib/base.min")\n#\\foo']


def clean(b, d):
    return re.sub(rb"/tmp/vp-[A-Za-z0-9]+-[^/ ]+/lib-[^/ ]+", b"DIR", b.replace(d.encode(), b"DIR"))


def behave(ck, srv, jobs):
    xs = srv.run([dict(mode="import", text=t) for _, t in jobs], cpu=60)
    res = []
    for (w, t), x in zip(jobs, xs):
        o = x.out
        # the names of generated identifiers may be printed in reports
        e = re.sub(rb"j\d+\.min", b"J.min", clean(x.err, srv.dir))
        o = re.sub(rb"j\d+\.min", b"J.min", clean(o, srv.dir))
        res.append((x.kind, x.code, o, e.split(b"\n")[0], x))
    return res


def main():
    ck = vp.Check("C19", RULE)
    r = ck.rng
    d0 = vp.build("plain")
    with open(d0 + "/src/boot/s/boot.min", "rb") as f:
        boot0 = f.read()
    s = ck.scratch
    far = os.path.join(s, "a dir", "x" * 120)
    shutil.copytree(d0 + "/src/library", far + "/src/library")
    lib2 = os.path.join(s, "lib2")
    shutil.copytree(d0 + "/src/library", lib2)
    runs = [("relative paths", d0 + "/src/library" if False else "src/library", d0, {}, ()),
            ("absolute path, far directory", far + "/src/library", "/", {"LANG": "C.UTF-8", "HOME": "/nonexistent", "X" * 3000: "y" * 30000}, ()),
            ("library beside the working directory, no address randomisation", "../lib2", os.path.join(s, "a dir"), {"MALLOC_PERTURB_": "85"}, ("setarch", "-R"))]
    if ck.thorough:
        runs += [("repetition %d" % i, d0 + "/src/library", s, {"V": "v" * (997 * i), "MALLOC_PERTURB_": str(17 * i + 1)}, ()) for i in range(1, 5)]
    ok = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    ex = ThreadPoolExecutor(8)
    futs = [(n, ex.submit(generate, d0 + "/minim", lib, cwd, os.path.join(s, "boot%d.min" % i), env, pre if ok else ())) for i, (n, lib, cwd, env, pre) in enumerate(runs)]
    # meanwhile, two starts of the system in the tree run the corpus
    jobs = corpus(r, ck.n(160, 3000)) + [("rejected program", t) for t in BADLIB]
    sa = ck.library()
    ra = behave(ck, sa, jobs)
    boots = []
    for n, f in futs:
        b, rep = f.result()
        ck.observe("generation: " + n)
        ck.count("generations")
        if b is None:
            ck.violate("generation fails", "the generator fails (%s): %s" % (n, rep), n)
            continue
        if not re.search("Generating boot file", rep):
            ck.violate("generation report", "unexpected report %r" % rep, n)
        boots.append((n, b))
    if boots:
        n1, b1 = boots[0]
        for n, b in boots[1:]:
            if b != b1:
                ck.violate("generation depends on the surroundings", "runs '%s' and '%s' of the generator differ at %s" % (n1, n, diff(b1, b)), n)
        ck.count("bytes of the generated file", len(b1))
        e = big_stack(lambda: shape(ck, b1))
        if e:
            ck.violate("shape", e, "boot file")
        if b1 == boot0:
            ck.count("the generated file is the one the generator started from")
            sb = ck.library(env={"MALLOC_PERTURB_": "85"})
            what = "the same system started again"
        else:
            ck.count("the generated file differs from the tree's: next generations run")
            d1 = with_boot(d0, b1, s, 1)
            b2, rep = generate(d1 + "/minim", d0 + "/src/library", s, s + "/second.min")
            if b2 is None:
                ck.violate("second generation fails", "the system started from the generated file cannot generate: %s" % rep, "second")
            elif b2 != b1:
                d2 = with_boot(d0, b2, s, 2)
                b3, rep = generate(d2 + "/minim", d0 + "/src/library", s, s + "/third.min")
                if b3 is None:
                    ck.violate("third generation fails", "the system of the second generation cannot generate: %s" % rep, "third")
                elif b3 != b2:
                    ck.violate("no fixpoint", "the second and third generation differ at %s" % diff(b2, b3), "third")
                ck.count("generations", 2)
            else:
                ck.count("generations")
            sb = None
            try:
                sb = ck.library(regen=True)
            except vp.HarnessError as e:
                ck.violate("second system", "the system started from the generated file does not load the library: %s" % str(e)[-600:], "second")
            what = "the system started from the generated file"
        if sb:
            rb = behave(ck, sb, jobs)
            for (w, t), a, b in zip(jobs, ra, rb):
                ck.observe(t)
                ck.count("programs on both systems: " + w.split()[0] + ("" if w.startswith("test") else " " + w.split()[1]))
                ck.count("bytes of output compared", len(a[2]))
                x = b[4]
                if a[4].kind == "timeout" or x.kind == "timeout":
                    ck.count("programs not judged: time")
                elif a[:4] != b[:4]:
                    ck.violate("behaviour (%s)" % what, "%s behaves differently on %s\nprogram\n%s\nfirst %s\nsecond %s" % (w, what, t, a[4].brief(), x.brief()), t)
                elif w.startswith("test") and (a[0] != "exit" or a[1] != 0 or b"FAIL" in a[2]):
                    ck.violate("test program", "%s fails on both systems: %s" % (w, a[4].brief()), t)
            sb.close()
    sa.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
