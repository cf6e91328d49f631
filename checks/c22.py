#!/usr/bin/env python3
import _p
import os, re, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vp

RULE = ("random histories of every public operation of minim-gc (each allocation, realloc, free, roots, destructors, markers, pause, statistics, allocations that fail, blocks held only by "
        "one register, nested stack frames) against a shadow heap, with and without sanitizers; "
        "a case is one history")

WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"
KINDS = {
    # where the leftovers of instrumented frames keep blocks alive, what is retained is not judged
    "plain": "-O2 -g -no-pie -DMISS=1000000000",
    "asan": "-O1 -g -no-pie -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=object-size -DMISS=1000000000",
}
NAMES = ["mixed", "few plain blocks", "rare collections", "large blocks", "failing allocations", "chains", "garbage", "crowded"]


def build(ck):
    d = ck.scratch + "/gc"
    shutil.copytree(vp.REPO + "/src/gc/minim-gc", d, ignore=shutil.ignore_patterns("build", "*.a", "*.o"))
    srcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))
    out = {}
    for k, fl in KINDS.items():
        exe = "%s/drive.%s" % (ck.scratch, k)
        r = vp.run("gcc -w %s -I%s %s/harness/gcdrive.c %s %s -o %s" % (fl, d, vp.ROOT, " ".join(srcs), WRAP, exe), shell=True)
        if r.returncode:
            raise vp.HarnessError("the driver of the collector does not build: " + r.stdout[-2000:])
        out[k] = exe
    return out


def histories(ck, exes):
    r = ck.rng
    jobs = []
    for k in KINDS:
        n = ck.n(60, 1500) if k == "plain" else ck.n(30, 700)
        for i in range(n):
            big = i % 20 == 0
            ops = (60000 if ck.thorough else 20000) if big else r.choice([300, 1500, 6000])
            if k == "asan":
                ops //= 3
            jobs.append((k, r.randrange(1, 1 << 31), ops, 1 + r.randrange(2) if big else (0, 1, 2, 3, 4, 7)[i % 6]))
            if jobs[-1][3] == 7:
                jobs[-1] = jobs[-1][:2] + (min(ops, 600), 7)
        jobs += [(k, 1, 1, 5), (k, 1, 1, 6)]
    env = vp.env_for({"ASAN_OPTIONS": vp.SAN_ENV["ASAN_OPTIONS"].replace("max_redzone=64:", "")})

    def one(j):
        k, seed, ops, prof = j
        try:
            p = subprocess.run([exes[k], str(seed), str(ops), str(prof)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
            return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired:
            return None, "", "no end within 300 s"
    retained, runs = {}, {}
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for j, (rc, out, err) in zip(jobs, ex.map(one, jobs)):
            k, seed, ops, prof = j
            ck.observe(j)
            ck.count("histories, %s, %s" % (NAMES[prof], k))
            m = re.search(r"^OK (.*)", out, re.M)
            if rc != 0 or not m:
                err = "\n".join(x for x in err.split("\n") if "WARNING: AddressSanitizer failed to allocate" not in x)
                bad = re.search(r"^BROKEN.*", out, re.M)
                ck.violate("history", "%s\n%s build, history %d, %d operations, kind \"%s\": status %s\n%s" % (
                    bad.group(0) if bad else "the driver ended", k, seed, ops, NAMES[prof], rc, err[:3000]),
                    "gcdrive %d %d %d (%s build of harness/gcdrive.c with src/gc/minim-gc)\n%s\n%s" % (seed, ops, prof, k, out[-2000:], err[:6000]))
                if len(ck.viol) > 5:
                    return
                continue
            s = {a: int(b) for a, b in (x.split("=") for x in m.group(1).split())}
            for a, b in (("operations", "ops"), ("blocks allocated", "alloc"), ("collections asked for", "collect"), ("collections of its own", "auto"), ("destructor calls", "dtor"),
                         ("blocks freed explicitly", "free"), ("reallocations", "realloc"), ("words written", "write"), ("blocks compared with the shadow", "verify"),
                         ("blocks found unreachable", "freed"), ("allocations that failed", "null"), ("failures injected", "injected"), ("blocks held by one register", "reg"),
                         ("stack frames", "frames"), ("statistics compared", "reach")):
                ck.count(a, s[b])
            if prof not in (5, 6):
                ck.sample("%s seed=%d: %s" % (k, seed, m.group(1)))
            if k == "plain" and prof not in (5, 6) and s["collect"] > 5:
                for g in (prof, "all"):
                    runs[g] = runs.get(g, 0) + 1
                    retained[g] = retained.get(g, 0) + (s["maxmiss"] >= 20)
    # now and then a stale word on the stack keeps a block; a collector that does not release what it should does so in most histories
    ck.count("histories in which a stale word kept a block for long", retained.get("all", 0))
    for g in runs:
        if runs[g] >= 8 and retained[g] > runs[g] * (4 if g == "all" else 5) // 10:
            ck.violate("retained", "in %d of %d histories (%s) blocks that nothing reaches stay after 20 collections" % (
                retained[g], runs[g], g if g == "all" else NAMES[g]), "gcdrive, many histories")


def main():
    ck = vp.Check("C22", RULE)
    histories(ck, build(ck))
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
