#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random, re
import vp
from sexp import *
from refeval import *
import gencore

RULE = ("random type-directed core programs (closures, mutation, multiple values, loops, case-lambda, apply, eval, injected "
        "errors); a case is one program; non-trivial: it evaluates at least 20 steps in the reference interpreter")


def judge(out, err, r):
    """None if the real run agrees with the reference outcome"""
    if r.crashed:
        return "abnormal end: " + r.crashed
    if r.kind != "exit":
        return "did not finish: " + r.kind
    got = re.sub(rb"#<procedure:[^>]*>", b"#<procedure>", r.out)
    want = out.encode("latin1")
    if got != want:
        n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return "output differs at byte %d: expected ...%r, observed ...%r" % (n, want[max(0, n - 40):n + 80], got[max(0, n - 40):n + 80])
    if err is None:
        if r.code != 0 or r.err:
            return "expected normal end, observed %s" % r.brief()
    else:
        if r.code != 1:
            return "expected an error report (%s) and status 1, observed status %d" % (err.kind, r.code)
        if err.kind == "user":
            who, msg, *irr = err.detail
            want = ("%s: %s\n" % (who, msg.s)).encode()
            if not r.err.startswith(want) or any(write(x).encode() not in r.err for x in irr):
                return "error report %r lacks %r" % (r.err, want)
        elif not re.search(PATTERNS[err.kind], r.err):
            return "expected an error report of kind %s, observed %r" % (err.kind, r.err)
        if err.kind in ("unbound", "setundef") and str(err.detail[0]).encode() not in r.err:
            return "error report does not name %s: %r" % (err.detail[0], r.err)
    return None


def reference(forms, limit=60000):
    it = Interp(limit)
    try:
        _, e = it.run(forms)
        return "".join(it.out), e, it.steps
    except (TooLong, Skip, RecursionError):
        return None


def main():
    ck = vp.Check("C01", RULE)
    n = ck.n(9000, 120000)

    def make(base, count):
        progs = []
        for s in range(base, base + count):
            rng = random.Random("%d/%d" % (ck.seed, s))
            g = gencore.Gen(rng, size=rng.choice([15, 40, 80, 160, 300]), err=(s % 5 == 0))
            p = [gencore.idiom_program, lambda g: gencore.scope_program(rng), lambda g: g.program(), lambda g: g.program()][s % 4](g)
            ref = reference(p)
            if ref is None:
                ck.count("outside the model")
                continue
            for k in g.feat:
                ck.count("programs with " + k)
            progs.append((p, "\n".join(write(x) for x in p), ref))
        return progs

    servers = [("asan", ck.server("asan")), ("plain", ck.server("plain"))]
    try:
        for base in range(0, n, 1500):
            progs = vp_big(lambda: make(base, min(1500, n - base)))
            for variant, srv in servers:
                if variant == "plain" and not ck.thorough and base % 4500:
                    continue
                for attempt in (0, 1):
                    if attempt == 0:
                        idx = list(range(len(progs)))
                        rs = srv.run([dict(mode="evalw", text=t) for _, t, _ in progs], cpu=20)
                    else:
                        idx = [i for i in idx if rs[i] is not None and rs[i].kind == "timeout"]
                        if not idx:
                            break
                        r2 = srv.run([dict(mode="evalw", text=progs[i][1]) for i in idx], cpu=60)
                        rs = [None] * len(progs)
                        for i, r in zip(idx, r2):
                            rs[i] = r
                    for i in idx:
                        p, t, (out, err, steps) = progs[i]
                        r = rs[i]
                        if r.kind == "timeout" and attempt == 0:
                            continue
                        bad = judge(out, err, r)
                        ck.observe(t if steps >= 20 else None)
                        ck.count("forms evaluated", len(p))
                        ck.count("runs on " + variant)
                        if err:
                            ck.count("error runs: " + err.kind)
                        if bad:
                            ck.violate("program", "%s build: %s\nprogram:\n%s\nexpected output:\n%s(error: %s)\nobserved: %s" % (
                                variant, bad, t, out, err and (err.kind, err.detail), r.brief()), t)
                        elif i % 400 == 0:
                            ck.sample(t[:600])
            if len(ck.viol) > 5:
                break
    finally:
        for _, s in servers:
            s.close()
    ck.finish()


def vp_big(fn):
    return big_stack(fn)


if __name__ == "__main__":
    vp.main(main)
