#!/usr/bin/env python3
import _p
import os, random
import vp, core
from sexp import *
import gendata
from c06 import expr

RULE = ("streams of random serialisable values and records written with fasl-write and read with fasl-read (values compared with equal? and with the "
        "model's text), every kind of unserialisable value, every truncation of short streams, and damaged or invented byte strings, whose "
        "decoding is compared with an independent decoder of the documented format; a case is one stream")
S = Sym
HEAD = """
(define-values (build) (lambda (xs t) (if (null? xs) t (cons (car xs) (build (cdr xs) t)))))
(define-values (show-rtd) (lambda (t)
  (write (list (record-type-name t) (record-type-uid t) (record-type-sealed? t) (record-type-opaque? t) (record-type-field-names t)
               (map (lambda (i) (record-type-field-mutable? t i)) (iota (vector-length (record-type-field-names t))))))
  (if (record-type-parent t) (begin (display " : ") (show-rtd (record-type-parent t))) (void))))
(define-values (fields) (lambda (t x)
  (if (record-type-parent t) (fields (record-type-parent t) x) (void))
  (for-each (lambda (i) (display " ") (show ((record-accessor t i) x))) (iota (vector-length (record-type-field-names t))))))
(define-values (show) (lambda (x)
  (if (record-type-descriptor? x) (begin (display "[rtd ") (show-rtd x) (display "]"))
  (if (record? x) (begin (display "[rec ") (show-rtd (record-rtd x)) (fields (record-rtd x) x) (display "]"))
  (if (pair? x) (begin (display "(") (show (car x)) (display " . ") (show (cdr x)) (display ")"))
  (if (vector? x) (begin (display "#(") (for-each (lambda (y) (show y) (display " ")) (vector->list x)) (display ")"))
  (write x)))))))
"""


class Rtd:
    def __init__(self, name, parent, uid, sealed, opaque, fields, var):
        self.__dict__.update(locals())

    def written(self):
        d = write(lst([S(self.name), S(self.uid) if self.uid else False, self.sealed, self.opaque, Vec([S(f) for _, f in self.fields]),
                       lst([m == "mutable" for m, _ in self.fields])]))
        return d + (" : " + self.parent.written() if self.parent else "")


class Rec:
    def __init__(self, rtd, vals):
        self.rtd, self.vals = rtd, vals


def show(x):
    if isinstance(x, Rtd):
        return "[rtd %s]" % x.written()
    if isinstance(x, Rec):
        return "[rec %s%s]" % (x.rtd.written(), "".join(" " + show(v) for v in x.vals))
    if isinstance(x, Pair):
        return "(%s . %s)" % (show(x.a), show(x.d))
    if isinstance(x, Vec):
        return "#(%s)" % "".join(show(y) + " " for y in x.v)
    return write(x)


def rexpr(x, r):
    if isinstance(x, Rtd):
        return x.var
    if isinstance(x, Rec):
        return "(mk-%s %s)" % (x.rtd.var, " ".join(rexpr(v, r) for v in x.vals))
    if isinstance(x, Pair):
        return "(cons %s %s)" % (rexpr(x.a, r), rexpr(x.d, r))
    if isinstance(x, Vec):
        return "(vector %s)" % " ".join(rexpr(y, r) for y in x.v)
    return sexpr(x, r)


def sexpr(v, r):
    return expr(v, r)


def data(r, d):
    """serialisable data"""
    v = gendata.data(r, d)

    def fix(v, k=0):
        if isinstance(v, Box):
            return fix(v.v)
        if isinstance(v, Pair):
            xs, t = unlist(v)
            return lst([fix(x) for x in xs], fix(t))
        if isinstance(v, Vec):
            return Vec([fix(x) for x in v.v])
        if v is NIL and r.random() < .3:
            return r.choice([VOID, EOF, Vec([]), NIL])
        return v
    v = fix(v)
    if r.random() < .1:
        v = r.choice([r.randint(-(1 << 63), (1 << 63) - 1), 1 << r.randint(0, 62), (1 << r.randint(0, 62)) - 1, -(1 << r.randint(0, 63)),
                      S("s" * r.choice([127, 128, 129, 1023, 1024, 1025, 4000])), Str("t" * r.choice([127, 128, 1023, 1024, 1025, 2048, 2049, 16383, 16384])),
                      Vec(range(r.choice([126, 127, 128, 129, 300]))), lst(range(r.choice([126, 127, 128, 129, 300]))), Char(chr(r.randrange(256)))])
    return v


# independent encoder and decoder; the tags are learned from the real writer
class Bad(Exception):
    pass


class Unknown(Exception):
    pass


def uptr(u):
    out = bytearray()
    u &= (1 << 64) - 1
    while True:
        b, u = u & 127, u >> 7
        out.append(b << 1 | (1 if u else 0))
        if not u:
            return bytes(out)


class Codec:
    def __init__(self, tags):
        self.t = tags
        self.of = {v: k for k, v in tags.items()}

    def enc(self, v):
        t = self.t
        one = lambda k: bytes([t[k]])
        if v is True or v is False:
            return one(repr(v))
        if isinstance(v, Sym):
            return one("sym") + uptr(len(v)) + v.encode("latin1")
        if isinstance(v, int):
            return one("fix") + uptr(v)
        if isinstance(v, Str):
            return one("str") + uptr(len(v.s)) + v.s.encode("latin1")
        if isinstance(v, Char):
            return one("char") + v.c.encode("latin1")
        if isinstance(v, Const):
            return one(v.w)
        if isinstance(v, Vec):
            return one("vec") + uptr(len(v.v)) + b"".join(map(self.enc, v.v)) if v.v else one("vec0")
        xs, e = unlist(v)
        return one("pair") + uptr(len(xs)) + b"".join(map(self.enc, xs)) + self.enc(e)

    def dec(self, b, i):
        def byte():
            nonlocal i
            if i >= len(b):
                raise Bad()
            i += 1
            return b[i - 1]

        def up():
            u = o = 0
            while True:
                if o >= 70:
                    raise Bad()
                x = byte()
                u |= (x >> 1) << o
                o += 7
                if not x & 1:
                    return u & ((1 << 64) - 1)

        def chars():
            nonlocal i
            n = up()
            if n > len(b) - i:
                raise Bad()
            s = b[i:i + n].decode("latin1")
            i += n
            return s

        def val(d=0):
            if d > 900:
                raise Unknown()
            k = self.of.get(byte())
            if k is None:
                raise Bad()
            if k in ("True", "False"):
                return k == "True"
            if k == "sym" or k == "str":
                s = chars()
                if "\0" in s or (k == "sym" and not s):
                    raise Unknown()
                return (S if k == "sym" else Str)(s)
            if k == "fix":
                u = up()
                return u - (1 << 64) if u >> 63 else u
            if k == "char":
                return Char(chr(byte()))
            if k == "vec0":
                return Vec([])
            if k == "vec":
                n = up()
                return Vec(many(n, d))
            if k == "pair":
                n = up()
                if n == 0:
                    raise Bad()
                xs = many(n, d)
                return lst(xs, val(d + 1))
            if k == "rec":
                raise Unknown()
            if k == "rtd":
                raise Bad()
            return {"()": NIL, "#<void>": VOID, "#<eof>": EOF}[k]

        def many(n, d):
            out = []
            for _ in range(n):
                out.append(val(d + 1))
            return out
        return val(), i

    def stream(self, b):
        """-> values that precede the first malformed one (the end of the stream counts as malformed), unknown?"""
        out, i = [], 0
        while True:
            try:
                v, i = self.dec(b, i)
            except Bad:
                return out, False
            except Unknown:
                return out, True
            out.append(v)


UNSER = ["car", "(lambda (x) x)", "(box 1)", "(make-hashtable)", "(make-eq-hashtable)", "(current-output-port)", "#'a", "(open-input-string \"x\")",
         "(list 1 (box 2))", "(vector 1 car)", "(cons 1 (make-hashtable))"]


def main():
    ck = vp.Check("C07", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    seq = [0]

    def path(srv):
        seq[0] += 1
        return "%s/f%d.bin" % (srv.dir, seq[0])

    def go(srv, jobs, cpu=20, mem=0):
        return srv.run([dict(mode="evalw", text=t) for t in jobs], cpu=cpu, mem=mem)

    def bad(x, w, code=0):
        if x.crashed:
            return "abnormal end: " + x.crashed
        if x.kind != "exit":
            return "did not finish: " + x.kind
        if x.out != w.encode("latin1"):
            n = next((i for i, (a, b) in enumerate(zip(x.out, w.encode("latin1"))) if a != b), min(len(x.out), len(w)))
            return "output differs at byte %d: expected ...%r, observed ...%r" % (n, w[max(0, n - 80):n + 150], x.out[max(0, n - 80):n + 150])
        if x.code != code or bool(x.err.strip()) != bool(code):
            return "status or error report"

    READ = "(letrec-values ([(go) (lambda (p) (let-values ([(x) (fasl-read p)]) (show x) (newline) (go p)))]) (go (open-input-file \"%s\")))"

    try:
        # learn the tags of the format
        probes = [("()", NIL), ("True", True), ("False", False), ("#<eof>", EOF), ("#<void>", VOID), ("sym", S("a")), ("str", Str("a")), ("fix", 0),
                  ("char", Char("a")), ("pair", lst([1])), ("vec0", Vec([])), ("vec", Vec([1]))]
        tags = {}
        p0 = path(asan)
        t = "(define-values (p) (open-output-file \"%s\"))" % p0
        offs = []
        for k, v in probes:
            pk = path(asan)
            offs.append(pk)
            t += "(let-values ([(p) (open-output-file \"%s\")]) (fasl-write %s p) (close-output-port p))\n" % (pk, "'#()" if k == "vec0" else sexpr(v, random.Random(1)))
        go(asan, [t])
        cod = None
        try:
            for (k, v), f in zip(probes, offs):
                tags[k] = open(f, "rb").read()[0]
            cod = Codec(tags)
        except (OSError, IndexError):
            ck.violate("probe", "fasl-write wrote nothing for simple values\nprogram:\n" + t, t)
        for rnd in range(ck.n(1, 20)):
            if cod is None:
                break
            # round trips
            streams = []
            for _ in range(420):
                vs = [data(r, r.choice([0, 1, 2, 3, 4])) for _ in range(r.choice([1, 2, 4, 8]))]
                streams.append(vs)
            for srv, name, part in ((asan, "asan", streams), (plain, "plain", streams[:120])):
                texts, wants, files = [], [], []
                for vs in part:
                    f = path(srv)
                    files.append(f)
                    t = [HEAD, "(define-values (o) (open-output-file \"%s\"))" % f, "(define-values (vs) '())"]
                    for v in vs:
                        t.append("(begin (set! vs (cons %s vs)) (fasl-write (car vs) o))" % sexpr(v, r))
                    t.append("(close-output-port o)\n(set! vs (reverse vs))\n(define-values (i) (open-input-file \"%s\"))" % f)
                    t.append("(for-each (lambda (v) (let-values ([(x) (fasl-read i)]) (write x) (newline) (write (list (equal? x v) (equal? v x) (= (equal-hash x) (equal-hash v)))) (newline))) vs)")
                    t.append("(fasl-read i)")
                    texts.append("\n".join(t))
                    wants.append("#<void>\n" * (len(vs) + 9) + "".join(write(v) + "\n(#t #t #t)\n" for v in vs) + "#<void>\n")
                for vs, t, w, f, x in zip(part, texts, wants, files, go(srv, texts, cpu=40)):
                    ck.observe(t)
                    ck.count("streams written and read, " + name)
                    ck.count("values written and read, " + name, len(vs))
                    b = bad(x, w, 1)
                    if b:
                        ck.violate("stream", "%s: %s\nprogram:\n%s\nobserved: %s" % (name, b, t[-4000:], x.brief()), t)
                    elif "malformed" not in x.err.decode("latin1"):
                        ck.violate("stream", "%s: reading past the last value is not reported as malformed\nprogram:\n%s\nobserved: %s" % (name, t[-4000:], x.brief()), t)
                    elif name == "asan" and b"".join(map(cod.enc, vs)) == open(f, "rb").read():
                        ck.count("streams encoded as documented")
            ck.sample(texts[0][-600:])
            # records
            texts, wants = [], []
            for _ in range(120):
                rtds, t = [], [HEAD]
                for k in range(r.randint(1, 4)):
                    par = r.choice([None] + [x for x in rtds if not x.sealed]) if rtds else None
                    fs = [(r.choice(["mutable", "immutable"]), "f%d" % i) for i in range(r.choice([0, 1, 2, 3, 9]))]
                    x = Rtd(r.choice(["pt", "q", "r%d" % k]), par, r.choice([None, "uid%d" % k]), r.random() < .2, False, fs, "t%d" % k)
                    rtds.append(x)
                    t.append("(define-values (t%d) (make-record-type-descriptor '%s %s %s %s #f '#(%s)))" % (
                        k, x.name, par.var if par else "#f", "'" + x.uid if x.uid else "#f", "#t" if x.sealed else "#f", " ".join("(%s %s)" % f for f in fs)))
                    t.append("(define-values (mk-t%d) (record-constructor t%d))" % (k, k))

                def rec(d):
                    x = r.choice(rtds)
                    n, q = 0, x
                    while q:
                        n += len(q.fields)
                        q = q.parent
                    return Rec(x, [val(d - 1) for _ in range(n)])

                def val(d):
                    k = r.random()
                    if k < .15:
                        return r.choice(rtds)
                    if k < .5 and d > 0:
                        return rec(d)
                    if k < .6 and d > 0:
                        return Pair(val(d - 1), val(d - 1))
                    if k < .7 and d > 0:
                        return Vec([val(d - 1) for _ in range(3)])
                    return data(r, 1)
                vs = [val(3) for _ in range(3)] + [rec(2)]
                f = path(asan)
                t.append("(define-values (o) (open-output-file \"%s\"))" % f)
                t += ["(fasl-write %s o)" % rexpr(v, r) for v in vs]
                t.append("(close-output-port o)")
                t.append(READ % f)
                texts.append("\n".join(t))
                wants.append("#<void>\n" * (4 + 2 * len(rtds) + 1 + len(vs) + 1) + "".join(show(v) + "\n" for v in vs))
            for t, w, x in zip(texts, wants, go(asan, texts, cpu=40)):
                ck.observe(t)
                ck.count("record streams")
                b = bad(x, w, 1)
                if b:
                    ck.violate("records", "%s\nprogram:\n%s\nobserved: %s" % (b, t[len(HEAD):][-4000:], x.brief()), t)
            # what is not serialisable
            texts = ["(define-values (o) (open-output-file \"%s\"))\n(fasl-write %s o)" % (path(asan), u) for u in UNSER]
            for t, x in zip(texts, go(asan, texts)):
                ck.observe(t)
                ck.count("unserialisable values")
                if bad(x, "#<void>\n", 1):
                    ck.violate("unserialisable", "%s\nprogram:\n%s\nobserved: %s" % (bad(x, "#<void>\n", 1), t, x.brief()), t)
            # damage
            blobs = []
            for vs in streams[:ck.n(60, 150)]:
                b = b"".join(map(cod.enc, vs[:2]))
                if len(b) < 60:
                    blobs += [b[:i] for i in range(len(b))]
            for _ in range(1100):
                vs = r.choice(streams)[:3]
                b = bytearray(b"".join(map(cod.enc, vs)))
                for _ in range(r.choice([1, 1, 1, 2, 5])):
                    i = r.randrange(len(b)) if b else 0
                    k = r.random()
                    if k < .35 and b:
                        b[i] ^= 1 << r.randrange(8)
                    elif k < .55 and b:
                        b[i] = r.choice([0, 1, 2, 127, 128, 254, 255, r.randrange(256)] + list(tags.values()))
                    elif k < .7 and b:
                        del b[i:i + r.choice([1, 1, 2, 8])]
                    elif k < .85:
                        b[i:i] = bytes(r.choice([0, 1, 2, 255, 128, r.randrange(256)] + list(tags.values())) for _ in range(r.choice([1, 1, 2, 9, 11])))
                    else:
                        b = b[:i]
                blobs.append(bytes(b))
            for _ in range(250):
                blobs.append(bytes(r.choice([r.randrange(256), r.choice(list(tags.values())), r.randrange(16)]) for _ in range(r.choice([1, 2, 3, 5, 10, 40]))))
            # records damaged: only the manner of ending is judged
            rfiles = [t.split('open-output-file "')[1].split('"')[0] for t in texts if 0]
            big = [bytes([tags["str"]]) + uptr(n) for n in (1 << 20, 1 << 31, 1 << 40, (1 << 63) - 1, (1 << 64) - 1, 1 << 62)]
            big += [bytes([tags["sym"]]) + uptr(n) + b"abc" for n in (1 << 31, 1 << 45, (1 << 64) - 1)]
            big += [bytes([tags[k]]) + uptr(n) + bytes([tags["()"]]) * 5 for k in ("vec", "pair") for n in (1 << 20, 1 << 31, 1 << 40, (1 << 63) - 1, (1 << 64) - 1)]
            big += [bytes([tags["fix"]]) + b"\xff" * n + b"\x00" for n in (8, 9, 10, 11, 30)]
            big += [(bytes([tags["vec"]]) + uptr(1)) * 500, (bytes([tags["pair"]]) + uptr(2)) * 500]
            blobs = sorted(set(blobs + big), key=lambda b: (len(b), b))
            texts, info = [], []
            for b in blobs:
                f = path(asan)
                with open(f, "wb") as h:
                    h.write(b)
                texts.append(HEAD.replace("\n(define-values (fields)", " (define-values (fields)") + READ % f)
                info.append((b, cod.stream(b)))
            for srv, name, sel in ((asan, "asan", slice(None)), (plain, "plain, 256 MB", slice(0, None, 6))):
                if name != "asan":
                    sel = [i for i in range(len(blobs)) if i % 6 == 0 or blobs[i] in big]
                else:
                    sel = range(len(blobs))
                rs = go(srv, [texts[i] for i in sel], cpu=20, mem=256 if name != "asan" else 0)
                for i, x in zip(sel, rs):
                    b, (vs, unk) = info[i]
                    ck.observe((name, b))
                    ck.count("damaged streams, " + name)
                    w = "#<void>\n" * 4 + "".join(show(v) + "\n" for v in vs)
                    if unk:
                        ck.count("damaged streams watched only for a clean end")
                        e = x.crashed or (x.kind != "exit" and x.kind) or (x.code not in (0, 1) and "status") or (x.code == 1 and not x.err and "silent error") or None
                    else:
                        e = bad(x, w, 1)
                        if not e and "malformed" not in x.err.decode("latin1"):
                            e = "not reported as malformed"
                    if e:
                        ck.violate("damage", "%s: %s\nbytes: %r\nexpected values: %s\nobserved: %s" % (name, e, b, [show(v) for v in vs], x.brief()), b.hex())
            if ck.viol:
                break
            # damaged record streams
            src = HEAD + """(define-values (t0) (make-record-type-descriptor 'a #f #f #f #f '#((mutable x))))
(define-values (t1) (make-record-type-descriptor 'b t0 'u #f #f '#((mutable y) (immutable z))))
(define-values (o) (open-output-file "%s"))
(fasl-write ((record-constructor t1) 1 '(2 . "s") t0) o) (close-output-port o)"""
            f = path(asan)
            go(asan, [src % f])
            base = open(f, "rb").read()
            blobs = [base[:i] for i in range(len(base))]
            for _ in range(500):
                b = bytearray(base)
                for _ in range(r.choice([1, 1, 2, 3])):
                    b[r.randrange(len(b))] = r.choice([r.randrange(256), r.randrange(20), b[r.randrange(len(b))]])
                blobs.append(bytes(b))
            texts = []
            for b in blobs:
                f = path(asan)
                with open(f, "wb") as h:
                    h.write(b)
                texts.append(HEAD + READ % f)
            for b, t, x in zip(blobs, texts, go(asan, texts)):
                ck.observe(b)
                ck.count("damaged record streams")
                e = x.crashed or (x.kind != "exit" and x.kind) or (x.code != 1 and "no error") or (not x.err and "silent error") or None
                if e or (b in [base[:i] for i in range(len(base))] and x.out != b"#<void>\n" * 4):
                    ck.violate("record damage", "%s\nbytes: %r\nobserved: %s" % (e or "a value from an incomplete stream", b, x.brief()), b.hex())
    finally:
        asan.close()
        plain.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
