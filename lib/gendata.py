"""Random data, and texts that denote them in every way the syntax allows."""
from sexp import *

SYMCH = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789!$%&*+-/:<=>?^_~.@|`,\\'#"
STRCH = [chr(i) for i in range(1, 256)]
ESCOUT = {"\n": "\\n", "\t": "\\t", "\a": "\\a", "\b": "\\b", "\f": "\\f", "\r": "\\r", "\v": "\\v", "\\": "\\\\", '"': '\\"'}
INTS = [0, 1, -1, 9, 10, -10, 255, (1 << 63) - 1, -(1 << 63), 1 << 32, 99999]


def issym(s):
    """can s be written as a symbol?"""
    import rdr
    try:
        v = rdr.Reader(s).read()
        w = rdr.Reader(s, core=False).read()
    except (rdr.ReadErr, rdr.Unjudged, IndexError):
        return False
    return isinstance(v, Sym) and isinstance(w, Sym) and v == s and w == s


def symbol(r):
    while True:
        k = r.random()
        n = r.choice([1, 1, 2, 3, 3, 5, 8]) if k < .97 else r.randint(20, 300)
        s = "".join(r.choice(SYMCH if k < .6 else SYMCH[:29]) for _ in range(n))
        if r.random() < .15:
            s = r.choice(["+", "-", "...", "..", "->x", "+a", "-b", "1+", "1a", "-1a", "1/2", "1.5", "+-1", "a.b", "a'b", "a#b", "--", "0x1", "1e5", "&a", "a|b"])
        if s[0] not in "'#`,;\"" and issym(s):
            return Sym(s)


def string(r):
    n = r.choice([0, 1, 2, 4, 8, 8, 20]) if r.random() < .98 else r.randint(100, 2000)
    pool = STRCH if r.random() < .4 else list("abc xyz\n\t\"\\'();#|,.0")
    return Str("".join(r.choice(pool) for _ in range(n)))


def char(r):
    k = r.random()
    if k < .3:
        return Char(chr(r.choice([7, 8, 9, 10, 11, 12, 13, 27, 32, 127])))
    if k < .6:
        return Char(chr(r.randrange(1, 256)))
    return Char(r.choice("abcxntrs0159()[]{}'\"#;\\,.`+-"))


def integer(r):
    return r.choice(INTS) if r.random() < .3 else r.randint(-(1 << 63), (1 << 63) - 1) if r.random() < .3 else r.randint(-1000, 1000)


def data(r, d, stx=False):
    k = r.random()
    if d <= 0 or k < .35:
        return r.choice([integer, symbol, string, char, lambda r: r.random() < .5, lambda r: NIL])(r)
    n = r.choice([0, 1, 2, 3, 3, 5]) if r.random() < .97 else r.randint(20, 200)
    sub = lambda: data(r, d - 1 if n < 20 else 0)
    if k < .65:
        return lst([sub() for _ in range(n)])
    if k < .75:
        t = sub()
        return lst([sub() for _ in range(max(1, n))], t)
    if k < .87:
        return Vec([sub() for _ in range(n)])
    if k < .93:
        return Box(sub())
    return lst([Sym("quote"), sub()])


def blank(r, force=False):
    """whitespace and comments"""
    k = r.random()
    if not force and k < .5:
        return ""
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        if k < .75:
            out.append(r.choice([" ", "  ", "\n", "\t", "\r\n", "\f", "\v"]))
        elif k < .84:
            out.append(";" + r.choice(["", " "]) + (r.choice(["x", "( \"", "#|", "#;", "'", "|#", "", ";"]) if r.random() < .6 else
                               "".join(r.choice("x1 ()[]{}\"'#;|\\.,\r\t\f\v\x01\x7f\x80\xff") for _ in range(r.randint(1, 8)))) + "\n")
        elif k < .93:
            out.append(" #|" + r.choice(["", " a ", "|", "#", "||", "##", "# |", " #| b |# ", "#||#", " ( \" ; ", "#|#||#|#", "\n"]) + "|# ")
        else:
            out.append(" #;" + r.choice(["x", "(a b)", "\"s)\"", " 5", "#(1 (2))", "#\\(", "'a", "#;b c", "#| |# q", "[1 {2}]", "#&3"]) + " ")
    return "".join(out) if out else " "


def render(v, r):
    """a random text that denotes v"""
    if isinstance(v, bool):
        return "#t" if v else "#f"
    if isinstance(v, int):
        k = r.random()
        if k < .15:
            return "#x" + r.choice(["", "+"] if v >= 0 else [""]) + ("-" if v < 0 else "") + r.choice(["%x", "%X"]) % abs(v)
        if k < .25 and v >= 0:
            return "+%d" % v
        if k < .3:
            return ("-" if v < 0 else "") + "0" * r.randint(1, 3) + str(abs(v))
        return str(v)
    if isinstance(v, Sym):
        return str(v)
    if isinstance(v, Str):
        return '"' + "".join(ESCOUT[c] if c in '\\"' or (c in ESCOUT and r.random() < .6) else "\\'" if c == "'" and r.random() < .3 else c for c in v.s) + '"'
    if isinstance(v, Char):
        o = ord(v.c)
        names = {7: ["alarm"], 8: ["backspace"], 127: ["delete"], 27: ["esc"], 10: ["linefeed", "newline"], 12: ["page"], 13: ["return"], 32: ["space"], 9: ["tab"], 11: ["vtab"]}.get(o)
        return "#\\" + (r.choice(names) if names and r.random() < .7 else v.c)
    if v is NIL:
        o = r.choice("([{")
        return o + blank(r) + {"(": ")", "[": "]", "{": "}"}[o]
    if isinstance(v, Box):
        return "#&" + blank(r) + render(v.v, r)
    if isinstance(v, Vec):
        return "#(" + items(v.v, r) + ")"
    if isinstance(v, Pair):
        xs, t = unlist(v)
        if t is NIL and len(xs) == 2 and isinstance(xs[0], Sym) and xs[0] == "quote" and r.random() < .8:
            return "'" + blank(r) + render(xs[1], r)
        o = r.choice("(((([{")
        # a list can be written with a dot before its remaining list
        k = len(xs)
        tail = ""
        if t is NIL and k > 1 and r.random() < .08:
            k = r.randint(1, k - 1)
            tail = " . " + render(lst(xs[k:]), r) + blank(r)
        elif t is not NIL:
            tail = " ." + blank(r, True).replace("\x00", "") if 0 else " . "
            tail += blank(r) + render(t, r) + blank(r)
        return o + items(xs[:k], r) + tail + {"(": ")", "[": "]", "{": "}"}[o]
    raise TypeError(v)


def items(xs, r):
    out = [blank(r)]
    for i, x in enumerate(xs):
        if i:
            out.append(blank(r, True))
        out.append(render(x, r))
    out.append(blank(r))
    return "".join(out)


def text(r, n, d):
    """several data with their texts"""
    vs = [data(r, d) for _ in range(n)]
    return vs, blank(r) + "".join(render(v, r) + blank(r, True) for v in vs)


FRAG = ["(", ")", "[", "]", "{", "}", "'", "\"", ";", "#|", "|#", "#;", "#(", "#&", "#\\", "#t", "#f", "#x", " . ", ".", "\\", "\\n", " ", "\n", "a", "1", "-", "+",
        "#", "#'", "9223372036854775808", "-9223372036854775809", "#\\newlin", "#\\space", "#\\ab", "\\q", "|", "#<void>", "#%app", "`", ",", "\xff", "\x80", "\x01", "\x7f"]


def mutate(t, r):
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        k = r.random()
        i = r.randint(0, len(t))
        if k < .3:
            t = t[:i] + r.choice(FRAG) + t[i:]
        elif k < .55 and t:
            j = min(len(t), i + r.choice([1, 1, 1, 2, 5]))
            t = t[:i] + t[j:]
        elif k < .7:
            t = t[:i]
        elif k < .85 and t:
            t = t[:i] + r.choice(FRAG) + t[i + 1:]
        else:
            j = r.randint(0, len(t))
            t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
    return t


def junk(r):
    k = r.random()
    n = r.choice([1, 2, 3, 5, 10, 40])
    if k < .6:
        return "".join(r.choice(FRAG) for _ in range(n))
    return "".join(chr(r.randrange(1, 256)) for _ in range(n))
