"""Data of the Minim datum syntax: model values, the written form, and an independent parser."""


class Sym(str):
    __slots__ = ()

    def __repr__(self):
        return "Sym(%s)" % str.__repr__(self)


class Char:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(("char", self.c))


class Str:
    """mutable string of bytes (code points 0..255)"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Vec:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)


class Pair:
    __slots__ = ("a", "d")

    def __init__(self, a, d):
        self.a, self.d = a, d


class Const:
    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return self.w


NIL = Const("()")
VOID = Const("#<void>")
EOF = Const("#<eof>")


class Opaque:
    """a value only its written form is known of"""
    def __init__(self, w):
        self.w = w


def lst(xs, tail=NIL):
    for x in reversed(list(xs)):
        tail = Pair(x, tail)
    return tail


def unlist(p):
    out = []
    while isinstance(p, Pair):
        out.append(p.a)
        p = p.d
    return out, p


def is_list(p):
    while isinstance(p, Pair):
        p = p.d
    return p is NIL


NAMED = {0: "nul", 7: "alarm", 8: "backspace", 9: "tab", 10: "newline", 11: "vtab", 12: "page", 13: "return",
         27: "esc", 32: "space", 127: "delete"}
ESC = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\"}


def wchar(c):
    return "#\\" + NAMED.get(ord(c), c)


def wstr(s):
    return '"' + "".join(ESC.get(ord(c), c) for c in s) + '"'


def write(v, display=False, abbrev=False):
    out = []
    _w(v, out, display)
    return "".join(out)


def _w(v, out, display):
    # iterative in the tail direction, recursive in depth
    if v is True:
        out.append("#t")
    elif v is False:
        out.append("#f")
    elif isinstance(v, int):
        out.append(str(v))
    elif isinstance(v, Sym):
        out.append(v)
    elif isinstance(v, Char):
        out.append(v.c if display else wchar(v.c))
    elif isinstance(v, Str):
        out.append(v.s if display else wstr(v.s))
    elif isinstance(v, (Const, Opaque)):
        out.append(v.w)
    elif isinstance(v, Box):
        out.append("#&")
        _w(v.v, out, display)
    elif isinstance(v, Vec):
        out.append("#(")
        for i, x in enumerate(v.v):
            if i:
                out.append(" ")
            _w(x, out, display)
        out.append(")")
    elif isinstance(v, Pair):
        out.append("(")
        first = True
        while isinstance(v, Pair):
            if not first:
                out.append(" ")
            first = False
            _w(v.a, out, display)
            v = v.d
        if v is not NIL:
            out.append(" . ")
            _w(v, out, display)
        out.append(")")
    elif isinstance(v, (list, tuple)):
        out.append("(")
        for i, x in enumerate(v):
            if i:
                out.append(" ")
            _w(x, out, display)
        out.append(")")
    elif hasattr(v, "written"):
        out.append(v.written())
    else:
        raise TypeError("cannot write %r" % (v,))


def equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and str(a) == str(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Pair):
        while isinstance(a, Pair) and isinstance(b, Pair):
            if not equal(a.a, b.a):
                return False
            a, b = a.d, b.d
        return (not isinstance(a, Pair) and not isinstance(b, Pair)) and equal(a, b)
    if isinstance(a, Vec):
        return isinstance(b, Vec) and len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Box):
        return isinstance(b, Box) and equal(a.v, b.v)
    if isinstance(a, Str):
        return isinstance(b, Str) and a.s == b.s
    if isinstance(a, Char):
        return isinstance(b, Char) and a.c == b.c
    return a is b
