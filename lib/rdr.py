"""Independent reader of the Minim datum syntax (the oracle of C05, and a parser for printed output)."""
from sexp import *

DELIM = set(" \t\n\v\f\r()[]{}\";")
CLOSE = {"(": ")", "[": "]", "{": "}"}
UNESC = {"n": "\n", "t": "\t", "a": "\a", "b": "\b", "f": "\f", "r": "\r", "v": "\v", "\\": "\\", "'": "'", '"': '"'}
NAMES = {"alarm": 7, "backspace": 8, "delete": 127, "esc": 27, "linefeed": 10, "newline": 10, "nul": 0, "page": 12,
         "return": 13, "space": 32, "tab": 9, "vtab": 11}


class ReadErr(Exception):
    pass


class Unjudged(Exception):
    """text on which the datum syntax is silent"""


class Reader:
    def __init__(self, text, quote_syntax="quote-syntax", core=True, maxtok=4095):
        self.t, self.i, self.qs, self.core, self.maxtok = text, 0, Sym(quote_syntax), core, maxtok

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def skip(self):
        t = self.t
        while self.i < len(t):
            c = t[self.i]
            if c in " \t\n\v\f\r":
                self.i += 1
            elif c == ";":
                while self.i < len(t) and t[self.i] != "\n":
                    self.i += 1
            elif c == "#" and self.peek(1) == "|":
                self.i += 2
                level = 1
                while level:
                    if self.i >= len(t):
                        raise ReadErr("eof in comment")
                    if t.startswith("|#", self.i):
                        level -= 1
                        self.i += 2
                    elif t.startswith("#|", self.i):
                        level += 1
                        self.i += 2
                    else:
                        self.i += 1
            elif c == "#" and self.peek(1) == ";":
                self.i += 2
                self.must()
            else:
                return

    def must(self):
        v = self.read()
        if v is EOF:
            raise ReadErr("eof")
        return v

    def delim(self):
        if self.peek() and self.peek() not in DELIM:
            raise ReadErr("delimiter expected")

    def token(self):
        j = self.i
        while self.i < len(self.t) and self.t[self.i] not in DELIM:
            self.i += 1
        s = self.t[j:self.i]
        if len(s) > self.maxtok:
            raise (ReadErr("token too long") if self.core else Unjudged())
        if "\0" in s:
            raise Unjudged()
        return s

    def read(self):
        """one datum with its position span, or EOF"""
        self.skip()
        if self.i >= len(self.t):
            return EOF
        c = self.t[self.i]
        if c in CLOSE:
            self.i += 1
            return self.seq(c)
        if c in ")]}":
            raise ReadErr("unexpected closer")
        if c == "'":
            self.i += 1
            return lst([Sym("quote"), self.must()])
        if c == '"':
            self.i += 1
            out = []
            while True:
                if self.i >= len(self.t):
                    raise ReadErr("eof in string")
                d = self.t[self.i]
                self.i += 1
                if d == '"':
                    break
                if d == "\\":
                    if self.i >= len(self.t):
                        raise ReadErr("eof in string")
                    e = self.t[self.i]
                    self.i += 1
                    if e not in UNESC:
                        raise ReadErr("unknown escape")
                    d = UNESC[e]
                out.append(d)
            if len(out) > self.maxtok:
                raise (ReadErr("string too long") if self.core else Unjudged())
            if "\0" in out:
                raise Unjudged()
            if not self.core:
                self.delim()
            return Str("".join(out))
        if c == "#":
            self.i += 1
            d = self.peek()
            if d == "":
                raise ReadErr("eof after #")
            if d == "t" or d == "f":
                self.i += 1
                if self.peek() and self.peek() not in DELIM:
                    raise Unjudged()            # no delimiter is required by either reader
                return d == "t"
            if d == "\\":
                self.i += 1
                return self.char()
            if d == "'":
                self.i += 1
                return lst([self.qs, self.must()])
            if d == "(":
                self.i += 1
                return Vec(self.vec())
            if d == "&":
                self.i += 1
                return Box(self.must())
            if d == "x":
                self.i += 1
                s = self.token()
                m = s[1:] if s[:1] in ("+", "-") else s
                if not m or any(x not in "0123456789abcdefABCDEF" for x in m):
                    raise Unjudged()
                n = int(m, 16) * (-1 if s[0] == "-" else 1)
                if not -(1 << 63) <= n < 1 << 63:
                    if self.core:
                        raise ReadErr("range")
                    raise Unjudged()
                return n
            if d == "%":
                if not self.core:
                    raise Unjudged()
                return Sym("#" + self.token())
            raise ReadErr("unknown special")
        s = self.token()
        m = s[1:] if s[0] in "+-" else s
        if m and all(x in "0123456789" for x in m):
            n = int(s)
            if not -(1 << 63) <= n < 1 << 63:
                raise ReadErr("range")
            return n
        if s == ".":
            raise Unjudged()
        return Sym(s)

    def char(self):
        if self.i >= len(self.t):
            raise ReadErr("eof in character")
        c = self.t[self.i]
        self.i += 1
        nx = self.peek()
        if nx == "" or nx in DELIM:
            return Char(c)
        j = self.i
        while self.i < len(self.t) and self.t[self.i] not in DELIM:
            self.i += 1
        s = c + self.t[j:self.i]
        if s in NAMES:
            return Char(chr(NAMES[s]))
        raise ReadErr("character")

    def vec(self):
        out = []
        while True:
            self.skip()
            if self.i >= len(self.t):
                raise ReadErr("eof in vector")
            c = self.t[self.i]
            if c == ")":
                self.i += 1
                return out
            if c in "]}":
                raise ReadErr("closer in vector")
            if c == "." and (self.peek(1) in DELIM or self.peek(1) == ""):
                raise Unjudged()
            out.append(self.must())

    def seq(self, op):
        items = []
        while True:
            self.skip()
            if self.i >= len(self.t):
                raise ReadErr("eof in list")
            c = self.t[self.i]
            if c in ")]}":
                if c != CLOSE[op]:
                    raise ReadErr("mismatch")
                self.i += 1
                return lst(items)
            if c == "." and (self.peek(1) == "" or self.peek(1) in DELIM):
                if not items:
                    raise Unjudged()
                if self.peek(1) not in (" ", "\t", "\n", "\v", "\f", "\r"):
                    raise Unjudged()
                self.i += 1
                self.skip()
                if self.i >= len(self.t):
                    raise ReadErr("eof after dot")
                if self.t[self.i] in ")]}":
                    raise ReadErr("nothing after dot")
                if self.t[self.i] == "." and (self.peek(1) == "" or self.peek(1) in DELIM):
                    raise Unjudged()
                tail = self.must()
                self.skip()
                if self.i >= len(self.t):
                    raise ReadErr("eof after dot")
                c = self.t[self.i]
                if c != CLOSE[op]:
                    raise ReadErr("closer expected after dot")
                self.i += 1
                return lst(items, tail)
            items.append(self.must())


def parse_all(text, **kw):
    """-> (data, error or None)"""
    r = Reader(text, **kw)
    out = []
    while True:
        try:
            v = r.read()
        except ReadErr as e:
            return out, e
        if v is EOF:
            return out, None
        out.append(v)
