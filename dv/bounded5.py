"""Bounded stand-ins for parser and tokenizer (labelled bounded).

A random syntax tree is printed twice: as compactly as the precedence table
allows, and with redundant parentheses and a free layout (comments, blank
lines, indentation widths, line breaks in brackets, continuation lines,
trailing commas, long comments).  The real front end must give the same
tree for both, and another tree for a program that differs in one place.
The dump of the real tree is generic (no knowledge of the node classes)."""
import enum
import io
import random

from . import repo
from .bounded2 import fail, ok

from acaciamc.parser import Parser
from acaciamc.tokenizer import Tokenizer

KW = ["True", "def", "interface", "inline", "entity", "extends", "self",
      "if", "elif", "else", "while", "pass", "and", "or", "not", "result",
      "import", "as", "from", "None", "for", "in", "struct", "virtual",
      "override", "const", "static", "new", "False"]


def dump(x):
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += "\x00" + y
            else:
                out.append(y if isinstance(y, str) else dump(y))
        return out
    if isinstance(x, dict):
        return [(k, dump(v)) for k, v in x.items()]
    if hasattr(x, "__dict__"):
        d = {k: v for k, v in x.__dict__.items()
             if k not in ("lineno", "col")}
        n = type(x).__name__
        if "Format" in n:
            d = {k: [merged(v)] if isinstance(v, list) else v
                 for k, v in d.items()}
            return (n, [(k, v if isinstance(v, list) else dump(v))
                        for k, v in d.items()])
        return (n, [(k, dump(v)) for k, v in d.items()])
    return repr(x)


def merged(l):
    out = []
    for y in l:
        if isinstance(y, str) and out and isinstance(out[-1], str):
            out[-1] += y
        else:
            out.append(y if isinstance(y, str) else dump(y))
    return out


def parse(src):
    return Parser(Tokenizer(io.StringIO(src), (1, 20, 20))).module()


# ------------------------------------------------------------ random trees
PREC = {"or": 8, "and": 7, "not": 6, "cmp": 5, "+": 4, "-": 4, "*": 3,
        "/": 3, "%": 3, "u": 2, "post": 1, "atom": 0}
CMP = ["==", "!=", "<", ">", "<=", ">="]


class G:
    def __init__(self, r):
        self.r = r

    def name(self):
        r = self.r
        return r.choice(["a", "b", "foo", "x1", "_y", "news", "iff", "selfx",
                         "In", "Z_", "nota", "orb", "é"])

    def text(self):
        r = self.r
        return "".join(r.choice(["a", "Z", " ", "0", "#", "{", "}", "$x",
                                 "/", "*", "'", ":", "not", "é", "(", ",",
                                 "//", "  "])
                       for _ in range(r.randint(0, 5)))

    def fstr(self, d):
        parts = []
        for _ in range(self.r.randint(0, 3)):
            if self.r.random() < .4 and d > 0:
                parts.append(("e", self.expr(d - 1)))
            else:
                parts.append(("t", self.text()))
        return parts

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < .15:
            k = r.random()
            if k < .45:
                return ("id", self.name())
            if k < .65:
                return ("int", r.choice([0, 1, 7, 10, 255, 2 ** 31 - 1]))
            if k < .7:
                return ("float", r.choice(["1.5", "0.25", "10.0"]))
            if k < .85:
                return ("kw", r.choice(["True", "False", "None", "self"]))
            return ("str", self.fstr(0))
        k = r.choice(["bin", "bin", "bin", "cmp", "and", "or", "not", "u",
                      "attr", "call", "sub", "list", "map", "str"])
        e = lambda: self.expr(d - 1)
        if k == "bin":
            return ("bin", r.choice("+-*/%"), e(), e())
        if k == "cmp":
            n = r.choice([1, 1, 2])
            return ("cmp", [r.choice(CMP) for _ in range(n)],
                    [e() for _ in range(n + 1)])
        if k in ("and", "or"):
            return (k, [e() for _ in range(r.choice([2, 2, 3]))])
        if k == "not":
            return ("not", e())
        if k == "u":
            return ("u", r.choice("+-"), e())
        if k == "attr":
            return ("attr", e(), self.name())
        if k == "call":
            return ("call", e(), self.args(d))
        if k == "sub":
            return ("sub", e(), [e() for _ in range(r.choice([1, 1, 2]))])
        if k == "list":
            return ("list", [e() for _ in range(r.randint(0, 3))])
        if k == "map":
            return ("map", [(e(), e()) for _ in range(r.randint(0, 2))])
        return ("str", self.fstr(d - 1))

    def args(self, d):
        r = self.r
        pos = [self.expr(d - 1) for _ in range(r.randint(0, 2))]
        kw, seen = [], set()
        for _ in range(r.randint(0, 2)):
            n = self.name()
            if n not in seen:
                seen.add(n)
                kw.append((n, self.expr(d - 1)))
        return (pos, kw)

    def block(self, d, depth):
        return [self.stmt(d, depth) for _ in range(self.r.randint(1, 3))]

    def params(self, kind, d):
        r = self.r
        out, seen, dflt = [], set(), False
        for _ in range(r.randint(0, 3)):
            n = self.name()
            if n in seen:
                continue
            seen.add(n)
            port = r.choice(["", "const ", "&"]) if kind == "inline" else ""
            t = self.expr(1) if r.random() < .6 else None
            df = self.expr(d) if dflt or r.random() < .4 else None
            if t is None and df is None and kind == "normal":
                t = ("id", "int")
            dflt = dflt or df is not None
            out.append((port, n, t, df))
        ret = None
        if r.random() < .5:
            ret = (r.choice(["", "const ", "&"]) if kind == "inline" else "",
                   self.expr(1))
        return out, ret

    def funcdef(self, kind, d, depth):
        return ("def", kind, self.name(), self.params(kind, 1),
                self.block(d, depth - 1))

    def module(self):
        r = self.r
        return ("." * r.choice([0, 0, 1, 2]),
                [self.name() for _ in range(r.randint(1, 3))])

    def stmt(self, d, depth):
        r = self.r
        ks = ["expr", "assign", "aug", "vardef", "auto", "const", "ref",
              "pass", "cmd", "lcmd", "import", "from", "fromall", "result",
              "new", "exnew"]
        if depth > 0:
            ks += ["if", "if", "while", "for", "interface", "def", "inline",
                   "constdef", "struct", "entity"]
        k = r.choice(ks)
        e = lambda: self.expr(d)
        if k == "expr":
            return (k, e())
        if k == "assign":
            return (k, e(), e())
        if k == "aug":
            return (k, e(), r.choice("+-*/%"), e())
        if k == "vardef":
            return (k, self.name(), self.expr(1),
                    e() if r.random() < .5 else None)
        if k == "auto":
            return (k, self.name(), e())
        if k == "const":
            return (k, [(self.name(), self.expr(1) if r.random() < .4 else
                         None, e()) for _ in range(r.randint(1, 3))])
        if k == "ref":
            return (k, self.name(), self.expr(1) if r.random() < .4 else
                    None, e())
        if k == "pass":
            return (k,)
        if k in ("cmd", "lcmd"):
            f = self.fstr(2)
            if k == "lcmd":
                f = [(t, x.replace("*/", "")) if t == "t" else (t, x)
                     for t, x in f]
                f = [(t, x.replace("*", "").replace("/", ""))
                     if t == "t" else (t, x) for t, x in f]
            else:
                # "/*" would start a long command
                f = [("t", "say ")] + f
            return (k, f)
        if k == "import":
            return (k, self.module(), self.name() if r.random() < .4 else
                    None)
        if k == "from":
            ns = sorted({self.name() for _ in range(r.randint(1, 3))})
            return (k, self.module(), [
                (n, self.name() if r.random() < .4 else None) for n in ns])
        if k == "fromall":
            return (k, self.module())
        if k == "result":
            return (k, e())
        if k == "new":
            return (k, self.args(1))
        if k == "exnew":
            return (k, e(), self.args(1))
        if k == "if":
            return (k, [(e(), self.block(d, depth - 1))
                        for _ in range(r.choice([1, 1, 2, 3]))],
                    self.block(d, depth - 1) if r.random() < .5 else None)
        if k == "while":
            return (k, e(), self.block(d, depth - 1))
        if k == "for":
            return (k, self.name(), e(), self.block(d, depth - 1))
        if k == "interface":
            return (k, r.choice(["a", "a/b", "x.y-z_1", "1"]),
                    self.block(d, depth - 1))
        if k == "def":
            return self.funcdef("normal", d, depth)
        if k == "inline":
            return self.funcdef("inline", d, depth)
        if k == "constdef":
            return self.funcdef("const", d, depth)
        if k == "struct":
            return (k, self.name(), [self.expr(1) for _ in
                                     range(r.randint(0, 2))],
                    [(self.name(), self.expr(1)) if r.random() < .8
                     else None for _ in range(r.randint(1, 3))])
        body = []
        new = False
        for _ in range(r.randint(1, 3)):
            z = r.choice(["field", "pass", "method", "new"])
            if z == "field":
                body.append((z, self.name(), self.expr(1)))
            elif z == "pass":
                body.append((z,))
            elif z == "new":
                if new:
                    continue
                new = True
                kind = r.choice(["normal", "inline"])
                body.append((z, kind, self.params(kind, 1),
                             self.block(1, depth - 1)))
            else:
                q = r.choice(["", "virtual ", "override ", "static "])
                kind = r.choice(["normal", "inline"] + (
                    ["const"] if q == "static " else []))
                body.append((z, q, self.funcdef(kind, 1, depth)))
        return ("entity", self.name(), [self.expr(1) for _ in
                                        range(r.randint(0, 2))],
                body or [("pass",)])


class Printer:
    """free: random redundant layout, else compact."""

    def __init__(self, free, r):
        self.free, self.r = free, r
        self.inb = 0        # inside brackets: line breaks allowed
        self.infstr = 0

    def chance(self, p=.3):
        return self.free and self.r.random() < p

    def sp(self, need=False):
        """Space between two tokens."""
        if not self.free:
            return " " if need else ""
        o = [" ", " ", "  "] if need else ["", " ", "  "]
        if not self.infstr:
            o += [" #* c *# "]
            if self.inb:
                o += ["\n", " # c )\n   ", " \n\n "]
            elif not self.infstr:
                o += [" \\\n  "]
        return self.r.choice(o if self.r.random() < .3 else o[:2])

    def bracket(self, o, inner, c):
        self.inb += 1
        a, b = self.sp(), self.sp()
        x = inner()
        self.inb -= 1
        return o + a + x + b + c

    def comma(self, items, trail=True):
        """items: list of thunks (printed inside brackets)."""
        out = ""
        for n, f in enumerate(items):
            if n:
                out += self.sp() + "," + self.sp()
            out += f()
        if items and trail and self.chance():
            out += self.sp() + ","
        return out

    def quote(self, parts, kind):
        out = ""
        for t, x in parts:
            if t == "t":
                for c in x:
                    if c == "\\":
                        out += "\\\\"
                    elif c == '"' and kind == "s":
                        out += '\\"'
                    elif c == "$" and (True):
                        out += "\\$"
                    elif self.chance(.1) and kind != "i":
                        out += "\\u%04x" % ord(c)
                    else:
                        out += c
            else:
                self.infstr += 1
                old, self.inb = self.inb, 0
                out += "${" + self.sp() + self.e(x, 8) + self.sp() + "}"
                self.inb = old
                self.infstr -= 1
        return out

    def args(self, a):
        pos, kw = a
        return self.bracket("(", lambda: self.comma(
            [lambda x=x: self.e(x, 8) for x in pos] +
            [lambda n=n, x=x: n + self.sp() + "=" + self.sp() +
             self.e(x, 8) for n, x in kw]), ")")

    def e(self, x, level):
        """Text of x where precedence up to `level` may stand bare."""
        k = x[0]
        lv = {"bin": None, "cmp": 5, "and": 7, "or": 8, "not": 6, "u": 2,
              "attr": 1, "call": 1, "sub": 1}.get(k, 0)
        if k == "bin":
            lv = PREC[x[1]]
        if lv > level or self.chance(.2):
            return self.bracket("(", lambda: self.e0(x, 8), ")")
        return self.e0(x, level)

    def e0(self, x, level):
        k = x[0]
        if k in ("id", "kw", "float"):
            return x[1]
        if k == "int":
            n = x[1]
            if self.chance():
                return self.r.choice(["0x%x", "0X%X", "0o%o", "000%d"]) % n \
                    if self.r.random() < .8 else bin(n)
            return str(n)
        if k == "str":
            if self.chance(.2):
                n = len(x[1]) // 2
                return '"' + self.quote(x[1][:n], "s") + '"' + self.sp() + \
                    '"' + self.quote(x[1][n:], "s") + '"'
            return '"' + self.quote(x[1], "s") + '"'
        if k == "bin":
            lv = PREC[x[1]]
            return self.e(x[2], lv) + self.sp() + x[1] + self.sp() + \
                self.e(x[3], lv - 1)
        if k == "cmp":
            out = self.e(x[2][0], 4)
            for o, y in zip(x[1], x[2][1:]):
                out += self.sp() + o + self.sp() + self.e(y, 4)
            return out
        if k in ("and", "or"):
            lv = PREC[k]
            return (" " + k + " ").join(
                self.e(y, lv - 1) + self.sp() for y in x[1])
        if k == "not":
            return "not" + self.sp(True) + self.e(x[1], 6)
        if k == "u":
            return x[1] + self.sp() + self.e(x[2], 2)
        if k == "attr":
            return self.post(x[1]) + self.sp() + "." + self.sp() + x[2]
        if k == "call":
            return self.post(x[1]) + self.sp() + self.args(x[2])
        if k == "sub":
            return self.post(x[1]) + self.sp() + self.bracket(
                "[", lambda: self.comma([lambda y=y: self.e(y, 8)
                                         for y in x[2]]), "]")
        if k == "list":
            return self.bracket("{", lambda: self.comma(
                [lambda y=y: self.e(y, 8) for y in x[1]]), "}")
        if k == "map":
            if not x[1]:
                return self.bracket("{", lambda: ":", "}")
            return self.bracket("{", lambda: self.comma(
                [lambda y=y: self.e(y[0], 8) + self.sp() + ":" + self.sp()
                 + self.e(y[1], 8) for y in x[1]]), "}")
        raise KeyError(k)

    def post(self, x):
        t = self.e(x, 1)
        # "1.x" would be read as a number
        if x[0] == "int" and not t.startswith("("):
            t = "(" + t + ")"
        return t

    # ---- statements
    def block(self, body, ind):
        step = self.r.choice([1, 2, 4, 7]) if self.free else 4
        ind2 = ind + " " * step
        out = "\n"
        for s in body:
            out += self.s(s, ind2)
        return out

    def eol(self):
        if self.free and self.r.random() < .4:
            return self.r.choice([" ", " # c: \"x", " #", " #* a\n b *#"]) \
                + "\n" + self.r.choice(["", "\n", "   \n", "# z\n",
                                        "      # zz\n", "#* x\n y *#\n"])
        return "\n"

    def colon(self):
        return self.sp() + ":" + (self.r.choice(["", " ", "  # c"])
                                  if self.free else "")

    def typed(self, n, t, v, sep="="):
        out = n
        if t is not None:
            out += self.sp() + ":" + self.sp() + self.e(t, 8)
        if v is not None:
            out += self.sp() + sep + self.sp() + self.e(v, 8)
        return out

    def mod(self, m):
        return m[0] + ".".join(m[1])

    def params(self, p):
        ps, ret = p
        out = self.bracket("(", lambda: self.comma(
            [lambda y=y: y[0] + self.typed(*y[1:]) for y in ps]), ")")
        if ret:
            out += self.sp() + "->" + self.sp() + ret[0] + self.e(ret[1], 8)
        return out

    def fdef(self, s, ind):
        _, kind, n, p, body = s
        return {"normal": "", "inline": "inline ", "const": "const "}[kind] \
            + "def" + self.sp(True) + n + self.sp() + self.params(p) + \
            self.colon() + self.block(body, ind)

    def bases(self, bs):
        if not bs:
            return ""
        return " extends " + self.comma([lambda y=y: self.e(y, 8)
                                         for y in bs], trail=False)

    def s(self, s, ind):
        k = s[0]
        o = ind
        E = lambda x: self.e(x, 8)
        if k == "expr":
            return o + E(s[1]) + self.eol()
        if k == "assign":
            return o + E(s[1]) + self.sp() + "=" + self.sp() + E(s[2]) + \
                self.eol()
        if k == "aug":
            return o + E(s[1]) + self.sp() + s[2] + "=" + self.sp() + \
                E(s[3]) + self.eol()
        if k == "vardef":
            return o + self.typed(s[1], s[2], s[3]) + self.eol()
        if k == "auto":
            return o + self.typed(s[1], None, s[2], ":=") + self.eol()
        if k == "const":
            items = [lambda y=y: self.typed(*y) for y in s[1]]
            if self.chance():
                return o + "const" + self.sp() + self.bracket(
                    "(", lambda: self.comma(items), ")") + self.eol()
            return o + "const " + self.comma(items, trail=False) + self.eol()
        if k == "ref":
            return o + "&" + self.sp() + self.typed(*s[1:]) + self.eol()
        if k == "pass":
            return o + "pass" + self.eol()
        if k == "cmd":
            return o + "/" + self.quote(s[1], "c") + "\n"
        if k == "lcmd":
            return o + "/*" + self.quote(s[1], "l") + "*/" + self.eol()
        if k == "import":
            return o + "import " + self.mod(s[1]) + (
                " as " + s[2] if s[2] else "") + self.eol()
        if k == "from":
            items = [lambda y=y: y[0] + (self.sp(True) + "as" + self.sp(True)
                                         + y[1] if y[1] else "")
                     for y in s[2]]
            t = self.bracket("(", lambda: self.comma(items), ")") if \
                self.chance() else self.comma(items, trail=False)
            return o + "from " + self.mod(s[1]) + " import " + t + self.eol()
        if k == "fromall":
            return o + "from " + self.mod(s[1]) + " import *" + self.eol()
        if k == "result":
            return o + "result " + E(s[1]) + self.eol()
        if k == "new":
            return o + "new" + self.sp() + self.args(s[1]) + self.eol()
        if k == "exnew":
            return o + self.post(s[1]) + ".new" + self.args(s[2]) + \
                self.eol()
        if k == "if":
            out = ""
            for n, (c, b) in enumerate(s[1]):
                if n and self.chance():
                    # "else" with a nested "if" is the same as "elif"
                    pass
                out += o + ("elif " if n else "if ") + E(c) + self.colon() \
                    + self.block(b, ind)
            if s[2]:
                out += o + "else" + self.colon() + self.block(s[2], ind)
            return out
        if k == "while":
            return o + "while " + E(s[1]) + self.colon() + \
                self.block(s[2], ind)
        if k == "for":
            return o + "for " + s[1] + " in " + E(s[2]) + self.colon() + \
                self.block(s[3], ind)
        if k == "interface":
            return o + "interface " + s[1] + self.colon() + \
                self.block(s[2], ind)
        if k == "def":
            return o + self.fdef(s, ind)
        ind2 = ind + " " * (self.r.choice([1, 3, 4]) if self.free else 4)
        if k == "struct":
            out = o + "struct " + s[1] + self.bases(s[2]) + self.colon() + \
                "\n"
            for f in s[3]:
                out += ind2 + ("pass" if f is None else
                               self.typed(f[0], f[1], None)) + self.eol()
            return out
        if k == "entity":
            out = o + "entity " + s[1] + self.bases(s[2]) + self.colon() + \
                "\n"
            for f in s[3]:
                if f[0] == "field":
                    out += ind2 + self.typed(f[1], f[2], None) + self.eol()
                elif f[0] == "pass":
                    out += ind2 + "pass" + self.eol()
                elif f[0] == "new":
                    out += ind2 + ("inline " if f[1] == "inline" else "") + \
                        "new" + self.params(f[2]) + self.colon() + \
                        self.block(f[3], ind2)
                else:
                    out += ind2 + f[1] + self.fdef(f[2], ind2)
            return out
        raise KeyError(k)


# ------------------------------------------------------------- mutation
def mutate(x, r):
    """Change one place of the tree (None: nothing to change here)."""
    spots = []

    def walk(y, path):
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            if y[0] in ("bin", "cmp", "id", "int", "u", "and", "or", "aug",
                        "kw", "t", "attr"):
                spots.append((path, y))
        if isinstance(y, (tuple, list)):
            for n, z in enumerate(y):
                walk(z, path + [n])
    walk(x, [])
    if not spots:
        return None
    path, y = r.choice(spots)
    k = y[0]
    if k == "bin":
        new = r.choice([("bin", r.choice([o for o in "+-*/%" if o != y[1]]),
                         y[2], y[3]), ("bin", y[1], y[3], y[2])])
    elif k == "cmp":
        i = r.randrange(len(y[1]))
        ops = list(y[1])
        ops[i] = r.choice([o for o in CMP if o != ops[i]])
        new = ("cmp", ops, y[2])
    elif k == "id":
        new = ("id", y[1] + "q")
    elif k == "int":
        new = ("int", y[1] + 1)
    elif k == "u":
        new = r.choice([("u", "+" if y[1] == "-" else "-", y[2]), y[2]])
    elif k in ("and", "or"):
        if not isinstance(y[1], list):
            return None
        new = r.choice([("or" if k == "and" else "and", y[1]),
                        (k, y[1] + [("id", "q")])])
    elif k == "aug":
        new = (k, y[1], r.choice([o for o in "+-*/%" if o != y[2]]), y[3])
    elif k == "kw":
        new = ("kw", r.choice([w for w in ("True", "False", "None", "self")
                               if w != y[1]]))
    elif k == "attr":
        new = ("attr", y[1], y[2] + "q")
    else:
        new = ("t", y[1] + "q")
    if new == y:
        return None

    def put(z, p):
        if not p:
            return new
        c = list(z)
        c[p[0]] = put(z[p[0]], p[1:])
        return tuple(c) if isinstance(z, tuple) else c
    return put(x, path)


def parse_case(seed, arg=None):
    r = random.Random(seed)
    g = G(r)
    d = r.choice([1, 2, 2, 3])
    prog = [g.stmt(d, r.choice([0, 1, 2])) for _ in range(r.randint(1, 3))]

    def text(free, p):
        pr = Printer(free, r)
        return "".join(pr.s(s, "") for s in p)
    a, b = text(False, prog), text(True, prog)
    if b.startswith("\n") or b.startswith(" "):
        b = b.lstrip()
    shown = a + "\n----- same program, other layout\n" + b
    try:
        ta = dump(parse(a))
    except repo.Error as e:
        return fail("rejected (%s)" % e, a)
    try:
        tb = dump(parse(b))
    except repo.Error as e:
        return fail("rejected (%s)" % e, b)
    if ta != tb:
        return fail("the two texts give different trees", shown)
    m = mutate(prog, r)
    if m is not None:
        c = text(False, m)
        try:
            tc = dump(parse(c))
        except repo.Error as e:
            return fail("rejected (%s)" % e, c)
        if tc == ta and c != a:
            return fail("two different programs give the same tree",
                        a + "\n----- other program\n" + c)
    return ok(shown)


# ----------------------------------------------------------------- lexing
FONT = {"red": "c", "bold": "l", "italic": "o", "reset": "r",
        "obfuscated": "k", "black": "0", "aqua": "b", "dark_red": "4",
        "minecoin_gold": "g", "material_quartz": "h",
        "material_amethyst": "u"}


def lexeme(r, kind, depth=1):
    """(source text, decoded text) of one piece of a string or command."""
    k = r.random()
    if k < .45:
        c = r.choice("abz09 _-.,:;()[]<>!?%^&*+=~`'|@#{}é中\u2603")
        if kind == "l" and c == "*":
            c = "x"
        return c, c
    if k < .5:
        return "\\\\", "\\"
    if k < .55:
        return "\\$", "$"
    if k < .6:
        return ("\\\"", "\"") if kind == "s" else ("\"", "\"")
    if k < .64:
        return "\\n", "\\n"
    if k < .67:
        c = r.choice("abz.({")
        return "\\" + c, "\\" + c
    if k < .76:
        n = r.choice([0x41, 0x7f, 0xe9, 0xa7, 0x30, 0x5c, 0x24, 0x22])
        f = r.choice(["x%02x", "x%02X", "u%04x", "U%08x"])
        return "\\" + f % n, chr(n)
    if k < .8:
        n = r.choice([0x4e2d, 0x2603, 0xffff, 0x263a])
        return "\\u%04X" % n, chr(n)
    if k < .82:
        return "\\U0001f600", "\U0001f600"
    if k < .88:
        fs = [r.choice(list(FONT)) for _ in range(r.choice([1, 1, 2, 3]))]
        t = ",".join(r.choice(["", " "]) + f + r.choice(["", " "])
                     for f in fs)
        return "\\#(%s)" % t, "".join("\xa7" + FONT[f] for f in fs)
    if k < .9:
        return "\\#", "\xa7"
    if k < .94:
        return "$", "$"
    # a formatted expression
    q = r.random()
    if q < .4 or depth == 0:
        n = r.choice([0, 7, 255, 2147483647])
        t = r.choice(["%d", "0x%X", "0o%o"]) % n
        return "${%s%s%s}" % (r.choice(["", " "]), t, r.choice(["", " "])), \
            str(n)
    if q < .5:
        return "${C}", "12"
    if q < .6:
        return "${N + 1}", "4"
    ps = [lexeme(r, "s", depth - 1) for _ in range(r.randint(0, 3))]
    return '${"%s"}' % fix(ps)[0], fix(ps)[1]


def fix(ps):
    """Join pieces, keeping adjacent ones from forming another token."""
    s, d, last = "", "", ""
    for a, b in ps:
        if last == "$" and a[:1] == "{" or last == "\\#" and a[:1] == "(":
            a, b = "x", "x"
        last = a
        s += a
        d += b
    return s, d


def lex_case(seed, arg=None):
    """Strings and commands: every escape, formatted expression and
    ordinary character gives exactly the text it stands for."""
    r = random.Random(seed)
    src = 'const C = "12"\nconst N = 3\n'
    want = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(["c", "l", "s"])
        s, d = fix([lexeme(r, k) for _ in range(r.randint(0, 8))])
        if k == "c":
            if s.startswith("*"):
                s, d = "x" + s, "x" + d
            src += "/say " + s + "\n"
            want.append("say " + d)
        elif k == "l":
            nl = r.random() < .3
            src += "/*say " + s + ("\n  z" if nl else "") + "*/" + \
                r.choice(["", " ", " # c", " #* c *#"]) + "\n"
            want.append("say " + d + ("   z" if nl else ""))
        else:
            cut = r.random() < .3
            src += '/say ${"%s"%s}\n' % (s, ' "q"' if cut else "")
            want.append("say " + d + ("q" if cut else ""))
    try:
        c = repo.compile_text(src, optimizer=r.random() < .5)
    except repo.Error as e:
        return fail("rejected (%s)" % e, src)
    got = [l for l in c.files()["main"].split("\n") if l.startswith("say")]
    if got != want:
        return fail("got %r instead of %r" % (got, want), src)
    return ok(src)


def number_case(seed, arg=None):
    """Number literals denote their value, in every base."""
    r = random.Random(seed)
    n = r.choice([r.randrange(0, 300), r.randrange(0, 2 ** 31),
                  2 ** r.randrange(0, 31), 2 ** r.randrange(1, 32) - 1])
    b = r.choice("dxob")
    t = {"d": "%d", "x": "%x", "o": "%o"}.get(b, "") % n if b != "b" \
        else bin(n)[2:]
    t = "0" * r.choice([0, 0, 1, 3]) + t
    if b != "d":
        t = "".join(r.choice([c.lower(), c.upper()]) for c in t)
        t = "0" + r.choice([b, b.upper()]) + t
    src = "/say ${%s}\na := %s\n/say ${-%s}\n" % (t, t, t)
    try:
        c = repo.compile_text(src, optimizer=False)
    except repo.Error as e:
        return fail("rejected (%s)" % e, src)
    ls = [l for l in c.files()["main"].split("\n") if "objectives" not in l]
    want = ["say %d" % n, "scoreboard players set acacia1 acacia1 %d" % n,
            "say %d" % -n]
    got = [l for l in ls if l.startswith("say")] + [
        l for l in ls if " set " in l]
    if got[:2] != [want[0], want[2]] or not got[2:] or \
            not got[-1].endswith(" %d" % n):
        return fail("%r, literal %s" % (ls, t), src)
    return ok(src)
