"""Contracts of the parser at the level of meaning (C09): an expression or
statement written without parentheses denotes what the precedence table
says, for all values of its operands. The operands are variables: the
parser treats every operand (name, literal, parenthesised expression, call)
through the same atom production, so one atom stands for all."""
from .scen import *

OPS = ["+", "-", "*", "/", "%"]
CMP = ["==", "!=", "<", ">", "<=", ">="]
IV = {"i": "int", "j": "int", "k": "int", "l": "int", "r": "int"}
BV = {"p": "bool", "q": "bool", "s": "bool", "t": "bool", "w": "bool"}


def nz(H, src_ops, names):
    """Divisors are non-zero (division by zero has no meaning)."""


def ev(e, root=True):
    """Spec text of an expression tree with explicit parentheses and the
    preconditions of its divisions."""
    if isinstance(e, str):
        return e, []
    if e[0] == "u":
        t, r = ev(e[2])
        return "(%s%s)" % (e[1], t), r
    op, a, b = e
    ta, ra = ev(a)
    tb, rb = ev(b)
    r = ra + rb
    if op in "/%":
        r.append("%s != 0" % tb)
    return "(%s %s %s)" % (ta, op, tb), r


PREC = {"*": 3, "/": 3, "%": 3, "+": 4, "-": 4}


def climb(ops, atoms):
    """Reference grouping of a flat operator sequence: higher precedence
    first, left to right among equals."""
    atoms, ops = list(atoms), list(ops)
    for level in (3, 4):
        k = 0
        while k < len(ops):
            if PREC[ops[k]] == level:
                atoms[k:k + 2] = [(ops[k], atoms[k], atoms[k + 1])]
                del ops[k]
            else:
                k += 1
    return atoms[0]


def run(H, src, tree, opt=False):
    text, req = ev(tree)
    spec = "".join("require(%s)\n" % x for x in req) + "r = %s" % text
    scenario(H, src, spec, IV, cfg=dict(optimizer=opt))


def vc_arith3(H):
    """Three operands, one sign anywhere, with and without parentheses."""
    a = H.choose("op1", OPS)
    b = H.choose("op2", OPS)
    sign = H.choose("sign", ["", "-i", "-j", "-k", "+j", "--k", "-(ij)"])
    par = H.choose("paren", ["", "left", "right"])
    at = {n: n for n in "ijk"}
    tx = {n: n for n in "ijk"}
    if sign == "-(ij)":
        if par != "left":
            return
        run(H, "r = -(i %s j) %s k" % (a, b),
            (b, ("u", "-", (a, "i", "j")), "k"))
        return
    if sign:
        n = sign[-1]
        tx[n] = sign
        at[n] = ("u", sign[:-1], n) if len(sign) == 2 else \
            ("u", "-", ("u", "-", n))
    x, y, z = tx["i"], tx["j"], tx["k"]
    i, j, k = at["i"], at["j"], at["k"]
    if par == "":
        run(H, "r = %s %s %s %s %s" % (x, a, y, b, z),
            climb([a, b], [i, j, k]))
    elif par == "left":
        run(H, "r = (%s %s %s) %s %s" % (x, a, y, b, z), (b, (a, i, j), k))
    else:
        run(H, "r = %s %s (%s %s %s)" % (x, a, y, b, z), (a, i, (b, j, k)))


def vc_arith4(H):
    """Four operands: every operator sequence and every grouping."""
    a = H.choose("op1", OPS)
    b = H.choose("op2", OPS)
    c = H.choose("op3", ["+", "-", "*", "%"])
    par = H.choose("paren", ["", "12", "23", "34", "123", "234"])
    i, j, k, l = "ijkl"
    s = {
        "": ("i %s j %s k %s l", climb([a, b, c], [i, j, k, l])),
        "12": ("(i %s j) %s k %s l", climb([b, c], [(a, i, j), k, l])),
        "23": ("i %s (j %s k) %s l", climb([a, c], [i, (b, j, k), l])),
        "34": ("i %s j %s (k %s l)", climb([a, b], [i, j, (c, k, l)])),
        "123": ("(i %s j %s k) %s l",
                (c, climb([a, b], [i, j, k]), l)),
        "234": ("i %s (j %s k %s l)",
                (a, i, climb([b, c], [j, k, l])))}[par]
    run(H, "r = " + s[0] % (a, b, c), s[1])


def vc_compare(H):
    """Comparisons bind weaker than arithmetic and stronger than `not`;
    chains mean the conjunction."""
    c = H.choose("cmp", CMP)
    o = H.choose("op", OPS)
    form = H.choose("form", ["{A} {c} k", "k {c} {A}", "not {A} {c} k",
                             "{A} {c} {B}", "not {A} {c} {B}",
                             "i {c} j {d} {A}", "{A} {d} j {c} k",
                             "not i {c} j {d} k", "-i {c} -j",
                             "i {c} j and k {d} l", "i {c} j or k {d} l",
                             "not i {c} j or k {d} l",
                             "not (i {c} j or k {d} l)"])
    d = H.choose("cmp2", ["<", "=="]) if "{d}" in form else ""
    if "{A}" not in form and o != "+":
        return
    src = form.format(A="i %s j" % o, B="j %s i" % o, c=c, d=d)
    spec = form.format(A="(i %s j)" % o, B="(j %s i)" % o, c=c, d=d)
    # explicit grouping
    for x, y in (("not (i", "!!"),):
        spec = spec.replace(x, y)
    if spec.startswith("not ") and " or " not in spec:
        spec = "not (%s)" % spec[4:]
    spec = spec.replace("!!", "not (i")
    spec = {"i {c} j and k {d} l": "(i {c} j) and (k {d} l)",
            "i {c} j or k {d} l": "(i {c} j) or (k {d} l)",
            "not i {c} j or k {d} l": "(not (i {c} j)) or (k {d} l)",
            "not (i {c} j or k {d} l)":
            "not ((i {c} j) or (k {d} l))"}.get(form, spec).format(
                c=c, d=d) if "{A}" not in form else spec
    req = ""
    if o in "/%" and "{A}" in form:
        req = "require(j != 0)\n" + ("require(i != 0)\n"
                                     if "{B}" in form else "")
    scenario(H, "w = " + src, req + "w = " + spec,
             {**{n: IV[n] for n in "ijkl"}, "w": "bool"},
             cfg=dict(optimizer=False))


def vc_bool4(H):
    """`not` binds stronger than `and`, `and` stronger than `or`: every
    sequence of four operands, every placement of `not`, every grouping."""
    o = [H.choose("op%d" % n, ["and", "or"]) for n in (1, 2, 3)]
    par = H.choose("paren", ["", "12", "23", "34", "123", "234"])
    n1, n2, n3, n4 = (H.choose("n%d" % n, [False, True]) if n in (
        1, 2, 4) else False for n in (1, 2, 3, 4))
    pn = H.choose("not-paren", [False, True]) if par else False
    A = [("not " if n else "") + x
         for n, x in zip((n1, n2, n3, n4), "pqst")]
    P = "not (" if pn else "("
    if par == "":
        toks = [A[0], o[0], A[1], o[1], A[2], o[2], A[3]]
    else:
        lo, hi = int(par[0]) - 1, int(par[-1]) - 1
        toks = []
        for k in range(4):
            t = A[k]
            if k == lo:
                t = P + t
            if k == hi:
                t += ")"
            toks.append(t)
            if k < 3:
                toks.append(o[k])
    src = " ".join(toks)

    def group(src):
        """Reference: fully parenthesised text."""
        pos = [0]
        ts = src.replace("(", " ( ").replace(")", " ) ").split()

        def atom():
            t = ts[pos[0]]
            pos[0] += 1
            if t == "not":
                return "(not %s)" % atom()
            if t == "(":
                e = disj()
                pos[0] += 1
                return e
            return t

        def conj():
            xs = [atom()]
            while pos[0] < len(ts) and ts[pos[0]] == "and":
                pos[0] += 1
                xs.append(atom())
            return "(%s)" % " and ".join(xs)

        def disj():
            xs = [conj()]
            while pos[0] < len(ts) and ts[pos[0]] == "or":
                pos[0] += 1
                xs.append(conj())
            return "(%s)" % " or ".join(xs)
        return disj()
    scenario(H, "w = " + src, "w = " + group(src), BV,
             cfg=dict(optimizer=False))


DECL = """
struct S:
    x: int
    p: bool
v: S
v.x = i
v.p = i > j
const L = {{1, 2, 3}, {4, 5, 6}}
const M = {1: 10, 2: 20}
def f(a: int, b=2) -> int:
    result a - b
inline def g(a, b) -> S:
    s: S
    s.x = a * b
    s.p = a > b
    result s
"""
FORMS = [
    ("r = -v.x * 2", "r = (-i) * 2"), ("r = -f(j) - k", "r = (-(j - 2)) - k"),
    ("r = f(i, b=j) * k", "r = (i - j) * k"),
    ("r = f(i - j, k) % 7", "r = ((i - j) - k) % 7"),
    ("r = L[1][2] - L[0][1] - i", "r = 4 - i"),
    ("r = M[2] + i * M[1]", "r = 20 + i * 10"),
    ("r = g(i, j).x - k", "r = i * j - k"),
    ("p = not g(i, j).p", "p = not (i > j)"),
    ("p = not v.p and q", "p = (not (i > j)) and q"),
    ("r = f(f(i))", "r = (i - 2) - 2"),
    ("r = f(b=i, a=j)", "r = j - i"), ("r = f(i, j,)", "r = i - j"),
    ("r = (f)(i)", "r = i - 2"), ("r = (((i)))", "r = i"),
    ("r = (\n  i +\n      j\n) * k", "r = (i + j) * k"),
    ("r = i + \\\n  j * \\\n k", "r = i + (j * k)"),
    ("r *= i + j", "r = r * (i + j)"), ("r -= i - j", "r = r - (i - j)"),
    ("r += -i", "r = r + (-i)"),
    ("require", None),
    ("x := i + j\nr = x * k", "r = (i + j) * k"),
    ("x: int = i - j\nr = k - x", "r = k - (i - j)"),
    ("const (A = 1, B = A + 2)\nr = i * B", "r = i * 3"),
    ("const A = 5, B = 6\nr = i * B - A", "r = i * 6 - 5"),
    ("if p:\n    if q:\n        r = 1\nelse:\n    r = 2",
     "if p:\n    if q:\n        r = 1\nelse:\n    r = 2"),
    ("if p:\n    if q:\n        r = 1\n    else:\n        r = 2",
     "if p:\n    if q:\n        r = 1\n    else:\n        r = 2"),
    ("if p:\n    r = 1\nelif q:\n    r = 2\nelif i > j:\n    r = 3\n"
     "else:\n    r = 4",
     "if p:\n    r = 1\nelse:\n    if q:\n        r = 2\n    else:\n"
     "        if i > j:\n            r = 3\n        else:\n            r = 4"),
    ("if p:\n    r = 1\nelif q:\n    if i > j:\n        r = 2\n"
     "    else:\n        r = 5\nk = 3",
     "if p:\n    r = 1\nelse:\n    if q:\n        if i > j:\n"
     "            r = 2\n        else:\n            r = 5\nk = 3"),
    ("if p:\n    r = 1\n    for z in {1, 2}:\n        r += z\n    k = 2\n"
     "r += 1", "if p:\n    r = 1 + 1 + 2\n    k = 2\nr = r + 1"),
    ("if p:\n        r = 1\n        if q:\n          k = 2\nr += 1",
     "if p:\n    r = 1\n    if q:\n        k = 2\nr = r + 1"),
    ("if p: #c\n  #d\n\n  r = 1\n\n   # e\n  k = 2 #* x\n y *#\nl = 3",
     "if p:\n    r = 1\n    k = 2\nl = 3"),
    ("for z in {1, 2}:\n    for y in {z, 3}:\n        r += y * i\n    k += z",
     "r = r + 1 * i\nr = r + 3 * i\nk = k + 1\n"
     "r = r + 2 * i\nr = r + 3 * i\nk = k + 2"),
]
FORMS = [x for x in FORMS if x[1] is not None]


def vc_forms(H):
    """Postfix operators bind strongest; calls, subscripts, attributes,
    keyword arguments, line continuation, assignments, blocks."""
    src, spec = H.choose("form", FORMS)
    scenario(H, DECL + src, spec, {**IV, **BV},
             cfg=dict(optimizer=H.choose("opt", [False, True])))



# Every statement form, one line per string, tokens separated by one space
# (four spaces of indentation per level). A token beginning with / is a
# command, which extends to the end of its line.
SHAPES = [
    "a : int", "b := - 3 * ( a + 1 ) % 5",
    "if a == 1 and not b > 2 :", "    a = f ( b , c = { 1 , 2 } )",
    "    /say ${a} x", "elif a < b <= 3 or p :", "    a . b += l [ 0 ]",
    "    while not p :", "        & r = a . c", "        pass", "else :",
    "    b *= { 1 : 2 , 3 : \"x y\" }", "    for i in { : } :",
    "        b /= i", "def f ( a : int , b = 2 ) -> int :",
    "    result a - b", "inline def g ( & a : int , const b ) -> & int :",
    "    result a", "const def h ( ) -> int :", "    result 1",
    "const A = 1 , B : int = 2", "const ( C = 1 , D = 2 )",
    "struct S extends T , U :", "    x : int", "    pass",
    "entity E extends F :", "    h : int", "    inline def m ( ) :",
    "        pass", "    virtual def v ( ) :", "        pass",
    "    new ( x : int ) :", "        F . new ( x , y = 3 )",
    "interface a/b-c :", "    new ( x )", "    /* say */",
    "import a . b as c", "from . . m import *",
    "from m import ( x as y , z )", "interface \"p q\" :",
    "    a -= + 0x1F", "    if self . x :", "        if p :",
    "            a = 1.5", "        else :", "            f ( )",
    "        a = \"${ b }\"", "f ( a ) . g [ 1 , 2 ] ( )",
]
GAPS = {
    "none": "", "spaces": "   ", "backslash": " \\\n", "backslash+":
    "\\\n         ", "two backslashes": " \\\n\\\n ", "comment": "#*x*#",
    "comment2": " #* # \\ ** *# #**# ", "lines": "#* a\n  b\n*#",
    "hash in comment": "#*#*#", "mixed": " \\\n #* y\n*# \\\n",
}
ENDS = {"spaces": "   ", "comment": " # c", "comment2": "#c \\",
        "long": " #* x *#", "long2": "#* x\n   y *#", "backslash":
        " \\\n", "two": " #* x *# # y"}
BETWEEN = {"blank": "\n", "spaces": "         \n", "comment": "# c\n",
           "deep comment": "               # c\n", "shallow": " # c\n",
           "long": "#* x *#\n", "deep long": "             #* x *#\n",
           "lines": "   #* x\n y\n z *#\n", "star": "#***#\n",
           "odd long": "  #* x *#   # y\n",
           "text": "#* if a:\n    b = 1\n      \\\n*#\n"}


def vc_layout(H):
    """One layout element at one place of a program with every statement
    form: at every gap between two tokens, after the indentation and at
    the end of every line, and between every two lines. The tree is that of
    the plain text."""
    kind = H.choose("kind", ["gap", "start", "end", "between", "indent",
                             "eof"])
    base = [(len(x) - len(x.lstrip(" ")), x.split()) for x in SHAPES]
    base = [(n, [" ".join(t)] if t[0].startswith("/") else t)
            for n, t in base]
    for k, (n, t) in enumerate(base):     # strings with spaces
        while any(x.count('"') == 1 for x in t):
            i = [x.count('"') for x in t].index(1)
            j = [x.count('"') for x in t].index(1, i + 1)
            t[i:j + 1] = [" ".join(t[i:j + 1])]

    def text(lines):
        return "".join(" " * n + " ".join(t) + "\n" for n, t in lines)
    from .bounded5 import parse, dump
    want = dump(parse(text(base)))

    def same(src, what):
        try:
            got = dump(parse(src))
        except Error as e:
            H.prove("accepted", False, info="%s: %s\n%s" % (what, e, src))
            return
        H.prove("same-tree", got == want, info="%s\n%s" % (what, src))
    brackets = "([{"
    if kind == "gap":
        g = GAPS[H.choose("gap", list(GAPS))]
        for k, (n, t) in enumerate(base):
            depth = 0
            for i in range(1, len(t)):
                depth += (t[i - 1] in brackets) - (t[i - 1] in ")]}")
                word = t[i - 1][-1].isalnum() and (
                    t[i][0].isalnum() or t[i][0] in '"')
                two = t[i - 1] + t[i] in (
                    "..", "->", ":=") or t[i] in "=*" and not word \
                    and t[i - 1] in "+-*/%<>=!:#" or t[i - 1] == "interface"
                if g == "" and (word or two):
                    continue
                if word and g and not (g[0] in " #\\"):
                    continue
                l = " " * n + " ".join(t[:i]) + g + " ".join(t[i:]) + "\n"
                same(text(base[:k]) + l + text(base[k + 1:]),
                     "line %d gap %d" % (k + 1, i))
                if depth > 0:
                    for x in ("\n", "  \n\n      ", " # c\n", " \n# c\n  ",
                              "\\\n", " #* d\n *#\n"):
                        l = " " * n + " ".join(t[:i]) + x + \
                            " ".join(t[i:]) + "\n"
                        same(text(base[:k]) + l + text(base[k + 1:]),
                             "line %d bracket %d" % (k + 1, i))
    elif kind == "start":
        g = H.choose("gap", [x for x in GAPS if "\n" not in GAPS[x]
                             .split("\\")[0] and x not in (
                                 "none", "spaces", "lines", "mixed")])
        for k, (n, t) in enumerate(base):
            l = " " * n + GAPS[g].lstrip(" ") + " ".join(t) + "\n"
            same(text(base[:k]) + l + text(base[k + 1:]),
                 "line %d start" % (k + 1))
    elif kind == "end":
        g = H.choose("end", list(ENDS))
        for k, (n, t) in enumerate(base):
            if t[0].startswith("/") and not t[0].endswith("*/"):
                continue
            l = " " * n + " ".join(t) + ENDS[g] + "\n"
            same(text(base[:k]) + l + text(base[k + 1:]),
                 "line %d end" % (k + 1))
    elif kind == "between":
        g = H.choose("between", list(BETWEEN))
        for k in range(len(base) + 1):
            same(text(base[:k]) + BETWEEN[g] + text(base[k:]),
                 "before line %d" % (k + 1))
    elif kind == "indent":
        # any widths, provided that they grow with the level
        w = H.choose("widths", [(0, 1, 2, 3), (0, 2, 4, 6), (0, 8, 9, 20),
                                (0, 1, 20, 21), (0, 7, 9, 11)])
        same(text([(w[n // 4], t) for n, t in base]), "indentation")
        # each block its own width
        for step in (1, 2, 3, 5, 8):
            out, stack, width = [], [0], [0]
            for k, (n, t) in enumerate(base):
                while stack[-1] > n:
                    stack.pop()
                    width.pop()
                if stack[-1] < n:
                    stack.append(n)
                    width.append(width[-1] + 1 + (k * step) % 7)
                out.append((width[-1], t))
            same(text(out), "own widths %d" % step)
    else:
        src = text(base)
        for x in (src.rstrip("\n"), src + "\n\n", src + "   ", src +
                  "# end", src.rstrip("\n") + "  # end", src + "  #* x *#",
                  src + "        \n    \n ", src + "#* x\n *#",
                  src.replace("\n", "\r\n")):
            same(x, "end of file") if "\r" not in x else None
    H.cover()


CONTRACTS = [vc_arith3, vc_arith4, vc_compare, vc_bool4, vc_forms,
             vc_layout]
vc_layout.shards = 8
for _f in (vc_arith3, vc_arith4, vc_compare, vc_bool4):
    _f.shards = 8
