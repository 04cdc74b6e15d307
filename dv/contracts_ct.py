"""Contracts of const functions (C16): a call is the constant its body
computes, for all values of the integer arguments (symbolic), without
commands and without a memory of earlier calls."""
from . import ctref
from .contracts_int import begin
from .contracts_list import check_expr, snapshot, unchanged, decode, rdecode
from .ctref import Interp, Fail, Discard, render, rexpr
from .scen import *
import acaciamc.objects as O_

# name, Python-syntax text, call, symbolic names, constants bound before
PROGS = []


def P(name, src, *calls, **consts):
    PROGS.append((name, src, calls, consts))


P("value", "def f(a: int) -> int:\n    RESULT(a * 3 - 1)\n", "f(x)",
  "f(f(x))", "f(a=x)", "f(3)", "f(x) + f(y)")
P("bool", "def f(a: int, b: bool) -> bool:\n"
  "    RESULT(not b and a > 3 or a == -1)\n", "f(x, True)", "f(x, False)",
  "f(b=False, a=x)")
P("defaults", "def f(a, b=4, c=5) -> int:\n    RESULT(a * 100 + b * 10 + c)\n",
  "f(1)", "f(1, 2)", "f(1, 2, 3)", "f(1, c=x)", "f(c=1, a=2)", "f()",
  "f(1, 2, 3, 4)", "f(1, a=2)", "f(1, d=2)", "f(b=x, a=y)")
P("types", "def f(a: int, b: bool = True) -> int:\n    RESULT(a)\n",
  "f(True)", "f(1, 2)", "f(\"s\")", "f(x, False)", "f([1])", "f(None)")
P("result type", "def f(a) -> int:\n    RESULT(a)\n", "f(x)", "f(True)",
  "f([x])", "f(None)")
P("no result", "def f(a):\n    b = VAR(a)\n", "f(x)")
P("result none", "def f(a) -> int:\n    if a > 0:\n        RESULT(a)\n",
  "f(x)")
P("result goes on", "def f(a: int) -> list:\n    b = VAR(a)\n"
  "    RESULT([b])\n    b = 3\n    RESULT([b, a])\n", "f(x)")
P("result changed later", "def f(a: int, b: int) -> int:\n    c = VAR(a)\n"
  "    RESULT(c)\n    c = c + 1\n    c -= b\n", "f(x, 3)", "f(x, y)")
P("result changed later, const", "def g(a: int) -> int:\n    c = VAR(a)\n"
  "    r = REF(c)\n    RESULT(r)\n    c = 7\n"
  "def f(a: int) -> list:\n    RESULT([g(a), g(a + 1)])\n", "f(x)")
P("last result", "def f(a: int) -> int:\n    RESULT(1)\n    if a > 5:\n"
  "        RESULT(2)\n", "f(x)")
P("if", "def f(a: int) -> int:\n    r = VAR(0)\n    if a > 0:\n"
  "        r = 1\n    elif a == 0:\n        r = 2\n    else:\n"
  "        r = 3\n    RESULT(r)\n", "f(x)")
P("if order", "def f(a: int, b: int) -> int:\n    r = VAR(0)\n"
  "    if a > b:\n        r = a\n    elif a > 3:\n        r = 4\n"
  "    elif b > 3:\n        r = b\n    RESULT(r)\n", "f(x, y)")
P("if condition", "def f(a) -> int:\n    if a:\n        RESULT(1)\n"
  "    else:\n        RESULT(2)\n", "f(True)", "f(False)", "f(1)", "f(None)",
  "f(x > 4)")
P("while", "def f(a: int, n: int) -> int:\n    i = VAR(0)\n"
  "    r = VAR(a)\n    while i < n:\n        r += i * 2\n        i += 1\n"
  "    RESULT(r)\n", "f(x, 0)", "f(x, 1)", "f(x, 4)", "f(x, -1)")
P("while condition", "def f(a) -> int:\n    while a:\n        a\n"
  "    RESULT(2)\n", "f(False)", "f(0)")
P("while symbolic", "def f(a: int) -> int:\n    i = VAR(a)\n"
  "    n = VAR(0)\n    while i > 10 and n < 4:\n        i = i / 2\n"
  "        n += 1\n    RESULT(n * 1000 + i % 7)\n", "f(x)")
P("for", "def f(a: int) -> int:\n    r = VAR(0)\n    for n in [3, a, 5]:\n"
  "        m = VAR(n * 2)\n        r = r * 2 + m\n    RESULT(r)\n", "f(x)")
P("for map", "def f(m) -> list:\n    r = VAR([])\n    for k in m:\n"
  "        r.append([k, m[k]])\n    RESULT(r)\n", "f({2: x, 1: y})", "f({})",
  "f({1: x, True: y})")
P("for range", "def f(n: int) -> list:\n    r = VAR([])\n"
  "    for i in list.range(n):\n        for j in list.range(i):\n"
  "            r.append(i * 10 + j)\n    RESULT(r)\n", "f(0)", "f(1)", "f(4)")
P("for element assign", "def f() -> list:\n    l = VAR([1, 2])\n"
  "    for n in l:\n        n = 3\n    RESULT(l)\n", "f()")
P("not iterable", "def f(a) -> int:\n    for n in a:\n        n\n"
  "    RESULT(1)\n", "f(x)", "f([x])", "f(\"ab\")", "f({x: 1})")
P("augmented", "def f(a: int, b: int) -> list:\n    r = VAR(a)\n"
  "    r += b\n    s = VAR(a)\n    s -= b\n    t = VAR(a)\n    t *= 2\n"
  "    u = VAR(a)\n    u /= 3\n    v = VAR(a)\n    v %= 5\n"
  "    RESULT([r, s, t, u, v])\n", "f(x, y)")
P("division", "def f(a: int, b: int) -> list:\n"
  "    RESULT([a / b, a % b])\n", "f(x, 3)", "f(x, -3)", "f(7, 0)",
  "f(x, 1)", "f(-7, 2)", "f(7, -2)", "f(-7, -2)", "f(-2147483647 - 1, -1)")
P("overflow", "def f(a: int, b: int) -> int:\n    RESULT(a + b)\n",
  "f(x, y)", "f(x, 2147483647)")
P("overflow neg", "def f(a: int) -> int:\n    RESULT(-a)\n", "f(x)")
P("overflow in the middle", "def f(a: int) -> int:\n    RESULT(a + 1 - 1)\n",
  "f(x)")
P("overflow mul", "def f(a: int) -> int:\n    RESULT(a * 65536)\n", "f(x)")
P("compare chain", "def f(a: int, b: int, c: int) -> bool:\n"
  "    RESULT(a < b <= c)\n", "f(x, y, 5)", "f(x, 3, y)")
P("compare", "def f(a, b) -> list:\n    RESULT([a == b, a != b, a < b, "
  "a <= b, a > b, a >= b])\n", "f(x, y)", "f(x, x)", "f(True, False)",
  "f(x, True)", "f(\"a\", \"a\")")
P("bool compare", "def f(a, b) -> list:\n    RESULT([a == b, a != b])\n",
  "f(True, False)", "f(True, True)", "f(False, False)", "f(x, y)",
  "f(None, None)")
P("logic", "def f(a: bool, b: bool) -> list:\n    RESULT([a and b, a or b, "
  "not a, a and b or not a, not (a or b), a and not b and a])\n",
  "f(True, True)", "f(True, False)", "f(False, True)", "f(False, False)")
P("logic of three", "def f(a: bool, b: bool, c: bool) -> list:\n"
  "    RESULT([a and b and c, a or b or c, a and b or c, a or b and c, "
  "not a or not b or not c, (a or b) and c])\n",
  *["f(%s, %s, %s)" % (u, v, w) for u in (True, False)
    for v in (True, False) for w in (True, False)])
P("logic of four", "def f(a: bool, b: bool, c: bool, d: bool) -> list:\n"
  "    RESULT([a and b and c and d, a or b or c or d, "
  "not (a or b or c or d), a and b and c or d])\n",
  *["f(%s)" % ", ".join(str(bool(n >> k & 1)) for k in range(4))
    for n in range(16)])
P("logic operand", "def f(a, b) -> bool:\n    RESULT(a and b)\n", "f(1, True)",
  "f(True, 1)")
P("strings", "def f(a: int, s) -> list:\n"
  "    RESULT([s + \"x\", f\"{s}<{a}>{a > 3}\", s + f\"{a + 1}\"])\n",
  "f(4, \"q\")", "f(-7, \"\")", "f(3, f\"{4}\")")
P("string list", "def f(s) -> list:\n    RESULT([f\"{s}\"])\n", "f([1])",
  "f(None)", "f(True)", "f(-5)")
P("string errors", "def f(s, t) -> list:\n    RESULT([s + t])\n",
  "f(\"a\", 1)", "f(1, \"a\")", "f(\"a\", \"b\")", "f(True, True)")
P("call", "def g(a: int, b: int) -> int:\n    RESULT(a - b)\n"
  "def f(a: int) -> int:\n    c = VAR(g(a, 2))\n    RESULT(g(c, g(c, a)))\n",
  "f(x)", "g(f(x), y)", "g(b=x, a=y)")
P("call local", "def g(a: int) -> int:\n    i = VAR(a)\n    i += 1\n"
  "    RESULT(i)\n"
  "def f(a: int) -> list:\n    i = VAR(a)\n    j = VAR(g(i))\n"
  "    RESULT([i, j, g(j), i])\n", "f(x)")
P("recursion", "def f(n: int) -> int:\n    if n <= 0:\n        RESULT(1)\n"
  "    else:\n        RESULT(n + f(n - 1))\n", "f(0)", "f(3)", "f(10)")
P("recursion 2", "def f(n: int, a: int) -> list:\n    if n == 0:\n"
  "        RESULT([a])\n    else:\n        r = VAR(f(n - 1, a + n))\n"
  "        r.append(n)\n        RESULT(r)\n", "f(0, x)", "f(4, x)")
P("outer constant", "def f(a: int) -> int:\n    RESULT(a + K)\n", "f(x)",
  K=5)
P("outer shadowed", "def f(a: int) -> int:\n    K = VAR(a)\n    K += 1\n"
  "    RESULT(K)\ndef g(a: int) -> int:\n    RESULT(f(a) + K)\n", "g(x)",
  "f(K)", K=5)
P("outer assigned", "def f(a: int) -> int:\n    K = a\n    RESULT(K)\n",
  "f(x)", K=5)
P("outer list", "def f(a: int) -> list:\n    l = VAR(K.copy())\n"
  "    l.append(a)\n    l[0] = 9\n    RESULT([l, K])\n", "f(x)", "f(1)",
  K="[1, 2]")
P("outer list changed", "def f(a: int) -> list:\n    K.append(a)\n"
  "    RESULT(K)\n", "f(x)", K="[1, 2]")
P("outer list element", "def f(a: int) -> list:\n    K[0] = a\n"
  "    RESULT(K)\n", "f(x)", K="[1, 2]")
P("unknown", "def f(a: int) -> int:\n    RESULT(a + z)\n", "f(x)")
P("use before", "def f(a: int) -> int:\n    RESULT(b)\n    b = VAR(a)\n",
  "f(x)")
P("twice", "def f(a: int) -> int:\n    b = VAR(a)\n    b = VAR(a)\n"
  "    RESULT(b)\n", "f(x)")
P("typed", "def f(a) -> list:\n    b: int = a\n    b += 1\n    RESULT([b])\n",
  "f(x)", "f(True)", "f([1])")
P("scopes", "def f(a: int) -> list:\n    for n in [1, 2]:\n"
  "        t = VAR(n + a)\n    RESULT([t])\n", "f(x)")
P("reference", "def f(a: int) -> list:\n    b = VAR(a)\n    r = REF(b)\n"
  "    r += 1\n    b *= 2\n    c = VAR(r)\n    r = 7\n    RESULT([b, r, c])\n",
  "f(x)")
P("reference element", "def f(a: int) -> list:\n    l = VAR([a, 2, 3])\n"
  "    r = REF(l[1])\n    r = 9\n    l[0] = 4\n    s = REF(l[-1])\n"
  "    s += a\n    RESULT([l, r, s])\n", "f(x)")
P("reference map", "def f(a: int) -> list:\n    m = VAR({1: a, 2: 3})\n"
  "    r = REF(m[1])\n    r += 1\n    m[2] = 5\n"
  "    RESULT([m[1], m[2], m.keys(), m])\n", "f(x)")
P("reference value", "def f(a: int) -> int:\n    r = REF(a + 1)\n"
  "    RESULT(r)\n", "f(x)")
P("variable copies value", "def f(a: int) -> list:\n    l = VAR([a, 2])\n"
  "    n = VAR(l[0])\n    n = 9\n    l[1] = n\n    n = 8\n"
  "    RESULT([l, n])\n", "f(x)")
P("aliases", "def f(a: int) -> list:\n    l = VAR([a])\n    m = VAR(l)\n"
  "    m.append(2)\n    k = VAR([l, l])\n    l.append(3)\n"
  "    RESULT([l, m, k, k[0].size()])\n", "f(x)")
P("copies", "def f(a: int) -> list:\n    l = VAR([a, 1])\n"
  "    m = VAR(l.copy())\n    m.append(2)\n    m[0] = 5\n    l[1] = 6\n"
  "    s = VAR(l.slice(0, 1))\n    s[0] = 8\n    RESULT([l, m, s])\n", "f(x)")
P("map copies", "def f(a: int) -> list:\n    m = VAR({1: a})\n"
  "    n = VAR(m.copy())\n    n[1] = 5\n    n.update({2: 6})\n"
  "    ks = VAR(m.keys())\n    ks.append(4)\n    vs = VAR(n.values())\n"
  "    vs[0] = 0\n    RESULT([m, n, ks, vs])\n", "f(x)")
P("list argument", "def g(l: list, a: int):\n    l.append(a)\n"
  "def f(a: int) -> list:\n    l = VAR([1])\n    g(l, a)\n    g(l, 2)\n"
  "    RESULT(l)\n", "f(x)")
P("default list", "def f(a: int, l: list = [1]) -> list:\n"
  "    l.append(a)\n    RESULT(l)\n", "f(x)", "f(y)", "f(x)")
P("default map", "def f(a: int, m: map = {1: [2]}) -> map:\n"
  "    m[1].append(a)\n    m.update({a: 3})\n    RESULT(m)\n", "f(5)", "f(6)",
  "f(5)")
P("default in function", "def g(a: int, l: list = [1]) -> int:\n"
  "    l.append(a)\n    RESULT(l.size())\n"
  "def f() -> list:\n    RESULT([g(1), g(2), g(3)])\n", "f()", "f()")
P("int of bool", "def f(a: int) -> int:\n    RESULT(int(a > 3) + "
  "int(True))\n", "f(x)")
P("unary", "def f(a: int) -> list:\n    RESULT([-a, +a, -(-a), - 3])\n",
  "f(x)")
P("unary errors", "def f(a) -> list:\n    RESULT([-a])\n", "f(True)",
  "f(\"s\")", "f([1])")
P("not errors", "def f(a) -> list:\n    RESULT([not a])\n", "f(1)",
  "f(\"\")", "f(None)", "f(True)")
P("uncallable", "def f(a) -> list:\n    RESULT([a(1)])\n", "f(1)")
P("callback", "def g(a: int) -> int:\n    RESULT(a * 2)\n"
  "def f(h, a: int) -> int:\n    RESULT(h(a) + 1)\n", "f(g, x)")
P("nested default", "def f(a: int, l=[[1], [2], 3]) -> list:\n"
  "    l[0].append(a)\n    l[1][0] += a\n    l.append(4)\n    RESULT(l)\n",
  "f(x)", "f(3)", "f(x, [[0], [0, 5]])", "f(f(x)[2])")
P("nested default map", "def f(a: int, m={1: [2], 3: {4: 5}}) -> map:\n"
  "    m[1].append(a)\n    m[3][4] += a\n    m[3].set_default(6, a)\n"
  "    RESULT(m)\n", "f(x)", "f(3)", "f(x, {1: [], 3: {4: 1}})")
P("nested constant", "def g(a: int) -> list:\n    RESULT([[a], [[a, 1]]])\n"
  "def f(a: int) -> list:\n    l = VAR(g(a))\n    m = VAR(l)\n"
  "    l[1][0][0] += 5\n    m[0].append(7)\n    n = VAR(g(a))\n"
  "    RESULT([l, n])\n", "f(x)", "f(2)")
P("pass", "def f(a: int) -> int:\n    pass\n    RESULT(a)\n    pass\n",
  "f(x)")
P("nested data", "def f(a: int) -> list:\n"
  "    t = VAR([[0, 0], [0, 0]])\n    for i in list.range(2):\n"
  "        for j in list.range(2):\n            t[i][j] = a + i * 2 + j\n"
  "    r = REF(t[1])\n    r[0] += 10\n    RESULT(t)\n", "f(x)")
P("assign value", "def f(a: int) -> int:\n    a + 1 == 2\n    RESULT(a)\n",
  "f(x)")
P("assign call", "def g() -> int:\n    RESULT(1)\ndef f() -> int:\n"
  "    g() \n    RESULT(g())\n", "f()")
P("sort", "def f(a: int, b: int, c: int) -> list:\n"
  "    l = VAR([a, b, c])\n    for i in list.range(3):\n"
  "        for j in list.range(2):\n            if l[j] > l[j + 1]:\n"
  "                t = VAR(l[j])\n                l[j] = l[j + 1]\n"
  "                l[j + 1] = t\n    RESULT(l)\n", "f(x, y, 10)")
P("max", "def f(a: int, b: int) -> int:\n    r = VAR(b)\n    if a >= b:\n"
  "        r = a\n    RESULT(r)\n", "f(x, f(y, 7))")
P("abs", "def f(a: int) -> int:\n    if a < 0:\n        RESULT(-a)\n"
  "    else:\n        RESULT(a)\n", "f(x)", "f(f(x) - 5)")
P("multi key", "def f(l: list) -> map:\n    m = VAR({})\n"
  "    for n in l:\n        m.set_default(n, 0)\n        m[n] += 1\n"
  "    RESULT(m)\n", "f([1, 2, 1, 1])", "f([])", "f([True, 1, \"1\"])")
P("parameter at run-time level", "def f(a: int) -> int:\n    b = VAR(a)\n"
  "    b += 1\n    b *= b\n    RESULT(b)\n", "f(K)", "f(K) + K", K=4)


def names_of(text):
    import re
    return [n for n in ("x", "y") if re.search(r"\b%s\b" % n, text)]


def vc_functions(H):
    """Each function with each call: the value (all arguments), twice."""
    n = H.choose("program", list(range(len(PROGS))))
    name, src, calls, consts = PROGS[n]
    c = H.choose("call", list(range(len(calls))))
    H.choose("part", [0])
    text = calls[c]
    vals = {k: H.int(k, MIN, MAX) for k in names_of(text)}
    env = begin(H)
    for k, v in vals.items():
        env.bind(k, O_.IntLiteral(v))
    for k, v in consts.items():
        err = env.visit("const %s = %s\n" % (k, rexpr(str(v))))
        H.prove("constant accepted", err is None)
    glob = dict(vals)
    for k, v in consts.items():
        glob[k] = Interp(rt=True).eval(str(v))
    snap = snapshot(env)
    err = env.visit(render(src))
    H.prove(name + " defined", err is None, info=str(err))
    H.prove(name + " definition emits nothing", unchanged(env, snap))

    def want(call):
        it = Interp(glob)
        it.define(src)
        rt = Interp(it.glob, rt=True)
        try:
            return rt.eval(call)
        except Fail as e:
            return e

    H.cover()
    check_expr(H, env, rexpr(text), want(text), name)
    # again, after other calls (including rejected ones)
    for other in calls:
        if not names_of(other):
            try:
                env.visit_expr(rexpr(other))
            except Error:
                pass
    check_expr(H, env, rexpr(text), want(text), name + " again")


METHODS = [
    "l.append(9)", "l.append(l[0])", "l.insert(0, 8)", "l.insert(1, 8)",
    "l.insert(-1, 8)", "l.insert(5, 8)", "l.insert(-5, 8)", "l.reverse()",
    "l.pop(0)", "l.pop(-1)", "l.pop(1)", "l.pop(7)", "l.extend([5, 6])",
    "l.extend(l)", "l.extend({3: 4})", "l.extend(1)", "l[0] = a",
    "l[-1] += 2", "l[4] = 0", "l[1] *= a", "r.append(l.pop(0))",
    "r.append(l)", "r = l", "l = r", "l[0] = r"]


LAST = ["l.append(9)", "l.insert(-1, 8)", "l.reverse()", "l.pop(1)",
        "l.extend(l)", "l[0] = a", "r.append(l)", "l[1] *= a"]


def vc_lists(H):
    """Sequences of three operations on mutable lists."""
    ops = [H.choose("op%d" % i, METHODS if i < 2 else LAST)
           for i in range(3)]
    base = H.choose("list", ["[a, 2]"])
    body = "    l = VAR(%s)\n    r = VAR([])\n" % base
    for o in ops:
        body += "    %s\n" % o
    src = "def f(a: int) -> list:\n%s    RESULT([l.size(), l, r])\n" % body
    run(H, src, "f(x)", ["x"])


MMETH = [
    "m.update({1: 5, 3: 6})", "m.update(other={2: a})", "m.update([1])",
    "m.pop(1)", "m.pop(5)", "m.pop(5, 6)", "m.pop(2, default=0)",
    "m.clear()", "m.set_default(1, 7)", "m.set_default(4, a)",
    "m.set_default(4)", "m[1] = 8", "m[9] = 8", "m[2] += a",
    "r.append(m.pop(1, 0))", "r.append(m.set_default(3, 4))",
    "r.append(m)", "m.update(m)", "m[True] = 3", "r.append(m.get(1))",
    "m.update({True: 1})", "m.update({\"1\": 2})"]


MLAST = ["m.update({1: 5, 3: 6})", "m.pop(1)", "m.set_default(1, 7)",
         "m[1] = 8", "m[2] += a", "r.append(m)", "m.update(m)",
         "m.set_default(4, a)", "r.append(m.pop(1, 0))"]


def vc_maps(H):
    """Sequences of three operations on mutable maps."""
    ops = [H.choose("op%d" % i, MMETH if i < 2 else MLAST)
           for i in range(3)]
    body = "    m = VAR({1: a, 2: 3})\n    r = VAR([])\n"
    for o in ops:
        body += "    %s\n" % o
    src = "def f(a: int) -> list:\n%s    RESULT([m.size(), m, r])\n" % body
    run(H, src, "f(x)", ["x"])


def run(H, src, call, names, label=""):
    vals = {k: H.int(k, MIN, MAX) for k in names}
    try:
        it = Interp(vals)
        it.define(src)
        try:
            want = Interp(it.glob, rt=True).eval(call)
        except Fail as e:
            want = e
    except Discard:
        H.skip()
        return
    env = begin(H)
    for k, v in vals.items():
        env.bind(k, O_.IntLiteral(v))
    err = env.visit(render(src))
    H.prove(label + "defined", err is None, info=str(err))
    H.cover()
    check_expr(H, env, rexpr(call), want, label + "call")


REJECT = [
    ("variable argument", "v := 1\nconst def f(a: int) -> int:\n"
     "    result a\n", "w := f(v)\n", True),
    ("variable in body", "v := 1\nconst def f(a: int) -> int:\n"
     "    result a + v\n", "w := f(1)\n", True),
    ("expression argument", "v := 1\nconst def f(a) -> int:\n"
     "    result 1\n", "w := f(v + 1)\n", True),
    ("command", "const def f():\n    /say hi\n", "f()\n", True),
    ("import", "const def f():\n    import math\n", "f()\n", True),
    ("function", "const def f():\n    def g():\n        pass\n", "f()\n",
     True),
    ("interface", "const def f():\n    interface a:\n        pass\n",
     "f()\n", True),
    ("constant", "const def f():\n    const A = 1\n", "f()\n", True),
    ("struct", "const def f():\n    struct S:\n        x: int\n", "f()\n",
     True),
    ("uninitialised", "const def f():\n    x: int\n", "f()\n", True),
    ("self", "const def f():\n    self\n", "f()\n", True),
    ("default variable", "v := 1\nconst def f(a = v):\n    pass\n", "",
     True),
    ("default type", "const def f(a: int = True):\n    pass\n", "", True),
    ("call run-time function", "def g() -> int:\n    result 1\n"
     "const def f() -> int:\n    result g()\n", "w := f()\n", True),
    ("call inline function", "inline def g() -> int:\n    result 1\n"
     "const def f() -> int:\n    result g()\n", "w := f()\n", True),
    ("fine", "const def f() -> int:\n    result 1\n", "w := f()\n", False),
    ("fine 2", "v := 1\nconst def f(a) -> int:\n    result 2\n",
     "v = f({1})\n", False)]


def vc_reject(H):
    """What is not a compile-time computation is rejected."""
    name, src, use, bad = H.choose("case", REJECT)
    form = H.choose("form", ["%s", "def outer():\n%s"])
    text = src + use
    if form != "%s":
        if name in ("interface", "struct"):
            H.skip()
            return
        text = "def outer():\n" + "".join(
            "    " + l + "\n" for l in text.splitlines())
    try:
        repo.compile_text(text)
        err = None
    except Error as e:
        err = e
    H.cover()
    H.prove(name, (err is not None) == bad, info="%s: %s" % (text, err))


# uses of a call where a constant is expected or stored
USES = [
    ("store", "i = f(j0)\n", "i = 3 * K + 1"),
    ("condition", "if f(K) > 7:\n    i = 1\nelse:\n    i = 2\n",
     "i = 1 if 3 * K + 1 > 7 else 2"),
    ("in expression", "i = j * f(K) - f(2)\n", "i = j * (3 * K + 1) - 7"),
    ("argument", "def g(a: int) -> int:\n    result a + j\ni = g(f(K))\n",
     "i = 3 * K + 1 + j"),
    ("const argument", "inline def g(const n, &v: int):\n"
     "    for a in list.range(n):\n        v += a + 1\ng(f(1), i)\n",
     "i += 1\ni += 2\ni += 3\ni += 4"),
    ("for", "for a in {f(1), f(2)}:\n    i += a\n", "i += 4\ni += 7"),
    ("const", "const C = f(K)\ni = C\nj = C * j\n",
     "i = 3 * K + 1\nj = (3 * K + 1) * j"),
    ("default", "def g(a: int = f(4)) -> int:\n    result a + i\nj = g()\n",
     "j = 13 + i"),
    ("in function", "def g():\n    i = f(K)\ng()\nj = i\n",
     "i = 3 * K + 1\nj = 3 * K + 1"),
    ("in inline", "inline def g(const n) -> int:\n    result f(n)\n"
     "i = g(5)\nj = g(6)\n", "i = 16\nj = 19"),
    ("loop constant", "for K2 in {1, 2}:\n    i += f(K2)\n",
     "i += 4\ni += 7"),
    ("caller scope", "inline def g(const K):\n    i = h(1)\ng(50)\n"
     "j = h(2)\n", "i = 1 + K\nj = 2 + K"),
    ("caller loop", "for K in {50, 60}:\n    i += h(1)\n",
     "i += 1 + K\ni += 1 + K"),
    ("module", "import m\ni = m.f(2)\nj = m.g(3)\n", "i = 2 + 40\nj = 81"),
    ("module name", "from m import g\nconst A = 7\ni = g(A)\n",
     "i = 14 + 40 - 5"),
]


def vc_uses(H):
    """The call of a const function is a constant wherever it is used."""
    n = H.choose("case", list(range(len(USES))))
    k = H.choose("K", [0, 3, -2147, 90000])
    name, src, spec = USES[n]
    if name == "module":
        spec = "i = 2 + 40\nj = 3 * 2 + 40 - 5"
    head = "const K = %d\nconst def f(n: int) -> int:\n    result n * 3 + 1\n" \
        "const def h(n: int) -> int:\n    result n + K\n" % k
    import re
    scenario(H, head + src.replace("j0", "K"),
             re.sub(r"\bK\b", "(%d)" % k, spec), {"i": "int", "j": "int"},
             modules={"m.aca": "const A = 40\nconst def f(n: int) -> int:\n"
                      "    result n + A\nconst def g(n: int) -> int:\n"
                      "    result f(n * 2) - 5\n"},
             cfg=dict(optimizer=H.choose("optimizer", [False, True])),
             label=name + ": ")


vc_lists.shards = 8
vc_maps.shards = 8
vc_functions.shards = 2
CONTRACTS = [vc_functions, vc_lists, vc_maps, vc_reject, vc_uses]
