"""Contracts of calls (C06): argument binding, defaults, ports, results,
locals, nested calls -- for normal, inline and method-free functions."""
from .scen import *

V = {"i": "int", "j": "int", "k": "int", "p": "bool", "q": "bool"}
STR = "struct S:\n    x: int\n    y: bool\n"
SV = {"s.x": "int", "s.y": "bool", "t.x": "int", "t.y": "bool"}

# {K} is "def" or "inline def"; every case must mean the same for both.
COMMON = [
    ("plain", "{K} f(a: int) -> int:\n    result a + 1\ni = f(j)\n",
     "i = j + 1"),
    ("aug", "{K} f(a: int) -> int:\n    result a * a\ni += f(j)\n",
     "i += j * j"),
    ("lit", "{K} f(a: int) -> int:\n    result a\ni = f(L1)\nj = f(L2)\n",
     "i = L1\nj = L2"),
    ("order", "{K} f(a: int, b: int, c: bool) -> int:\n    result a - b\n"
     "i = f(j, k, p)\n", "i = j - k"),
    ("kw", "{K} f(a: int, b: int) -> int:\n    result a - b\n"
     "i = f(b=j, a=k)\n", "i = k - j"),
    ("mixed", "{K} f(a: int, b: int, c: int) -> int:\n"
     "    result a - b * c\ni = f(j, c=k, b=i)\n", "i = j - i * k"),
    ("default", "{K} f(a: int, b: int = 7, c: bool = True) -> int:\n"
     "    r := a - b\n    if c:\n        r += 1\n    result r\n"
     "i = f(j)\nk = f(k, c=p)\nj = f(j, 3, q)\n",
     "i = j - 7 + 1\nk = k - 7 + (1 if p else 0)\n"
     "j = j - 3 + (1 if q else 0)"),
    ("defaultinfer", "{K} f(a: int, b: int = L1) -> int:\n"
     "    result a + b\ni = f(j)\nk = f(j, L2)\n", "i = j + L1\nk = j + L2"),
    ("byvalue", "{K} f(a: int):\n    a += 1\n    a *= 2\nf(i)\nf(j)\n",
     "pass"),
    ("byvaluebool", "{K} f(a: bool) -> bool:\n    a = not a\n"
     "    result a\nq = f(p)\n", "q = not p"),
    ("cond", "{K} f(a: int, b: int) -> bool:\n    result a < b\n"
     "p = f(i, j) and not f(j, k)\nq = f(k, i)\n",
     "p = i < j and not (j < k)\nq = k < i"),
    ("ifcall", "{K} f(a: int) -> bool:\n    result a > 3\n"
     "if f(i):\n    j = 1\nelif f(j):\n    k = 2\nelse:\n    p = q\n",
     "if i > 3:\n    j = 1\nelif j > 3:\n    k = 2\nelse:\n    p = q"),
    ("nested", "{K} f(a: int, b: int) -> int:\n    result a * 3 - b\n"
     "i = f(f(j, k), f(k, j))\n",
     "i = (j * 3 - k) * 3 - (k * 3 - j)"),
    ("nested2", "{K} f(a: int, b: int) -> int:\n    result a * 3 - b\n"
     "i = f(j, f(k, f(i, j)))\n",
     "i = j * 3 - (k * 3 - (i * 3 - j))"),
    ("twice", "{K} f(a: int) -> int:\n    result a + 5\n"
     "i = f(j) - f(k) * f(i)\n", "i = j + 5 - (k + 5) * (i + 5)"),
    ("twocalls", "{K} f(a: int) -> int:\n    result a\n"
     "a := f(i)\nb := f(j)\ni = b\nj = a\n", "i, j = j, i"),
    ("exprargs", "{K} f(a: int, b: bool) -> int:\n    r := 0\n"
     "    if b:\n        r = a\n    result r\n"
     "i = f((i + j) * (j - k), i < j or p)\n",
     "i = (i + j) * (j - k) if i < j or p else 0"),
    ("tmpcaller", "{K} f(a: int) -> int:\n"
     "    result (a + 1) * (a - 1) - (a * 2 - 3)\n"
     "i = (i + j) * f(k) - (i - j) * f(j)\n",
     "i = (i + j) * ((k + 1) * (k - 1) - (k * 2 - 3)) - "
     "(i - j) * ((j + 1) * (j - 1) - (j * 2 - 3))"),
    ("callincall", "{K} g(a: int) -> int:\n    result a - 1\n"
     "{K} f(a: int, b: int) -> int:\n    result g(a) * g(b)\n"
     "i = f(j, k)\nj = g(f(i, i))\n",
     "i = (j - 1) * (k - 1)\nj = (i - 1) * (i - 1) - 1"),
    ("global", "{K} f():\n    i += 1\n    j = i\nf()\nf()\n",
     "i += 1\nj = i\ni += 1\nj = i"),
    ("globalarg", "{K} f(a: int):\n    i += a\nf(j)\nf(k + 1)\n",
     "i += j\ni += k + 1"),
    ("argisglobal", "{K} f(a: int):\n    i = a * 2\n    j = a\nf(i)\n",
     "i, j = i * 2, i"),
    ("resultthen", "{K} f(a: int) -> int:\n    result a\n    i += 1\n"
     "j = f(k)\n", "i += 1\nj = k"),
    ("resulttwice", "{K} f(a: bool) -> int:\n    result 1\n    if a:\n"
     "        result 2\nj = f(p)\nk = f(q)\n",
     "j = 2 if p else 1\nk = 2 if q else 1"),
    ("resultif", "{K} f(a: int) -> int:\n    if a < 0:\n"
     "        result -a\n    else:\n        result a\ni = f(j)\n",
     "i = -j if j < 0 else j"),
    ("locals", "{K} f(a: int) -> int:\n    v := a * 2\n    w: int = v + 1\n"
     "    v = w * w\n    result v - w\nv := i\ni = f(j)\nj = f(v)\n",
     "i, j = ((j * 2 + 1) * (j * 2 + 1) - (j * 2 + 1)), "
     "((i * 2 + 1) * (i * 2 + 1) - (i * 2 + 1))"),
    ("event", "{K} f(a: int):\n    act(\"x\", i, p)\n    i += a\n"
     "f(j)\nact(\"y\", j)\nf(k)\n",
     "act('x', i, p)\ni += j\nact('y', j)\nact('x', i, p)\ni += k"),
    ("eventorder", "{K} f(a: int) -> int:\n    act(\"x\", j)\n"
     "    result a + j\n{K} g(a: int) -> int:\n    act(\"y\", k)\n"
     "    result a - k\ni = f(i) * g(i)\n",
     "act('x', j)\ni1 = i + j\nact('y', k)\ni = i1 * (i - k)"),
    ("evalonce", "{K} f(a: int) -> int:\n    act(\"x\", j)\n"
     "    result j\n{K} g(a: int) -> int:\n    result a + a + a\n"
     "i = g(f(k))\n", "act('x', j)\ni = j + j + j"),
    ("discard", "{K} f(a: int) -> int:\n    act(\"x\", j)\n    result a\n"
     "f(1)\nf(i)\n", "act('x', j)\nact('x', j)"),
    ("inif", "{K} f(a: int) -> int:\n    act(\"x\", j)\n    result a\n"
     "if p:\n    i = f(j)\nelse:\n    k = f(i)\n",
     "if p:\n    j0 = j\n    act('x', j)\n    i = j0\nelse:\n    i0 = i\n    act('x', j)\n    k = i0"),
    ("inif1", "{K} f(a: int):\n    j += a\n    i = j\nif p:\n    f(k)\n"
     "if q and i < k:\n    f(i)\n",
     "if p:\n    j += k\n    i = j\nif q and i < k:\n    j += i\n"
     "    i = j"),
    ("infor", "{K} f(a: int) -> int:\n    result a * 2\n"
     "for x in {{1, 2, 3}}:\n    i += f(x) - f(i)\n",
     "i += 2 - i * 2\ni += 4 - i * 2\ni += 6 - i * 2"),
    ("struct", STR + "s: S\nt: S\n{K} f(a: S, b: int) -> S:\n    a.x += b\n"
     "    a.y = not a.y\n    result a\ns = f(t, i)\nt = f(s, b=j)\n",
     "s.x, s.y = t.x + i, not t.y\nt.x, t.y = s.x + j, not s.y"),
    ("structfield", STR + "s: S\nt: S\n{K} f(a: S) -> int:\n"
     "    result a.x * 2\ni = f(s) - f(t)\n", "i = s.x * 2 - t.x * 2"),
    ("structctor", STR + "s: S\nt: S\n{K} f(a: int, b: bool) -> S:\n"
     "    result S(y=b, x=a)\ns = f(i, p)\nu := f(j, q)\nt.x = u.x\n"
     "t.y = u.y\n", "s.x, s.y = i, p\nt.x, t.y = j, q"),
    ("none", "{K} f():\n    pass\nf()\ni = j\n", "i = j"),
    ("noneresult", "{K} f() -> None:\n    act(\"x\", i)\nf()\n",
     "act('x', i)"),
    ("cmd", "{K} f():\n    /say a\nf()\n/say b\nf()\n",
     "cmd('say a')\ncmd('say b')\ncmd('say a')"),
    ("module-like", "{K} mk(a: int, b: int = 2) -> int:\n"
     "    result a * b\n{K} sub(a: int) -> int:\n"
     "    result mk(a) - mk(a, 3) - mk(b=a, a=a)\ni = sub(j)\n",
     "i = j * 2 - j * 3 - j * j"),
    ("nestedafter", "{K} f(a: int) -> int:\n    result a\n"
     "    inline def g(b: int):\n        i += b\n"
     "    inline def h(b: int) -> int:\n        result b * 2\n"
     "    inline def e(b: int) -> bool:\n        result b > 2\n"
     "    g(a)\n    j += h(a)\n    if e(a):\n        j += 1\n"
     "k = f(k) - f(i)\n",
     "k0, i0 = k, i\ni += k0\nj += k0 * 2 + (1 if k0 > 2 else 0)\n"
     "i1 = i\ni += i1\nj += i1 * 2 + (1 if i1 > 2 else 0)\nk = k0 - i1"),
    ("nestedconst", "{K} f(a: int) -> int:\n"
     "    inline def g(const c: int) -> const int:\n        result c * 3\n"
     "    const def h(c: int) -> int:\n        result c + 4\n"
     "    result a * g(2) - h(g(3))\ni = f(j)\n",
     "i = j * 6 - 13"),
    ("nestedref", "{K} f(a: int) -> int:\n"
     "    v := a\n    inline def g(&r: int) -> &int:\n        r += 1\n"
     "        result r\n    &w = g(v)\n    w *= 2\n    result v + w\n"
     "i = f(j)\nj = f(i)\n",
     "i = (j + 1) * 4\nj = (i + 1) * 4"),
    # functions without parameters: each call's result is a value of its own
    ("noargs", "{K} f() -> int:\n    j += 1\n    result j\n"
     "i = f() - f() * 2\n", "i = (j + 1) - (j + 2) * 2\nj += 2"),
    ("noargs2", "{K} f() -> int:\n    j *= 3\n    result j + k\n"
     "{K} g(a: int, b: int) -> int:\n    result a - b * 2\n"
     "i = g(f(), f())\np = f() < f()\n",
     "i = (j * 3 + k) - (j * 9 + k) * 2\n"
     "p = j * 27 + k < j * 81 + k\nj *= 81"),
    ("noargsvar", "{K} f() -> int:\n    j += 1\n    result j\n"
     "a := f()\nb := f()\nc: int = f()\ni = a * b - c\nk = a\n",
     "i = (j + 1) * (j + 2) - (j + 3)\nk = j + 1\nj += 3"),
    ("noargsbool", "{K} f() -> bool:\n    p = not p\n    result p\n"
     "a := f()\nb := f()\nif a and not b:\n    i = 1\n"
     "q = f() == a\n",
     "if not p:\n    i = 1\nq = True\np = not p"),
    ("noargsstruct", STR + "s: S\nt: S\n{K} f() -> S:\n    s.x += j\n"
     "    s.y = not s.y\n    result s\nt = f()\nu := f()\n"
     "i = t.x - u.x\np = t.y == u.y\nq = u.y\n",
     "t.x, t.y = s.x + j, not s.y\ni = -j\np = False\nq = s.y\n"
     "s.x += j * 2"),
    ("noargsnested", "{K} f() -> int:\n    j += 1\n    result j\n"
     "{K} g() -> int:\n    a := f()\n    result a * f() - a\n"
     "i = g() - g()\n",
     "i = ((j + 1) * (j + 2) - (j + 1)) - "
     "((j + 3) * (j + 4) - (j + 3))\nj += 4"),
    ("samelocal", "{K} f(a: int) -> int:\n    r := a + 1\n    result r\n"
     "{K} g(a: int, b: int) -> bool:\n    result a < b\n"
     "p = g(f(i), f(j))\nq = f(j) == f(k)\nk = f(f(i) - f(j)) * f(k)\n",
     "p = i + 1 < j + 1\nq = j == k\nk = (i - j + 1) * (k + 1)"),
]

INLINE = [
    ("ref", "inline def f(&a: int):\n    a += 1\nf(i)\nf(j)\n",
     "i += 1\nj += 1"),
    ("ref2", "inline def f(&a: int, &b: int):\n    a = b\n    b += 1\n"
     "f(i, j)\nf(b=i, a=k)\n", "i = j\nj += 1\nk = i\ni += 1"),
    ("refsame", "inline def f(&a: int, &b: int):\n    a += 1\n    b *= 2\n"
     "f(i, i)\n", "i += 1\ni *= 2"),
    ("refbool", "inline def f(&a: bool):\n    a = not a\nf(p)\n",
     "p = not p"),
    ("refstruct", STR + "s: S\nt: S\ninline def f(&a: S):\n    a.x += 1\n"
     "f(s)\ninline def g(&a: int):\n    a = 4\ng(t.x)\n",
     "s.x += 1\nt.x = 4"),
    ("refdefault", "inline def f(&a: int = j):\n    a += 1\nf()\nf(i)\n",
     "j += 1\ni += 1"),
    ("refresult", "inline def f(&a: int) -> &int:\n    a += 1\n"
     "    result a\n&r = f(i)\nr = 5\nj = f(k)\n", "i = 5\nk += 1\nj = k"),
    ("refvalue", "inline def f(&a: int, b: int):\n    a = 0\n    j = b\n"
     "f(i, i)\n", "i, j = 0, i"),
    ("const", "inline def f(const a):\n    i += a\nf(L1)\nf(L2)\n",
     "i += L1\ni += L2"),
    ("constbool", "inline def f(const a: bool):\n    if a:\n        i = 1\n"
     "    else:\n        j = 1\nf(True)\nf(False)\n", "i = 1\nj = 1"),
    ("constres", "inline def f(const a, const b) -> const Any:\n"
     "    result a * b - 1\ni = f(3, 4)\nconst c = f(2, b=5)\nj = c\n",
     "i = 11\nj = 9"),
    ("constdefault", "inline def f(const a = 3, b: int = 4):\n"
     "    i = a * b\nf()\nj = i\nf(5)\nk = i\nf(b=j)\n",
     "j = 12\nk = 20\ni = 36"),
    ("constlist", "inline def f(const a):\n    for x in a:\n        i += x\n"
     "f({{1, 2}})\nf({{5}})\n", "i += 1\ni += 2\ni += 5"),
    ("mixed", "inline def f(const a: int, &b: int, c: int) -> int:\n"
     "    b += a\n    c += b\n    result c\ni = f(2, j, k)\n",
     "j += 2\ni = k + j"),
    ("valres", "inline def f(&a: int) -> int:\n    result a\n    a += 1\n"
     "i = f(j) + f(j) * 2\n", "i = j + (j + 1) * 2\nj += 2"),
    ("scope", "x := i\ninline def f():\n    x += 1\ninline def g():\n"
     "    x := 5\n    f()\n    j = x\ng()\nk = x\n", "j = 5\nk = i + 1"),
    ("late", "inline def f(a: int) -> int:\n    v := a\n    result v\n"
     "i = f(f(j)) + f(k)\n", "i = j + k"),
    ("nestdef", "def f(a: int) -> int:\n    inline def g(&b: int):\n"
     "        b += a\n    v := 1\n    g(v)\n    g(v)\n    result v\n"
     "i = f(j)\n", "i = 1 + j + j"),
    ("nestdef2", "inline def f(a: int) -> int:\n"
     "    def g(b: int) -> int:\n        result b + a\n"
     "    result g(g(1))\ni = f(j)\nk = f(i)\n",
     "i = 1 + j + j\nk = 1 + i + i"),
]

REJECT = [
    ("f(1, 2, 3)", "TOO_MANY_ARGS"), ("f()", "MISSING_ARG"),
    ("f(1)", "MISSING_ARG"), ("f(1, a=2)", "ARG_MULTIPLE_VALUES"),
    ("f(1, 2, c=3)", "UNEXPECTED_KEYWORD_ARG"),
    ("f(1, True)", "WRONG_ARG_TYPE"), ("f(p, 1)", "WRONG_ARG_TYPE"),
    ("f(b=1, c=2)", None), ("i = g()", "WRONG_ASSIGN_TYPE"),
    ("p = f(1, 2)", "WRONG_ASSIGN_TYPE"), ("i()", "UNCALLABLE"),
    ("h(1)", "CANT_REF_ARG"), ("h(i + 1)", "CANT_REF_ARG"),
    ("h(p)", "WRONG_ARG_TYPE"), ("c(i)", "ARG_NOT_CONST"),
    ("h(f(1, 2))", "CANT_REF_ARG"),
    ("def w() -> int:\n    result True", "WRONG_RESULT_TYPE"),
    ("inline def w() -> int:\n    result True\nw()", "WRONG_RESULT_TYPE"),
    ("inline def w() -> int:\n    pass\nw()", "NEVER_RESULT"),
    ("inline def w() -> &int:\n    result i + 1\nw()", "CANT_REF_RESULT"),
    ("result 1", "RESULT_OUT_OF_SCOPE"),
    ("def w(a: int = True):\n    pass", "UNMATCHED_ARG_DEFAULT_TYPE"),
    ("def w(a: int = i):\n    pass", "NONREF_ARG_DEFAULT_NOT_CONST"),
    ("def w(a, a: int):\n    pass", None),
    ("def w(a: int = 1, b: int):\n    pass",
     "NONDEFAULT_ARG_AFTER_DEFAULT"),
    ("f(a=1, 2)", "POSITIONED_ARG_AFTER_KEYWORD"),
    ("f(a=1, a=2, b=1)", None),
    ("def w(&a: int):\n    pass", "INVALID_FUNC_PORT"),
]


def run(H, src, spec, opt):
    lits = {n: None for n in ("L1", "L2", "L3") if n in src}
    vars = dict(V)
    if STR in src:
        vars.update(SV)
    scenario(H, src, spec, vars, lits, cfg=dict(optimizer=opt))


def vc_call(H):
    """Calls of normal and of inline functions bind every argument to its
    parameter (positional, keyword, default), copy by value, evaluate each
    argument once and in order, and deliver the result last given; locals,
    parameters and temporaries of the callee disturb nothing."""
    opt = H.choose("optimizer", [False, True])
    kind = H.choose("kind", ["def", "inline def"])
    name, src, spec = H.choose("case", COMMON)
    run(H, src.replace("{K}", kind).replace("{{", "{").replace("}}", "}"),
        spec, opt)


def vc_bind(H):
    """Binding, for an arbitrary body (an abstract statement over the
    parameters and the globals), arbitrary argument expressions and any
    mix of positional, keyword and defaulted arguments."""
    opt = H.choose("optimizer", [False, True])
    kind = H.choose("kind", ["def", "inline def"])
    ia = H.choose("int argument", ["L1", "i", "-k", "aint('e', i, j)"])
    ib = H.choose("second argument", [None, "L3", "j", "aint('h', j, k)"])
    bc = H.choose("bool argument", [None, "True", "p", "not q",
                                    "abool('g', i, k)"])
    use = H.choose("use", ["i = %s", "k += %s * 2", "v := %s\nk = v"])
    kw = H.choose("keywords", ["positional", "keyword"])
    D = {"b": "L2", "c": "False"}
    if kw == "positional":
        if ib is None and bc is not None:
            args = "%s, c=%s" % (ia, bc)
        else:
            args = ", ".join(x for x in (ia, ib, bc) if x is not None)
    else:
        args = ", ".join("%s=%s" % (n, x) for n, x in
                         (("c", bc), ("a", ia), ("b", ib)) if x is not None)
    src = """
%s f(a: int, b: int = L2, c: bool = False) -> int:
    act("body", a, b, c, i, j, p)
    result a
    act("rest", b, i, q)
%s
""" % (kind, (use % ("f(%s)" % args)).replace("'", '"'))
    spec = """
a, b, c = %s, %s, %s
act('body', a, b, c, i, j, p)
r = a
act('rest', b, i, q)
%s
""" % (ia, ib or D["b"], bc or D["c"], use.replace(":=", "=") % "r")
    run(H, src, spec, opt)


def vc_order(H):
    """Arguments whose evaluation has effects (each an abstract statement
    that may change every variable) are evaluated once each, in the order
    in which they are written -- positional or keyword, in calls of
    functions, inline functions and struct constructors, nested, and as
    operands."""
    opt = H.choose("optimizer", [False, True])
    tk = H.choose("argument kind", ["def", "inline def"])
    kind = H.choose("kind", ["def", "inline def", "struct", "inner"])
    shape = H.choose("shape", ["abc", "ab,c=", "a,c=,b=", "a,b=,c=",
                               "c=,a=,b=", "b=,c=,a=", "c=,b=,a="])
    decl = {
        "def": "def f(a: int, b: int, c: int) -> int:\n"
               "    result (a - b) * c\n",
        "inline def": "inline def f(a: int, b: int, c: int) -> int:\n"
                      "    result (a - b) * c\n",
        "struct": "struct S:\n    a: int\n    b: int\n    c: int\n",
        "inner": "def f(a: int, b: int, c: int) -> int:\n"
                 "    result (a - b) * c\n"}[kind]
    order, n = [], 0
    parts = []
    for k, x in enumerate(shape.split(",")):
        if x.endswith("="):
            order.append(x[0])
            parts.append("%s%s" % (x, "t(L%d)" % len(order)))
        else:
            for y in x:
                order.append(y)
                parts.append("t(L%d)" % len(order))
    if kind == "struct":
        if "=" not in shape.split(",")[0]:
            H.skip()
        call = "u := S(%s)\ni = (u.a - u.b) * u.c\n" % ", ".join(parts)
    elif kind == "inner":
        call = "def g():\n    i = f(%s)\ng()\n" % ", ".join(parts)
    else:
        call = "i = f(%s)\n" % ", ".join(parts)
    src = decl + ("%s t(n: int) -> int:\n    act(\"t\", j, k)\n"
                  "    result j - n\n" % tk) + call
    spec = ""
    for x, y in enumerate(order):
        spec += "act('t', j, k)\n%s = j - L%d\n" % (y, x + 1)
    run(H, src, spec + "i = (a - b) * c\n", opt)


def vc_inline(H):
    """Reference and const parameters and results of inline functions."""
    opt = H.choose("optimizer", [False, True])
    name, src, spec = H.choose("case", INLINE)
    run(H, src.replace("{{", "{").replace("}}", "}"), spec, opt)


def vc_callreject(H):
    """Calls that do not fit the declaration are rejected."""
    src, et = H.choose("case", REJECT)
    r = compile_scenario(H, """
def f(a: int, b: int) -> int:
    result a
def g() -> bool:
    result True
inline def h(&x: int):
    x = 1
inline def c(const x):
    pass
""" + src + "\n", V)
    H.prove("rejected", r.err is not None and (
        et is None or r.err.type.name == et), info="%s: %s" % (src, r.err))


def vc_handler(H):
    """ArgumentHandler.match: for every number of parameters up to 4, every
    subset with defaults and every shape of call, the mapping is the one
    given by the binding rules, or the documented error is raised."""
    from acaciamc.objects.functions import ArgumentHandler
    n = H.choose("params", [0, 1, 2, 3])
    ndef = H.choose("defaults", list(range(n + 1)))
    npos = H.choose("positional", list(range(n + 2)))
    names = ["a", "b", "c"][:n]
    kw = H.choose("keywords", subsets(names + ["z"]))

    class Handler(ArgumentHandler):
        def type_check(self, arg, value, tp):
            assert tp == "T" + arg
    defaults = {x: ("default " + x if k >= n - ndef else None)
                for k, x in enumerate(names)}
    h = Handler(list(names), {x: "T" + x for x in names}, dict(defaults))
    args = ["pos%d" % k for k in range(npos)]
    kws = {x: "kw " + x for x in kw}
    for _ in range(2):      # a second call sees no trace of the first
        try:
            got = h.match(list(args), dict(kws))
        except Error as e:
            got = e.type.name
        want = expected(names, defaults, args, kws)
        H.prove("binding", got == want if isinstance(want, dict)
                else got in want, info="%r instead of %r" % (got, want))
    H.cover()


def subsets(xs):
    return [[x for k, x in enumerate(xs) if m >> k & 1]
            for m in range(2 ** len(xs))]


def expected(names, defaults, args, kws):
    errs = set()
    if len(args) > len(names):
        errs.add("TOO_MANY_ARGS")
    for k in kws:
        if k not in names:
            errs.add("UNEXPECTED_KEYWORD_ARG")
        elif names.index(k) < len(args):
            errs.add("ARG_MULTIPLE_VALUES")
    res = {}
    for k, x in enumerate(names):
        if k < len(args):
            res[x] = args[k]
        elif x in kws:
            res[x] = kws[x]
        elif defaults[x] is not None:
            res[x] = defaults[x]
        else:
            errs.add("MISSING_ARG")
    return errs or res


CONTRACTS = [vc_call, vc_bind, vc_order, vc_inline, vc_callreject, vc_handler]
vc_call.shards = 4
vc_bind.shards = 8
