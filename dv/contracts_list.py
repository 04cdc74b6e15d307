"""Contracts of compile-time lists and maps (C15): every operation on
every small list and map gives the documented value, in run-time code and
in const functions, for all values of the integer elements."""
import itertools

from . import ctref
from .contracts_int import begin
from .ctref import Interp, Fail, Discard, L, M, val, kind, rexpr, render
from .holes import parse_src
from .scen import *
from .sym import lift
import acaciamc.objects as O_

KINDS = {"LIST_INDEX_OUT_OF_BOUNDS", "MAP_KEY_NOT_FOUND",
         "INVALID_MAP_KEY", "INT_OVERFLOW", "CONST_ARITHMETIC"}


def decode(e):
    """A constant expression of the compiler -> reference-like value."""
    t = str(e.data_type)
    if t == "const_list":
        return ("list", [decode(x) for x in e.iterate()])
    if t == "const_map":
        ks = list(e.iterate())
        return ("map", [(decode(k), decode(e.get(k))) for k in ks])
    if t in ("int", "bool", "str"):
        return (t, e.value)
    if t == "None":
        return ("None", None)
    if t == "float":
        return ("float", e.value)
    return (t, None)


def rdecode(v):
    v = val(v)
    k = kind(v)
    if k == "list":
        return (k, [rdecode(c) for c in v.cells])
    if k == "map":
        return (k, [(rdecode(a), rdecode(b))
                    for a, b in zip(v.keys(), v.values())])
    return (k, v)


def same(a, b, out):
    """Structural equality; integer equations are collected in `out`."""
    if a[0] != b[0]:
        return False
    if a[0] == "int":
        out.append(lift(a[1]) == lift(b[1]))
        return True
    if a[0] in ("list", "map"):
        if len(a[1]) != len(b[1]):
            return False
        for x, y in zip(a[1], b[1]):
            if a[0] == "list":
                if not same(x, y, out):
                    return False
            elif not (same(x[0], y[0], out) and same(x[1], y[1], out)):
                return False
        return True
    return type(a[1]) is type(b[1]) and a[1] == b[1]


def snapshot(env):
    """The commands of every file (comments do nothing)."""
    return [(f, [t for t in (c.resolve() for c in f.commands)
                 if t.strip() and not t.startswith("#")])
            for f in env.compiler.output_mgr.files]


def unchanged(env, snap):
    now = snapshot(env)
    return [c for _, c in now] == [c for _, c in snap]


def check_expr(H, env, text, want, label):
    """want: reference value or Fail; text: Acacia expression."""
    snap = snapshot(env)
    info = "%s" % text
    try:
        r, err = env.visit_expr(text), None
    except Error as e:
        r, err = None, e
    if isinstance(want, Fail):
        H.prove(label + " rejected", err is not None and (
            want.kind not in KINDS or err.type.name == want.kind),
            info="%s: expected %s, got %s" % (info, want.kind, err))
        return
    H.prove(label + " accepted", err is None, info="%s: %s" % (info, err))
    if err is not None:
        return
    out = []
    ok = same(decode(r), rdecode(want), out)
    H.prove(label + " value", z3.And(*out) if ok and out else ok,
            info="%s is %s, expected %s" % (info, decode(r), rdecode(want)))
    H.prove(label + " no commands", unchanged(env, snap), info=info)


def reference(glob, text, rt):
    try:
        return Interp(glob, rt=rt).eval(text)
    except Fail as e:
        return e


def both(H, text, names=(), label="", contexts=("run-time", "const")):
    """Check expression `text` (Python syntax) over symbolic integers
    `names` at run-time level and as the result of a const function."""
    ctx = H.choose("context", list(contexts))
    vals = {n: H.int(n, MIN, MAX) for n in names}
    env = begin(H)
    for n, v in vals.items():
        env.bind(n, O_.IntLiteral(v))
    if ctx == "run-time":
        try:
            want = reference(vals, text, True)
        except Discard:
            H.skip()
            return
        H.cover()
        check_expr(H, env, rexpr(text), want, label + ctx)
    else:
        try:
            want = reference(vals, "[%s]" % text, False)
        except Discard:
            H.skip()
            return
        H.cover()
        src = "const def f(%s) -> list:\n    result {%s}\n" % (
            ", ".join(names), rexpr(text))
        err = env.visit(src)
        H.prove(label + "definition accepted", err is None, info=str(err))
        check_expr(H, env, "f(%s)" % ", ".join(names), want, label + ctx)


# --------------------------------------------------------------- lists
BASES = ["[]", "[a]", "[a, b]", "[a, b, c]", "[a, b, a, 7]",
         "list.range(0, 5)"]
IDX = [-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 2147483647, -2147483647]


def names_of(text):
    import re
    return [n for n in "abc" if re.search(r"\b%s\b" % n, text)]


def vc_index(H):
    """l[i]: the element counted from the front or the back, or rejected."""
    base = H.choose("list", BASES)
    i = H.choose("index", IDX)
    text = "%s[%d]" % (base, i)
    both(H, text, names_of(text))


SL = [None, -4, -2, -1, 0, 1, 2, 3, 6]


def vc_slice(H):
    """slice: Python's slices."""
    base = H.choose("list", ["[]", "[a]", "[a, b, c]", "list.range(5)"])
    a = H.choose("start", SL)
    b = H.choose("stop", SL)
    c = H.choose("step", ["", ", 1", ", 2", ", 3", ", -1", ", -2", ", -3",
                          ", 0", None])
    if c is None:
        if b is not None:
            H.skip()
            return
        t = "%s.slice(%s)" % (base, a)
    else:
        t = "%s.slice(%s, %s%s)" % (base, a, b, c)
    both(H, t, names_of(t))


RANGE = [-3, -2, -1, 0, 1, 2, 5]
SIMPLE = (
    ["list.range(%d)" % n for n in (-1, 0, 1, 4, 10)] +
    ["%s.size()" % b for b in BASES] + ["%s.copy()" % b for b in BASES] +
    ["%s.cycle(%d)" % (b, n) for b in BASES for n in (-1, 0, 1, 2, 3)] +
    ["[a].cycle(times=2)", "list.repeat(a, times=2)",
     "list.repeat(object=a, times=2)"] +
    ["list.repeat(%s, %d)" % (v, n) for v in ("a", "True", '"x"', "[a, b]",
                                              "{1: a}", "None")
     for n in (-1, 0, 1, 3)] +
    ["list(%s)" % v for v in BASES + [
        "{1: a, 2: b}", "list.repeat(a, 3)", "{}", "[[a], [b, c]]", "a",
        "True", '"abc"']] +
    ["list.geometric(%s, %s, %d)" % (s, r, n) for s in ("a", "3", "-1", "0")
     for r in ("2", "-3", "0", "1") for n in (-1, 0, 1, 2, 4)] +
    ["list.geometric(1, 2, %d)" % n for n in (31, 32)] +
    ["list.geometric(-1, 2, %d)" % n for n in (32, 33)] +
    ["list.geometric(start=a, ratio=2, length=2)",
     "list.geometric(length=3, start=2, ratio=b)"] +
    ["[a, [b, [c]], True, None, \"s\"]", "[[a], [b]][1]", "[[a], [b]][1][0]",
     "[[a, b], [c]][0][-1]", "[a, b].append(c)", "list.range(0, 3, 0)",
     "[a][True]", '[a]["0"]', "[a].size", "[a].foo()", "[a].size(1)",
     "[1, 2, 3].slice(0, 3, 0)"])
RT_ONLY = (
    ["%s + %s" % (x, y) for x in BASES for y in BASES] +
    ["%s * %d" % (x, n) for x in BASES for n in (-1, 0, 1, 2, 3)] +
    ["[a] + [b] + [c]", "([a] + [b]) * 2", "([a, b] * 2)[3]",
     "([a] + [b]).size()", "[a] + a", "[a] * True", "[a] - [a]",
     "[a] * [b]"])


def vc_range(H):
    a, b, c = (H.choose(n, RANGE) for n in ("start", "stop", "step"))
    ctx = H.choose("range", [0, 1])
    if ctx:
        t = "list.range(%d, %d)" % (a, b)
    else:
        t = "list.range(%d, %d, %d)" % (a, b, c)
    both(H, t)


def vc_lists(H):
    """The other operations on lists, and their nesting."""
    t = H.choose("expression", SIMPLE)
    both(H, t, names_of(t))


def vc_operators(H):
    """+ and * of lists (run-time level)."""
    t = H.choose("expression", RT_ONLY)
    both(H, t, names_of(t), contexts=("run-time",))


# ----------------------------------------------------------------- maps
KEYS = ["1", "2", "0", "True", "False", '"1"', '"k"', '""', "[1]", "[1, 2]",
        "[True]", "-1"]
BADKEYS = ["None", "{1: 2}", "[None]"]


def vc_maps(H):
    """A map from two keys: order, last value wins, access by each key
    (keys of different types are different keys)."""
    k1 = H.choose("key 1", KEYS)
    k2 = H.choose("key 2", KEYS)
    op = H.choose("operation", [
        "%s", "%s.keys()", "%s.values()", "%s.size()", "%s.copy()",
        "list(%s)", "map(%s.keys(), %s.values())"] +
        [o % x for x in ("1", "True", '"1"', "[1]", "[True]", '"none"',
                         "0") for o in ("%%s[%s]", "%%s.has(%s)",
                                        "%%s.get(%s)",
                                        "%%s.get(%s, c)",
                                        "%%s.get(%s, default=c)")])
    m = "{%s: a, %s: b}" % (k1, k2)
    t = op.replace("%s", m)
    if "[" in k1 + k2 + op:
        both(H, t, names_of(t), contexts=("run-time",))
    else:
        both(H, t, names_of(t))


MAPX = (
    ["{}", "{}.size()", "{}.keys()", "{}[1]", "{}.get(1)", "{}.has(1)",
     "{}.copy()", "{1: a, 2: b, 1: c}", "{1: a, 2: b, 1: c}.keys()",
     "{1: a, 2: b, 1: c}.values()", "{1: {2: a}}[1][2]",
     "{1: [a, b]}[1][0]", "{1: a}.get(1, b)", "{1: a}.get(default=b, key=2)",
     "map([1, 2, 3], [a, b, c])", "map([1, 2, 3], [a, b])",
     "map([1, 2], [a, b, c])", "map([], [a])", "map([1, 1], [a, b])",
     "map([1, 2, 1], [a, b, c]).keys()", "map({1: 2, 3: 4}, [a, b])",
     "map([1, 2], {5: a, 6: b})", "map(iter1=[1], iter2=[a])",
     "map.from_keys([1, 2])", "map.from_keys([1, 2], a)",
     "map.from_keys([1, 1, 2], a)", "map.from_keys([1], fill=a)",
     "map.from_keys({1: 2, 3: 4}, a)", "map.from_keys([])",
     "map.from_keys([1, 2], [a])", "map.from_keys(1)", "map(1, [a])",
     "map.from_keys([None])", "{1: a}.get(None)", "{1: a}.has(None)",
     "{1: a}[None]", "{None: a}", "{{1: 2}: a}", "{1: a}.foo()",
     "{1: a, True: b, \"1\": c}", "{1: a, True: b, \"1\": c}[True]",
     "{0: a, False: b}.size()", "{\"a\": a, \"A\": b}.size()",
     "{1: a}.update({2: b})", "{1: a}.pop(1)", "{3: a, 1: b, 2: c}.values()"]
    + ["{a: %s, b: 2}[a]" % v for v in ()])


def vc_mapx(H):
    """Construction of maps and their methods."""
    t = H.choose("expression", MAPX)
    both(H, t, names_of(t))


# ------------------------------------------------------------------ loops
def vc_loop(H):
    """`for` runs its body once per element, in order, with the element."""
    it = H.choose("iterable", [
        "[]", "[1]", "[3, 1, 2]", "[5, 5]", "list.range(3, -3, -2)",
        "{4: 1, 2: 7}", "{4: 1, 2: 7}.values()", "[7, 8].cycle(2)",
        "list.repeat(4, 3)", "[1, 2, 3].slice(1, None)", "{}",
        "map.from_keys([6, 5])"])
    form = H.choose("form", ["literal", "constant", "nested", "function",
                             "inline"])
    xs = [val(x) for x in Interp(rt=True).iterate(
        reference({}, it, True))]
    text = rexpr(it)
    ys = [1, 2]
    if form == "literal":
        src = "for n in %s:\n    i += n\n    act(\"b\", i)\n    i -= 7\n" % text
        spec = "".join("i += %d\nact('b', i)\ni -= 7\n" % x for x in xs)
    elif form == "constant":
        src = "const l = %s\nfor n in l:\n    i = i * 3 + n\n" \
              "for n in l:\n    j = n\n    act(\"b\", j)\n" % text
        spec = "".join("i = i * 3 + %d\n" % x for x in xs) + \
            "".join("j = %d\nact('b', j)\n" % x for x in xs)
    elif form == "nested":
        src = "for n in %s:\n    for m in {1, 2}:\n" \
              "        i = i * n + m\n    j += n\n" % text
        spec = "".join("".join("i = i * %d + %d\n" % (x, y) for y in ys) +
                       "j += %d\n" % x for x in xs)
    elif form == "function":
        src = "def f():\n    for n in %s:\n        i = i * 3 + n\n" \
              "f()\nj = i\nf()\n" % text
        b = "".join("i = i * 3 + %d\n" % x for x in xs)
        spec = b + "j = i\n" + b
    else:
        src = "inline def f(const l, &v: int):\n    for n in l:\n" \
              "        v = v * 3 + n\nf(%s, i)\nf(%s, j)\n" % (text, text)
        spec = "".join("%s = %s * 3 + %d\n" % (v, v, x)
                       for v in "ij" for x in xs)
    scenario(H, src, spec or "pass", {"i": "int", "j": "int"},
             cfg=dict(optimizer=H.choose("optimizer", [False, True])))


vc_slice.shards = 8
vc_maps.shards = 8
CONTRACTS = [vc_index, vc_slice, vc_range, vc_lists, vc_operators, vc_maps,
             vc_mapx, vc_loop]
