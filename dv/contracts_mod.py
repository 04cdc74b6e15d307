"""Contracts of modules (C13): resolution of names to files, one
initialisation per run at the first import reached, and what an import
binds."""
import itertools
import os
import shutil
import tempfile

from .scen import *
from . import scen

V = {"i": "int", "j": "int", "k": "int", "p": "bool", "q": "bool"}
ACT = "from dvhook import act\n"
CFGS = [dict(optimizer=False), dict(optimizer=True),
        dict(optimizer=True, max_inline_file_size=0),
        dict(optimizer=True, split_init=True)]


def m_(text):
    return ACT + text


ONE = {"m.aca": m_('x := 3\nb := True\nact("m", x)\n'
                   'def get() -> int:\n    result x\n'
                   'def inc(n: int = 1):\n    x += n\n'
                   'inline def iget() -> int:\n    result x\n'
                   'const C = 7\nstruct S:\n    u: int\n    w: bool\n'
                   's := S(u=5, w=False)\n&r = x\n')}
INIT = "mx = 3\nact('m', mx)\n"
FL = "fl = 0\nmx = 0\n"     # import at a place that may not be the first
IM = "if fl == 0:\n    fl = 1\n    mx = 3\n    act('m', mx)\n"


def ind(t):
    return "".join("    " + x + "\n" for x in t.split("\n") if x)



# name, modules, source, specification, observed extra variables
CASES = [
    ("attr", ONE, "import m\ni = m.x\n", INIT + "i = mx", {}),
    ("attr assign", ONE, "import m\nm.x = i\nj = m.get()\n",
     INIT + "j = i", {"m.x": "int"}),
    ("attr aug", ONE, "import m\nm.x += i\nm.inc()\nm.inc(j)\nk = m.x\n",
     INIT + "k = mx + i + 1 + j", {}),
    ("alias", ONE, "import m as n\ni = n.x\nn.x = j\nk = n.iget()\n",
     INIT + "i = mx\nk = j", {}),
    ("from", ONE, "from m import x, get\nx = i\nj = get()\n",
     INIT + "x = i\nj = i", {"x": "int"}),
    ("from alias", ONE, "from m import x as y, get as z\ny = i\nj = z()\n",
     INIT + "y = i\nj = i", {"y": "int"}),
    ("two aliases", ONE, "from m import x as y, x as z\ny = i\nj = z\n"
     "z += 1\nk = y\n", INIT + "j = i\nk = i + 1", {}),
    ("parens", ONE, "from m import (x as y,\n  get,\n  inc)\ninc(i)\n"
     "j = get()\nk = y\n", INIT + "j = mx + i\nk = mx + i", {}),
    ("from all", ONE, "from m import *\nx = i\nj = get()\ninc(C)\nk = x\n",
     INIT + "j = i\nk = i + 7", {"x": "int"}),
    ("swap", {"m.aca": "x := 1\ny := 2\n"}, "from m import x as y, y as x\n"
     "i = x\nj = y\ny += 10\nimport m\nk = m.x\n",
     "i = 2\nj = 1\nk = 11", {}),
    ("separate", ONE, "x := 8\nimport m\nm.x = i\nm.inc()\nj = x\n"
     "x = 9\nk = m.x\n", INIT + "j = 8\nk = i + 1\nx = 9", {"x": "int"}),
    ("reference", ONE, "import m\n&y = m.x\ny = i\nj = m.get()\n"
     "m.r += 1\nk = m.x\n", INIT + "j = i\nk = i + 1", {}),
    ("struct", ONE, "import m\ns := m.S(u=i, w=p)\nm.s.u = j\n"
     "t: m.S\nt = m.s\nm.s = s\ni = t.u\nq = m.s.w\nk = m.s.u\n",
     INIT + "k = i\ni = j\nq = p", {}),
    ("type", ONE, "from m import S as T\ndef f(a: T) -> int:\n"
     "    result a.u\ns := T(u=i, w=p)\nj = f(s)\n", INIT + "j = i", {}),
    ("bool", ONE, "import m\nif m.b:\n    i = 1\nm.b = p\nq = m.b\n",
     INIT + "i = 1\nq = p", {}),
    ("const", ONE, "import m\ni = m.C * 2\nconst D = m.C + 1\nj = D\n",
     INIT + "i = 14\nj = 8", {}),
    ("twice", ONE, "import m\nm.x = i\nimport m as o\nj = o.x\n"
     "from m import x\nk = x\nimport m as n\nn.x += 1\ni = x\n",
     INIT + "j = i\nk = i\ni += 1", {}),
    ("if", ONE, "if p:\n    import m\n    i = m.x\nelse:\n    pass\n"
     "import m as o\nj = o.x\n", FL + "if p:\n" + ind(IM) +
     "    i = mx\n" + IM + "j = mx", {}),
    ("if set", ONE, "if p:\n    import m\n    m.x = i\nimport m as o\n"
     "j = o.x\n", FL + "if p:\n" + ind(IM) + "    mx = i\n" + IM +
     "j = mx", {}),
    ("only if", ONE, "if p:\n    import m\n    i = m.x\nact(\"e\", k)\n",
     "mx = 0\nif p:\n    mx = 3\n    act('m', mx)\n    i = mx\n"
     "act('e', k)", {}),
    ("else", ONE, "if p:\n    act(\"e\", k)\nelse:\n"
     "    import m\n    i = m.x\nif q:\n    import m as o\n    j = o.x\n",
     "f = 0\nmx = 0\nif p:\n    act('e', k)\nelse:\n    f = 1\n    mx = 3\n"
     "    act('m', mx)\n    i = mx\nif q:\n    if f == 0:\n"
     "        mx = 3\n        act('m', mx)\n    j = mx", {}),
    ("function", ONE, "def f() -> int:\n    import m\n    m.x += 1\n"
     "    result m.x\nact(\"e\", k)\ni = f()\nj = f()\n",
     "act('e', k)\n" + INIT + "i = mx + 1\nj = mx + 2", {}),
    ("inline", ONE, "inline def f() -> int:\n    import m\n    m.x += 1\n"
     "    result m.x\nact(\"e\", k)\ni = f()\nj = f()\n",
     "act('e', k)\n" + INIT + "i = mx + 1\nj = mx + 2", {}),
    ("function late", ONE, "def f() -> int:\n    import m\n    m.x += 1\n"
     "    result m.x\nif p:\n    i = f()\nimport m\nj = m.x\n",
     FL + "if p:\n" + ind(IM) + "    i = mx + 1\n    mx = mx + 1\n" + IM +
     "j = mx", {}),
    ("loop", ONE, "for n in list.range(3):\n    import m\n    m.x += i\n"
     "    act(\"e\", k)\nj = k\n", INIT + "act('e', k)\nact('e', k)\n"
     "act('e', k)\nj = k", {}),
    ("default", {"m.aca": "x := 4\nD := 3\ndef f(a: int, b: int = 5) -> int:"
                 "\n    result a * x + b\n"},
     "x := 100\nimport m\ni = m.f(j)\nk = m.f(b=i, a=2)\n",
     "i = j * 4 + 5\nk = 2 * 4 + i", {}),
    ("order", {"a.aca": m_('x := 1\nact("a", x)\n'),
               "b.aca": m_('x := 2\nact("b", x)\n')},
     "act(\"s\", i)\nimport b\nact(\"t\", i)\nimport a\nact(\"u\", i)\n"
     "j = a.x\nk = b.x\n",
     "act('s', i)\nbx = 2\nact('b', bx)\nact('t', i)\nax = 1\n"
     "act('a', ax)\nact('u', i)\nj = ax\nk = bx", {}),
    ("chain", {"a.aca": m_('import b\nx := b.x + 1\nact("a", x)\n'),
               "b.aca": m_('x := 2\nact("b", x)\n')},
     "import a\ni = a.x\nimport b\nj = b.x\n",
     "bx = 2\nact('b', bx)\nax = bx + 1\nact('a', ax)\ni = ax\nj = bx", {}),
    ("shared", {"a.aca": m_('import c\nc.x += 10\nact("a", c.x)\n'),
                "b.aca": m_('from c import x as v\nv *= 2\nact("b", v)\n'),
                "c.aca": m_('x := 2\nact("c", x)\n')},
     "import a, b\n".replace("import a, b", "import a\nimport b") +
     "from c import x\ni = x\n",
     "x = 2\nact('c', x)\nx += 10\nact('a', x)\nx *= 2\nact('b', x)\n"
     "i = x", {}),
    ("late inner", {"a.aca": m_('def f() -> int:\n    import b\n'
                                '    b.x += 1\n    result b.x\n'
                                'act("a")\n'),
                    "b.aca": m_('x := 2\nact("b", x)\n')},
     "import a\nif p:\n    i = a.f()\nimport b\nj = b.x\nk = a.f()\n",
     "act('a')\nfl = 0\nx = 0\nif p:\n    fl = 1\n    x = 2\n"
     "    act('b', x)\n    x += 1\n    i = x\nif fl == 0:\n    x = 2\n"
     "    act('b', x)\nj = x\nx += 1\nk = x", {}),
    ("folder", {"d/e/m.aca": m_('x := 3\nact("m", x)\n'),
                "d/m.aca": m_('x := 30\nact("dm", x)\n'),
                "m.aca": m_('x := 300\nact("rm", x)\n')},
     "import d.e.m as a\nimport d.m as b\nimport m as c\nimport .m as d\n"
     "import .d.m as e\nd.x += 1\ne.x += 2\ni = a.x\nj = b.x\nk = c.x\n",
     "a = 3\nact('m', a)\nb = 30\nact('dm', b)\nc = 300\nact('rm', c)\n"
     "c += 1\nb += 2\ni = a\nj = b\nk = c", {}),
    ("parent", {"../m.aca": m_('x := 3\nact("m", x)\n')},
     "import ..m as a\nimport ..m as b\na.x += i\nj = b.x\n"
     "from ..m import x\nk = x\n",
     INIT + "mx += i\nj = mx\nk = mx", {}),
    ("parent and own folder", {"m.aca": m_('x := 3\nact("m", x)\n')},
     "import m as a\nimport ..v.m as b\na.x += i\nj = b.x\n"
     "if p:\n    from .m import x as y\n    y += 1\nfrom ..v.m import x\n"
     "k = x\n", INIT + "mx += i\nj = mx\nif p:\n    mx += 1\nk = mx",
     {}),
    ("parent and own folder, function", {
        "d/m.aca": m_('x := 3\nact("m", x)\n'),
        "n.aca": "def f(z: int):\n    import ..v.d.m as q\n    q.x += z\n"},
     "import n\nif p:\n    n.f(i)\nimport d.m\nn.f(j)\nk = m.x\n",
     FL + "if p:\n" + ind(IM) + "    mx += i\n" + IM +
     "mx += j\nk = mx", {}),
    ("link", {"m.aca": m_('x := 3\nact("m", x)\n'),
              "d/n.aca": "SYMLINK:../m.aca"},
     "import m\nimport d.n as b\nm.x += i\nj = b.x\n",
     INIT + "mx += i\nj = mx", {}),
    ("dotted name", {"d/m.aca": m_('x := 3\nact("m", x)\n')},
     "import d.m\ni = m.x\n", "x = 3\nact('m', x)\ni = x", {}),
    ("relative of main", {"d/a.aca": m_('import .d.b as b\nx := b.x\n'
                                        'import d.b as c\nb.x += 1\n'
                                        'y := c.x\n'),
                          "d/b.aca": m_('x := 5\nact("b", x)\n'),
                          "b.aca": m_('x := 50\nact("rb", x)\n')},
     "import d.a\ni = a.x\nj = a.y\n",
     "x = 5\nact('b', x)\ni = x\nj = x + 1", {}),
    ("private", {"m.aca": "_x := 4\nx := 5\ndef f() -> int:\n"
                 "    result _x + x\n"},
     "_x := i\nfrom m import *\nj = f()\nk = _x\n",
     "j = 9\nk = i", {}),
    ("no reexport", {"a.aca": "from b import x\ny := x + 1\nimport b\n"
                     "from b import z as w\n",
                     "b.aca": "x := 3\nz := 4\n"},
     "x := i\nw := j\nb := k\nfrom a import *\ni = y\nj = x\nk = w + b\n",
     "i0 = i\nk = j + k\nj = i0\ni = 4", {}),
    ("binary", {"h.py": "from acaciamc import objects as O\n"
                "from acaciamc.mccmdgen import cmds\n"
                "def acacia_build(compiler):\n"
                "    v = O.IntVar.new(compiler)\n"
                "    return O.BuiltModule({'v': v, 'c': O.IntLiteral(6)},"
                " [cmds.ScbSetConst(v.slot, 9)])\n"
                .replace("O.BuiltModule", "BM").replace(
                    "def acacia", "from acaciamc.objects.module import "
                    "BuiltModule as BM\ndef acacia")},
     "import h\ni = h.v\nh.v = j\nimport h as g\nk = g.v + g.c\n",
     "i = 9\nk = j + 6", {}),
    ("same values", {"a.aca": "x := 5\n", "b.aca": "x := 5\n"},
     "import a\nimport b\na.x += i\nj = b.x\nk = a.x\n",
     "j = 5\nk = 5 + i", {}),
    ("expression statements", {"a.aca": "x := 1\ndef f() -> int:\n"
                               "    x += 1\n    result x\n"},
     "import a\ni = a.f() + a.f() * 10\n", "i = 2 + 3 * 10", {}),
    ("interaction", {"a.aca": "t := (4 + 3) * (2 - 9)\nu := t % 5\n"
                     "def f(z: int) -> int:\n"
                     "    result (z + t) - (z - u) * 3\n"},
     "k = (i + 1) - (j - 1)\nimport a\n"
     "i = (k + a.t) - (a.u + a.f(j)) + (j - k)\n",
     "k = (i + 1) - (j - 1)\n"
     "i = (k + -49) - (-4 + ((j + -49) - (j - -4) * 3)) + (j - k)", {}),
]


def vc_import(H):
    """Programs with modules, for all initial values."""
    name, mods, src, spec, obs = \
        CASES[H.choose("case", list(range(len(CASES))))]
    cfg = H.choose("config", CFGS)
    twice = H.choose("runs", [1, 2])
    entries = (["init"] if cfg.get("split_init") else []) + ["main"] * twice
    scenario(H, src, spec + ("\n" + spec if twice == 2 else ""), V,
             modules=mods, observe=obs, cfg=cfg, entries=entries,
             label=name + ": ")


# ------------------------------------------------------ graphs of modules
# main imports in one of these forms; %s: module name. The specification
# is the flag-by-flag reading: the body runs when it was not run before.
FORMS = {
    "import": ("import {m} as {n}\n", "{I}"),
    "from": ("from {m} import x as x{n}\n", "{I}"),
    "all": ("from {m} import *\n", "{I}"),
    "if p": ("if p:\n    import {m} as {n}\n", "if p:\n{II}"),
    "if q": ("if q:\n    from {m} import x as x{n}\n", "if q:\n{II}"),
    "else": ("if p:\n    act(\"e\", i)\nelse:\n    import {m} as {n}\n",
             "if p:\n    act('e', i)\nelse:\n{II}"),
    "call": ("f_{m}()\n", "{I}"),
    "inline": ("g_{m}()\n", "{I}"),
    "if call": ("if q:\n    f_{m}()\n", "if q:\n{II}"),
    "for": ("for n in list.range(2):\n    import {m} as {n}\n"
            "    act(\"e\", i)\n",
            "for n in range(2):\n{II}    act('e', i)\n"),
}


def body_spec(m, graph):
    """spec text of `import m`"""
    inner = ""
    for pos, d in graph[m]:
        if pos == "before":
            inner += body_spec(d, graph)
    inner += "x_%s = %d\nact('%s', x_%s)\n" % (m, ord(m[0]), m, m)
    for pos, d in graph[m]:
        if pos == "after":
            inner += body_spec(d, graph)
    return "if fl_%s == 0:\n    fl_%s = 1\n%s" % (m, m, ind(inner))


def body_src(m, graph):
    t = ACT
    for pos, d in graph[m]:
        if pos == "before":
            t += "import %s\n" % d
    t += 'x := %d\nact("%s", x)\n' % (ord(m[0]), m)
    for pos, d in graph[m]:
        if pos == "after":
            t += "import %s\n" % d
    return t


def graph_program(graph, uses):
    """(modules, src, spec)"""
    mods = {m + ".aca": body_src(m, graph) for m in graph}
    src = "".join("def f_%s():\n    import %s\ninline def g_%s():\n"
                  "    import %s\n" % (m, m, m, m) for m in graph)
    spec = "".join("fl_%s = 0\nx_%s = 0\n" % (m, m) for m in graph)
    for k, (form, m) in enumerate(uses):
        s, p = FORMS[form]
        s = s.replace("{n}", "n%d" % k)
        I = body_spec(m, graph)
        src += s.replace("{m}", m) + 'act("s", j)\n'
        spec += p.replace("{II}", ind(I)).replace("{I}", I) + \
            "\nact('s', j)\n"
    return mods, src, spec


def vc_graph(H):
    """Three modules with every acyclic choice of imports among them, and
    every pair of import statements of the main file."""
    edges = [("a", "b"), ("a", "c"), ("b", "c")]
    pos = [H.choose("edge%d" % k, [None, "before", "after"])
           for k in range(3)]
    u1 = H.choose("first", list(FORMS))
    m1, m2 = H.choose("modules", [("a", "a"), ("c", "a"), ("a", "b")])
    u2 = H.choose("second", list(FORMS))
    if u1 == u2 == "all":     # both bind x
        H.skip()
        return
    # configuration varies with the case
    cfg = CFGS[(len(u1) + len(u2) + sum(x is None for x in pos)) % 3]
    graph = {"a": [], "b": [], "c": []}
    for (x, y), w in zip(edges, pos):
        if w:
            graph[x].append((w, y))
    mods, src, spec = graph_program(graph, [(u1, m1), (u2, m2)])
    scenario(H, src, spec, V, modules=mods, cfg=cfg)


def vc_entry(H):
    """Interfaces that import: the module is initialised by whichever
    entry reaches it first after main."""
    cfg = H.choose("config", CFGS[:3])
    seq = H.choose("entries", [("main",), ("main", "a"), ("main", "a", "b"),
                               ("main", "b", "a"), ("main", "a", "a"),
                               ("main", "a", "main", "a"),
                               ("main", "b", "main", "a", "b")])
    early = H.choose("early", [False, True])
    src = ("import m\n" if early else "") + 'act("start", k)\n' \
        "interface a:\n    import m\n    m.x += i\n" \
        "interface b:\n    from m import x\n    x *= 2\n    j = x\n"
    im = "if fl == 0:\n    fl = 1\n    x = 3\n    act('m', x)\n"
    parts = {"main": "fl = 0\n" + (im if early else "") +
             "act('start', k)\n",
             "a": im + "x += i\n", "b": im + "x *= 2\nj = x\n"}
    spec = "x = 0\n" + "".join(parts[e] for e in seq)
    scenario(H, src, spec, V, modules={"m.aca": m_(
        'x := 3\nact("m", x)\n')}, cfg=cfg, entries=list(seq))


# ------------------------------------------------------------- rejection
REJECT = [
    ("missing", {}, "import nothere\n", "MODULE_NOT_FOUND"),
    ("missing in folder", {"d/m.aca": "x := 1\n"}, "import d.n\n",
     "MODULE_NOT_FOUND"),
    ("not in folder", {"d/m.aca": "x := 1\n"}, "import m\n",
     "MODULE_NOT_FOUND"),
    ("folder as module", {"d/m.aca": "x := 1\n"}, "import d\n",
     "MODULE_NOT_FOUND"),
    ("relative misses builtin", {}, "import .print\n", "MODULE_NOT_FOUND"),
    ("wrong extension", {"m.txt": "x := 1\n"}, "import m\n",
     "MODULE_NOT_FOUND"),
    ("two extensions", {"m.n.aca": "x := 1\n"}, "import m\n",
     "MODULE_NOT_FOUND"),
    ("main is circular", {}, "import main\n", "CIRCULAR_PARSE"),
    ("self", {"m.aca": "import m\n"}, "import m\n", "CIRCULAR_PARSE"),
    ("pair", {"m.aca": "import n\n", "n.aca": "import m\n"}, "import m\n",
     "CIRCULAR_PARSE"),
    ("pair by path", {"d/m.aca": "import d.n\n",
                      "d/n.aca": "import .d.m\n"}, "import d.m\n",
     "CIRCULAR_PARSE"),
    ("pair by parent", {"m.aca": "import n\n",
                        "n.aca": "import ..v.m\n"}, "import ..v.n\n",
     "CIRCULAR_PARSE"),
    ("main by parent", {"m.aca": "import ..v.main\n"}, "import m\n",
     "CIRCULAR_PARSE"),
    ("in function", {"m.aca": "def f():\n    import main\n"}, "import m\n",
     "CIRCULAR_PARSE"),
    ("no such name", ONE, "from m import y\n", "MODULE_NO_ATTRIBUTE"),
    ("second name", ONE, "from m import x, y as z\n", "MODULE_NO_ATTRIBUTE"),
    ("private name", {"m.aca": "_x := 1\n"}, "from m import _x\n",
     "MODULE_NO_ATTRIBUTE"),
    ("imported name", {"m.aca": "from n import x\n", "n.aca": "x := 1\n"},
     "from m import x\n", "MODULE_NO_ATTRIBUTE"),
    ("imported alias", {"m.aca": "from n import x as y\n",
                        "n.aca": "x := 1\n"},
     "from m import y\n", "MODULE_NO_ATTRIBUTE"),
    ("imported all", {"m.aca": "from n import *\n", "n.aca": "x := 1\n"},
     "from m import x\n", "MODULE_NO_ATTRIBUTE"),
    ("imported module", {"m.aca": "import n\n", "n.aca": "x := 1\n"},
     "from m import n\n", "MODULE_NO_ATTRIBUTE"),
    ("builtin name", ONE, "from m import int\n", "MODULE_NO_ATTRIBUTE"),
    ("name of main", {"m.aca": "x := y\n"}, "y := 1\nimport m\n",
     "NAME_NOT_DEFINED"),
    ("name of main in function", {"m.aca": "def f():\n    y = 2\n"},
     "y := 1\nimport m\nm.f()\n", "NAME_NOT_DEFINED"),
    ("attribute", ONE, "import m\ni = m.y\n", "HAS_NO_ATTRIBUTE"),
    ("private attribute", {"m.aca": "_x := 1\n"}, "import m\ni = m._x\n",
     "HAS_NO_ATTRIBUTE"),
    ("imported attribute", {"m.aca": "import n\n", "n.aca": "x := 1\n"},
     "import m\ni = m.n.x\n", "HAS_NO_ATTRIBUTE"),
    ("local of function", {"m.aca": "def f():\n    y := 1\n"},
     "from m import y\n", "MODULE_NO_ATTRIBUTE"),
    ("only the alias", ONE, "import m as n\ni = m.x\n", "NAME_NOT_DEFINED"),
    ("only the alias from", ONE, "from m import x as y\ni = x\n",
     "NAME_NOT_DEFINED"),
    ("from binds no module", ONE, "from m import x\ni = m.x\n",
     "NAME_NOT_DEFINED"),
    ("scope of function", ONE, "def f():\n    import m\nf()\ni = m.x\n",
     "NAME_NOT_DEFINED"),
    ("shadows", ONE, "x := 8\nfrom m import x\n", "SHADOWED_NAME"),
    ("shadows alias", ONE, "x := 8\nimport m as x\n", "SHADOWED_NAME"),
    ("shadows all", ONE, "x := 8\nfrom m import *\n", "SHADOWED_NAME"),
    ("shadowed", ONE, "from m import x\nx := 5\n", "SHADOWED_NAME"),
    ("shadows itself", ONE, "import m\nimport m\n", "SHADOWED_NAME"),
    ("assign module", ONE, "import m\nm = 1\n", None),
    ("same name in subfolder only", {"d/m.aca": "import n\n",
                                     "d/n.aca": "x := 1\n"},
     "import d.m\n", "MODULE_NOT_FOUND"),
]


def vc_reject(H):
    name, mods, src, err = REJECT[
        H.choose("case", list(range(len(REJECT))))]
    r = compile_scenario(H, src, V, modules=mods)
    got = None if r.err is None else r.err.type.name
    H.prove(name, got is not None and (err is None or got == err),
            info="%s instead of %s\n%s" % (got, err, src))
    H.cover()


# ------------------------------------------------------------ resolution
TREES = ["m.aca", "m.py", "d/m.aca", "d/m.py", "d/e/m.aca", "print.aca",
         "d/print.aca", "../m.aca", "../d/m.aca", "../../m.aca"]
NAMES = ["m", "d.m", "d.e.m", ".m", ".d.m", "..m", "..d.m", "...m",
         "print", ".print", "d.print", ".d.print", "math", "e.m"]


def resolve(name, files):
    """The file the documentation of find_module states, relative to the
    folder of the main file; BUILTIN for a module of the compiler."""
    dots = len(name) - len(name.lstrip("."))
    parts = name.lstrip(".").split(".")
    if dots == 0:
        if parts in (["print"], ["math"]):
            return "BUILTIN"
        base = []
    else:
        base = [".."] * (dots - 1)
    for ext in (".aca", ".py"):
        f = "/".join(base + parts) + ext
        if f in files:
            return f
    return None


def vc_resolve(H):
    """Compiler.find_module: for every name and every set of files, the
    file is the documented one."""
    name = H.choose("name", NAMES)
    half = H.choose("files", list(range(32)))
    H.choose("part", [0])
    from acaciamc.ast import ModuleMeta
    from acaciamc.compiler import Compiler
    parts = name.lstrip(".").split(".")
    meta = ModuleMeta(parts[-1], len(name) - len(name.lstrip(".")),
                      parts[:-1])
    H.prove("name", str(meta) == name, info=str(meta))
    d = tempfile.mkdtemp(dir=repo.tmpdir())
    try:
        root = os.path.join(d, "u", "v", "w")
        os.makedirs(root)
        with open(os.path.join(root, "main.aca"), "w") as f:
            f.write("pass\n")
        for k, t in enumerate(TREES[:5]):
            if half >> k & 1:
                _touch(root, t)
        c = Compiler(os.path.join(root, "main.aca"))
        have = set()
        for rest in range(32):
            have = {t for k, t in enumerate(TREES)
                    if (half | rest << 5) >> k & 1}
            for k, t in enumerate(TREES[5:]):
                p = os.path.join(root, t)
                if rest >> k & 1:
                    _touch(root, t)
                elif os.path.exists(p):
                    os.remove(p)
            want = resolve(name, have)
            got = c.find_module(meta)
            if want == "BUILTIN":
                ok = got is not None and os.path.dirname(
                    os.path.realpath(got)).endswith("acaciamc/modules") and \
                    os.path.basename(got) == parts[-1] + ".py"
            elif want is None:
                ok = got is None
            else:
                ok = got is not None and os.path.realpath(got) == \
                    os.path.realpath(os.path.join(root, want))
            H.prove("file", ok, info="%s with %s: %s" % (
                name, sorted(have), got))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    H.cover()


DECOYS = ["M.aca", "M.py", "m.ACA", "m.Py", "mm.aca", "xm.aca", "m2.py",
          "m.txt", "m", "m.aca.bak", "m.acab", "m.e.aca", "d.m.aca",
          "m.pyc", ".m.aca", "m.mcfunction", "m /x.aca", "m.aca/x.aca",
          "m.py/x.txt", "D/m.aca", "dd/m.aca", "d/M.aca", "d/m.aca/x.aca",
          "d/m", "x/d/m.aca", "m/m.aca", "m/d.aca", "d/m/m.aca",
          "d/e.aca", "d.aca"]


def vc_decoys(H):
    """Files whose names are merely like that of the module are never
    taken for it: other case, other extension, longer names, folders."""
    name = H.choose("name", ["m", "d.m", ".m", ".d.m", "..m", "..d.m",
                             "...d.m"])
    there = H.choose("there", [None, ".aca", ".py"])
    H.choose("part", [0])
    from acaciamc.ast import ModuleMeta
    from acaciamc.compiler import Compiler
    parts = name.lstrip(".").split(".")
    dots = len(name) - len(name.lstrip("."))
    meta = ModuleMeta(parts[-1], dots, parts[:-1])
    top = tempfile.mkdtemp(dir=repo.tmpdir())
    try:
        for n, group in enumerate([[x] for x in DECOYS] + [DECOYS]):
            root = os.path.join(top, str(n), "u", "v", "w")
            base = os.path.join(root, *[".."] * max(0, dots - 1))
            os.makedirs(root)
            with open(os.path.join(root, "main.aca"), "w") as f:
                f.write("pass\n")
            want = None
            if there:
                _touch(base, "/".join(parts) + there)
                want = os.path.join(base, *parts) + there
            for x in group:
                p = os.path.join(base, x)
                if any(os.path.exists(os.path.join(base, *x.split("/")[:k]))
                       and not os.path.isdir(os.path.join(
                           base, *x.split("/")[:k]))
                       for k in range(1, x.count("/") + 1)) or \
                        os.path.isdir(p):
                    continue     # (a file and a folder of the same name)
                _touch(base, x)
            got = Compiler(os.path.join(root, "main.aca")).find_module(meta)
            H.prove("file", got is None and want is None or
                    got is not None and want is not None and
                    os.path.realpath(got) == os.path.realpath(want),
                    info="%s with %s: %s" % (name, group, got))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    H.cover()


def _touch(root, t):
    p = os.path.join(root, t)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write("pass\n")


vc_import.shards = 4
vc_graph.shards = 8
vc_resolve.shards = 8

CONTRACTS = [vc_import, vc_graph, vc_entry, vc_reject, vc_resolve,
             vc_decoys]
