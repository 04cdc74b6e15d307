"""Contracts of entity templates, entity variables and fields (C17),
methods (C18)."""
import itertools
import re

from .scen import *
from .ents import Entities, escenario

V = {"i": "int", "j": "int", "p": "bool"}
HEAD = """entity A:
    x: int
    y: bool
    new():
        new("armor_stand", Pos(0, 0, 0))
a: A
b: A
c: A
"""
E3 = Entities({"a": [], "b": [], "c": []},
              {"x": ("a.x", "int"), "y": ("a.y", "bool")})

FIELDS = [
    ("copy", "a.x = b.x", None),
    ("self", "a.x = a.x", None),
    ("const", "a.x = 5\nb.x = 7", None),
    ("swap by hand", "i = a.x\na.x = b.x\nb.x = i", None),
    ("aug field", "a.x += b.x", None),
    ("aug const", "a.x *= 3\na.x -= b.x", None),
    ("aug own", "a.x += a.x\na.x -= i", None),
    ("expr", "a.x = b.x * c.x + i", None),
    ("expr own", "a.x = b.x - a.x * i", None),
    ("into var", "i = a.x - b.x * c.x\nj = a.x", None),
    ("compare", "p = a.x < b.x", None),
    ("compare2", "a.y = a.x == b.x and not c.y", None),
    ("bool", "a.y = not b.y\np = a.y or c.y", None),
    ("if", "if a.y:\n    a.x = 1\n    b.y = False\nelse:\n"
     "    a.x = b.x\n    a.y = True", None),
    ("if2", "if a.x > b.x:\n    a.x = b.x\nif b.x > c.x:\n    c.x -= 1\n",
     None),
    ("move", "a = b\na.x = i", None),
    ("move chain", "a = b\nb = c\nc = a\na.x += 1\nb.x += 10", None),
    ("self move", "a = a\na.x += 1", None),
    ("swap", "swap(a, b)\na.x = i\nb.x += 1",
     "t = a\na = b\nb = t\na.x = i\nb.x += 1"),
    ("swap self", "swap(a, a)\na.x = i", "a.x = i"),
    ("swap fields", "swap(a.x, b.x)",
     "i0 = a.x\na.x = b.x\nb.x = i0"),
    ("ref", "&r = a.x\nr = i\na = b\nr += 1",
     "a.x = i\na = b\na.x += 1"),
    ("new", "a = A()\na.x = i\nb.x = 3",
     "a = new('A', 'positioned 0.5 0.0 0.5', 'armor_stand')\na.x = i\n"
     "b.x = 3"),
    ("new two", "a = A()\nb = A()\na.x = 1\nb.x = 2\nc = a\nc.x += 5",
     "a = new('A')\nb = new('A')\na.x = 1\nb.x = 2\nc = a\nc.x += 5"),
    ("define", "d := a\nd.x += 1\nd = b\nd.x += 2\ni = a.x",
     "d = a\nd.x += 1\nd = b\nd.x += 2\ni = a.x"),
    ("while", "j = 2\nwhile j > 0:\n    a.x += b.x\n    j -= 1",
     "j = 2\na.x += b.x\na.x += b.x\nj = 0"),
    ("for", "for e in {1, 2}:\n    a.x += e\n    a = b",
     "a.x += 1\na = b\na.x += 2\na = b"),
    ("min", "a.x = math.min(a.x, b.x, i)", "a.x = min(a.x, b.x, i)"),
    ("print", "print.tell(print.format(\"%0 %1\", a.x, b.x + i))",
     "emit(a.x, ' ', b.x + i)"),
    ("scb", "scb(a, \"pp\") = i\nj = scb(a, \"pp\")", "j = i"),
    ("aint", "a.x = aint('h', i, j)\ni = aint('k', i) + a.x", None),
    ("act", "act('f', i, p)\na.x += i", None),
    ("cond move", "if p:\n    a = b\nelse:\n    b = c\na.x += 1", None),
]


def q(s):
    return s.replace("'", '"')


def vc_fields(H):
    """Assignments of entity variables and fields, all aliasings."""
    name, src, spec = H.choose("case", FIELDS)
    opt = H.choose("optimizer", [False, True])
    H.choose("part", [0])          # (work is divided at this depth)
    pre = ""
    if "math." in src:
        pre += "import math\n"
    if "print." in src:
        pre += "import print\n"
    escenario(H, pre + HEAD + q(src) + "\n", spec or src, E3, V,
              cfg=dict(optimizer=opt), templates=["A"])


# fields of struct type: every leaf of every field is a variable of its own
SHEAD = """struct P:
    u: int
    v: bool
struct D extends P:
    w: int
struct Q:
    p: P
    n: int
    q: P
entity A:
    x: int
    f: Q
    g: P
    d: D
    new():
        new("armor_stand", Pos(0, 0, 0))
entity B extends A:
    h: P
a: A
b: B
s: Q
t: P
"""
SL = {"f.p.u": "int", "f.p.v": "bool", "f.n": "int", "f.q.u": "int",
      "f.q.v": "bool", "g.u": "int", "g.v": "bool", "d.u": "int",
      "d.v": "bool", "d.w": "int", "x": "int"}
SFI = {l.replace(".", "_"): ("a." + l, t) for l, t in SL.items()}
SFI.update({"h_u": ("b.h.u", "int"), "h_v": ("b.h.v", "bool")})
SVAR = {**V, "t.u": "int", "t.v": "bool", "s.p.u": "int", "s.p.v": "bool",
        "s.n": "int", "s.q.u": "int", "s.q.v": "bool"}


def _cp(x, y, *leaves):
    return "".join("%s.%s = %s.%s\n" % (x, l, y, l) for l in leaves)


PL, QL = ("u", "v"), ("p.u", "p.v", "n", "q.u", "q.v")
SFIELDS = [("leaf " + l, "a.%s = %s\n" % (l, "i" if t == "int" else "p"),
            None) for l, t in SL.items()] + [
    ("all leaves", "".join("a.%s = %s\n" % (
        l, n + 3 if t == "int" else "p") for n, (l, t) in enumerate(
            SL.items())), None),
    ("copy", "a.g = b.g", _cp("a.g", "b.g", *PL)),
    ("nested", "a.f.p = a.f.q\na.f.q.u = i",
     _cp("a.f.p", "a.f.q", *PL) + "a.f.q.u = i"),
    ("whole", "a.f = b.f\na.f.n += 1", _cp("a.f", "b.f", *QL)
     + "a.f.n += 1"),
    ("out", "s = a.f\na.f.p.u = i\nt = a.f.q",
     _cp("s", "a.f", *QL) + "a.f.p.u = i\n" + _cp("t", "a.f.q", *PL)),
    ("in", "a.f = s\nb.f.q = t", _cp("a.f", "s", *QL)
     + _cp("b.f.q", "t", *PL)),
    ("derived", "a.g = a.d\na.d.u = i\nb.d.w = j",
     _cp("a.g", "a.d", *PL) + "a.d.u = i\nb.d.w = j"),
    ("inherited", "b.g = b.h\nb.h = a.f.p\nb.h.u += b.f.q.u",
     _cp("b.g", "b.h", *PL) + _cp("b.h", "a.f.p", *PL)
     + "b.h.u += b.f.q.u"),
    ("swap", "swap(a.g, a.f.q)",
     "t0 = a.g.u\na.g.u = a.f.q.u\na.f.q.u = t0\n"
     "p0 = a.g.v\na.g.v = a.f.q.v\na.f.q.v = p0"),
    ("make", "a.g = P(u=a.g.u + 1, v=not a.g.v)",
     "a.g.u += 1\na.g.v = not a.g.v"),
    ("ref", "&r = a.f.q\nr.u = i\nr = t\na.f.p = r",
     "a.f.q.u = i\n" + _cp("a.f.q", "t", *PL) + _cp("a.f.p", "t", *PL)),
    ("argument", "def f(k: P) -> P:\n    k.u += 1\n    result k\n"
     "a.f.p = f(a.f.q)", "a.f.p.u = a.f.q.u + 1\na.f.p.v = a.f.q.v"),
]


def vc_struct_fields(H):
    """Entity fields of struct types, nested, derived and inherited."""
    name, src, spec = H.choose("case", SFIELDS)
    opt = H.choose("optimizer", [False, True])
    H.choose("part", [0])          # (work is divided at this depth)
    # (the specification writes the leaf f.p.u of an entity as f_p_u)
    spec = re.sub(r"\b([ab])\.([\w.]+)", lambda m: m.group(1) + "."
                  + m.group(2).replace(".", "_"), spec or src)
    escenario(H, SHEAD + src + "\n", spec,
              Entities({"a": [], "b": []}, SFI), SVAR,
              cfg=dict(optimizer=opt), templates=["A", "B"])


# two variables never share a tag, whatever their names look like
def vc_many(H):
    """Among many entity variables: v_k = v_m makes v_k the entity of v_m
    and changes no other variable."""
    n = 24
    k = H.choose("target", list(range(n)))
    ms = [m for m in range(n)]
    H.choose("part", [0])
    src = HEAD.split("a: A")[0] + "".join("v%d: A\n" % m for m in ms)
    src += "interface dummy:\n    pass\n"
    src += "".join("interface s%d:\n    v%d = v%d\n" % (m, k, m)
                   for m in ms)
    r = scen_compile(H, src, ["v%d" % m for m in ms])
    H.prove("accepted", r.err is None, info=str(r.err))
    if r.err is not None:
        return
    tags = [r.case.observed["v%d" % m].tag for m in ms]
    H.prove("tags-differ", len(set(tags)) == n, info=str(tags))
    for m in ms:
        w = mc.World(r.files)
        w.ents = [mc.Ent("pig", (float(x), 0., 0.)) for x in ms]
        for x in ms:
            w.ents[x].tags.add(tags[x])
        if "s%d" % m in w.files:
            w.run_function("s%d" % m, (None, (0., 0., 0.)))
        got = [[x for x in ms if t in w.ents[x].tags] for t in tags]
        want = [[m if x == k else x] for x in ms]
        H.prove("assigned", got == want,
                info="v%d = v%d: %s" % (k, m, got))
    H.cover()


# ------------------------------------------------------------- methods
MHEAD = """entity A:
    x: int
    new(k: int):
        new("pig", Pos(1, 2, 3))
        self.x = k
    def add(k: int) -> int:
        act('Aadd', i)
        self.x += k
        result self.x - k * 2
    inline def get(&r: int):
        r = self.x
    static def twice(k: int) -> int:
        result k * 2
    virtual def v(k: int) -> int:
        act('Av', i)
        result self.x + k
    virtual inline def w():
        act('Aw', j, self.x)
    def callv(k: int) -> int:
        result self.v(k) + self.x
    def rel(o: Entity, k: int):
        self.x -= k
    def simple() -> bool:
        result self.x > 0
entity B extends A:
    z: int
    new(k: int, l: int = 5):
        A.new(k + 1)
        self.z = l
    override inline def v(k: int) -> int:
        act('Bv', i)
        result self.z - k
    override def w():
        act('Bw', j, self.x)
    def add(k: int) -> int:
        self.z += k
        result self.z
entity C extends A:
    override inline def w():
        act('Cw', i, self.x)
entity D extends B:
    new():
        B.new(1, l=2)
        self.x += 1
    override def v(k: int) -> int:
        act('Dv', i)
        self.x = k
        result k
a: A
b: A
c: B
d: D
"""


def ALL(e):
    return e


def sv(e, k, out):
    """spec of out = e.v(k) for an entity of any template"""
    return """k_ = %(k)s
if isa(%(e)s, 'A', 'C'):
    act('Av', i)
    r_ = %(e)s.x + k_
elif isa(%(e)s, 'B'):
    act('Bv', i)
    r_ = %(e)s.z - k_
elif isa(%(e)s, 'D'):
    act('Dv', i)
    %(e)s.x = k_
    r_ = k_
%(out)s = r_
""" % dict(e=e, k=k, out=out)


def sw(e):
    return """if isa(%(e)s, 'A'):
    act('Aw', j, %(e)s.x)
elif isa(%(e)s, 'B', 'D'):
    act('Bw', j, %(e)s.x)
elif isa(%(e)s, 'C'):
    act('Cw', i, %(e)s.x)
""" % dict(e=e)


def sadd(e, k, out):
    return """k_ = %(k)s
act('Aadd', i)
%(e)s.x += k_
%(out)s = %(e)s.x - k_ * 2
""" % dict(e=e, k=k, out=out)


def sbadd(e, k, out):
    return """k_ = %(k)s
%(e)s.z += k_
%(out)s = %(e)s.z
""" % dict(e=e, k=k, out=out)


def scallv(e, k, out):
    return sv(e, k, "cv_") + "%s = cv_ + %s.x\n" % (out, e)


ME = [
    ("simple", "i = a.add(j)", sadd("a", "j", "i")),
    ("simple hidden", "i = c.add(j)", sbadd("c", "j", "i")),
    ("simple via base", "i = b.add(3)\nj = a.add(i)",
     sadd("b", "3", "i") + sadd("a", "i", "j")),
    ("upcast simple", "i = upcast(c, A).add(j)", sadd("c", "j", "i")),
    ("inherited", "i = d.add(j)", sbadd("d", "j", "i")),
    ("inherited simple", "p = d.simple()", "p = d.x > 0"),
    ("inline ref", "a.get(i)\nc.get(j)", "i = a.x\nj = c.x"),
    ("static", "i = A.twice(j)\nj = c.twice(i)\n", "i = j * 2\nj = i * 2"),
    ("virtual", "i = a.v(j)", sv("a", "j", "i")),
    ("virtual B", "i = c.v(j)", sv("c", "j", "i")),
    ("virtual D", "i = d.v(j)", sv("d", "j", "i")),
    ("upcast virtual", "i = upcast(c, A).v(j)",
     "k_ = j\nact('Av', i)\ni = c.x + k_"),
    ("virtual void", "a.w()", sw("a")),
    ("virtual void two", "a.w()\nb.w()", sw("a") + sw("b")),
    ("virtual void sub", "d.w()\nc.w()", sw("d") + sw("c")),
    ("virtual void mixed", "c.w()\na.w()", sw("c") + sw("a")),
    ("two calls", "i = a.v(1) - b.v(2)",
     sv("a", "1", "x_") + sv("b", "2", "y_") + "i = x_ - y_"),
    ("nested", "i = a.v(b.v(j))", sv("b", "j", "n_") + sv("a", "n_", "i")),
    ("nested simple", "i = a.add(b.add(2)) + 1",
     sadd("b", "2", "n_") + sadd("a", "n_", "m_") + "i = m_ + 1"),
    ("virtual from method", "i = a.callv(j)", scallv("a", "j", "i")),
    ("virtual from method two", "i = a.callv(1) + b.callv(2) * c.v(3)",
     scallv("a", "1", "x_") + scallv("b", "2", "y_")
     + sv("c", "3", "z_") + "i = x_ + y_ * z_"),
    ("condition", "if a.v(j) > 3:\n    b.w()\nelse:\n    a.w()\n",
     sv("a", "j", "t_") + "q_ = t_ > 3\nif q_:\n    pass\n"
     + "".join("if q_:\n" + "".join("    " + x + "\n" for x in
                                    sw("b").split("\n") if x))
     + "if not q_:\n" + "".join("    " + x + "\n" for x in
                                sw("a").split("\n") if x)),
    ("rel", "a.rel(b, j)\nb.rel(a, i)", "a.x -= j\nb.x -= i"),
    ("new B", "b = B(j)\ni = b.v(1)",
     "b = new('B', 'positioned 1.5 2.0 3.5', 'pig')\nb.x = j + 1\n"
     + "c_ = b\nact('Bv', i)\ni = 5 - 1\nb.zz = 0\n"),
    ("new D", "d = D()\na = d\ni = a.v(7)\nc = B(3, 4)\nb = A(9)",
     "d = new('D')\na = d\nact('Dv', i)\nd.x = 7\ni = 7\n"
     "c = new('B')\nb = new('A')\nc.x = 4\nc.z = 4\nd.z = 2\nb.x = 9"),
    ("new in expr", "i = B(j, l=i).add(2)",
     "t = new('B')\nt.x = j + 1\nt.z = i + 2\ni = t.z"),
    ("new C", "a = C(2)\na.w()", "a = new('C')\na.x = 2\n"
     "act('Cw', i, a.x)"),
    ("function of entity", "inline def f(e: A, k: int) -> int:\n"
     "    e.x += k\n    result e.v(k)\ni = f(c, j)",
     "k0 = j\nc.x += k0\n" + sv("c", "k0", "i")),
    ("function of entity 2", "def f(e: A, k: int) -> int:\n"
     "    e.x += k\n    result e.v(k)\ni = f(b, j) + f(a, 1)",
     "k0 = j\nb.x += k0\n" + sv("b", "k0", "x_")
     + "a.x += 1\n" + sv("a", "1", "y_") + "i = x_ + y_"),
    ("result entity", "def f(k: bool) -> A:\n    if k:\n        result a\n"
     "    else:\n        result b\ni = f(p).v(j)",
     "if p:\n    t = a\nif not p:\n    t = b\n" + sv("t", "j", "i")),
    ("struct of entity", "struct S:\n    e: A\n    n: int\ns: S\n"
     "s.e = a\ns.n = 3\nt: S\nt = s\ns.e = b\ni = t.e.v(s.n)\n"
     "j = s.e.x", sv("a", "3", "i") + "j = b.x"),
    ("swap", "swap(a, b)\ni = a.v(j)\nb.w()",
     sv("b", "j", "i") + sw("a") + "t = a\na = b\nb = t"),
    ("act on field", "act('g', a.x, i)\nb.x += a.x",
     "act('g', a.x, i)\nb.x += a.x"),
]
EM = Entities({"a": ["A", "B", "C", "D"], "b": ["A", "B", "C", "D"],
               "c": ["B", "D"], "d": ["D"]},
              {"x": ("a.x", "int"), "z": ("c.z", "int")})


def vc_methods(H):
    """Methods: self, hiding, upcast, virtual dispatch on the template the
    entity was made from, constructors; all aliasings and templates."""
    name, src, spec = H.choose("case", ME)
    if spec is None:
        return
    opt = H.choose("optimizer", [False, True])
    H.choose("part", [0])          # (work is divided at this depth)
    escenario(H, q(MHEAD + src) + "\n", spec.replace("b.zz = 0\n", "b.z = 5\n"),
              EM, V, cfg=dict(optimizer=opt),
              templates=["A", "B", "C", "D"])


# ------------------------------------------------------------- groups
GHEAD = """entity A:
    x: int
    y: bool
    new():
        new("armor_stand", Pos(0, 0, 0))
entity B extends A:
    z: int
a: A
b: A
g: Engroup[A]
h: Engroup[A]
k: Engroup[B]
"""
EG = Entities({"a": [], "b": []}, {"x": ("a.x", "int"), "y": ("a.y", "bool")},
              {"g": "A", "h": "A", "k": "B"})
GROUPS = [
    ("extend", "g.extend(h)", "gset(g, g | h)"),
    ("iadd", "g += h", "gset(g, g | h)"),
    ("isub", "g -= h", "gset(g, g - h)"),
    ("subtract", "h.subtract(g)", "gset(h, h - g)"),
    ("intersect", "g.intersect(h)", "gset(g, g & h)"),
    ("own", "g.extend(g)\nh.intersect(h)\ng += g", "pass"),
    ("own2", "g.subtract(g)\nh -= h", "gset(g, g - g)\ngset(h, h - h)"),
    ("sub template", "g.extend(k)\nh.intersect(k)",
     "gset(g, g | k)\ngset(h, h & k)"),
    ("add", "g.add(a)", "gadd(g, a)"),
    ("add two", "g.add(a, b)\nh.add()", "gadd(g, a)\ngadd(g, b)"),
    ("remove", "g.remove(a, b)", "gremove(g, a)\ngremove(g, b)"),
    ("add remove", "g.add(a).remove(b)\nh.remove(b).add(a)",
     "gadd(g, a)\ngremove(g, b)\ngremove(h, b)\ngadd(h, a)"),
    ("clear", "g.clear().add(b)", "gset(g, g - g)\ngadd(g, b)"),
    ("assign", "g = h\nh.add(a)", "gset(g, h)\ngadd(h, a)"),
    ("assign self", "g = g\nh = h", "pass"),
    ("assign sub", "g = k\ng.add(a)", "gset(g, k)\ngadd(g, a)"),
    ("copy", "g = h.copy()\nh.clear()", "gset(g, h)\ngset(h, h - h)"),
    ("copy chain", "g = h.copy().add(a)", "gset(g, h)\ngadd(g, a)"),
    ("new group", "g = Engroup[A]()\nh.extend(g)", "gset(g, g - g)"),
    ("swap", "swap(g, h)\ng.add(a)",
     "gset(t, g)\ngset(g, h)\ngset(h, t)\ngadd(g, a)"),
    ("swap self", "swap(g, g)", "pass"),
    ("define", "m := g\nm.add(a)\nh = m", "gset(h, g)\ngadd(h, a)"),
    ("define alias", "&m = g\nm.add(a)\nh = m", "gadd(g, a)\ngset(h, g)"),
    ("chain value", "g = h.extend(k).subtract(g)",
     "gset(h, (h | k) - g)\ngset(g, h)"),
    ("size", "i = g.size()", "i = size(g)"),
    ("size expr", "i = g.size() + h.size() * 2 - i",
     "i = size(g) + size(h) * 2 - i"),
    ("size aug", "i += g.size()\nj -= k.size()",
     "i += size(g)\nj -= size(k)"),
    ("size in place", "i = i - g.size()\nj = g.size() - j",
     "i = i - size(g)\nj = size(g) - j"),
    ("size field", "a.x = g.size() + a.x", "a.x = size(g) + a.x"),
    ("size changes", "i = g.size()\ng.add(a)\nj = g.size() - i",
     "i = size(g)\ngadd(g, a)\nj = size(g) - i"),
    ("size compare", "p = g.size() > h.size()", "p = size(g) > size(h)"),
    ("size cond", "if g.size() == 1:\n    i = 1\nelse:\n    i = 2",
     "q_ = size(g) == 1\nif q_:\n    i = 1\nif not q_:\n    i = 2"),
    ("empty", "p = g.is_empty()", "p = size(g) == 0"),
    ("not empty", "p = not g.is_empty() and p",
     "p = not size(g) == 0 and p"),
    ("empty if", "if g.is_empty():\n    g.add(a)\nelse:\n    g.clear()\n"
     "    h.add(b)", "q_ = size(g) == 0\nif q_:\n    gadd(g, a)\n"
     "if not q_:\n    gset(g, g - g)\n    gadd(h, b)"),
    ("has", "p = g.has(a)", "p = has(g, a)"),
    ("has expr", "p = g.has(a) == h.has(b) or not h.has(a)",
     "p = (1 if has(g, a) else 0) == (1 if has(h, b) else 0) or "
     "not has(h, a)"),
    ("has if", "if g.has(a) and not h.has(b):\n    g.remove(a)\n    i = 1",
     "q_ = has(g, a) and not has(h, b)\nif q_:\n    gremove(g, a)\n"
     "    i = 1"),
    ("has while", "g = Engroup[A]()\nj = 0\nwhile not g.has(a):\n"
     "    g.add(a)\n    j += 1", "gset(g, g - g)\ngadd(g, a)\nj = 1"),
    ("for field", "for e in g:\n    e.x += i\n    e.y = not e.y",
     "for e in g:\n    e.x += i\n    e.y = not e.y"),
    ("for sum", "i = 0\nfor e in g:\n    i += e.x",
     "i = 0\nfor e in g:\n    i += e.x"),
    ("for alias", "for e in g:\n    e.x = a.x + 1\n    b.x -= e.x",
     "for e in g:\n    e.x = a.x + 1\n    b.x -= e.x"),
    ("for move", "for e in g:\n    if e.x > i:\n        h.add(e)\n"
     "        g.remove(e)", "for e in g:\n    q_ = e.x > i\n"
     "    if q_:\n        gadd(h, e)\n        gremove(g, e)"),
    ("for remove all", "for e in g:\n    g.remove(e)\n    i = 3",
     "for e in g:\n    gremove(g, e)\n    i = 3"),
    ("for find", "p = False\nfor e in g:\n    if e.x == 7:\n"
     "        p = True", "p = False\nfor e in g:\n    p = p or e.x == 7"),
    ("for assign", "for e in g:\n    a = e\n    a.x += 1",
     "for e in g:\n    a = e\n    a.x += 1"),
    ("for own variable", "for e in g:\n    i += e.x\n    e = b\n    e.x += 1",
     "for e in g:\n    i += e.x\n    b.x += 1"),
    ("for has", "for e in g:\n    if h.has(e):\n        e.x = 1\n"
     "    else:\n        e.x = 2",
     "for e in g:\n    q_ = has(h, e)\n    if q_:\n        e.x = 1\n"
     "    if not q_:\n        e.x = 2"),
    ("for nested", "for e in g:\n    for f in h:\n        e.x += f.x + i",
     "for e in g:\n    for f in h:\n        e.x += f.x + i"),
    ("for nested same", "i = 0\nfor e in g:\n    for f in g:\n"
     "        i += 1", "i = 0\nfor e in g:\n    for f in g:\n"
     "        i += 1"),
    ("for new", "for e in g:\n    b = A()\n    b.x = e.x\n    h.add(b)",
     None),
    ("for size", "for e in g:\n    h.add(e)\n    i = h.size()",
     "for e in g:\n    gadd(h, e)\n    i = size(h)"),
    ("for after", "for e in g:\n    i += 1\ni *= 2",
     "for e in g:\n    i += 1\ni *= 2"),
    ("for act", "for e in g:\n    act('f', e.x)", "for e in g:\n"
     "    act('f', e.x)"),
    ("single", "g.clear().add(a)\nb = g.to_single()\nb.x = i",
     "gset(g, g - g)\ngadd(g, a)\nb = a\nb.x = i"),
    ("single field", "g = Engroup[A]()\ng.add(b)\ng.to_single().x += 3\n"
     "i = g.to_single().x - a.x",
     "gset(g, g - g)\ngadd(g, b)\nb.x += 3\ni = b.x - a.x"),
    ("single has", "g = Engroup[A]()\ng.add(b)\np = h.has(g.to_single())",
     "gset(g, g - g)\ngadd(g, b)\np = has(h, b)"),
    ("new member", "a = A()\ng.add(a)\ni = g.size()\np = h.has(a)",
     "a = new('A')\ngadd(g, a)\ni = size(g)\np = False"),
    ("function", "def f(s: Engroup[A], e: A) -> int:\n    s.add(e)\n"
     "    result s.size()\ni = f(g, a) + f(h, b)",
     "gset(t, g)\ngadd(t, a)\nx_ = size(t)\ngset(t, h)\ngadd(t, b)\n"
     "y_ = size(t)\ni = x_ + y_"),
    ("function ref", "inline def f(&s: Engroup[A], e: A):\n    s.add(e)\n"
     "f(g, a)\nf(h, b)", "gadd(g, a)\ngadd(h, b)"),
    ("function result", "def f(e: A) -> Engroup[A]:\n"
     "    r := Engroup[A]()\n    r.add(e)\n    result r\n"
     "g = f(a)\nh += f(b)", "gset(g, g - g)\ngadd(g, a)\ngadd(h, b)"),
    ("struct", "struct S:\n    m: Engroup[A]\n    n: int\ns: S\nt: S\n"
     "s.m = g\ns.n = 1\nt = s\ns.m.clear()\nh = t.m\ni = s.m.size()",
     "gset(h, g)\ni = 0"),
    ("cond", "if p:\n    g = h\nelse:\n    h = g",
     "q_ = p\nif q_:\n    gset(g, h)\nif not q_:\n    gset(h, g)"),
    ("ct for", "for z in {1, 2}:\n    g.add(a)\n    a.x += g.size()",
     "gadd(g, a)\na.x += size(g)\na.x += size(g)"),
    ("command", "/effect ${a} speed\n/say ${a} ${b}",
     "cmdon('effect <> speed', a)\ncmdon('say <> <>', a, b)"),
    ("has slash", "p = a in g", None),
]


def vc_groups(H):
    """Entity groups are sets: all memberships of the universe."""
    name, src, spec = H.choose("case", GROUPS)
    if spec is None:
        return
    opt = H.choose("optimizer", [False, True])
    H.choose("part", [0])          # (work is divided at this depth)
    escenario(H, q(GHEAD + src) + "\n", spec, EG, V,
              cfg=dict(optimizer=opt), stale=False,
              templates=["A", "B"])


# (an entity variable is assigned from an expression that denotes an entity)
REFS = [
    ("single", "g.clear().add(a)\nb = g.to_single()\nb.x = i",
     "gset(g, g - g)\ngadd(g, a)\nb = a\nb.x = i"),
    ("single to new", "g.clear().add(a)\nc := g.to_single()\nc.x = i\n"
     "j = c.x + b.x", "gset(g, g - g)\ngadd(g, a)\na.x = i\n"
     "j = a.x + b.x"),
    ("single of own group", "g.clear().add(a)\na = g.to_single()\n"
     "a.x = i", "gset(g, g - g)\ngadd(g, a)\na.x = i"),
    ("single then cleared", "g.clear().add(a)\nb = g.to_single()\n"
     "g.clear()\nb.x = i\nj = g.size()",
     "gset(g, g - g)\ngadd(g, a)\nb = a\ngset(g, g - g)\nb.x = i\n"
     "j = 0"),
    ("single argument", "def f(e: A, n: int):\n    e.x += n\n"
     "    e = b\n    e.x -= n\ng.clear().add(a)\nf(g.to_single(), i)",
     "gset(g, g - g)\ngadd(g, a)\na.x += i\nb.x -= i"),
    ("single inline argument", "inline def f(e: A, n: int):\n"
     "    e.x += n\n    e = b\n    e.x -= n\ng.clear().add(a)\n"
     "f(g.to_single(), i)\nj = g.size()",
     "gset(g, g - g)\ngadd(g, a)\na.x += i\nb.x -= i\nj = 1"),
    ("single result", "def f() -> A:\n    result g.to_single()\n"
     "g.clear().add(a)\nb = f()\nf().x = i\nb.y = p",
     "gset(g, g - g)\ngadd(g, a)\nb = a\na.x = i\na.y = p"),
    ("single field", "struct S:\n    e: A\n    n: int\ns: S\n"
     "g.clear().add(a)\ns.e = g.to_single()\ns.e.x = i\n"
     "b = s.e\nb.y = p",
     "gset(g, g - g)\ngadd(g, a)\na.x = i\nb = a\nb.y = p"),
    ("swap by singles", "g.clear().add(a)\nh.clear().add(b)\n"
     "a = h.to_single()\nb = g.to_single()\na.x = i\nb.x = j",
     "gset(g, g - g)\ngadd(g, a)\ngset(h, h - h)\ngadd(h, b)\n"
     "e_ = a\na = b\nb = e_\na.x = i\nb.x = j"),
    ("loop entity", "g.clear().add(a)\nfor e in g:\n    b = e\n"
     "    e = a\n    e.x += 1\nb.x += i",
     "gset(g, g - g)\ngadd(g, a)\nb = a\na.x += 1\na.x += i"),
]


def vc_refs(H):
    """An entity variable assigned from a reference to an entity."""
    name, src, spec = H.choose("case", REFS)
    opt = H.choose("optimizer", [False, True])
    H.choose("part", [0])          # (work is divided at this depth)
    escenario(H, q(GHEAD + src) + "\n", spec, EG, V,
              cfg=dict(optimizer=opt), stale=False,
              templates=["A", "B"])


# ------------------------------------------------------------- filters
def _univ(sp):
    return [z3.BoolVal(True)] * sp.n


def _p(sp, s, *texts):
    return [z3.And(b, *[sp.st.atom(t, i) for t in texts])
            for i, b in enumerate(s)]


def _np(sp, s, *texts):
    return [z3.And(b, *[z3.Not(sp.st.atom(t, i)) for t in texts])
            for i, b in enumerate(s)]


def _ctx(where):
    return z3.Function("CTX_%s_1" % where, z3.IntSort(), z3.IntSort())(0)


def _dist(sp, s, where, *args):
    return [z3.And(b, *[z3.Function(
        "NEAR_" + a, z3.IntSort(), z3.IntSort(), z3.BoolSort())(
            _ctx(where), sp.st.pos[i]) for a in args])
        for i, b in enumerate(s)]


def _near(sp, s, where, limit):
    old, sp.st.ctx = sp.st.ctx, _ctx(where)
    r = sp.st.limited(list(s), limit, "e")
    sp.st.ctx = old
    return r


def _rand(sp, s, limit, nth):
    old, sp.st.nrank = sp.st.nrank, nth - 1
    r = sp.st.limited(list(s), limit, "r")
    sp.st.nrank = old
    return r


def _score(sp, s, obj, rng):
    return [z3.And(b, sp.st.match(sp.st.get(("#%d" % i, obj)),
                                  mc.parse_range(rng)))
            for i, b in enumerate(s)]


def _tagged(sp, s, *tags):
    return [z3.And(b, *[sp.st.tag(i, t) for t in tags])
            for i, b in enumerate(s)]


def _untagged(sp, s, *tags):
    return [z3.And(b, *[z3.Not(sp.st.tag(i, t)) for t in tags])
            for i, b in enumerate(s)]


FF = dict(univ=_univ, P=_p, NP=_np, dist=_dist, near=_near, rand=_rand,
          score=_score, tagged=_tagged, untagged=_untagged)
P123 = "positioned 1.5 2.0 3.5"
FILTERS = [
    # (filter, expression of the entities of S it selects)
    ("Enfilter()", "S"),
    ("Enfilter().is_type('cow')", "P(S, 'type=cow')"),
    ("Enfilter().is_type('cow').is_type('pig')",
     "P(S, 'type=cow', 'type=pig')"),
    ("Enfilter().is_not_type('cow', 'pig')", "NP(S, 'type=cow', 'type=pig')"),
    ("Enfilter().is_name('n n').is_not_name('m').is_name('o')",
     "P(NP(S, 'name=m'), 'name=n n', 'name=o')"),
    ("Enfilter().has_tag('u').has_no_tag('v', 'w')",
     "untagged(tagged(S, 'u'), 'v', 'w')"),
    ("Enfilter().has_tag('u', 'w').has_tag('v').has_no_tag('t')",
     "untagged(tagged(S, 'u', 'v', 'w'), 't')"),
    ("Enfilter().all_players()", "P(S, 'type=player')"),
    ("Enfilter().all_players().is_game_mode('c').is_not_game_mode('s')",
     "NP(P(S, 'type=player', 'm=c'), 'm=s')"),
    ("Enfilter().is_game_mode('c').is_game_mode('s')", "P(S, 'm=c', 'm=s')"),
    ("Enfilter().level(3).level(max=7)", "P(S, 'lm=3', 'l=7')"),
    ("Enfilter().level(3, 5).level(max=7)", "P(S, 'lm=3', 'l=5', 'l=7')"),
    ("Enfilter().scores('sc', 3).scores('sd', '2..7')",
     "score(score(S, 'sc', '3'), 'sd', '2..7')"),
    ("Enfilter().scores('sc', '!3').scores('sc', '..9')",
     "score(score(S, 'sc', '!3'), 'sc', '..9')"),
    ("Enfilter().scores('sc', ' 2 .. 7 ').scores('sd', '!4..')",
     "score(score(S, 'sc', '2..7'), 'sd', '!4..')"),
    ("Enfilter().rot_vertical(-5.0, 5.0).rot_horizontal(1.0).rot_vertical()",
     "P(S, 'rxm=-5.000', 'rx=5.000', 'rym=1.000', 'ry=180.000', "
     "'rxm=-90.000', 'rx=90.000')"),
    ("Enfilter().distance_from(Pos(1, 2, 3), 1.0, 3.0)",
     "dist(S, W, 'rm_1.000', 'r_3.000')"),
    ("Enfilter().distance_from(Pos(1, 2, 3), max=3.0)"
     ".distance_from(Pos(4, 5, 6), min=2.0)",
     "dist(dist(S, W, 'r_3.000'), X, 'rm_2.000')"),
    ("Enfilter().inside(Pos(1, 2, 3), 1.0, 2.0, 3.0)",
     "dist(S, W, 'dx_1.000', 'dy_2.000', 'dz_3.000')"),
    ("Enfilter().inside(Pos(1, 2, 3), 1.0, 2.0, 3.0)"
     ".distance_from(Pos(1, 2, 3), max=2.0).is_type('cow')",
     "P(dist(dist(S, W, 'dx_1.000', 'dy_2.000', 'dz_3.000'), W, "
     "'r_2.000'), 'type=cow')"),
    ("Enfilter().nearest_from(Pos(1, 2, 3))", "near(S, W, 1)"),
    ("Enfilter().farthest_from(Pos(1, 2, 3), 2)", "near(S, W, -2)"),
    ("Enfilter().is_type('cow').nearest_from(Pos(1, 2, 3))",
     "near(P(S, 'type=cow'), W, 1)"),
    ("Enfilter().nearest_from(Pos(1, 2, 3)).is_type('cow')",
     "P(near(S, W, 1), 'type=cow')"),
    ("Enfilter().nearest_from(Pos(1, 2, 3)).has_tag('u')",
     "tagged(near(S, W, 1), 'u')"),
    ("Enfilter().nearest_from(Pos(1, 2, 3), 2)"
     ".distance_from(Pos(1, 2, 3), max=3.0)",
     "dist(near(S, W, 2), W, 'r_3.000')"),
    ("Enfilter().distance_from(Pos(1, 2, 3), max=3.0)"
     ".nearest_from(Pos(4, 5, 6), 2)",
     "near(dist(S, W, 'r_3.000'), X, 2)"),
    ("Enfilter().nearest_from(Pos(1, 2, 3), 2)"
     ".farthest_from(Pos(4, 5, 6))", "near(near(S, W, 2), X, -1)"),
    ("Enfilter().random('cow')", "rand(P(S, 'type=cow'), 1, 1)"),
    ("Enfilter().is_name('n').random('cow', 2)",
     "rand(P(S, 'type=cow', 'name=n'), 2, 1)"),
    ("Enfilter().random('cow', limit=2).is_name('n')",
     "P(rand(P(S, 'type=cow'), 2, 1), 'name=n')"),
    ("Enfilter().random('cow', limit=2).scores('sc', '1..').level(1)",
     "P(score(rand(P(S, 'type=cow'), 2, 1), 'sc', '1..'), 'lm=1')"),
    ("Enfilter().random('cow').inside(Pos(1, 2, 3), 1.0, 1.0, 1.0)",
     "dist(rand(P(S, 'type=cow'), 1, 1), W, 'dx_1.000', 'dy_1.000', "
     "'dz_1.000')"),
    ("Enfilter().is_type('cow').random()", "rand(P(S, 'type=cow'), 1, 1)"),
    ("Enfilter().all_players().random(limit=2).random()",
     "rand(rand(P(S, 'type=player'), 2, 1), 1, 2)"),
    ("Enfilter().is_type('cow').nearest_from(Pos(1, 2, 3), 2).random()",
     "rand(near(P(S, 'type=cow'), W, 2), 1, 1)"),
]
USES = [
    ("select", "g.select(F)", "gset(g, g | FS)", "univ()"),
    ("drop", "g.drop(F)", "gset(g, g - FS)", "g"),
    ("filter", "g.filter(F)", "gset(g, FS)", "g"),
]


def vc_filters(H):
    """select/drop/filter with every filter; twice in the same world, so
    what the first leaves behind does not change the second."""
    flt, expr = H.choose("filter", FILTERS)
    name, src, spec, S = H.choose("use", USES)
    runs = H.choose("runs", [1, 2])
    if runs == 2 and "random" in flt:
        return
    expr = expr.replace("S,", S + ",") if expr != "S" else S
    expr = expr.replace(" W", " '%s'" % P123).replace(
        " X", " 'positioned 4.5 5.0 6.5'")
    escenario(H, q(GHEAD + "const flt = " + flt + "\n" + src.replace("F", "flt"))
              + "\n", spec.replace("FS", expr), EG, V, stale=False,
              runs=runs, funcs=FF, templates=["A", "B"], tags=list("tuvw"))


# every ordered pair of conditions: (call, the entities of {} it keeps)
ATOMS = [
    (".is_type('cow')", "P({}, 'type=cow')"),
    (".is_not_type('pig')", "NP({}, 'type=pig')"),
    (".is_name('n')", "P({}, 'name=n')"),
    (".is_name('o')", "P({}, 'name=o')"),
    (".is_not_name('m', 'n')", "NP({}, 'name=m', 'name=n')"),
    (".has_tag('u')", "tagged({}, 'u')"),
    (".has_no_tag('u')", "untagged({}, 'u')"),
    (".all_players()", "P({}, 'type=player')"),
    (".is_game_mode('c')", "P({}, 'm=c')"),
    (".is_not_game_mode('c', 's')", "NP({}, 'm=c', 'm=s')"),
    (".level(3)", "P({}, 'lm=3')"),
    (".level(max=7)", "P({}, 'l=7')"),
    (".level(2, 5)", "P({}, 'lm=2', 'l=5')"),
    (".scores('sc', 3)", "score({}, 'sc', '3')"),
    (".scores('sc', '!..9')", "score({}, 'sc', '!..9')"),
    (".rot_vertical(-5.0)", "P({}, 'rxm=-5.000', 'rx=90.000')"),
    (".rot_vertical(max=3.0)", "P({}, 'rxm=-90.000', 'rx=3.000')"),
    (".rot_horizontal(1.0, 2.0)", "P({}, 'rym=1.000', 'ry=2.000')"),
    (".rot_horizontal(max=9.5)", "P({}, 'rym=-180.000', 'ry=9.500')"),
    (".distance_from(Pos(1, 2, 3), 1.0, 3.0)",
     "dist({}, W, 'rm_1.000', 'r_3.000')"),
    (".distance_from(Pos(1, 2, 3), max=2.0)", "dist({}, W, 'r_2.000')"),
    (".distance_from(Pos(4, 5, 6), min=2.0)", "dist({}, X, 'rm_2.000')"),
    (".inside(Pos(1, 2, 3), 1.0, 2.0, 3.0)",
     "dist({}, W, 'dx_1.000', 'dy_2.000', 'dz_3.000')"),
    (".inside(Pos(4, 5, 6), dy=2.0)",
     "dist({}, X, 'dx_0.000', 'dy_2.000', 'dz_0.000')"),
    (".nearest_from(Pos(1, 2, 3))", "near({}, W, 1)"),
    (".nearest_from(Pos(4, 5, 6), 2)", "near({}, X, 2)"),
    (".farthest_from(Pos(1, 2, 3), 2)", "near({}, W, -2)"),
    (".has_item('stone', data=0)", "P({}, 'hasitem data=0,item=stone')"),
    (".has_item('a:b', '3..7', 2, 'slot.hotbar', '!4..')",
     "P({}, 'hasitem data=2,item=a:b,location=slot.hotbar,"
     "quantity=3..7,slot=!4..')"),
    (".has_item('stone', slot_type='slot.hotbar')",
     "P({}, 'hasitem item=stone,location=slot.hotbar')"),
    (".has_item('stone', 0).has_item('stone', '..2', -1)",
     "P({}, 'hasitem item=stone,quantity=0', "
     "'hasitem data=-1,item=stone,quantity=..2')"),
    (".has_permission('camera', 'movement')",
     "P({}, 'permission camera', 'permission movement')"),
    (".has_no_permission('camera').has_permission('movement')",
     "P(NP({}, 'permission camera'), 'permission movement')"),
    (".random('cow')", "rand(P({}, 'type=cow'), 1, 1)"),
    (".random('cow', 2)", "rand(P({}, 'type=cow'), 2, 1)"),
]


def vc_filter_pairs(H):
    """Two conditions in a row select what the second keeps of what the
    first keeps, whichever they are."""
    a, fa = H.choose("first", ATOMS)
    b, fb = H.choose("second", ATOMS)
    name, src, spec, S = H.choose("use", USES[:2])
    if "random" in b and any(
            x in a for x in ("player", "mode", "level", "permission")):
        return               # (rejected: players are not of type cow)
    expr = fa.replace("{}", S)
    if "rand" in fa and "rand" in fb:
        fb = fb.replace(", 1)", ", 2)")
    expr = fb.replace("{}", expr)
    expr = expr.replace(" W", " '%s'" % P123).replace(
        " X", " 'positioned 4.5 5.0 6.5'")
    flt = "Enfilter()" + a + b
    escenario(H, q(GHEAD + "const flt = " + flt + "\n"
                   + src.replace("F", "flt")) + "\n",
              spec.replace("FS", expr), EG, V, stale=False, runs=1,
              funcs=FF, templates=["A", "B"], tags=list("tuvw"))


# an unused filter and shared prefixes
FMORE = [
    ("immutable", "const f1 = Enfilter().is_type('cow')\n"
     "const f2 = f1.has_tag('u')\nconst f3 = f1.has_no_tag('u')\n"
     "g.clear().select(f2)\nh.clear().select(f1)\nf1.has_tag('v')\n"
     "h.drop(f3)",
     "gset(g, tagged(P(univ(), 'type=cow'), 'u'))\n"
     "gset(h, tagged(P(univ(), 'type=cow'), 'u'))"),
    ("twice", "const f1 = Enfilter().nearest_from(Pos(1, 2, 3)).is_type('cow')\n"
     "g.select(f1)\nh.drop(f1)\ng.filter(f1)",
     "gset(g, P(near(g | P(near(univ(), 'W', 1), 'type=cow'), 'W', 1),"
     " 'type=cow'))\ngset(h, h - P(near(h, 'W', 1), 'type=cow'))"),
    ("chained", "i = g.filter(Enfilter().has_tag('u')).select(Enfilter()"
     ".has_tag('v')).size()", "gset(g, tagged(g, 'u') | "
     "tagged(univ(), 'v'))\ni = size(g)"),
    ("in loop", "for e in g:\n    h.filter(Enfilter().has_tag('u'))",
     "for e in g:\n    gset(h, tagged(h, 'u'))"),
    ("in if", "if p:\n    g.select(Enfilter().nearest_from(Pos(1, 2, 3))"
     ".has_tag('u'))", "if p:\n    gset(g, g | "
     "tagged(near(univ(), 'W', 1), 'u'))"),
    ("in function", "def f():\n    g.drop(Enfilter().has_tag('u'))\n"
     "f()\nf()", "gset(g, g - tagged(g, 'u'))"),
    ("again", "def f():\n    g.filter(Enfilter().nearest_from("
     "Pos(1, 2, 3)))\nf()\ng.extend(h)\nf()",
     "gset(g, near(g, 'W', 1))\ngset(g, g | h)\n"
     "gset(g, near(g, 'W', 1))"),
    ("again select", "def f():\n    g.select(Enfilter().nearest_from("
     "Pos(1, 2, 3)).has_tag('u'))\nf()\ng.clear()\nf()",
     "gset(g, tagged(near(univ(), 'W', 1), 'u'))"),
    ("again drop", "def f():\n    g.drop(Enfilter().nearest_from("
     "Pos(1, 2, 3), 2).has_tag('u'))\nf()\ng.extend(h)\nf()",
     "gset(g, g - tagged(near(g, 'W', 2), 'u'))\ngset(g, g | h)\n"
     "gset(g, g - tagged(near(g, 'W', 2), 'u'))"),
    ("resolve", "m := ExternEngroup()\nm.select(Enfilter().has_tag('u'))\n"
     "g = m.resolve(A)\n", "gset(g, tagged(univ(), 'u'))\nretag(g, 'A')"),
    ("resolve two", "m := ExternEngroup()\nm.select(Enfilter()"
     ".has_tag('u'))\nfor e in m:\n    if e.x_ok():\n        pass\n", None),
    ("resolve methods", "m := ExternEngroup()\n"
     "n := ExternEngroup()\nm.select(Enfilter().has_tag('u'))\n"
     "n.extend(m).drop(Enfilter().has_tag('v'))\nm -= n\n"
     "g = m.resolve(A)\nk = n.resolve(B)\nfor e in g:\n    e.x = 3\n"
     "h += k",
     "gset(k, untagged(tagged(univ(), 'u'), 'v'))\nretag(k, 'B')\n"
     "gset(g, tagged(univ(), 'u', 'v'))\nretag(g, 'A')\n"
     "for e in g:\n    e.x = 3\ngset(h, h | k)"),
]


def vc_filters2(H):
    name, src, spec = H.choose("case", FMORE)
    if spec is None:
        return
    opt = H.choose("optimizer", [False, True])
    H.choose("part", [0])          # (work is divided at this depth)
    escenario(H, q(GHEAD + src) + "\n", spec.replace("'W'", "'%s'" % P123),
              EG, V, stale=False, funcs=FF, templates=["A", "B"],
              cfg=dict(optimizer=opt), tags=list("tuvw"))


# --------------------------------------------------------------- rules
# every combination of the kind of the inherited method and the qualifier
# of the new one: accepted?  (the table of the documentation)
_QUAL = {"none": "", "static": "static ", "virtual": "virtual ",
         "override": "override "}
_TABLE = {("none", "simple"), ("static", "static"), ("override", "virtual"),
          ("override", "overridden"), ("none", None), ("static", None),
          ("virtual", None)}
_BASE = {None: "", "simple": "    def m() -> int:\n        result 1\n",
         "virtual": "    virtual def m() -> int:\n        result 1\n",
         "static": "    static def m() -> int:\n        result 1\n"}


def vc_rules(H):
    """Redefinition of inherited methods: the documented table, over an
    immediate, a distant and one of several base templates."""
    base = H.choose("base", [None, "simple", "virtual", "static",
                             "overridden"])
    qual = H.choose("qualifier", list(_QUAL))
    inline = H.choose("inline", ["", "inline "])
    via = H.choose("via", ["direct", "distant", "second base"])
    src = "entity A:\n    x: int\n" + _BASE[
        "virtual" if base == "overridden" else base]
    if base == "overridden":
        src += "entity A2 extends A:\n    z: int\n    override def m() -> "\
            "int:\n        result 2\n"
        last = "A2"
    else:
        last = "A"
    if via == "distant":
        src += "entity Q extends %s:\n    q: int\n" % last
        last = "Q"
    elif via == "second base":
        src += "entity Q:\n    q: int\n"
        last = "Q, " + last
    src += "entity B extends %s:\n    %s%sdef m() -> int:\n" \
        "        result 3\n" % (last, _QUAL[qual], inline)
    good = (qual, base) in _TABLE
    r = scen_compile(H, src)
    H.prove("accepted-iff", (r.err is None) == good,
            info="%s\n%s" % (r.err, src))


# ------------------------------------------------- resolution of methods
def _orders(k):
    """All ordered lists of distinct bases among the templates 0..k-1."""
    out = []
    for n in range(k + 1):
        out += itertools.permutations(range(k), n)
    return out


def _graphs(n):
    return itertools.product(*[_orders(k) for k in range(1, n)])


def _py_mro(graph):
    """Python's resolution order of each template, None if there is none."""
    classes, out = [type("T0", (), {})], [[0]]
    for k, ps in enumerate(graph):
        try:
            c = type("T%d" % (k + 1), tuple(classes[p] for p in ps), {})
        except TypeError:
            return None
        classes.append(c)
        out.append([classes.index(x) for x in c.__mro__ if x is not object])
    return out


GRAPHS = [g for g in _graphs(4)] + [
    # bases of a fifth template
    g + (b,) for g in [((), (), ()), ((0,), (0,), (1, 2)), ((0,), (1,), ()),
                       ((), (0, 1), (1,)), ((0,), (0,), (0,)),
                       ((), (1,), (0,))]
    for b in _orders(4)]


def vc_mro(H):
    """Every hierarchy of up to four templates (and some of five), every
    set of templates that define the method: what runs is the nearest
    definition in Python's resolution order, of the template of the entity
    (virtual) or of the variable (others); hierarchies Python has no order
    for are rejected."""
    graph = H.choose("bases", GRAPHS)
    kind = H.choose("kind", ["simple", "static", "virtual",
                             "virtual inline"])
    H.choose("part", [0])
    n = len(graph) + 1
    mro = _py_mro(graph)
    masks = [m for m in range(1, 1 << n)]
    if mro is None:
        masks = []
    elif kind.startswith("virtual"):
        masks = [m for m in masks if all(
            _lsb(m) in mro[k] for k in range(n) if m >> k & 1)]
    src = ""
    for k in range(n):
        src += "entity T%d%s:\n    new():\n        new('pig', Pos(0, 0, 0))\n"\
            % (k, "" if not k or not graph[k - 1] else " extends " + ", ".join(
                "T%d" % b for b in graph[k - 1]))
        for m in masks:
            if m >> k & 1:
                q_ = kind if not kind.startswith("virtual") else \
                    kind if _lsb(m) == k else kind.replace(
                        "virtual", "override")
                src += "    %sdef m%d() -> int:\n        result %d\n" % (
                    "" if q_ == "simple" else q_ + " ", m, k + 1)
    src += "".join("v%d: T%d\n" % (k, k) for k in range(n)) + "i: int\n"
    if mro is None:
        r = scen_compile(H, q(src))
        H.prove("rejected", r.err is not None, info=src)
        H.cover()
        return
    calls = []
    for m in masks:
        for k in range(n):
            if any(m >> x & 1 for x in mro[k]):
                src += "interface c%d_%d:\n    i = v%d.m%d()\n" % (m, k, k, m)
                calls.append((m, k))
    r = scen_compile(H, q(src), ["v%d" % k for k in range(n)] +
                     ["T%d" % k for k in range(n)] + ["i"])
    H.prove("accepted", r.err is None, info="%s\n%s" % (r.err, src))
    if r.err is not None:
        return
    ob = r.case.observed
    tags = [ob["v%d" % k].tag for k in range(n)]
    ids = [ob["T%d" % k].runtime_id for k in range(n)]
    slot = slotkey(ob["i"].slot)
    etid = r.compiled.compiler.etemplate_id_scb
    for m, k in calls:
        for d in range(n):          # the template of the entity
            if k not in mro[d] or (d != k and not kind.startswith("v")):
                continue
            w = mc.World(r.files)
            w.objectives |= {etid, slot[1]}
            w.ents = [mc.Ent("pig", (float(x), 0., 0.)) for x in range(n)]
            for x in range(n):
                w.scores[(w.ents[x].id, etid)] = ids[x]
            w.ents[d].tags.add(tags[k])
            w.lenient_obj = True
            w.run_function("c%d_%d" % (m, k), (None, (0., 0., 0.)))
            want = next(x for x in mro[d] if m >> x & 1) + 1
            got = w.scores.get(slot)
            H.prove("implementation", got == want,
                    info="T%d of %s through T%d, defined in %s: %s not %s" % (
                        d, graph, k, bin(m), got, want))
    H.cover()


KK = ["virtual", "virtual inline"]
OO = [None, "override", "override inline"]


def vc_kill(H):
    """An implementation that kills the object is still the only one that
    runs, once, and its result is the result of the call; the other
    entities are left alone."""
    kinds = [H.choose("A", KK)] + [H.choose(t, OO) for t in "BCD"]
    how = H.choose("how", ["kill @e[type=pig]", "kill @e[type=cow]",
                           "kill @e"])
    if H.choose("tree", [False, True]):
        bases = ["", " extends A", " extends A", " extends B"]
        chain = {0: [0], 1: [1, 0], 2: [2, 0], 3: [3, 1, 0]}
    else:
        bases = ["", " extends A", " extends B", " extends C"]
        chain = {0: [0], 1: [1, 0], 2: [2, 1, 0], 3: [3, 2, 1, 0]}
    src = "i: int\nj: int\nk: int\n"
    head = ""
    for x, t in enumerate("ABCD"):
        head += "entity %s%s:\n    new():\n        new('pig', " \
            "Pos(0, 0, 0))\n" % (t, bases[x])
        if kinds[x]:
            head += "    %s def v(n: int) -> int:\n        i += n\n" \
                "        j = j * 10 + %d\n        /%s\n        result %d\n" % (
                    kinds[x], x + 1, how, x + 5)
    src = q(src + head + "a: A\nb: A\ninterface c:\n    k = a.v(3)\n")
    r = scen_compile(H, src, ["a", "b", "i", "j", "k"] + list("ABCD"))
    H.prove("accepted", r.err is None, info="%s\n%s" % (r.err, src))
    if r.err is not None:
        return
    ob = r.case.observed
    ks = {n: slotkey(ob[n].slot) for n in "ijk"}
    etid = r.compiled.compiler.etemplate_id_scb
    for d in range(4):
        w = mc.World(r.files)
        w.objectives |= {etid} | {o for _, o in ks.values()}
        w.lenient_obj = True
        w.ents = [mc.Ent("pig", (0., 0., 0.)), mc.Ent("cow", (1., 0., 0.))]
        for e in w.ents:
            w.scores[(e.id, etid)] = ob["ABCD"[d]].runtime_id
        w.ents[0].tags.add(ob["a"].tag)
        w.ents[1].tags.add(ob["b"].tag)
        for n in "ijk":
            w.scores[ks[n]] = 0
        w.run_function("c", (None, (0., 0., 0.)))
        impl = next(x for x in chain[d] if kinds[x])
        want = (3, impl + 1, impl + 5)
        got = tuple(w.scores.get(ks[n]) for n in "ijk")
        H.prove("once", got == want,
                info="%s of a %s: %s, not %s\n%s" % (
                    kinds, "ABCD"[d], got, want, src))
    H.cover()


def _lsb(m):
    return (m & -m).bit_length() - 1


def _fpaths(graph):
    paths = [[0]]
    for k, ps in enumerate(graph):
        paths.append([k + 1] + [x for p in ps for x in paths[p]])
    return paths


def _once(graph):
    return all(len(set(p)) == len(p) for p in _fpaths(graph))


# (a field reached twice is rejected by design, also where one would do)
FGRAPHS = [g for n in (2, 3, 4, 5) for g in _graphs(n)
           if (n < 5 or len(g[-1]) > 2 or g[0] == g[1] == ()) and
           (_py_mro(g) is None and n < 5 or _once(g) and _py_mro(g))]


def vc_inherit(H):
    """Templates have the fields of all their bases, each a variable of
    its own; a field reached twice is rejected."""
    graph = H.choose("bases", FGRAPHS)
    H.choose("part", [0])
    n = len(graph) + 1
    paths = _fpaths(graph)
    good = _py_mro(graph) is not None
    src = ""
    for k in range(n):
        src += "entity T%d%s:\n    f%d: int\n" % (
            k, "" if not k or not graph[k - 1] else " extends " + ", ".join(
                "T%d" % b for b in graph[k - 1]), k)
    src += "".join("v%d: T%d\n" % (k, k) for k in range(n)) + "i: int\n"
    src += "interface set:\n    pass\n" + "".join(
        "    v%d.f%d = %d\n" % (k, x, 10 * k + x + 1) for k in range(n)
        for x in paths[k])
    get = [(k, x) for k in range(n) for x in paths[k]]
    src += "".join("interface g%d_%d:\n    i = v%d.f%d\n" % (k, x, k, x)
                   for k, x in get)
    r = scen_compile(H, src, ["v%d" % k for k in range(n)] + ["i"])
    H.prove("accepted-iff", (r.err is None) == good, info="%s\n%s" % (
        r.err, src))
    H.cover()
    if r.err is not None:
        return
    w = mc.World(r.files)
    w.lenient_obj = True
    w.ents = [mc.Ent("pig", (float(x), 0., 0.)) for x in range(n)]
    for k in range(n):
        w.ents[k].tags.add(r.case.observed["v%d" % k].tag)
    w.run_function("set", (None, (0., 0., 0.)))
    slot = slotkey(r.case.observed["i"].slot)
    for k, x in get:
        w.run_function("g%d_%d" % (k, x), (None, (0., 0., 0.)))
        H.prove("field", w.scores.get(slot) == 10 * k + x + 1,
                info="v%d.f%d of %s: %s" % (k, x, graph,
                                            w.scores.get(slot)))


def scen_compile(H, src, observe=None):
    from .scen import compile_scenario
    return compile_scenario(H, src, {}, observe=observe)


T = ErrorType
RULES = [
    ("attribute twice", "entity A:\n    x: int\nentity B extends A:\n"
     "    x: int\n", False),
    ("attribute of two bases", "entity A:\n    x: int\nentity B:\n"
     "    x: int\nentity C extends A, B:\n    y: int\n", False),
    ("attribute and inherited method", "entity A:\n    def x():\n"
     "        pass\nentity B extends A:\n    x: int\n", False),
    ("method and inherited attribute", "entity A:\n    x: int\n"
     "entity B extends A:\n    def x():\n        pass\n", False),
    ("two virtual bases", "entity A:\n    virtual def m():\n        pass\n"
     "entity B:\n    virtual def m():\n        pass\n"
     "entity C extends A, B:\n    x: int\n", False),
    ("virtual and simple bases", "entity A:\n    virtual def m():\n"
     "        pass\nentity B:\n    def m():\n        pass\n"
     "entity C extends A, B:\n    x: int\n", False),
    ("static and simple bases", "entity A:\n    static def m():\n"
     "        pass\nentity B:\n    def m():\n        pass\n"
     "entity C extends A, B:\n    x: int\n", False),
    ("no order", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\nentity C extends A, B:\n    z: int\n", False),
    ("diamond", "entity A:\n    virtual def m():\n        pass\n"
     "entity B extends A:\n    x: int\nentity C extends A:\n    y: int\n"
     "entity D extends B, C:\n    z: int\n", True),
    ("result mismatch", "entity A:\n    virtual def m() -> int:\n"
     "        result 1\nentity B extends A:\n"
     "    override def m() -> bool:\n        result True\n", False),
    ("result none", "entity A:\n    virtual def m() -> int:\n"
     "        result 1\nentity B extends A:\n"
     "    override def m():\n        pass\n", False),
    ("not a template", "x := 3\nentity B extends x:\n    y: int\n", False),
    ("assign base to sub", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: A\nb: B\nb = a\n", False),
    ("assign sub to base", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: A\nb: B\na = b\n", True),
    ("assign unrelated", "entity A:\n    x: int\nentity B:\n"
     "    y: int\na: A\nb: B\nb = a\n", False),
    ("argument of base", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: A\ndef f(b: B):\n    pass\nf(a)\n", False),
    ("argument of sub", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: B\ndef f(b: A):\n    pass\nf(a)\n", True),
    ("attribute of sub", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: A\ni := a.y\n", False),
    ("attribute of base", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: B\na.x = 3\n", True),
    ("attribute of wrong type", "entity A:\n    x: int\na: A\n"
     "a.x = True\n", False),
    ("upcast to sub", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: A\nupcast(a, B)\n", False),
    ("upcast to unrelated", "entity A:\n    x: int\nentity B:\n"
     "    y: int\na: A\nupcast(a, B)\n", False),
    ("upcast hides", "entity A:\n    x: int\nentity B extends A:\n"
     "    def m():\n        pass\nb: B\nupcast(b, A).m()\n", None),
    ("add base to group", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\na: A\ng: Engroup[B]\ng.add(a)\n", False),
    ("extend by base", "entity A:\n    x: int\nentity B extends A:\n"
     "    y: int\nh: Engroup[A]\ng: Engroup[B]\ng.extend(h)\n", False),
    ("group of base to sub", "entity A:\n    x: int\n"
     "entity B extends A:\n    y: int\nh: Engroup[A]\ng: Engroup[B]\n"
     "g = h\n", False),
    ("assign self", "entity A:\n    x: int\n    inline def f():\n"
     "        self = self\na: A\na.f()\n", False),
    ("no constructor", "entity A:\n    x: int\na := A()\n", None),
    ("static through self", "entity A:\n    static def f():\n"
     "        self.x = 1\n", False),
    ("negative limit", "entity A:\n    x: int\ng: Engroup[A]\n"
     "g.select(Enfilter().random(\"a\", 0))\n", False),
    ("random without type", "entity A:\n    x: int\ng: Engroup[A]\n"
     "g.select(Enfilter().random())\n", False),
    ("random other type", "entity A:\n    x: int\ng: Engroup[A]\n"
     "g.select(Enfilter().is_type(\"cow\").random(\"pig\"))\n", False),
    ("bad range", "entity A:\n    x: int\ng: Engroup[A]\n"
     "g.select(Enfilter().scores(\"a\", \"1..x\"))\n", False),
    ("bad range 2", "entity A:\n    x: int\ng: Engroup[A]\n"
     "g.select(Enfilter().scores(\"a\", \"1..2..3\"))\n", False),
    ("empty range", "entity A:\n    x: int\ng: Engroup[A]\n"
     "g.select(Enfilter().scores(\"a\", \"..\"))\n", False),
]


def vc_typing(H):
    """Ill-formed templates and ill-typed uses of entities are rejected."""
    name, src, good = H.choose("case", RULES)
    r = scen_compile(H, src)
    if good is None:
        return
    H.prove("accepted-iff", (r.err is None) == good,
            info="%s\n%s" % (r.err, src))


def vc_version(H):
    """Permission conditions exist since 1.19.80."""
    m = H.choose("method", ["has_permission", "has_no_permission"])
    v = H.choose("version", [(1, 19, 50), (1, 19, 79), (1, 19, 80),
                             (1, 19, 81), (1, 20), (2, 0)])
    src = "g := Engroup[Entity]()\ng.select(Enfilter().%s('camera'))\n" % m
    try:
        t = repo.compile_text(q(src), mc_version=v).files()["main"]
    except repo.Error:
        t = None
    H.prove("available", (t is not None) == (v >= (1, 19, 80)), info=src)
    H.cover()


CONTRACTS = [vc_fields, vc_struct_fields, vc_many, vc_refs, vc_methods, vc_groups, vc_filters, vc_filters2,
             vc_filter_pairs,
             vc_rules, vc_typing, vc_mro, vc_inherit, vc_kill, vc_version]
vc_mro.shards = 8
vc_inherit.shards = 4
vc_methods.shards = 8
vc_groups.shards = 4
vc_filters.shards = 8
vc_filter_pairs.shards = 8
