"""Contracts of storage (C05): variables, assignment, structs, references,
swap, temporaries, external scores; allocation of scores."""
from .scen import *

IB = {"i": "int", "j": "int", "k": "int", "p": "bool", "q": "bool"}

STRUCT = """
struct S:
    x: int
    y: int
    b: bool
struct N:
    s: S
    t: S
    n: int
struct D extends S:
    z: int
"""
SV = {**{"%s.%s" % (o, f): t for o in ("s", "t") for f, t in
         (("x", "int"), ("y", "int"), ("b", "bool"))}}
NV = {"%s.%s" % (n, k): t for n in ("n", "m") for k, t in
      [("s.x", "int"), ("s.y", "int"), ("s.b", "bool"), ("t.x", "int"),
       ("t.y", "int"), ("t.b", "bool"), ("n", "int")]}
DV = {"d.x": "int", "d.y": "int", "d.b": "bool", "d.z": "int"}
SDECL = STRUCT + "s: S\nt: S\nn: N\nm: N\nd: D\n"
ALLV = {**IB, **SV, **NV, **DV}


def cp(a, b, fs):
    """Scalar program that copies the fields fs of b to a."""
    return ", ".join("%s.%s" % (a, f) for f in fs) + " = " + ", ".join(
        "%s.%s" % (b, f) for f in fs) + "\n"


SF = ["x", "y", "b"]
NF = ["s.x", "s.y", "s.b", "t.x", "t.y", "t.b", "n"]

SCALAR = [
    # (name, source, spec, new variables)
    ("copy", "i = j\n", "i = j", {}),
    ("self", "i = i\np = p\n", "pass", {}),
    ("bcopy", "p = q\nq = not p\n", "p = q\nq = not p", {}),
    ("new", "a := i\ni = j\n", "a = i\ni = j", {"a": "int"}),
    ("newexpr", "a := i + j\ni += a\na -= 1\n",
     "a = i + j\ni += a\na -= 1", {"a": "int"}),
    ("typed", "a: int = j\nb: bool = q\nj = 5\nq = True\n",
     "a = j\nb = q\nj = 5\nq = True", {"a": "int", "b": "bool"}),
    ("newlit", "a := L1\nb := L2\nc := L1\na += 1\n",
     "a = L1\nb = L2\nc = L1\na += 1", {"a": "int", "b": "int", "c": "int"}),
    ("const", "const C = L1\ni = C\na := C\na = L2\n",
     "i = L1\na = L2", {"a": "int"}),
    ("ref", "&r = i\nr = j\nk = r\nr += 2\n",
     "i = j\nk = i\ni += 2", {}),
    ("reftype", "&r: int = i\n&w: bool = p\nw = q\nr *= j\n",
     "p = q\ni *= j", {}),
    ("refref", "&r = i\n&w = r\nw += 1\nr += w\n", "i += 1\ni += i", {}),
    ("refnew", "a := j\n&r = a\nj = 0\nr += i\n",
     "a = j\nj = 0\na += i", {"a": "int"}),
    ("swap", "swap(i, j)\n", "i, j = j, i", {}),
    ("swapbool", "swap(p, q)\n", "p, q = q, p", {}),
    ("swapself", "swap(i, i)\n", "pass", {}),
    ("swapref", "&r = i\nswap(r, j)\n", "i, j = j, i", {}),
    ("swapexpr", "swap(i, j)\nk = i - j\nswap(j, k)\n",
     "i, j = j, i\nk = i - j\nj, k = k, j", {}),
    ("tmps", "k = (i + j) * (i - j) - (i * 2 - j * 3)\n",
     "k = (i + j) * (i - j) - (i * 2 - j * 3)", {}),
    ("tmps2", "i = (i - j) * (j - i) + (i + 1) * (j + 1)\nk = j - i * 2\n",
     "i = (i - j) * (j - i) + (i + 1) * (j + 1)\nk = j - i * 2", {}),
    ("scb", "", "", {}),
    ("bools", "p = i < j and q or not (i == j)\nq = p == q\n",
     "p = i < j and q or not (i == j)\nq = p == q", {}),
    ("chain", "i = j\nj = k\nk = i\n", "i = j\nj = k\nk = i", {}),
    ("block", "if p:\n    a := i\n    i = j\n    j = a\nk = 1\n",
     "if p:\n    i, j = j, i\nk = 1", {}),
    ("blocks", "if p:\n    a := i + 1\n    j = a\nelse:\n    c := j + 2\n"
     "    i = c\n", "if p:\n    j = i + 1\nelse:\n    i = j + 2", {}),
    ("shadow", "for x in {1, 2}:\n    a := x + i\n    j += a\n",
     "j += 1 + i\nj += 2 + i", {}),
]


def vc_scalar(H):
    """Assignments, definitions, references, swaps and temporaries of ints
    and bools change exactly their target."""
    opt = H.choose("optimizer", [False, True])
    c = H.choose("case", SCALAR)
    name, src, spec, new = c
    vars, lits = dict(IB), {}
    if "L1" in src:
        lits = {"L1": None, "L2": None}
    if name == "scb":
        _scb(H, opt)
        return
    scenario(H, src, spec, vars, lits, observe=new, cfg=dict(optimizer=opt))


def _scb(H, opt):
    r = scenario(H, """
        i: int
        j: int
        &e = scb("x y", "o")
        &f = scb("z", "o")
        &g = scb("x y", "o")
        f = i
        e += f
        j = g
        """, "f = i\ne += f\ng = e\nj = g",
        {"i": "int", "j": "int", "e": "int", "f": "int", "g": "int"},
        decl=False, cfg=dict(optimizer=opt))
    if r.err is None:
        H.prove("named-score", r.slots["e"] == ("x y", "o"),
                info=r.slots["e"])


STRUCTS = [
    ("copy", "s = t\n", cp("s", "t", SF)),
    ("copyself", "s = s\n", "pass"),
    ("field", "s.x = t.y\ns.b = not t.b\n", "s.x = t.y\ns.b = not t.b"),
    ("fieldaug", "s.x += s.y\ns.y -= s.x\n", "s.x += s.y\ns.y -= s.x"),
    ("new", "a := s\ns.x = 1\na.y = 2\ni = a.x\nj = s.y\n",
     "i = s.x\ns.x = 1\nj = s.y"),
    ("newctor", "a := S(x=i, y=j, b=p)\ns = a\n",
     "s.x, s.y, s.b = i, j, p"),
    ("ctorlit", "s = S(x=L1, b=True)\n", "s.x, s.b = L1, True\nunset(s.y)"),
    ("ctorself", "s = S(x=s.y, y=s.x, b=not s.b)\n",
     "s.x, s.y, s.b = s.y, s.x, not s.b"),
    ("ctorself2", "s = S(y=s.x + 1, x=s.y * 2)\n",
     "s.y, s.x = s.x + 1, s.y * 2\nunset(s.b)"),
    ("typed", "a: S = t\nt.x = 0\ns = a\n", cp("s", "t", SF) + "t.x = 0"),
    ("typedctor", "a: S = S(y=i)\ns.y = a.y\n", "s.y = i"),
    ("swap", "swap(s, t)\n", "s.x, s.y, s.b, t.x, t.y, t.b = "
     "t.x, t.y, t.b, s.x, s.y, s.b"),
    ("swapfield", "swap(s.x, s.y)\nswap(s.b, t.b)\n",
     "s.x, s.y = s.y, s.x\ns.b, t.b = t.b, s.b"),
    ("nested", "n.s = s\nn.t = n.s\nn.s.x = 5\n",
     cp("n.s", "s", SF) + cp("n.t", "n.s", SF) + "n.s.x = 5"),
    ("nestedcopy", "n = m\nm.s.x = i\n", cp("n", "m", NF) + "m.s.x = i"),
    ("nestedctor", "n = N(s=t, n=i)\n", cp("n.s", "t", SF) + "n.n = i\nunset(n.t.x, n.t.y, n.t.b)"),
    ("nestedctor2", "n = N(s=n.t, t=n.s)\n",
     "n.s.x, n.s.y, n.s.b, n.t.x, n.t.y, n.t.b = "
     "n.t.x, n.t.y, n.t.b, n.s.x, n.s.y, n.s.b\nunset(n.n)"),
    ("nestedctor3", "n = N(s=S(x=i, y=n.n), n=j)\n",
     "n.s.x, n.s.y, n.n = i, n.n, j\n"
     "unset(n.s.b, n.t.x, n.t.y, n.t.b)"),
    ("nestedswap", "swap(n.s, m.t)\n",
     "n.s.x, n.s.y, n.s.b, m.t.x, m.t.y, m.t.b = "
     "m.t.x, m.t.y, m.t.b, n.s.x, n.s.y, n.s.b"),
    ("refstruct", "&r = n.s\nr.x = i\nr = t\nr.y += 1\n",
     cp("n.s", "t", SF) + "n.s.y += 1"),
    ("reffield", "&r = n.t.y\nr += n.n\n", "n.t.y += n.n"),
    ("upcast", "s = d\nd.x = i\n", cp("s", "d", SF) + "d.x = i"),
    ("derived", "d = D(z=i, x=j)\n", "d.z, d.x = i, j\nunset(d.y, d.b)"),
    ("derivedself", "d = D(z=d.x, x=d.z)\n", "d.z, d.x = d.x, d.z\nunset(d.y, d.b)"),
    ("twovars", "a := S(x=1, y=2, b=False)\nc := S(x=3, y=4, b=True)\n"
     "s = a\nt = c\n", "s.x, s.y, s.b, t.x, t.y, t.b = 1, 2, False, 3, 4, "
     "True"),
    ("ifassign", "if p:\n    s = t\nelse:\n    t = s\n",
     "if p:\n    s.x, s.y, s.b = t.x, t.y, t.b\nelse:\n"
     "    t.x, t.y, t.b = s.x, s.y, s.b"),
    ("callself", "def mk(a: int, b: int) -> S:\n"
     "    result S(x=b, y=a, b=False)\ns = mk(s.x, s.y)\n",
     "s.x, s.y, s.b = s.y, s.x, False"),
    ("arg", "def f(a: S, c: int) -> int:\n    a.x += c\n    result a.x\n"
     "i = f(s, c=j)\n", "i = s.x + j"),
    ("argtwice", "def f(a: S) -> S:\n    a.x += 1\n    result a\n"
     "t = f(s)\ns = f(t)\n",
     cp("t", "s", SF) + "t.x += 1\n" + cp("s", "t", SF) + "s.x += 1"),
    ("inlineref", "inline def f(&a: S):\n    a.x += 1\n    a.b = not a.b\n"
     "f(s)\nf(n.t)\n", "s.x += 1\ns.b = not s.b\nn.t.x += 1\n"
     "n.t.b = not n.t.b"),
]


def vc_struct(H):
    """Structs: copies are field-wise and independent afterwards, fields
    are separate variables, constructors evaluate their arguments before
    anything is overwritten, references alias, derived structs."""
    opt = H.choose("optimizer", [False, True])
    name, src, spec = H.choose("case", STRUCTS)
    lits = {"L1": None} if "L1" in src else {}
    scenario(H, SDECL + src, spec, ALLV, lits, cfg=dict(optimizer=opt))


SHAPES = [k for n in range(1, 5) for k in __import__("itertools").product(
    "ibPD", repeat=n)] + [tuple("iP" * 3), tuple("iiiiiP"), tuple("PiPiPi"),
                          tuple("DPDPb"), tuple("ibibibib")]
LEAVES = {"i": {"": "int"}, "b": {"": "bool"},
          "P": {".u": "int", ".v": "bool"},
          "D": {".w": "int", ".u": "int", ".v": "bool"}}


def vc_shapes(H):
    """Structs with any number of fields of any types (numbers, truth
    values, structs, derived structs) in any order: every field is copied
    to the field of the same name, the source is unchanged and the copy
    is independent."""
    shape = H.choose("shape", SHAPES)
    how = H.choose("statement", ["copy", "define", "swap", "derived"])
    H.choose("part", [0])
    names = {"f%d" % n: k for n, k in enumerate(shape)}
    src = "struct P:\n    u: int\n    v: bool\nstruct D extends P:\n" \
        "    w: int\nstruct Q:\n" + "".join("    %s: %s\n" % (
            n, {"i": "int", "b": "bool"}.get(k, k))
            for n, k in names.items())
    if how == "derived":
        src += "struct E extends Q:\n    e: int\n"
    src += "q: %s\nr: Q\n" % ("E" if how == "derived" else "Q")
    leaves = {n + l: t for n, k in names.items()
              for l, t in LEAVES[k].items()}
    src += {"copy": "r = q\n", "derived": "r = q\n", "swap": "swap(r, q)\n",
            "define": "t := q\nr = t\n"}[how]
    first = next(iter(leaves))
    src += "q.%s = %s\n" % (first, "3" if leaves[first] == "int" else "True")
    A = ", ".join("r." + l for l in leaves)
    B = ", ".join("q." + l for l in leaves)
    spec = "%s = %s\n" % ((A, B) if how != "swap" else (
        A + ", " + B, B + ", " + A)) + src.split("\n")[-2]
    scenario(H, src, spec, {o + "." + l: t for l, t in leaves.items()
                            for o in "qr"})


REJECT = [
    ("i = True\n", "WRONG_ASSIGN_TYPE"), ("p = i\n", "WRONG_ASSIGN_TYPE"),
    ("s = i\n", "WRONG_ASSIGN_TYPE"), ("d = s\n", "WRONG_ASSIGN_TYPE"),
    ("i + j = k\n", None), ("const C = 1\nC = 2\n", "INVALID_ASSIGN_TARGET"),
    ("&r = 1\n", "CANT_REF"), ("&r = i + j\n", "CANT_REF"),
    ("&r: bool = i\n", "WRONG_REF_TYPE"), ("a: int = p\n",
                                          "WRONG_ASSIGN_TYPE"),
    ("a: list\n", "UNSUPPORTED_VAR_TYPE"), ("i := 2\n", "SHADOWED_NAME"),
    ("zz = 1\n", "NAME_NOT_DEFINED"), ("s.w = 1\n", "HAS_NO_ATTRIBUTE"),
    ("def f() -> int:\n    result 1\nf() = 2\n", None),
    ("def f() -> S:\n    result s\nf().x = 2\n", None),
    ("const C = i\n", "NOT_CONST"),
    ("swap(i, p)\n", None), ("swap(i, 1)\n", None),
]


def vc_reject(H):
    """What is not a variable of the right type cannot be assigned or
    referenced: the program is rejected, not miscompiled."""
    src, et = H.choose("case", REJECT)
    if src.startswith("def f() -> S") or src.startswith("swap"):
        et = None
    r = compile_scenario(H, SDECL + src, IB)
    if src.startswith("def f() -> S") and r.err is None:
        return      # a field of a temporary: assigning it is harmless
    H.prove("rejected", r.err is not None and (
        et is None or r.err.type.name == et),
        info="%s: %s" % (src, r.err))


# --------------------------------------------------------- allocation
def vc_alloc_inv(H):
    """Induction step of the allocation contract: from an arbitrary value
    of the allocation counters (a symbolic integer), two consecutive
    allocations never give the same score, objective, tag or id, and the
    counters change by a non-zero constant (so no value ever recurs)."""
    from .repo import bare_compiler, GenStub
    from .sym import SymInt, lift
    what = H.choose("what", ["allocate", "add_scoreboard",
                             "allocate_entity_tag", "allocate_etemplate_id",
                             "allocate_tmp"])
    c = bare_compiler(optimizer=H.choose("opt", [False, True]))
    c.current_generator = GenStub()
    objs = [o for o in (c, c.output_mgr)]

    def counters():
        return {(n, k): v for n, o in enumerate(objs)
                for k, v in vars(o).items()
                if isinstance(v, int) and not isinstance(v, bool)}
    before = counters()
    f = getattr(c, what)
    f()
    mid = counters()
    changed = [k for k in mid if mid[k] != before.get(k)]
    H.prove("has-counter", True)
    if not changed:
        raise Unsupported("no allocation counter found")
    syms = {}
    for n, k in changed:
        v = H.int("counter_%s" % k, -10 ** 40, 10 ** 40)
        setattr(objs[n], k, v)
        syms[(n, k)] = lift(v)
    a = f()
    after1 = counters()
    b = f()
    text = lambda x: str(x.target) + " " + str(x.objective) \
        if hasattr(x, "target") else str(x)
    ta, tb = split(text(a)), split(text(b))
    same = z3.BoolVal(False)
    if len(ta) == len(tb) and all(
            type(x) is type(y) and (not isinstance(x, str) or x == y)
            for x, y in zip(ta, tb)):
        same = z3.And(*[x == y for x, y in zip(ta, tb)
                        if not isinstance(x, str)])
    H.prove("distinct", z3.Not(same), info="%s / %s" % (text(a), text(b)))
    deltas = []
    for k in changed:
        d = z3.simplify(lift(after1[k]) - syms[k])
        deltas.append(z3.is_int_value(d) and d.as_long() != 0)
    H.prove("counter-moves", any(deltas), info="the counter may repeat")
    H.cover()


def split(text):
    """Text with symbolic integers -> list of str and terms."""
    import re
    from .sym import REG
    out, i = [], 0
    for m in re.finditer(r"-?\d{46,}", text):
        out.append(text[i:m.start()])
        out.append(REG.term_of(int(m.group())))
        i = m.end()
    out.append(text[i:])
    return out


CONTRACTS = [vc_scalar, vc_struct, vc_shapes, vc_reject, vc_alloc_inv]
vc_shapes.shards = 8
vc_struct.shards = 4
