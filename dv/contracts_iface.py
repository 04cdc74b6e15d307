"""Contracts of interfaces (C14): which paths are accepted, the file each
one becomes, and what running the file does."""
import itertools
import os
import shutil
import string
import tempfile

from .scen import *
from .contracts_text import lit
from acaciamc.compiler import Config

V = {"i": "int", "j": "int", "k": "int", "p": "bool", "q": "bool"}
ALLOWED = set(string.ascii_letters + string.digits + ".(-)_/")


def faults(path, cfg):
    """The error kinds the rules allow for a path (empty: it is valid)."""
    r = set()
    if not path:
        r.add("INTERFACE_PATH_EMPTY")
    if path.startswith("/"):
        r.add("INTERFACE_PATH_SLASH_START")
    if path.endswith("/"):
        r.add("INTERFACE_PATH_SLASH_END")
    if "//" in path:
        r.add("INTERFACE_PATH_DOUBLE_SLASH")
    if any(c not in ALLOWED for c in path):
        r.add("INTERFACE_PATH_INVALID_CHAR")
    if any(s in (".", "..") for s in path.split("/")):
        r.add("INTERFACE_PATH_DOTS")
    used = [cfg.get("main_file", "main"),
            cfg.get("internal_folder", "_acacia")]
    if cfg.get("split_init"):
        used.append(cfg.get("init_file", "init"))
    for u in used:
        u, x = u.lower(), path.lower()
        if x == u or x.startswith(u + "/"):
            r.add("RESERVED_INTERFACE_PATH")
    return r


def compiled(src, modules=None, **cfg):
    try:
        return repo.compile_text(src, modules=modules, **cfg), None
    except repo.Error as e:
        return None, e


def check_path(H, path, label, text=None, **cfg):
    want = faults(path, cfg)
    c, err = compiled("interface %s:\n    /say body\n" % (text or lit(path)),
                      **cfg)
    if want:
        H.prove(label + " rejected", err is not None and
                err.type.name in want, info="%r: %s, rules: %s" % (
                    path, err and err.type.name, sorted(want)))
        return
    H.prove(label + " accepted", err is None, info="%r: %s" % (path, err))
    if c is None:
        return
    d = tempfile.mkdtemp(dir=repo.tmpdir())
    try:
        c.compiler.output(d)
        pre = cfg.get("root_folder", "")
        p = os.path.join(d, *([pre] if pre else []), path + ".mcfunction")
        body = None
        if os.path.isfile(p):
            with open(p, encoding="utf-8") as f:
                body = [x for x in f.read().split("\n")
                        if x and not x.startswith("#")]
        H.prove(label + " file", body in (["/say body"], ["say body"]),
                info="%r: %r has %r" % (path, p, body))
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALPHA = ["a", "Z", "7", ".", "-", "_", "(", ")", "/", " ", "~", "\u00e9",
         "\\", ":"]


def vc_paths(H):
    """Every path of up to four characters of the alphabet (the first two
    chosen, the rest enumerated)."""
    a = H.choose("first", [""] + ALPHA)
    b = H.choose("second", [""] + ALPHA)
    H.choose("part", [0])
    if not a and b:
        H.skip()
        return
    rest = [""] if not b else [""] + [x + y for x in ALPHA for y in
                                      ["", "a", ".", "/", "B"]]
    for t in rest:
        check_path(H, a + b + t, "path", optimizer=bool(len(t) % 2))
    H.cover()


def vc_chars(H):
    """Every character up to U+017F and some beyond, within a path."""
    blk = H.choose("block", list(range(0, 0x180, 32)) + [
        0x2000, 0xFF00, 0x1F600])
    for c in range(blk, blk + 32):
        if chr(c) in "\n\r\0":
            continue
        check_path(H, "a%sb" % chr(c), "char %x" % c)
    H.cover()


PATHS = ["main", "Main", "mAIN", "main/a", "MAIN/b", "main2", "a/main",
         "xmain", "main.", "_acacia", "_ACACIA/x", "_acacia2", "_acaci",
         "a/_acacia", "init", "INIT", "init/x", "inits", "lib", "Lib/a",
         "lib/sub", "lib/SUB/x", "lib/sub2", "start", "setup", "Setup/y",
         "...", "a...", ".a", "..a/b", "a/.b", "a/..", "a/../b", "./a",
         "../a", "a/./b", "a/...", "tick", "x/y/z/w", "A/B.c_d-e(f)"]
CFGS = [{}, dict(split_init=True), dict(main_file="Start"),
        dict(internal_folder="lib"), dict(internal_folder="lib/sub"),
        dict(split_init=True, init_file="setup", main_file="main2"),
        dict(init_file="setup"), dict(root_folder="main"),
        dict(root_folder="r/s", optimizer=False),
        dict(main_file="a/main", split_init=True, init_file="a/init")]


def vc_reserved(H):
    """The compiler's own files cannot be taken, in any case of letters;
    everything else can."""
    cfg = CFGS[H.choose("config", list(range(len(CFGS))))]
    for path in PATHS:
        check_path(H, path, "reserved", **cfg)
    H.cover()


BARE = ["a", "a/b", "A.b-c_d/e", "while", "int", "a/if", "9", "-", "0x1",
        "a.aca", "main2", "interface", "_a", "True/False"]


def vc_bare(H):
    """Paths written without quotes."""
    path = H.choose("path", BARE)
    end = H.choose("before colon", ["", " "])
    check_path(H, path, "bare", text=path + end)
    H.cover()


# ------------------------------------------------------------ duplicates
DUP = [("a", "a"), ("a", "A"), ("a/b", "A/b"), ("X", "x"), ("a/B", "a/b")]
NODUP = [("a", "b"), ("a", "a/b"), ("a/b", "a"), ("a/b", "b/a"),
         ("a.b", "a/b"), ("a", "a."), ("a-b", "a_b")]
SHAPES = [
    ("top", "interface {0}:\n    /say one\ninterface {1}:\n    /say two\n",
     {}),
    ("inner", "interface {0}:\n    /say one\n    interface {1}:\n"
     "        /say two\n", {}),
    ("if", "p := True\nif p:\n    interface {0}:\n        /say one\n"
     "else:\n    interface {1}:\n        /say two\n", {}),
    ("module", "import m\ninterface {1}:\n    /say two\n",
     {"m.aca": "interface {0}:\n    /say one\n"}),
    ("modules", "import m\nimport d.n\n",
     {"m.aca": "interface {0}:\n    /say one\n",
      "d/n.aca": "interface {1}:\n    /say two\n"}),
    ("function", "def f():\n    interface {0}:\n        /say one\nf()\nf()\n"
     "interface {1}:\n    /say two\n", {}),
    ("inline", "inline def f(const x):\n    interface {0}:\n"
     "        /say one\nf(1)\ninterface {1}:\n    /say two\n", {}),
    ("string", "interface \"{0}\":\n    /say one\ninterface {1}:\n"
     "    /say two\n", {}),
]


def vc_duplicate(H):
    a, b = H.choose("paths", DUP + NODUP)
    name, src, mods = SHAPES[H.choose("shape", list(range(len(SHAPES))))]
    opt = H.choose("optimizer", [False, True])
    root = H.choose("root", ["", "r/s"])
    src = src.replace("{0}", a).replace("{1}", b)
    mods = {n: t.replace("{0}", a).replace("{1}", b)
            for n, t in mods.items()}
    c, err = compiled(src, mods, optimizer=opt, root_folder=root)
    if (a, b) in DUP:
        H.prove("rejected", err is not None and
                err.type.name == "DUPLICATE_INTERFACE",
                info="%s for %s" % (err, src))
    else:
        H.prove("accepted", err is None, info="%s for %s" % (err, src))
        if c is not None:
            fs = c.files()
            pre = root + "/" if root else ""
            got = [[x.lstrip("/") for x in fs.get(pre + p, "?").split("\n")
                    if x] for p in (a, b)]
            H.prove("files", got == [["say one"], ["say two"]],
                    info="%s for %s" % (got, src))
    H.cover()


def vc_twice(H):
    """One definition reached twice by the compiler is a duplicate."""
    src = H.choose("source", [
        "inline def f():\n    interface a:\n        /say 1\nf()\nf()\n",
        "for n in {1, 2}:\n    interface a:\n        /say 1\n"])
    c, err = compiled(src)
    H.prove("rejected", err is not None and
            err.type.name == "DUPLICATE_INTERFACE", info=str(err))
    H.cover()


# ---------------------------------------------------------------- effects
# name, source, {entry: specification}, observed
EFFECTS = [
    ("assign", "interface a:\n    i = j\ninterface b:\n    j = i + 1\n",
     {"main": "pass", "a": "i = j", "b": "j = i + 1"}, {}),
    ("not run by main", "i = 1\ninterface a:\n    i = 2\nj = i\n",
     {"main": "i = 1\nj = 1", "a": "i = 2"}, {}),
    ("events", "act(\"m\", i)\ninterface a:\n    act(\"a\", i)\n"
     "act(\"n\", j)\n", {"main": "act('m', i)\nact('n', j)",
                         "a": "act('a', i)"}, {}),
    ("in if", "if p:\n    act(\"m\", i)\n    interface a:\n        i = k\n"
     "else:\n    interface b:\n        j = k\n    j = 3\n",
     {"main": "if p:\n    act('m', i)\nelse:\n    j = 3",
      "a": "i = k", "b": "j = k"}, {}),
    ("in for", "for n in {5}:\n    interface a:\n        i = n\n    j = n\n",
     {"main": "j = 5", "a": "i = 5"}, {}),
    ("nested", "interface a:\n    i = 1\n    interface b/c:\n        i = k\n"
     "    j = i\n", {"main": "pass", "a": "i = 1\nj = 1", "b/c": "i = k"},
     {}),
    ("in inline", "inline def f(const n, &v: int):\n    interface a:\n"
     "        v = n\n    v = 4\nf(3, i)\n", {"main": "i = 4", "a": "i = 3"},
     {}),
    ("in function", "def f():\n    interface a:\n        i = k\n    j = 1\n"
     "f()\n", {"main": "j = 1", "a": "i = k"}, {}),
    ("uncalled function", "def f():\n    interface a:\n        i = k\n"
     "    j = 1\n", {"main": "pass", "a": "i = k"}, {}),
    ("call", "def f(x: int) -> int:\n    result x + i\ninterface a:\n"
     "    i = f(j)\ninterface b:\n    k = f(f(1))\n",
     {"main": "pass", "a": "i = j + i", "b": "k = 1 + i + i"}, {}),
    ("inline call", "inline def f(x: int) -> int:\n    result x + i\n"
     "interface a:\n    i = f(j)\nk = f(2)\n",
     {"main": "k = 2 + i", "a": "i = j + i"}, {}),
    ("locals", "x := 5\ninterface a:\n    y := i\n    y += x\n    j = y\n"
     "interface b:\n    y := k\n    i = y\nx = 6\n",
     {"main": "x = 6", "a": "j = i + x", "b": "i = k"}, {"x": "int"}),
    ("local keeps", "interface a:\n    n := 0\n    n += i\n    j = n\n",
     {"main": "pass", "a": "j = i"}, {}),
    ("temporaries", "k = (i + 1) * 3 - (j - i) * 5\ninterface a:\n"
     "    k = (i - 1) * 7 - (j + i) * 3\nj = (i + 2) * 3 - (j - 9) * 5\n",
     {"main": "k = (i + 1) * 3 - (j - i) * 5\n"
      "j = (i + 2) * 3 - (j - 9) * 5",
      "a": "k = (i - 1) * 7 - (j + i) * 3"}, {}),
    ("condition", "interface a:\n    if i < j and p:\n        k = 1\n"
     "        q = i == j\n    else:\n        k = 2\n        q = not q\n",
     {"main": "pass", "a": "if i < j and p:\n    k = 1\n    q = i == j\n"
      "else:\n    k = 2\n    q = not q"}, {}),
    ("short", "interface a:\n    if p:\n        i = 1\n"
     "interface b:\n    if not p:\n        i = 2\n",
     {"main": "pass", "a": "if p:\n    i = 1", "b": "if not p:\n    i = 2"},
     {}),
    ("same body", "interface a:\n    i = k\ninterface b:\n    i = k\n"
     "interface a/b:\n    i = k\n",
     {"main": "pass", "a": "i = k", "b": "i = k", "a/b": "i = k"}, {}),
    ("only call", "def f():\n    i += 1\n    j = i\ninterface a:\n    f()\n"
     "interface b:\n    f()\n    f()\nf()\n",
     {"main": "i += 1\nj = i", "a": "i += 1\nj = i",
      "b": "i += 1\ni += 1\nj = i"}, {}),
    ("reference", "&r = i\ninterface a:\n    r += k\n    &s = r\n"
     "    s += 1\n", {"main": "pass", "a": "i += k + 1"}, {}),
    ("struct", "struct S:\n    x: int\n    y: bool\ns := S(x=3, y=True)\n"
     "interface a:\n    s.x = i\n    q = s.y\n    t := s\n    j = t.x\n"
     "    s.y = p\n", {"main": "sx = 3\nsy = True",
                       "a": "sx = i\nq = sy\nj = i\nsy = p"}, {}),
    ("const", "const C = 4\ninterface a:\n    i = C * 2\n    const D = C + 1"
     "\n    j = D\n", {"main": "pass", "a": "i = 8\nj = 5"}, {}),
    ("module", "import m\nk = m.x\n", {"main": "mx = 3\nk = mx",
                                       "a": "mx += 1", "d/b": "mx *= 2"},
     {"m.x": "int"}),
]
EMODS = {"m.aca": "x := 3\ninterface a:\n    x += 1\ninterface d/b:\n"
         "    x *= 2\n"}


def vc_effect(H):
    """Running an interface has the effect of its body, from any state,
    in any order after main, any number of times; main does not run it."""
    name, src, parts, obs = EFFECTS[
        H.choose("case", list(range(len(EFFECTS))))]
    cfg = H.choose("config", [dict(optimizer=False), dict(optimizer=True),
                              dict(optimizer=True, max_inline_file_size=0)])
    names = [n for n in parts if n != "main"]
    seqs = [[], [names[0]], [names[0]] * 2, names, names[::-1],
            [names[-1], "main", names[0]], names + names]
    seq = ["main"] + seqs[H.choose("sequence", list(range(len(seqs))))]
    o = dict(obs)
    if name == "module":
        o = {}
    scenario(H, src, "\n".join(parts[e] for e in seq), V,
             modules=EMODS if name == "module" else None,
             observe=o, cfg=cfg, entries=seq, label=name + ": ")


vc_paths.shards = 8
vc_effect.shards = 2

CONTRACTS = [vc_paths, vc_chars, vc_reserved, vc_bare, vc_duplicate,
             vc_twice, vc_effect]
