"""Contracts of the output manager (C08)."""
from .scen import *
from . import integrity
from .holes import Env  # noqa: F401
from acaciamc.compiler import Config

# Program fragments, one per construct that creates function files, scores,
# objectives, tags, constants or tick commands. {v}: observed variables.
PROGS = {
    "plain": "a = b * 3 + L1",
    "consts": "a = a * 7 * L1 / 3 % 5\nb = b * L1 * -9",
    "function": "def f(x: int) -> int:\n    result x * L1\n"
                "a = f(b)\nb = f(a) + f(3)",
    "unused": "def f():\n    b = 7\na = 5",
    "emptyfn": "def f():\n    pass\nf()\nif a > 3:\n    f()\na = 4",
    "inline": "inline def f(x: int) -> int:\n    if x > 3:\n        result x\n"
              "    else:\n        result 3\na = f(b)",
    "if": "if a > b:\n    a = 3\n    b = L1\nelse:\n    b = 4\n    a += 1",
    "while": "b = 0\nwhile b < 3:\n    b += 1\n    a += b * L1",
    "nested": "b = 0\nwhile b < 2:\n    b += 1\n    if a > b:\n"
              "        a -= 5\n    elif a < L1:\n        a += 2\n"
              "        a = a * 2",
    "bools": "c := a > b and (a != 3 or b == L1)\nif not c:\n    a = int(c)",
    "struct": "struct S:\n    x: int\n    y: bool\ns := S(x=a, y=True)\n"
              "t := s\nt.x = L1\nb = s.x",
    "for": "for i in {1, 2, 3}:\n    a += i * b",
    "interface": "a = 1\ninterface foo:\n    a = 2\ninterface d/e.f-g:\n"
                 "    a = b\n    b = 4",
    # paths that resemble those of the configuration
    "names": "".join("interface %s:\n    b = %d\n    a = b\n" % (n, k)
                     for k, n in enumerate((
                         "{int}_x", "{int}2/y", "x/{int}", "x/{int}/z",
                         "{main}2", "y/{main}", "{main}_/a", "{ini}2",
                         "z/{ini}", "tick", "x/tick", "{int}x/tick",
                         "r2", "r/s"))),
    "emptyif": "interface foo:\n    pass\na = b",
    "module": "import helper\na = helper.f(b)\nb = helper.v",
    "math": "import math\na = math.min(a, b, L1)\n"
            "b = math.pow(a, b)\na = math.randint(1, 6)",
    "print": "import print\nprint.tell(print.format(\"%0 %1\", a, b))",
    "tick": "import schedule\nn := 0\ndef f():\n    n += 1\n    n = n * 2\n"
            "schedule.register_loop(f)\n"
            "schedule.register_loop(f, interval=3)",
    "tickempty": "import schedule\ndef f():\n    pass\n"
                 "schedule.register_loop(f)",
    "task": "import schedule\nn := 0\ndef f(x: int):\n    n += x\n"
            "const t = schedule.Task(f, b)\nt.after(20)\n"
            "t.on_area_loaded(Pos(1, 2, 3), Offset())",
    "entity": "entity T:\n    h: int\n    new():\n"
              "        new(\"armor_stand\", Pos(0, 0, 0))\n"
              "        self.h = 3\n    def m():\n        self.h += a\n"
              "        a = self.h\n    virtual def v():\n        a = 1\n"
              "entity U extends T:\n    override def v():\n        a = 2\n"
              "t := T()\nt.m()\nu := U()\nu.v()\nw: T\nw = u\nw.v()",
    "group": "entity T:\n    h: int\n    new():\n"
             "        new(\"armor_stand\", Pos(0, 0, 0))\n"
             "g := Engroup[T]()\nt := T()\n"
             "g.add(t)\nfor e in g:\n    e.h = a\nb = g.size()",
    "list": "l := {1, 2, a}\na = l[b]" if False else
            "const l = {1, 2, 3}\na = l[1] + b",
}
HELPER = {"helper.aca": "v: int\nv = 3\ndef f(x: int) -> int:\n"
                        "    result x * 5 + v\n"}
VARS = {"a": "int", "b": "int"}
ROOTS = ["", "r", "r/s/t"]


def _mods(src):
    return HELPER if "import helper" in src else None


def _lits(H, src, symbolic=True):
    if "L1" not in src:
        return {}
    return {"L1": H.int("L1", MIN, MAX) if symbolic else 12345}


def _compile(H, src, lits, cfg):
    for x, k, d in (("int", "internal_folder", "_acacia"),
                    ("main", "main_file", "main"),
                    ("ini", "init_file", "init")):
        src = src.replace("{%s}" % x, cfg.get(k, d))
    r = compile_scenario(H, src, VARS, lits, _mods(src), cfg=cfg)
    return r


def _integrity(H, r, cfg, label):
    c = r.compiled
    root = cfg.get("root_folder", "")
    pre = root + "/" if root else ""
    entries = [pre + cfg.get("main_file", "main")]
    if cfg.get("split_init"):
        ini = pre + cfg.get("init_file", "init")
        H.prove(label + "init-exists", ini in r.files)
        if entries[0] not in r.files:
            entries = []    # nothing is left to do in the main file
        entries.append(ini)
    if "interface foo" in r.text and "pass" not in r.text:
        entries += [pre + "foo", pre + "d/e.f-g"]
    if "interface x/tick" in r.text:
        entries += [pre + l.split(" ")[1].rstrip(":")
                    for l in r.text.split("\n")
                    if l.startswith("interface ")]
    obs = [slotkey(e.slot) for e in r.case.observed.values()
           if hasattr(e, "slot")]
    what = integrity.check(
        c.file_list(), c.files(debug=cfg.get("debug_comments", False)),
        c.tick_functions(), root, (), entries, known=obs,
        internal=cfg.get("internal_folder", "_acacia"))
    H.prove(label + "closed", what is None, info="%s\n%s" % (what, r.text))


def vc_closed(H):
    """Every construct, under every configuration of the output: the files
    it calls, schedules or lists exist at the paths used, no path is used
    twice, all are below the root folder, every objective is added once,
    every score read is set somewhere."""
    name = H.choose("program", list(PROGS))
    src = PROGS[name]
    cfg = dict(optimizer=H.choose("opt", [False, True]))
    cfg["root_folder"] = H.choose("root", ROOTS)
    cfg["split_init"] = H.choose("split", [False, True])
    cfg["debug_comments"] = H.choose("debug", [False, True])
    if H.choose("names", [False, True]):
        cfg.update(main_file="start", init_file="setup",
                   internal_folder="lib", scoreboard="sb", entity_tag="tg")
    r = _compile(H, src, _lits(H, src, False), cfg)
    H.prove("accepted", r.err is None, info="%s\n%s" % (r.err, r.text))
    if r.err is None:
        _integrity(H, r, cfg, "")
    H.cover()


def vc_config(H):
    """Names are only names: renaming the root folder, the internal folder,
    the main and init files and the prefixes of objectives and tags gives
    the same commands up to that renaming; debug comments only add
    comments. (Commands are compared as parsed.)"""
    name = H.choose("program", [x for x in PROGS if x != "names"])
    src = PROGS[name]
    opt = H.choose("opt", [False, True])
    split = H.choose("split", [False, True])
    A = dict(optimizer=opt, split_init=split, root_folder="rootA",
             main_file="mainA", init_file="initA", internal_folder="intA",
             scoreboard="scbA", entity_tag="tagA")
    B = dict(A)
    what = H.choose("vary", ["names", "noroot", "debug"])
    if what == "names":
        B.update(root_folder="rootB/x", main_file="mainB",
                 init_file="initB", internal_folder="intB",
                 scoreboard="scbB", entity_tag="tagB")
    elif what == "noroot":
        B["root_folder"] = ""
    else:
        B["debug_comments"] = True
    lits = _lits(H, src, False)
    r1, r2 = _compile(H, src, lits, A), _compile(H, src, lits, B)
    H.prove("accepted", r1.err is None and r2.err is None,
            info="%s %s" % (r1.err, r2.err))
    if r1.err or r2.err:
        return

    def norm(r, cfg):
        out = {}
        pre = cfg["root_folder"] + "/" if cfg["root_folder"] else ""
        subs = [(pre + cfg["main_file"], "<main>"),
                (pre + cfg["init_file"], "<init>"),
                (pre + cfg["internal_folder"] + "/", "<int>/"),
                (cfg["scoreboard"], "<scb>"), (cfg["entity_tag"], "<tag>")]

        def ren(t, path=False):
            for x, y in subs:
                t = t.replace(x, y)
            if path and not t.startswith("<"):
                H.prove("below-root", t.startswith(pre), info=t)
                t = t[len(pre):]
            return t
        for p, text in r.compiled.files(
                debug=cfg.get("debug_comments", False)).items():
            out[ren(p, True)] = [ren(l) for l in text.split("\n")
                                 if l and not l.startswith("#")]
        return out, [ren(t, True) for t in r.compiled.tick_functions()]
    n1, n2 = norm(r1, A), norm(r2, B)
    H.prove("same-commands", n1 == n2, info="%s under %s\n%s\n%s" % (
        name, what, n1, n2))
    H.cover()


VALUE_SPEC = {
    "plain": "a = b * 3 + L1",
    "consts": "a = a * 7 * L1 / 3 % 5\nb = b * L1 * -9",
    "function": "a = b * L1\nt = a * L1\nu = 3 * L1\nb = t + u",
    "inline": "if b > 3:\n    a = b\nelse:\n    a = 3",
    "if": "if a > b:\n    a = 3\n    b = L1\nelse:\n    b = 4\n"
          "    a = a + 1",
    "struct": "b = a",
    "for": "a = a + b\nt = 2 * b\na = a + t\nu = 3 * b\na = a + u",
    "module": "a = b * 5 + 3\nb = 3",
}


def vc_split(H):
    """Running the init file and then the main file gives every value that
    the single main file gives, from arbitrary previous scores: every
    constant and module flag is set before it is used. Running main again
    without init still works."""
    name = H.choose("program", list(VALUE_SPEC))
    src = PROGS[name]
    cfg = dict(optimizer=H.choose("opt", [False, True]), split_init=H.choose(
        "split", [True, False]), root_folder=H.choose("root", ["", "x/y"]))
    pre = cfg["root_folder"] and cfg["root_folder"] + "/"
    entries = [pre + "main"]
    if cfg["split_init"]:
        entries.insert(0, pre + "init")
    spec = VALUE_SPEC[name]
    if H.choose("again", [False, True]):
        entries.append(pre + "main")
        spec = spec + "\n" + spec
    scenario(H, src, spec, VARS, {"L1": None} if "L1" in src else {},
             _mods(src), cfg=cfg, entries=entries)


def vc_init(H):
    """The initialisation generated for any history of requests: constants
    of arbitrary (symbolic, possibly equal) values, extra objectives and
    scores. After it every constant score holds its value, every objective
    used has been added exactly once, and slots of different constants and
    variables differ."""
    from .repo import bare_compiler
    c = bare_compiler(optimizer=H.choose("opt", [False, True]))
    base = len(c.output_mgr.generate_init())
    n = H.choose("consts", [0, 1, 2, 3])
    order = H.choose("order", ["vars-first", "mixed", "objectives-first"])
    vals = [H.int("v%d" % i, MIN, MAX) for i in range(n)]
    slots, others, objs = [], [], []

    def extra():
        others.append(c.allocate())
        objs.append(c.add_scoreboard())
    if order != "mixed":
        extra()
        extra()
    for v in vals:
        slots.append(c.add_int_const(v).slot)
        if order == "mixed":
            extra()
    lines = [x.resolve() for x in c.output_mgr.generate_init()]
    st = mc.SymState(H, files={"init": lines})
    added = [mc.parse(x)[1] for x in lines if mc.parse(x)[0] == "objadd"]
    H.prove("objectives-once", len(set(added)) == len(added), info=lines)
    need = {s.objective for s in slots + others} | set(objs)
    H.prove("objectives-added", need <= set(added), info=(need, lines))
    H.prove("order", all(mc.parse(x)[0] in ("objadd", "comment")
                         for x in lines[:max(
                             [i for i, x in enumerate(lines)
                              if mc.parse(x)[0] == "objadd"]) + 1]),
            info=lines)
    st.call("init", None)
    for v, s in zip(vals, slots):
        H.prove("constant-value", st.get(slotkey(s)) == v.term
                if hasattr(v, "term") else st.get(slotkey(s)) == v,
                info=lines)
    ks = [slotkey(s) for s in slots]
    for i in range(len(ks)):
        H.prove("not-a-variable", ks[i] not in [slotkey(o) for o in others])
    H.cover()


CONTRACTS = [vc_init, vc_closed, vc_config, vc_split]
vc_closed.shards = 8
vc_config.shards = 4
vc_split.shards = 4
