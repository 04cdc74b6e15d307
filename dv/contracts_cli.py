"""Contracts of the command line (C23): every option has its documented
effect and no other, invalid values are refused before anything is
written, and the written files are exactly the compiled program in the
requested encoding."""
import itertools
import json
import os
import shutil
import string
import tempfile

from . import repo
from .contracts_err import cli, tree

SRC = '''from m import twice
import schedule
import print
x := 1
interface go:
    twice()
    if x > 3:
        x = x * 7
        /say long
        /say longer
    elif x > 2:
        x -= 2
interface a/b:
    /say "${text}"
def f():
    x += 5
    /say f
t := schedule.Task(f)
interface later:
    t.after(7)
entity E:
    h: int
    new():
        new("armor_stand", Pos(0, 0, 0))
interface make:
    e := E()
    e.h = x
const c = "lit"
interface shown:
    print.tell(print.format("%0", x * 3))
f()
f()
'''
SRC = SRC.replace("t := schedule", "const t = schedule").replace(
    '    /say "${text}"\n', "    /say b\n")
MOD = "n := 2\ndef twice():\n    n *= 2\n    /say twice\n"

# option -> (arguments, configuration)
OPTIONS = {
    "none": ([], {}),
    "scoreboard": (["-s", "obj"], dict(scoreboard="obj")),
    "scoreboard long": (["--scoreboard", "o_2"], dict(scoreboard="o_2")),
    "folder": (["-f", "lib/aca"], dict(root_folder="lib/aca")),
    "folder slashes": (["--function-folder", "/lib//aca/"],
                       dict(root_folder="lib/aca")),
    "folder one": (["-f", "pack"], dict(root_folder="pack")),
    "main": (["-m", "entry"], dict(main_file="entry")),
    "main long": (["--main-file", "_m1"], dict(main_file="_m1")),
    "tag": (["-t", "tg"], dict(entity_tag="tg")),
    "tag long": (["--entity-tag", "my.tag"], dict(entity_tag="my.tag")),
    "no optimize": (["-O"], dict(optimizer=False)),
    "no optimize long": (["--no-optimize"], dict(optimizer=False)),
    "init": (["-i"], dict(split_init=True)),
    "init name": (["-i", "setup"], dict(split_init=True,
                                        init_file="setup")),
    "init long": (["--init-file", "prep"], dict(split_init=True,
                                                init_file="prep")),
    "internal": (["--internal-folder", "lib_"],
                 dict(internal_folder="lib_")),
    "debug": (["-d"], dict(debug_comments=True)),
    "debug long": (["--debug-comments"], dict(debug_comments=True)),
    "education": (["-e"], dict(education_edition=True)),
    "education long": (["--education-edition"],
                       dict(education_edition=True)),
    "version old": (["-v", "1.19.50"], dict(mc_version=(1, 19, 50))),
    "version new": (["--mc-version", "1.20.70"],
                    dict(mc_version=(1, 20, 70))),
    "version 2": (["-v", "1.21"], dict(mc_version=(1, 21))),
    "version big": (["-v", "2.0.0.1"], dict(mc_version=(2, 0, 0, 1))),
    "inline 0": (["--max-inline-file-size", "0"],
                 dict(max_inline_file_size=0)),
    "inline 1": (["--max-inline-file-size", "1"],
                 dict(max_inline_file_size=1)),
    "inline many": (["--max-inline-file-size", "1000"],
                    dict(max_inline_file_size=1000)),
    "override": (["-u"], {}),
    "override long": (["--override-old"], {}),
    "encoding": (["--encoding", "utf-16"], dict(encoding="utf-16")),
    "verbose": (["--verbose"], {}),
}


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=repo.tmpdir())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def put(d, files, encoding="utf-8"):
    for n, s in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding=encoding) as f:
            f.write(s)


def files_of(t):
    return {p: b for p, b in t.items() if b is not None}


def commands(text):
    return [l for l in text.split("\n") if l and not l.startswith("#")]


def expected(src, mods, cfg):
    """path -> lines of the pack, computed from the configuration through
    the compiler's own interface (its contracts: C08)."""
    c = repo.compile_text(src, modules=mods, **{
        k: v for k, v in cfg.items() if k != "encoding"})
    return c.files(debug=cfg.get("debug_comments", False))


def check_pack(H, label, out, want, cfg, debug=False, extra=()):
    """The files below `out` are exactly those of `want`."""
    enc = cfg.get("encoding", "utf-8")
    got = files_of(tree(out))
    tick = got.pop("tick.json", None)
    for e in extra:
        got.pop(e, None)
    H.prove(label + "files", set(got) == {p + ".mcfunction" for p in want},
            info=sorted(set(got) ^ {p + ".mcfunction" for p in want}))
    for p, text in want.items():
        b = got.get(p + ".mcfunction")
        if b is None:
            continue
        try:
            t = b.decode(enc)
        except UnicodeError as e:
            t = str(e)
        H.prove(label + "content", commands(t) == commands(text),
                info="%s: %r" % (p, t[:300]))
        H.prove(label + "comments", debug or not any(
            l.startswith("#") for l in t.split("\n") if l) or
            any(l.startswith("#") for l in text.split("\n")), info=p)
    return tick


def check_tick(H, label, tick, out, cfg):
    if tick is None:
        return None
    try:
        j = json.loads(tick.decode(cfg.get("encoding", "utf-8")))
    except ValueError as e:
        j = str(e)
    ok = isinstance(j, dict) and set(j) == {"values"} and \
        isinstance(j["values"], list) and j["values"] and all(
            isinstance(v, str) and os.path.exists(
                os.path.join(out, v + ".mcfunction")) for v in j["values"])
    H.prove(label + "tick.json", bool(ok), info=repr(j))
    return j


def vc_options(H):
    """Every pair of options, with and without an output path."""
    names = list(OPTIONS)
    a = H.choose("option 1", names)
    b = H.choose("option 2", names)
    H.choose("part", [0])
    if names.index(b) < names.index(a):
        H.skip()
        return
    (aa, ca), (ab, cb) = OPTIONS[a], OPTIONS[b]
    if a == b:
        ab, cb = [], {}
    cfg = dict(ca, **cb)
    place = "explicit" if (names.index(a) + names.index(b)) % 3 else "default"
    with Scratch() as d:
        enc = cfg.get("encoding", "utf-8")
        put(d, {"src/prog.aca": SRC, "src/m.aca": MOD}, enc)
        before = tree(d)
        out = os.path.join(d, "pack")
        args = [os.path.join(d, "src", "prog.aca")]
        if place == "explicit":
            args += ["-o", out]
        else:
            out = os.path.join(d, "src", "prog.acaout")
        # the file argument may come first or last ("-i" takes a value)
        args = args + aa + ab
        code, so, se, bad = cli(args, d)
        H.cover()
        H.prove("accepted", code == 0 and not bad, info=(args, se))
        H.prove("quiet", se == "", info=se)
        after = tree(d)
        rel = os.path.relpath(out, d)
        H.prove("only the output is written", all(
            after.get(p, 0) == v for p, v in before.items()) and all(
                p == rel or p.startswith(rel + os.sep) for p in after
                if p not in before), info=sorted(set(after) - set(before)))
        if code != 0:
            return
        try:
            want = expected(SRC, {"m.aca": MOD}, cfg)
        except repo.Error as e:
            H.prove("program accepted", False, info=str(e))
            return
        tick = check_pack(H, "", out, want, cfg,
                          cfg.get("debug_comments", False))
        check_tick(H, "", tick, out, cfg)
        H.prove("tick.json present", tick is not None)
        # direct consequences of the options
        root = cfg.get("root_folder", "")
        main = os.path.join(root, cfg.get("main_file", "main"))
        H.prove("main file", main in want)
        H.prove("root folder", all(
            p.startswith(root + "/") or not root for p in want))
        if cfg.get("split_init"):
            init = os.path.join(root, cfg.get("init_file", "init"))
            H.prove("init file", init in want and "objectives add" in
                    want[init] and not any(
                        "objectives add" in t for p, t in want.items()
                        if p != init))
        else:
            H.prove("initialised by main",
                    "objectives add" in want.get(main, ""))
        objs = {l.split()[3] for t in want.values() for l in commands(t)
                if l.startswith("scoreboard objectives add")}
        H.prove("objectives", objs and all(
            o.startswith(cfg.get("scoreboard", "acacia")) for o in objs))
        text = "\n".join(want.values())
        H.prove("tags", 'tag=' + cfg.get("entity_tag", "acacia") in text or
                cfg.get("entity_tag", "acacia") in text)
        if cfg.get("debug_comments"):
            H.prove("debug comments", any(
                l.startswith("#") for l in text.split("\n")))


# ------------------------------------------------------------ bad options
def is_id(s):
    return s != "" and (s[0].isalpha() or s[0] == "_") and all(
        c.isalpha() or c == "_" or c in string.digits for c in s)


NAMES = ["a", "A9", "_", "__x", "9", "9a", "a-b", "a b", "a/b", ".", "..",
         "a.b", "-", "a:", "\u00e9", "\u4e2d1", "1", "a\u00b2", "\u0661",
         "a\u0661", "a\n", "a\t", "@s", "a" * 40, "_1", "a$", "\u2160"]
IDOPTS = [("-s", "scoreboard"), ("-m", "main_file"), ("-i", "init_file"),
          ("--internal-folder", "internal_folder"), ("-f", "root_folder")]


def vc_ids(H):
    """Names given on the command line: accepted iff identifiers (folders:
    identifiers joined by slashes); a refusal writes nothing."""
    opt, field = H.choose("option", IDOPTS)
    name = H.choose("name", NAMES + ["main", "init", "MAIN"] + (
        ["a/b", "a/9", "a//b", "/a", "/", "a/b-c", "a/../b"]
        if opt == "-f" else []))
    parts = [p for p in name.split("/") if p] if opt == "-f" else [name]
    ok = all(is_id(p) for p in parts)
    if opt == "-i" and name.lower() == "main":
        ok = False
    with Scratch() as d:
        put(d, {"p.aca": "x := 1\n/say hi\n"})
        before = tree(d)
        out = os.path.join(d, "out")
        arg = [opt + "=" + name] if opt[:2] == "--" else [opt + name]
        if name == "":
            return
        code, so, se, bad = cli([os.path.join(d, "p.aca"), "-o", out] + arg,
                                d)
        H.cover()
        H.prove("accepted" if ok else "refused", (code == 0) == ok,
                info=(arg, code, se))
        if not ok:
            H.prove("status", code == 1, info=code)
            H.prove("message", se.strip() != "" and
                    "Traceback" not in se, info=se)
            H.prove("nothing written", tree(d) == before)
        elif code == 0:
            cfg = {field: "/".join(parts)}
            if opt == "-i":
                cfg["split_init"] = True
            want = expected("x := 1\n/say hi\n", {}, cfg)
            check_pack(H, "", out, want, cfg)


VALUES = [
    (["-v", "1.19.50"], 0), (["-v", "1.19.49"], 1), (["-v", "1.19"], 1),
    (["-v", "1.20"], 0), (["-v", "1"], 1), (["-v", "2"], 1),
    (["-v", "1.x"], 1), (["-v", ""], None), (["-v", "1..20"], 1),
    (["-v", "1.20."], 1), (["-v", "1.-20"], 1), (["-v=-1.20"], 1),
    (["-v", "0.20.50"], 1), (["-v", "1.100.0"], 0), (["-v", "1.9.50"], 1),
    (["-v", "1.19.5"], 1), (["-v", "1.19.100"], 0), (["-v", "2.0"], 0),
    (["-v", "1,20"], 1), (["-v", "1.20.20-beta"], 1), (["-v", "abc"], 1),
    (["--max-inline-file-size", "0"], 0),
    (["--max-inline-file-size=-1"], 1),
    (["--max-inline-file-size", "x"], 2),
    (["--max-inline-file-size", "1.5"], 2),
    (["-i", "main"], 1), (["-i", "Main"], 1), (["-i", "x", "-m", "x"], 1),
    (["-i", "x", "-m", "X"], 1), (["-m", "init", "-i"], 1),
    (["-m", "init"], 0), (["-m", "INIT", "-i"], 1),
    (["-i", "x", "-m", "y"], 0), (["-m", "init", "-i", "main"], 0),
    (["--nonsense"], 2), (["-o"], 2), (["-s"], 2),
    (["--encoding", "no-such-codec"], 1), (["extra"], 2),
]


def vc_values(H):
    """Versions, sizes, clashing names and unknown options."""
    args, want = H.choose("arguments", VALUES)
    with Scratch() as d:
        put(d, {"p.aca": "x := 1\n/say hi\n"})
        before = tree(d)
        out = os.path.join(d, "out")
        code, so, se, bad = cli([os.path.join(d, "p.aca")] + (
            [] if args == ["-o"] else ["-o", out]) + args, d)
        H.cover()
        if want is None:
            H.prove("no crash", code in (0, 1), info=code)
            return
        H.prove("status", code == want, info=(args, code, se))
        if want:
            H.prove("message", se.strip() != "" and "Traceback" not in se,
                    info=se)
            after = tree(d)
            H.prove("nothing written", files_of(after) == files_of(before),
                    info=sorted(set(after) - set(before)))
        else:
            H.prove("written", os.path.exists(out))


PLACES = ["missing source", "source is a folder", "missing parent",
          "existing empty", "existing with files", "relative",
          "relative source", "default", "default dots", "default existing",
          "no extension", "nested source", "output is a file"]


def vc_places(H):
    """Where the source is read and the pack written."""
    place = H.choose("place", PLACES)
    u = H.choose("override", [False, True])
    src = "x := 1\nimport m\n/say hi\n"
    mod = "/say mod\n"
    with Scratch() as d:
        cwd = os.getcwd()
        put(d, {"s/p.aca": src, "s/m.aca": mod, "s/p.b.aca": src,
                "s/noext": src})
        args = [os.path.join(d, "s/p.aca")]
        out = os.path.join(d, "o")
        bad_ = place in ("missing source", "source is a folder",
                         "missing parent", "output is a file")
        extra = []
        if place == "missing source":
            args = [os.path.join(d, "s/q.aca"), "-o", out]
        elif place == "source is a folder":
            args = [os.path.join(d, "s"), "-o", out]
        elif place == "missing parent":
            args += ["-o", os.path.join(d, "x/y")]
        elif place == "existing empty":
            os.mkdir(out)
            args += ["-o", out]
        elif place == "existing with files":
            put(d, {"o/keep.txt": "mine", "o/main.mcfunction": "old",
                    "o/other/z.mcfunction": "z"})
            extra = ["keep.txt", "other/z.mcfunction"]
            args += ["-o", out]
        elif place == "relative":
            os.chdir(d)
            args += ["-o", "o"]
        elif place == "relative source":
            os.chdir(os.path.join(d, "s"))
            args = ["p.aca", "-o", out]
        elif place == "default":
            out = os.path.join(d, "s/p.acaout")
        elif place == "default dots":
            args = [os.path.join(d, "s/p.b.aca")]
            out = os.path.join(d, "s/p.b.acaout")
        elif place == "default existing":
            out = os.path.join(d, "s/p.acaout")
            put(d, {"s/p.acaout/keep": "k"})
            extra = ["keep"]
        elif place == "no extension":
            args = [os.path.join(d, "s/noext")]
            out = os.path.join(d, "s/noext.acaout")
        elif place == "nested source":
            os.chdir(d)
            args = ["s/../s/p.aca", "-o", "s/../o"]
        elif place == "output is a file":
            put(d, {"o": "mine"})
            args += ["-o", out]
        cfg = {}
        if u:
            args += ["-u", "-f", "fn"]
            cfg = dict(root_folder="fn")
        before = tree(d)
        try:
            code, so, se, bad = cli(args, d)
        finally:
            os.chdir(cwd)
        H.cover()
        after = tree(d)
        H.prove("no removal outside", not bad, info=bad)
        if bad_:
            H.prove("refused", code == 1, info=(code, se))
            H.prove("nothing written", files_of(before) == files_of(after))
            return
        H.prove("accepted", code == 0, info=(code, se))
        rel = os.path.relpath(out, d)
        H.prove("other files untouched", all(
            after.get(p) == v for p, v in before.items()
            if v is not None and not (
                p.startswith(rel + os.sep) and p.endswith(
                    "main.mcfunction"))),
            info=sorted(set(before.items()) - set(after.items()))[:3])
        H.prove("only the output is written", all(
            p == rel or p.startswith(rel + os.sep) for p in after
            if p not in before))
        want = expected(src, {"m.aca": mod}, cfg)
        if not u:
            ex = extra
        else:
            ex = extra + (["main.mcfunction"]
                          if place == "existing with files" else [])
        check_pack(H, "", out, want, cfg, extra=ex)


OLDTREE = {"fn/main.mcfunction": "old", "fn/sub/x.mcfunction": "old",
           "fn/_acacia/acalib9.mcfunction": "old", "other/y": "keep",
           "fn2/z.mcfunction": "keep", "tick.json": "{}",
           "fnx": "keep", "main.mcfunction": "keep"}


def vc_failed(H):
    """A program that is rejected leaves what is in the output folder as it
    is, with and without -u, and the exit code says so."""
    src = H.choose("source", ["x := 1\nx = True\n", "import nothing\n",
                              "import bad\n", "interface main:\n    /x\n",
                              "x = \"", "/say \\x0", "while True:\n    /x\n"])
    u = H.choose("override", [False, True])
    folder = H.choose("folder", ["", "fn", "fn/sub", "new"])
    opt = H.choose("option", [None, "-O", "-d"])
    with Scratch() as d:
        put(d, {"p.aca": src, "bad.aca": "y := 1 +\n"})
        put(os.path.join(d, "o"), OLDTREE)
        before = tree(os.path.join(d, "o"))
        code, so, se, bad = cli(
            [os.path.join(d, "p.aca"), "-o", os.path.join(d, "o")] +
            (["-f", folder] if folder else []) + (["-u"] if u else []) +
            ([opt] if opt else []), d)
        H.cover()
        H.prove("rejected", code not in (0, None) and not bad, info=se)
        H.prove("unchanged", tree(os.path.join(d, "o")) == before,
                info=repr((src, u, folder)))


def vc_override(H):
    """-u removes the old contents of the function folder, nothing else;
    without -u only the files of the pack change."""
    u = H.choose("override", [False, True])
    folder = H.choose("folder", ["fn", "fn/sub", "new", "new/deep"])
    again = H.choose("again", [False, True])
    src = "x := 1\n/say hi\ninterface i/j:\n    x += 1\n"
    with Scratch() as d:
        put(d, {"p.aca": src})
        put(os.path.join(d, "o"), OLDTREE)
        before = tree(os.path.join(d, "o"))
        args = [os.path.join(d, "p.aca"), "-o", os.path.join(d, "o"),
                "-f", folder] + (["-u"] if u else [])
        code, so, se, bad = cli(args, d)
        if again:
            code, so, se, bad = cli(args, d)
        H.cover()
        H.prove("accepted", code == 0 and not bad, info=se)
        after = files_of(tree(os.path.join(d, "o")))
        want = expected(src, {}, dict(root_folder=folder))
        keep = {p: v for p, v in files_of(before).items()
                if not (u and p.startswith(folder + "/"))}
        names = {p + ".mcfunction" for p in want}
        H.prove("files", set(after) == set(keep) | names,
                info=sorted(set(after) ^ (set(keep) | names)))
        H.prove("kept", all(after.get(p) == v for p, v in keep.items()
                            if p not in names))
        H.prove("content", all(
            commands(after[p + ".mcfunction"].decode()) == commands(t)
            for p, t in want.items() if p + ".mcfunction" in after))


ENC = [("utf-8", "h\u00e9\u4e2d\U0001f600\u0627"), ("utf-16", "h\u00e9\u4e2d\U0001f600"),
       ("utf-16-le", "\u4e2d\u00e9"), ("latin-1", "h\u00e9\u00df\u00a3"),
       ("gbk", "\u4e2d\u6587"), ("shift_jis", "\u65e5\u672c\u30c6"),
       ("cp1251", "\u041f\u0440\u0438"), ("ascii", "plain"),
       ("utf-32", "\u4e2d\U0001f600"), ("big5", "\u4e2d\u6587")]


def vc_encoding(H):
    """Source, modules and output are in the given encoding."""
    enc, text = H.choose("encoding", ENC)
    default = H.choose("option", ["given", "default"])
    tick = H.choose("tick", [False, True])
    src = "import m\n/say %s\nx := 1\ninterface i:\n    /say i %s\n" % (
        text, text)
    if tick:
        src += "import schedule\ndef f():\n    /say %s\n    x += 1\n" \
            "const t = schedule.Task(f)\nt.after(3)\n" % text
    mod = "/say mod %s\n" % text
    with Scratch() as d:
        put(d, {"p.aca": src, "m.aca": mod}, enc)
        out = os.path.join(d, "o")
        args = [os.path.join(d, "p.aca"), "-o", out]
        if default == "given":
            args += ["--encoding", enc]
        elif enc not in ("utf-8", "ascii"):
            # not UTF-8: refused, or (by accident) decodable
            try:
                src.encode(enc).decode("utf-8")
                H.skip()
                return
            except UnicodeError:
                pass
            code, so, se, bad = cli(args, d)
            H.cover()
            H.prove("undecodable source refused", code == 1 and
                    "Traceback" not in se, info=(code, se))
            H.prove("nothing written", not files_of(tree(out)) if
                    os.path.exists(out) else True)
            return
        code, so, se, bad = cli(args, d)
        H.cover()
        H.prove("accepted", code == 0, info=(code, se))
        if code:
            return
        cfg = dict(encoding=enc if default == "given" else "utf-8")
        want = expected(src, {"m.aca": mod}, {})
        t = check_pack(H, "", out, want, cfg)
        check_tick(H, "", t, out, cfg)
        H.prove("tick.json", (t is not None) == tick)
        H.prove("text", text in want["main"] or any(
            text in v for v in want.values()))


FEATURES = [
    ("ability", "import world\nentity E:\n    new():\n"
     "        new(\"armor_stand\", Pos(0, 0, 0))\ne := E()\n"
     "world.ability(e, \"mute\", True)\n", ["-e"], ["ability"], []),
    ("colour", "/say \\#(material_quartz)x\n", ["-v", "1.19.80"],
     ["\u00a7h"], ["-v", "1.19.79"]),
    ("colour 2", "/say \\#(material_iron)x\n", ["-v", "1.20"],
     ["\u00a7i"], ["-v", "1.19.70"]),
    ("block states", "import world\nworld.setblock(Pos(0, 0, 0), "
     "world.Block(\"stone\", {\"k\": 1}))\n", ["-v", "1.20.10"],
     ['"k"=1'], None),
    ("old block states", "import world\nworld.setblock(Pos(0, 0, 0), "
     "world.Block(\"stone\", {\"k\": 1}))\n", ["-v", "1.20.9"],
     ['"k":1'], None),
    ("summon", "import world\nworld.summon(\"pig\", Pos(0, 0, 0))\n",
     ["-v", "1.19.70"], ["0 0 *"], None),
    ("old summon", "import world\n"
     "world.summon(\"pig\", Pos(0, 0, 0))\n",
     ["-v", "1.19.63"], ["~ ~ ~ *"], None),
    ("default version", "/say \\#(material_quartz)x\n", [], ["\u00a7h"],
     None),
]


def vc_features(H):
    """What the version and the edition allow follows the options."""
    name, src, args, has, without = H.choose("feature", FEATURES)
    for a, ok in ((args, True), (without, False)):
        if a is None:
            continue
        with Scratch() as d:
            put(d, {"p.aca": src})
            out = os.path.join(d, "o")
            code, so, se, bad = cli([os.path.join(d, "p.aca"), "-o", out] +
                                    a, d)
            H.prove(name, (code == 0) == ok, info=(a, se))
            if ok and code == 0:
                text = b"\n".join(files_of(tree(out)).values()).decode()
                H.prove(name + " text", all(h in text for h in has),
                        info=text)
    H.cover()


vc_options.shards = 8
vc_ids.shards = 1
CONTRACTS = [vc_options, vc_ids, vc_values, vc_places, vc_override, vc_failed, vc_features,
             vc_encoding]
