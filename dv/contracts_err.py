"""Contracts of rejection (C11): the error table (every documented kind, in
every context), the message texts against all their call sites, and the
command line's behaviour on a rejected program. Arbitrary malformed programs
are covered by the bounded stand-in of bounded6.py."""
import ast
import io
import os
import re
import shutil
import string
import tempfile
from contextlib import redirect_stderr, redirect_stdout

from .scen import *
from . import bounded6

HERE = os.path.dirname(os.path.abspath(__file__))


class Entry:
    """kind, flags, message, files (name -> text), expected position and
    call frames, all read from errors.txt."""

    def __init__(self, t):
        head, msg, body = t.split("\n", 2)
        self.kind, *self.flags = head.split()
        self.msg = msg[2:]
        parts = body.split("%% ")
        files = {"main.aca": parts[0]}
        for p in parts[1:]:
            n, s = p.split("\n", 1)
            files[n] = s
        self.where, self.line_only, self.frames, self.files = None, 0, [], {}
        for n, s in reversed(files.items()):   # (innermost call first)
            if s.endswith("⊣\n"):
                s = s[:-2]
            o = []
            line = col = 1
            for c in s:
                if c in "‸¶":
                    self.where, self.line_only = (n, line, col), c == "¶"
                elif c == "¤":
                    self.frames.append((n, line, col))
                else:
                    o.append(c)
                    line, col = (line + 1, 1) if c == "\n" else (line,
                                                                 col + 1)
            self.files[n] = "".join(o)
        self.src = self.files.pop("main.aca")


TABLE = [Entry(t) for t in open(os.path.join(HERE, "errors.txt"),
                                encoding="utf-8").read().split("=== ")[1:]]

PREFIX = {
    "first": "",
    "comments": "# \u00e9\n\n   # indented\n#* one *#\n\n",
    "long comment": "#* a\n  b #* c\n\n*#\nz1 := 1 #* x\n y *#\n",
    "long command": "/* say a\n  b\n say ${1}c*/\n/say ${\"}\"}\n",
    "continuation": "z1 := 1 + \\\n    2 \\\n  + 3\n",
    "brackets": "z1 := (1 +\n\n  2\n# c\n )\nz2 := max(1,\n   2)\n",
    "blocks": "if 1 < 2:\n    z1 := 1\n\n    # c\n  # d\n    z2 := 1\n"
              "else:\n    pass\n\n",
    "definitions": "def z(z1: int,\n      z2=3) -> int:\n    result z1 + z2\n"
                   "z3 := z(1)\n",
}
PREFIX["brackets"] = PREFIX["brackets"].replace("max(1,\n   2)", "(1)")


def reject(src, mods):
    try:
        repo.compile_text(src, modules=mods)
    except Error as e:
        return e
    except Exception as e:  # noqa
        return e
    return None


def base(loc):
    return loc.file.replace("\\", "/").split("/")[-1] if loc.file else None


def callee(H, label, frame, texts):
    """A listed call names what is called, and where it is defined."""
    text = texts.get(base(frame.location))
    if text is None or not frame.location.linecol_set():
        return
    line, col = frame.location.linecol
    m = re.match(r"(\w+)\.new\(", text.split("\n")[line - 1][col - 1:])
    if m:
        defs = ["%s:%d:5" % (n, i + 1 + t[k.end():j.start()].count("\n"))
                for n, t in texts.items() for k in re.finditer(
                    r"^entity %s\b.*$" % m.group(1), t, re.M)
                for i in [t[:k.start()].count("\n")]
                for j in [re.compile(r"^    (inline )?new\(", re.M).search(
                    t, k.end())] if j]
        H.prove(label + ":callee", m.group(1) in frame.msg, info=frame.msg)
        if len(defs) == 1:
            H.prove(label + ":defined", (frame.note or "").endswith(defs[0]),
                    info="%s: %s" % (defs, frame.note))
        return
    m = re.match(r"[\w.]+(?=\()", text.split("\n")[line - 1][col - 1:])
    if m is None:
        return
    name = m.group().split(".")[-1]
    defs = ["%s:%d:%d" % (n, i + 1, len(l) - len(l.lstrip()) + 1)
            for n, t in texts.items() for i, l in enumerate(t.split("\n"))
            if re.match(r"\s*(\w+ )*(def|entity|struct) %s\b" % name, l)]
    if len(defs) != 1:
        return
    H.prove(label + ":callee", frame.msg.split()[-1] == name,
            info="%s: %s" % (name, frame.msg))
    H.prove(label + ":defined", re.search(
        r"\b%s$" % re.escape(defs[0]), frame.note or "") is not None,
        info="%s: %s" % (defs, frame.note))


def check(H, label, e, err, main, dl, dc, frames, texts):
    """err is what `e` promises; main file name, shifts, outer frames."""
    H.prove(label + ":rejected", isinstance(err, Error), info=repr(err))
    if not isinstance(err, Error):
        return
    H.prove(label + ":kind", err.type.name == e.kind,
            info="%s: %s" % (e.kind, err))

    def shift(w):
        if w[0] == "main.aca":
            return (main, w[1] + dl, w[2] + dc)
        return w
    loc = (base(err.location),) + tuple(err.location.linecol or (0, 0))
    if e.where is not None:
        w = shift(e.where)
        if e.line_only:
            H.prove(label + ":line", loc[:2] == w[:2],
                    info="%s want %s" % (err, w))
        else:
            H.prove(label + ":location", loc == w,
                    info="%s want %s" % (err, w))
    else:
        H.prove(label + ":location", bounded6.judge_error(
            err, "\n" * 99, {}) is None or loc[0] == main, info=str(err))
    try:
        text = err.full_msg()
        msg = err.type.localized.format(**err.error_args)
    except Exception as x:  # noqa
        text, msg = "", repr(x)
    msg = re.sub(r"/[^'\"]*/", "<DIR>/", msg)
    if e.kind != "CIRCULAR_PARSE" or main == "main.aca":
        H.prove(label + ":message", msg == e.msg, info="%r want %r" % (
            msg, e.msg))
    got = [(base(f.location),) + tuple(f.location.linecol or (0, 0))
           for f in err.frames]
    want = [shift(w) for w in e.frames] + frames
    H.prove(label + ":frames", got == want, info="%s want %s" % (got, want))
    for f in err.frames:
        callee(H, label, f, texts)
    H.prove(label + ":text", msg == "" or ":%d:%d: " % loc[1:] in text,
            info=text)


def entry(H):
    k = H.choose("kind", list(range(len(TABLE))))
    return TABLE[k]


def vc_table(H):
    """Each documented error, after any kind of text before it."""
    e = entry(H)
    p = H.choose("before", list(PREFIX))
    H.choose("part", [0])
    pre = PREFIX[p]
    err = reject(pre + e.src, e.files)
    check(H, "table", e, err, "main.aca", pre.count("\n"), 0, [],
          {**e.files, "main.aca": pre + e.src})
    H.cover()


def indent(s):
    return "".join("    " + l + "\n" for l in s.splitlines())


def vc_context(H):
    """Each documented error inside a block, a function, an inline function
    called somewhere else and an imported module."""
    e = entry(H)
    c = H.choose("context", ["block", "else", "function", "inline",
                             "module", "from-module", "package"])
    H.choose("part", [0])
    files = dict(e.files)
    main, dl, dc, fr = "main.aca", 0, 0, []
    if c == "block":
        if "in" not in e.flags:
            H.skip()
        src, dl, dc = "if 1 < 2:\n" + indent(e.src), 1, 4
    elif c == "else":
        if "in" not in e.flags:
            H.skip()
        src, dl, dc = ("zc := 1\nif zc == 2:\n    pass\nelse:\n" +
                       indent(e.src)), 4, 4
    elif c == "function":
        if "fn" not in e.flags:
            H.skip()
        src, dl, dc = "def ctx():\n" + indent(e.src), 1, 4
    elif c == "inline":
        if "il" not in e.flags:
            H.skip()
        body = "inline def ctx():\n" + indent(e.src)
        src, dl, dc = body + "zz1 := 1\nif zz1 == 2:\n    ctx()\n", 1, 4
        if reject(body, files) is None:   # found when it is expanded
            fr = [("main.aca", body.count("\n") + 3, 5)]
    else:
        if e.kind == "CIRCULAR_PARSE":
            H.skip()
        main = "mm.aca"
        if c == "package":
            if e.files:
                H.skip()
            files["pk/mm.aca"] = e.src
            src, fr = "\nimport pk.mm\n", [("main.aca", 2, 1)]
        else:
            files["mm.aca"] = e.src
            src = ("# c\nimport mm as mx\n" if c == "module" else
                   "# c\nfrom mm import a\n")
            fr = [("main.aca", 2, 1)]
    err = reject(src, files)
    check(H, c, e, err, main, dl, dc, fr, {
        **{n.split("/")[-1]: t for n, t in files.items()}, "main.aca": src})
    H.cover()


# -- messages ---------------------------------------------------------------

def lang(name):
    with open(os.path.join(repo.REPO, "acaciamc", "lang", name),
              encoding="utf-8") as f:
        lines = [l.strip() for l in f]
    return dict(l.split(" = ", 1) for l in lines
                if l and not l.startswith("#"))


def fields(text):
    return {n for _, n, _, _ in string.Formatter().parse(text)
            if n is not None}


def sites():
    """(file, line, kind, keywords) of every place that raises an error with
    literal keywords."""
    for d, _, fs in os.walk(os.path.join(repo.REPO, "acaciamc")):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            with open(p, encoding="utf-8") as h:
                t = ast.parse(h.read())
            for n in ast.walk(t):
                if not isinstance(n, ast.Call):
                    continue
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Attribute) and isinstance(
                            a.value, ast.Name) and \
                            a.value.id == "ErrorType":
                        if all(k.arg for k in n.keywords):
                            name = n.func.id if isinstance(
                                n.func, ast.Name) else getattr(
                                n.func, "attr", "")
                            yield (os.path.relpath(p, repo.REPO), n.lineno,
                                   a.attr, {k.arg for k in n.keywords},
                                   name)


DIRECT = {"Error", "error", "error_c", "error_node"}


def vc_messages(H):
    """Every error kind has a text, in every language with the same
    placeholders, and every place that raises it supplies them."""
    from acaciamc.localization import localize
    what = H.choose("what", ["texts", "sites"])
    if what == "texts":
        base_ = lang("en_US.lang")
        for k in repo.ErrorType:
            t = localize(k.value)
            H.prove("text", isinstance(t, str) and t.strip() != "",
                    info=k.name)
            try:
                names = fields(t)
            except ValueError as x:
                names = {str(x)}
            H.prove("format", all(re.fullmatch(r"[a-z_]\w*", n)
                                  for n in names), info=t)
        for f in os.listdir(os.path.join(repo.REPO, "acaciamc", "lang")):
            for k, t in lang(f).items():
                if k in base_ and k.startswith("error.errortype."):
                    H.prove("translation",
                            fields(t) == fields(base_[k]), info=(f, k))
    else:
        n = 0
        for f, line, kind, kws, name in sites():
            if name not in DIRECT:
                continue
            n += 1
            need = fields(localize(getattr(repo.ErrorType, kind).value))
            H.prove("arguments", need <= kws, info="%s:%d %s needs %s, has "
                    "%s" % (f, line, kind, sorted(need), sorted(kws)))
    H.cover()


# -- command line -----------------------------------------------------------

OPTS = [[], ["-u"], ["-O"], ["-u", "-f", "lib/acacia"], ["-i"],
        ["-i", "setup", "-u", "-d"], ["-m", "entry", "-u"],
        ["--verbose", "-u"]]
OLD = {"functions/main.mcfunction": "old main",
       "functions/init.mcfunction": "old init",
       "functions/entry.mcfunction": "old entry",
       "functions/acacia/a.mcfunction": "old a",
       "lib/acacia/main.mcfunction": "old lib",
       "functions/other/x.mcfunction": "old x",
       "tick.json": '{"values": ["old"]}', "note.txt": "mine"}


def tree(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for x in ds:
            r[os.path.relpath(os.path.join(p, x), d)] = None
        for x in fs:
            q = os.path.join(p, x)
            with open(q, "rb") as f:
                r[os.path.relpath(q, d)] = f.read()
    return r


class Guard:
    """Keeps removals of the code under test inside the scratch folder."""

    def __init__(self, d):
        self.d, self.bad = os.path.realpath(d) + os.sep, []

    def __enter__(self):
        self.saved = {(m, n): getattr(m, n) for m, n in (
            (shutil, "rmtree"), (os, "remove"), (os, "unlink"),
            (os, "rmdir"), (os, "rename"), (os, "replace"),
            (shutil, "move"))}
        for (m, n), f in self.saved.items():
            setattr(m, n, self.wrap(f))
        return self

    def wrap(self, f):
        def g(path, *a, **k):
            # inside rmtree the paths may be relative to a directory fd
            if k.get("dir_fd") is None and not os.path.realpath(
                    path).startswith(self.d):
                self.bad.append(str(path))
                raise OSError(13, "outside of the scratch folder")
            return f(path, *a, **k)
        return g

    def __exit__(self, *a):
        for (m, n), f in self.saved.items():
            setattr(m, n, f)


def cli(args, d):
    """(exit code, output, messages, removals outside of d)"""
    from acaciamc import cli as c
    out, err = io.StringIO(), io.StringIO()
    code = 0
    with Guard(d) as g, redirect_stdout(out), redirect_stderr(err):
        try:
            c.run(c.build_argparser().parse_args(args))
        except SystemExit as e:
            code = e.code or 0
        except BaseException as e:  # noqa
            code = repr(e)
    return code, out.getvalue(), err.getvalue(), g.bad


def vc_cli(H):
    """A rejected program: exit status 1, the located message, and the
    output folder as it was, whatever the options."""
    e = entry(H)
    o = H.choose("options", OPTS)
    old = H.choose("old", [True, False])
    if "-m" in o and e.kind == "RESERVED_INTERFACE_PATH":
        H.skip()    # "main" is an ordinary path then
    d = tempfile.mkdtemp(dir=repo.tmpdir())
    try:
        for n, s in dict(e.files, **{"main.aca": e.src}).items():
            with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                f.write(s)
        out = os.path.join(d, "o", "pack")
        os.makedirs(out if old else os.path.dirname(out))
        if old:
            for n, s in OLD.items():
                p = os.path.join(out, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(s)
        before = tree(d)
        code, so, se, bad = cli(
            [os.path.join(d, "main.aca"), "-o", out] + o, d)
        after = tree(d)
        if not old:
            H.prove("nothing written", after.pop("o/pack", None) is None)
        H.prove("status", code == 1, info=(code, se))
        H.prove("output untouched", before == after and not bad,
                info=sorted(set(before.items()) ^ set(after.items()))[:3])
        w = e.where
        if w is not None:
            pos = re.search(re.escape(w[0]) + r":%d:%s: " % (
                w[1], r"\d+" if e.line_only else w[2]), se)
            H.prove("message", bool(pos), info=se)
        H.prove("message text", e.msg.split("<DIR>")[0] in se, info=se)
        H.prove("no traceback", "Traceback" not in se and
                "unexpected" not in se, info=se)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    H.cover()


vc_table.shards = vc_context.shards = vc_cli.shards = 8
CONTRACTS = [vc_table, vc_context, vc_messages, vc_cli]
