"""Contracts of the print module (C22): what is shown, to whom, when."""
import json
import random
import re

from .scen import *

V = {"i": "int", "j": "int", "p": "bool", "q": "bool"}
VAL = ["i", "L1", "p", "True", "i + j", "not p", "i < j",
       "aint('e', i, j)", "abool('g', i, j)", "math.max(i, j)",
       "'s%t'", "print.format('<%0>', j)", "f(i)"]
SPECV = {"'s%t'": "'s%t'", "print.format('<%0>', j)": "'<', j, '>'",
         "math.max(i, j)": "max(i, j)", "f(i)": "(i * 2)",
         "L1": "L1", "True": "1"}

PATTERNS = [
    # (pattern, keyword values?, parts as indices / text)
    ("%0", [0]), ("a%0b", ["a", 0, "b"]), ("%0%1", [0, 1]),
    ("%1-%0", [1, "-", 0]), ("%0 %0", [0, " ", 0]),
    ("%{0}%{1}", [0, 1]), ("x", ["x"]), ("%%0", ["%0"]),
    ("%0%%", [0, "%"]), ("%0%", [0, "%"]), ("%a %0", ["%a ", 0]),
    ("%{k}:%0", ["k", ":", 0]), ("%01", [0, "1"]), ("", []),
    ("{0}%{0}}", ["{0}", 0, "}"]), ("%%%0%%%1", ["%", 0, "%", 1]),
    ("\u00e9%0\u4e2d", ["\u00e9", 0, "\u4e2d"]),
]
KW = object()


def q(s):
    return s.replace("'", '"')


def spec_of(v):
    return SPECV.get(v, v)


def vc_format(H):
    """print.format + print.tell: the text shown is the pattern with every
    field replaced by the value its expression has at that moment."""
    pat, parts = H.choose("pattern", PATTERNS)
    nargs = max([x + 1 for x in parts if isinstance(x, int)] + [0])
    kw = "%{k}" in pat
    a = [H.choose("arg%d" % n, VAL if n == 0 and len(parts) < 4 and
                  pat in ("%0", "a%0b", "%0 %0") else
                  (["i", "L1", "p", "i + j"] if " " in pat or ":" in pat
                   else ["i", "-5", "p", "i + j"]))
         for n in range(nargs)]
    k = H.choose("kw", ["j", "q"]) if kw else None
    args = "".join(", " + x for x in a) + (", k=%s" % k if kw else "")
    use = H.choose("use", ["direct", "variable", "concat"])
    opt = H.choose("optimizer", [False, True])
    e = 'print.format("%s"%s)' % (pat, args)
    head = "import print\nimport math\ndef f(x: int) -> int:\n" \
        "    act('fun', j)\n    result x * 2\n"
    if use == "direct":
        src = head + "print.tell(%s)\n" % e
    elif use == "variable":
        src = head + "const t = %s\nprint.tell(t)\nprint.tell(t)\n" % e
        if "f(i)" in a:
            # the call is made when the fstring is built
            src = head + "print.tell(%s)\n" % e
            use = "direct"
    else:
        src = head + "print.tell('A' + %s + 'B' + %s)\n" % (e, e)
        if "f(i)" in a:
            use = "direct"
            src = head + "print.tell(%s)\n" % e
    ps = []
    for x in parts:
        if isinstance(x, int):
            ps.append(spec_of(a[x]))
        elif x == "k" and kw:
            ps.append(k)
        elif x:
            ps.append(repr(x))
    one = ", ".join(ps)
    spec = ""
    if "f(i)" in a:
        spec += "i0 = i\nact('fun', j)\n" * a.count("f(i)")
        one = one.replace("(i * 2)", "(i0 * 2)")
    if use == "direct":
        spec += "emit(%s)\n" % one
    elif use == "variable":
        spec += "emit(%s)\nemit(%s)\n" % (one, one)
    else:
        spec += "emit('A', %s)\n" % ", ".join(ps + ["'B'"] + ps)
    lits = {"L1": None} if "L1" in src else {}
    scenario(H, q(src), spec, V, lits, cfg=dict(optimizer=opt))


SEQ = [
    ("values at the moment", "print.tell(print.format('%0', i))\ni += 1\n"
     "print.tell(print.format('%0', i))\ni = j\n",
     "emit(i)\ni += 1\nemit(i)\ni = j"),
    ("nested", "const a = print.format('%0', i)\n"
     "const b = print.format('[%0|%0]', a)\nprint.tell(b + b)\n",
     "emit('[', i, '|', i, '][', i, '|', i, ']')"),
    ("nested expr", "print.tell(print.format('%0/%1', "
     "print.format('%0', i + j), i - j))\n",
     "emit(i + j, '/', i - j)"),
    ("two exprs", "print.tell(print.format('%0 %1 %2', i + j, i * j, "
     "i < j))\n", "emit(i + j, ' ', i * j, ' ', i < j)"),
    ("concat exprs", "const a = print.format('%0', i + j)\n"
     "const b = print.format('%0', i - j)\nprint.tell(a + ',' + b)\n"
     "print.tell('x' + b)\n",
     "emit(i + j, ',', i - j)\nemit('x', i - j)"),
    ("if", "if p:\n    print.tell('yes')\nelse:\n"
     "    print.tell(print.format('no %0', i))\n",
     "if p:\n    emit('yes')\nelse:\n    emit('no ', i)"),
    ("in function", "def say(x: int, y: bool):\n"
     "    print.tell(print.format('%0,%1', x, y))\nsay(i, p)\n"
     "say(j + 1, i > j)\n",
     "emit(i, ',', p)\nemit(j + 1, ',', i > j)"),
    ("inline const", "inline def say(const t):\n    print.tell(t)\n"
     "say('a')\nsay(print.format('%0', i))\n", "emit('a')\nemit(i)"),
    ("for", "for n in {1, 2, 3}:\n"
     "    print.tell(print.format('%0', n + i))\n",
     "emit(1 + i)\nemit(2 + i)\nemit(3 + i)"),
    ("order", "print.tell('1')\n/say 2\nprint.tell('3')\n",
     "emit('1')\ncmd('say 2')\nemit('3')"),
    ("escape", "print.tell('a\\\"b\\\\\\\\c\\\\n%0{}')\n",
     "emit('a\\\"b\\\\\\\\c\\\\n%0{}')"),
    ("title", "print.title(print.format('%0', i))\n"
     "print.title('s', mode=print.SUBTITLE)\n"
     "print.title(print.format('%0', i + j), mode=print.ACTIONBAR)\n",
     "title('title', i)\ntitle('subtitle', 's')\n"
     "title('actionbar', i + j)"),
    ("title times", "print.title(print.format('%0', i + j), fade_in=1, "
     "stay_time=2, fade_out=3)\nprint.title('a', fade_in=10, stay_time=70, "
     "fade_out=20)\nprint.title('b', fade_out=5)\nprint.title_clear()\n",
     "cmd('titleraw @a times 1 2 3')\ntitle('title', i + j)\n"
     "cmd('titleraw @a reset')\ntitle('title', 'a')\n"
     "cmd('titleraw @a times 10 70 5')\ntitle('title', 'b')\n"
     "cmd('titleraw @a reset')\ncmd('titleraw @a clear')"),
    ("scb", "print.tell(print.format('%0', scb('x', 'y')))\n"
     "&r = scb('x', 'y')\nr = i\nprint.tell(print.format('%0', r))\n", None),
]


def vc_sequence(H):
    """Sequences of print calls: order, values at the moment of the call,
    nesting, concatenation, titles with their times."""
    name, src, spec = H.choose("case", [c for c in SEQ if c[2]])
    opt = H.choose("optimizer", [False, True])
    if "\\" not in src:
        src = src.replace("'", '"')
    else:
        src = 'print.tell("a\\"b\\\\c\\n%0{}")\n'
        spec = "emit('a\"b\\\\c\\\\n%0{}')"
    scenario(H, "import print\n" + src, spec, V, cfg=dict(optimizer=opt))


# (source, [(shown, its own format or None)])
PIECES = [
    ("'a'", [("'a'", None)]),
    ("print.format('x%0', i)", [("'x'", None), ("i", None)]),
    ("print.with_font('b', color='red')", [("'b'", "\xa7c")]),
    ("print.with_font(print.format('%0', i + j), color='blue', bold=True)",
     [("i + j", "\xa79\xa7l")]),
    ("print.with_font(print.with_font('c', color='green') + 'd', "
     "italic=True)", [("'c'", "\xa7a"), ("'d'", "\xa7o")]),
    ("print.with_font('', color='gold', obfuscated=True)", []),
]
OUTER = [("", ""), ("color='red'", "\xa7c"), ("italic=True", "\xa7o"),
         ("color='gold', bold=True, obfuscated=True", "\xa76\xa7l\xa7k"),
         ("color='default'", "")]


def vc_fonts(H):
    """A font applies to everything of its text that has none of its own,
    and to nothing else, however the text is composed."""
    how = H.choose("how", ["+", "format"])
    font, code = H.choose("font", OUTER)
    n = H.choose("pieces", [1, 2, 3])
    ps = [H.choose("piece%d" % k, PIECES) for k in range(n)]
    if how == "+":
        e = " + ".join(p[0] for p in ps)
    else:
        e = "print.format('%s', %s)" % ("".join(
            "%%%d" % k for k in range(n)), ", ".join(p[0] for p in ps))
    if font:
        e = "print.with_font(%s, %s)" % (e, font)
    out = []
    for p in ps:
        for x, f in p[1]:
            f = code if f is None else f
            if f:
                out.append(repr(f))
            out.append(x)
            if f:
                out.append(repr("\xa7r"))
    # (adjacent texts are one text)
    merged = []
    for x in out:
        if merged and x[0] == "'" and merged[-1][0] == "'":
            merged[-1] = merged[-1][:-1] + x[1:]
        else:
            merged.append(x)
    scenario(H, q("import print\nprint.tell('<' + %s + '>')\n" % e),
             "emit('<', %s '>')\n" % "".join(x + ", " for x in merged), V)


def vc_colors(H):
    """print.with_font: every colour and style has the code of the game, in
    the versions that have it."""
    from .contracts_lex import GAME, GAME_NEW, VERSIONS
    styles = ["obfuscated", "bold", "italic", "reset"]
    name = H.choose("color", [x for x in GAME if x not in styles] +
                    list(GAME_NEW) + ["", "Red", "bold", "material_gol"])
    v = H.choose("version", VERSIONS[2:5:2] + VERSIONS[-2:-1]) \
        if name in GAME else H.choose("version", VERSIONS)
    st = [x for x in ("bold", "italic", "obfuscated")
          if H.choose(x, [False, True])]
    code = (GAME.get(name) if name not in styles else None) or (
        v >= (1, 19, 80) or None) and GAME_NEW.get(name)
    src = "import print\nprint.tell(print.with_font('x', color='%s'%s))\n" % (
        name, "".join(", %s=True" % x for x in st))
    try:
        t = repo.compile_text(q(src), mc_version=v).files()["main"]
    except repo.Error:
        H.prove("rejected", not code, info=src)
        H.cover()
        return
    H.prove("accepted", bool(code), info=src)
    m = re.search(r'"text":\s*"((?:[^"\\]|\\.)*)"', t)
    got = json.loads('"%s"' % m.group(1)) if m else ""
    H.prove("codes", bool(code) and bool(m) and
            set(re.findall("\xa7(.)", got.split("x")[0])) ==
            {code} | {GAME[x] for x in st} and
            got.split("x")[0].startswith("\xa7" + code), info=t)
    H.cover()


REJ = ["print.format('%0')", "print.format('%1', i)", "print.format('%{k}')",
       "print.format('%{')", "print.format('%{}')", "print.format('%{0', i)",
       "print.format(i)", "print.format('%0', print.tell)",
       "print.format('%{-1}', i)", "print.with_font('a', color='nocolor')"]


def vc_reject(H):
    """A field that names no argument is rejected with an error."""
    e = H.choose("case", REJ)
    r = compile_scenario(H, q("import print\nprint.tell(%s)\n" % e), V)
    H.prove("rejected", r.err is not None, info=e)
    H.cover()


CONTRACTS = [vc_format, vc_sequence, vc_fonts, vc_colors, vc_reject]
vc_fonts.shards = 8
vc_format.shards = 4
