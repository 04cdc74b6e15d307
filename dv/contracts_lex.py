"""Contracts of the tokenizer (C10), decided by complete enumeration of the
finite tables (every escape, every character, every pair of pieces, every
malformed form); longer sequences are covered by the bounded stand-ins of
bounded5.py."""
from .scen import *
from .bounded5 import FONT, fix

BAD = [

        "a = 0b2", "a = 0o8", "a = 0xg", "a = 0b", "a = $", "a = ?",
        "a = \"x", "a = \"x\n\"", "a = (1", "a = 1)", "a = {1]", "a = [1}",
        "/say ${1", "/* say", "/* say ${1 */", "#* x", "a = 1 \\ ",
        "/say \\xg1", "/say \\u12", "/say \\U00110000",
        "/say \\U00110001", "/say \\UFFFFFFFF", "/say \\uD800",
        "/say \\uDFFF", "/say \\uDBFF", "/say \\uDC00",
        "/say \\U0000DFFF", "/say \\x4", "/say \\u 041",
        "/say \\#(nocolor)", "/say \\#(red", "a = \"${1\"", "interface",
        "interface :", "if a == 1:\n    a = 2\n  a = 3", "if a == 1:\na = 3",
        "  a = 1\n a = 2", "a = 1 2", "a = = 1", "a = b c", "a = not",
        "a = 1 +", "a = * 2", "a ===1", "a = 1 not 2", "else:\n    a = 1",
        "elif a == 1:\n    a = 1", "if a == 1\n    a = 1", "def f(:\n    a",
        "def f(a):\n    a", "def f(a: int, a: int):\n    pass",
        "def f(a=1, b: int):\n    pass", "def f(&a: int):\n    pass",
        "f(a=1, 2)", "f(a=1, a=2)", "1: int", "a.b: int", "a.b := 1",
        "const x", "const x: int", "& x", "for x y in a:\n    pass",
        "for 1 in a:\n    pass", "while :\n    pass", "import", "import a.",
        "from a import", "import a as", "from a import b as", "from .",
        "struct S:\n    x = 1", "struct S:\n    def f():\n        pass",
        "entity T:\n    x = 1", "entity T:\n    a: int = 1",
        "entity T:\n    new():\n        pass\n    new():\n        pass",
        "entity T:\n    const new():\n        pass",
        "entity T:\n    const def f():\n        pass",
        "entity T:\n    virtual const def f():\n        pass",
        "entity:\n    pass", "struct:\n    pass", "def = 1", "True = 1 1",
        "a = {1: 2, 3}", "a = {1, 2: 3}", "a = {,}", "f(,)", "a[,]",
        "a..b", "a.1", "a.if", "\ta = 1", "a = 1;", "a = 'x'", "@a",
        "a =\n1", "pass pass", "result"]


def vc_reject(H):
    """Malformed text is rejected with an error, never compiled."""
    bad = H.choose("text", BAD)
    pre = H.choose("before", ["", "b := 2\n", "# c\n\n"])
    try:
        repo.compile_text("a := 1\n" + pre + bad + "\n")
        err = None
    except Error as e:
        err = e
    H.prove("rejected", err is not None, info=bad)
    if err is not None:
        n = ("a := 1\n" + pre + bad + "\n").count("\n") + 2
        lc = err.location.linecol
        H.prove("located", lc is not None and 1 <= lc[0] <= n,
                info="%r: %s" % (bad, lc))
    H.cover()


def says(src, **cfg):
    t = repo.compile_text(src, optimizer=False, **cfg).files()["main"]
    return [l for l in t.split("\n") if l.startswith("say")]


CTX = {"command": ("/say <%s>\n", "c"), "long": ("/*say <%s>*/\n", "l"),
       "string": ('/say ${"<%s>"}\n', "s"),
       "nested": ('/say ${"a${"<%s>"}b"}\n', "s")}


def compare(H, ctx, items, label):
    """items: (source, decoded) pairs, all in one program."""
    f, _ = CTX[ctx]
    got = says("".join(f % a for a, _ in items))
    w = ["say a<%s>b" % b if ctx == "nested" else "say <%s>" % b
         for _, b in items]
    H.prove(label + "-count", len(got) == len(w), info=got[:3])
    bad = [(a, x, y) for (a, _), x, y in zip(items, got, w) if x != y]
    H.prove(label, not bad, info=bad[:3])


def plain(c, kind):
    return not (c in "\\\n\r" or 0xd800 <= ord(c) < 0xe000 or
                kind == "s" and c == '"')


def vc_chars(H):
    """Every ordinary character stands for itself in every context."""
    ctx = H.choose("context", list(CTX))
    block = H.choose("block", list(range(17)))
    k = CTX[ctx][1]
    cs = [chr(n) for n in range(block * 0x10000 or 32,
                                (block + 1) * 0x10000)
          if n not in (0x7f,)]
    cs = [c for c in cs if plain(c, k)]
    step = 4096
    items = []
    for n in range(0, len(cs), step):
        part = cs[n:n + step]
        # keep "${" and the end marker of long commands apart
        t = "".join(c + (" " if c in "$*" else "") for c in part)
        items.append((t, t))
    compare(H, ctx, items, "characters")
    H.cover()


def vc_escapes(H):
    """Every numeric escape stands for its character, in every context."""
    ctx = H.choose("context", list(CTX))
    kind = H.choose("escape", ["x", "u", "U"])
    up = H.choose("upper", [False, True])
    f = {"x": "\\x%02", "u": "\\u%04", "U": "\\U%08"}[kind] + (
        "X" if up else "x")
    rng = {"x": range(32, 256), "u": range(32, 0x10000),
           "U": list(range(32, 0x10000, 7)) + list(
               range(0x10000, 0x110000, 97)) + [0x10ffff]}[kind]
    if kind == "U":
        rng += [0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000]
    ns = [n for n in rng if not 0xd800 <= n < 0xe000]
    items = [("".join(f % n for n in ns[a:a + 2048]),
              "".join(chr(n) for n in ns[a:a + 2048]))
             for a in range(0, len(ns), 2048)]
    compare(H, ctx, items, "escapes")
    H.cover()


def vc_pairs(H):
    """Every ordered pair of pieces (escapes, formatted expressions,
    ordinary characters that could be mistaken for part of one)."""
    ctx = H.choose("context", list(CTX))
    k = CTX[ctx][1]
    ps = [("\\\\", "\\"), ("\\$", "$"), ("\\n", "\\n"), ("\\a", "\\a"),
          ("\\{", "\\{"), ("\\x41", "A"), ("\\u0041", "A"),
          ("\\U00000041", "A"), ("\\#", "\xa7"), ("\\#(red)", "\xa7c"),
          ("\\#( bold ,aqua)", "\xa7l\xa7b"), ("$", "$"), ("{", "{"),
          ("}", "}"), ("(", "("), (")", ")"), ("#", "#"), ("*", "*"),
          ("/", "/"), ("//", "//"), ("1", "1"), ("a", "a"), (" ", " "),
          ("  ", "  "), ("${1}", "1"), ("${ 0x1F }", "31"),
          ('${"q"}', "q"), ('${"${"}"}"}', "}"), ('${"a" "b"}', "ab"),
          ('${"b${"c${"d" "e"}f" "g"}h"}', "bcdefgh"),
          ('${"b${"c" "d${1 + 2}" "e"}${({4, 5})[0] + 1}"  "h"}', "bcd3e5h"),
          ('${"b${"c${({"d": 1, "e": 2})["d"]}" "g"}h"}', "bc1gh"),
          ("${1 + 2}", "3"), ("#*", "#*"), ("*#", "*#"), ("'", "'"),
          ("n", "n"), ("u0041", "u0041"), ("x", "x")]
    if k == "s":
        ps.append(('\\"', '"'))
    else:
        ps.append(('"', '"'))
    first = H.choose("first", ps)
    items = []
    for b in ps:
        s, d = fix([first, b])
        if k == "l" and ("*/" in s):
            continue
        items.append((s, d))
    compare(H, ctx, items, "pairs")
    H.cover()


# the formatting codes of the game
GAME = dict(zip(
    "black dark_blue dark_green dark_aqua dark_red dark_purple gold gray "
    "dark_gray blue green aqua red light_purple yellow white minecoin_gold "
    "obfuscated bold italic reset".split(), "0123456789abcdefgklor"))
# since 1.19.80
GAME_NEW = dict(zip(
    ["material_" + x for x in
     "quartz iron netherite redstone copper gold emerald diamond lapis "
     "amethyst".split()], "hijmnpqstu"))
VERSIONS = [(1, 19, 50), (1, 19, 70), (1, 19, 79), (1, 19, 80), (1, 19, 81),
            (1, 20), (1, 20, 20), (1, 21), (2, 0)]


def vc_versions(H):
    """Every colour and font in every place has the code of the game, in
    the versions that have it; elsewhere it is rejected."""
    name = H.choose("name", list(GAME) + list(GAME_NEW) + [
        "material_", "Red", "material_resin", "", " ", "r", "obfuscate"])
    v = H.choose("version", VERSIONS)
    ctx = H.choose("context", list(CTX))
    code = GAME.get(name) or (v >= (1, 19, 80) or None) and \
        GAME_NEW.get(name)
    for form, want in (("%s", 1), (" %s ", 1), ("bold,%s", 2),
                       ("%s, italic", 3)):
        try:
            got = says(CTX[ctx][0] % ("\\#(" + form % name + ")x"),
                       mc_version=v)
        except Error:
            got = None
        w = {1: "\xa7%sx", 2: "\xa7l\xa7%sx", 3: "\xa7%s\xa7ox"}[want]
        t = "say a<%s>b" if ctx == "nested" else "say <%s>"
        H.prove("code" if code else "rejected",
                got == ([t % w % code] if code else None),
                info="%r %s: %s" % (form % name, v, got))
    H.cover()


def vc_fonts(H):
    """Every colour and font name, alone and in lists."""
    ctx = H.choose("context", list(CTX))
    items = [("\\#(%s)" % f, "\xa7" + c) for f, c in FONT.items()]
    items += [("\\#(%s,%s)x" % (f, g), "\xa7%s\xa7%sx" % (c, d))
              for f, c in FONT.items() for g, d in FONT.items()]
    compare(H, ctx, items, "fonts")
    H.cover()


def vc_numbers(H):
    """Integer literals: every value below 2^12 and the powers of two and
    their neighbours, in every base, both cases, with leading zeros."""
    base = H.choose("base", [10, 2, 8, 16])
    zeros = H.choose("zeros", [0, 1, 5])
    up = H.choose("upper", [False, True])
    ns = set(range(4096)) | {2 ** k + d for k in range(32)
                             for d in (-1, 0, 1)}
    ns = sorted(n for n in ns if 0 <= n <= MAX)

    def lit(n):
        t = {10: "%d", 8: "%o", 16: "%x"}.get(base, "")
        t = t % n if t else bin(n)[2:]
        t = "0" * zeros + t
        if base != 10:
            t = "0" + {2: "b", 8: "o", 16: "x"}[base] + t
        return t.upper() if up else t
    got = says("".join("/say ${%s}\n" % lit(n) for n in ns))
    bad = [(lit(n), g) for n, g in zip(ns, got) if g != "say %d" % n]
    H.prove("values", len(got) == len(ns) and not bad, info=bad[:3])
    H.cover()


NAMES = ["a", "_", "A1", "_1", "ifx", "xif", "Def", "defs", "TRUE", "none",
         "e\u0301"[:1], "\u00e9", "\u4e2d", "news", "selfish", "o", "b2",
         "x0F", "_x_y_9", "l" * 60]


def vc_names(H):
    """Identifiers (also ones that resemble keywords or numbers) name what
    was defined under exactly that spelling."""
    n = H.choose("name", NAMES)
    o = H.choose("other", NAMES)
    if n == o:
        return
    src = 'const %s = 1\nconst %s = 2\n/say ${%s}${%s} ${%s+%s}\n' % (
        n, o, n, o, n, o)
    got = says(src)
    H.prove("names", got == ["say 12 3"], info="%s %s %s" % (n, o, got))
    H.cover()


LAYOUT = [
    "a = 1\nif a == 1:\n    a = 2\n    b = 3\nb = 4\n",
    "a = 1\n\n\nif a == 1:\n\n    a = 2\n\n    b = 3\n\nb = 4",
    "# c\na = 1 # d\nif a == 1: # e\n    # f\n    a = 2\n# g\n"
    "    b = 3\n  # h\nb = 4\n# i\n",
    "a = 1\nif a == 1:\n a = 2\n b = 3\nb = 4\n",
    "a = 1\nif a == 1:\n         a = 2\n         b = 3\nb = 4\n",
    "a=1\nif a==1:\n    a=2\n    b=3\nb=4\n",
    "a   =   1  \nif   a  ==  1  :   \n    a  =  2\n    b = 3   \nb = 4 ",
    "a = \\\n1\nif a \\\n   == 1:\n    a = 2\n    b = \\\n3\nb = 4\n",
    "a = (\n1\n)\nif (a\n==\n1):\n    a = (2 # x\n)\n    b = 3\nb = 4\n",
    "a = (\n\n  # z\n 1)\nif a == 1:\n    a = 2\n    b = 3\nb = 4\n",
    "a = 1 #* x *#\nif #* y *# a == 1:\n    #* z\n z *#\n    a = 2\n"
    "    b = 3\n#* w\n\n  w *#\nb = 4\n",
    "#* a = 9\nb = 9 *#\na = 1\nif a == 1:\n    a = 2 #*\n*#\n    b = 3\n"
    "b = 4\n",
    "#*#*#\na = 1\nif a == 1:\n    a = 2\n    b = 3\nb = 4\n",
    "a = 1\nif a == 1:\n    a = 2\n    b = 3\n      \n        # deep\n"
    "b = 4\n   # x",
    "a = 1\r\nif a == 1:\r\n    a = 2\r\n    b = 3\r\nb = 4\r\n",
]


def vc_layout(H):
    """Comments, blank lines, spacing, indentation width and continuation
    lines do not change the program."""
    k = H.choose("layout", list(range(len(LAYOUT))))
    head = "a: int\nb: int\n"
    opt = H.choose("opt", [False, True])
    want = repo.compile_text(head + LAYOUT[0], optimizer=opt)
    try:
        got = repo.compile_text(head + LAYOUT[k], optimizer=opt)
    except Error as e:
        H.prove("accepted", False, info="%s\n%s" % (e, LAYOUT[k]))
        return
    H.prove("same-output", got.files() == want.files() and
            got.file_list() == want.file_list(), info=LAYOUT[k])
    H.cover()


CONTRACTS = [vc_reject, vc_chars, vc_escapes, vc_pairs, vc_fonts, vc_versions,
             vc_numbers, vc_names, vc_layout]
