"""Contracts of text and numbers in commands (C12): every string and
number of the source reaches the command it is written into as exactly one
argument that the game reads back as the same string or number."""
import json
import random
import re
from fractions import Fraction

from .scen import *
from . import repo, mc, wenv
from .scen import compile_case, Case

PRE = """import world
import print
import dvhook
entity Any:
    new():
        new("pig", Pos(0, 0, 0))
e: Any
dvhook.observe("e", e)
import schedule
def tf():
    /say in the area
const ta = schedule.Task(tf)
"""
MARK = "say dv mark"
# characters that end or structure an argument of a command
SPECIAL = " ,@~^/$&\"'!#%+*=[{]}\\|<>`"
BAD = set("\n\r\0")


def lit(s):
    """A string literal of the source denoting s: printable ASCII as it is,
    the rest and the special characters by code."""
    return '"' + "".join(
        c if c.isascii() and c.isalnum() else
        "\\u%04X" % ord(c) if ord(c) < 0x10000 else "\\U%08X" % ord(c)
        for c in s) + '"'


def argument(text, i=0):
    """The argument starting at text[i]: (value, end). Quoted with \\\\ and
    \\\" escapes, or a word without special characters."""
    if i < len(text) and text[i] == '"':
        out, i = [], i + 1
        while True:
            if i >= len(text):
                raise mc.McError("unterminated %r" % text)
            if text[i] == "\\":
                if text[i + 1:i + 2] not in ("\\", '"'):
                    raise mc.McError("escape in %r" % text)
                out.append(text[i + 1])
                i += 2
            elif text[i] == '"':
                return "".join(out), i + 1
            else:
                out.append(text[i])
                i += 1
    j = i
    while j < len(text) and text[j] not in SPECIAL:
        j += 1
    if j == i:
        raise mc.McError("missing argument at %d of %r" % (i, text))
    return text[i:j], j


def between(line, pre, post):
    """line == pre + <one argument> + post: the value of the argument."""
    if not line.startswith(pre):
        raise mc.McError("%r does not start with %r" % (line, pre))
    v, j = argument(line, len(pre))
    if line[j:].rstrip(" ") != post.rstrip(" "):
        raise mc.McError("after the argument: %r in %r" % (line[j:], line))
    return v


def rawtext(js):
    w = mc.World({})
    return w.render(js, (None, (0., 0., 0.)))


def tell(mode):
    def f(line, s, o):
        c = mc.parse(line)
        if c[0] != "tellraw" or c[1] != mode:
            raise mc.McError("%r" % line)
        return rawtext(c[2])
    return f


def arg(pre, post=""):
    def f(line, s, o):
        return between(line, o.sub(pre), o.sub(post))
    return f


def selector(key, tail):
    """Value of an argument of the selector in the line."""
    def f(line, s, o):
        m = re.match(tail, line, re.S)
        if not m:
            raise mc.McError(line)
        kind, args = mc.parse_selector(m.group(1))
        vals = [v for k, v in args if k == key]
        if not vals:
            raise mc.McError("no %s in %r" % (key, line))
        v = vals[-1]
        if v.startswith("!"):
            v = v[1:]
        if key == "scores":
            if not (v.startswith("{") and v.endswith("=1..3}")):
                raise mc.McError("scores %r" % v)
            v = v[1:-len("=1..3}")]
        r, j = argument(v)
        if j != len(v):
            raise mc.McError("after the argument: %r" % v)
        return r
    return f


def block_states(line, s, o):
    if not line.endswith("]"):
        raise mc.McError(line)
    v, j = argument(line, line.index("["))
    return v


def rest(pre):
    def f(line, s, o):
        pre_ = o.sub(pre)
        if not line.startswith(pre_):
            raise mc.McError(line)
        return line[len(pre_):]
    return f


def item(line, s, o):
    js = json.loads(line[line.index("{"):])
    return js["minecraft:can_destroy"]["blocks"][0]


def loc(line):
    return r"execute (?:.*? )?tag (@.*\]) add \S+\Z|tag (@.*\]) add"


# name -> (statement with %s for the string literal, decoder, applies to)
CONTEXTS = {
    "tell": ("print.tell(%s)", tell("@a"), None),
    "title": ("print.title(%s, mode=print.SUBTITLE)", tell("@a subtitle"),
              None),
    "format": ("print.tell(print.format('\\%%0'.x, %s))".replace(
        "'\\%%0'.x", "\"%%0\""), tell("@a"), None),
    "pattern": ("print.tell(print.format(%s + \"\"))",
                tell("@a"), lambda s: "%" not in s),
    "concat": ("print.tell(print.format(\"\") + %s)", tell("@a"), None),
    "tag_add": ("world.tag_add(e, %s)", arg("tag {e} add "), None),
    "tag_remove": ("world.tag_remove(e, %s)", arg("tag {e} remove "), None),
    "kick": ("world.kick(%s)", arg("kick "), None),
    "kick2": ("world.kick(%s, \"the reason\")", arg("kick ", " the reason"),
              None),
    "recipe": ("world.recipe(e, %s, True)", arg("recipe give {e+player} "),
               lambda s: s != "*"),
    "summon": ("world.summon(\"pig\", AbsPos(1.0, 2, 3.0), name=%s)",
               lambda line, s, o: between(
                 line.replace("~ ~ ~ 0 0 * ", "~ ~ ~ * ", 1),
                 "execute positioned 1.0 2.0 3.0 run summon pig ~ ~ ~ * ",
                 ""), None),
    "rider": ("world.summon_rider(e, \"pig\", name=%s)",
              arg("ride {e} summon_rider pig * "), None),
    "ride": ("world.summon_ride(e, \"pig\", name=%s)",
             arg("ride {e} summon_ride pig reassign_rides *  "), None),
    "holder": ("&v%d = scb(%s, \"o\")\nv%d = 7",
               arg("scoreboard players set ", " o 7"),
               lambda s: not s.startswith("@") and s != "*"),
    "objective": ("&v%d = scb(\"h\", %s)\nv%d = 7",
                  arg("scoreboard players set h ", " 7"), None),
    "say": ("world.msg_say(e, %s)", rest("execute as {e} run say "), None),
    "tellmsg": ("world.msg_tell(e, e, %s)",
                rest("execute as {e} run tell {e} "), None),
    "reason": ("world.kick(\"x\", %s)", rest("kick x "), None),
    "raw": ("const c%d = %s\n/say [${c%d}]", None, None),
    "item": ("world.give(e, world.Item(\"i\", can_destroy={%s}))", item,
             None),
    "name": ("@f.is_name(%s)", selector("name", loc("")), None),
    "not name": ("@f.is_not_name(%s)", selector("name", loc("")), None),
    "has tag": ("@f.has_tag(%s)", selector("tag", loc("")), None),
    "no tag": ("@f.has_no_tag(%s)", selector("tag", loc("")), None),
    "scores": ("@f.scores(%s, \"1..3\")", selector("scores", loc("")), None),
    "area": ("ta.on_tickingarea(%s)", None, None),
}


def _area(line, s, o):
    pre = "schedule on_area_loaded add tickingarea "
    if not line.startswith(pre):
        raise mc.McError(line)
    v, j = argument(line, len(pre))
    if not re.match(r" [\w/]+\Z", line[j:]):
        raise mc.McError("after the argument: %r in %r" % (line[j:], line))
    return v


CONTEXTS["area"] = (CONTEXTS["area"][0], _area, None)


def _raw(line, s, o):
    if not (line.startswith("say [") and line.endswith("]")):
        raise mc.McError(line)
    return line[5:-1]


CONTEXTS["raw"] = (CONTEXTS["raw"][0], _raw, None)
_SEL_RE = r"(?:execute .*? run )?tag (@.*\]) add \S+\Z"
for _n in ("name", "not name", "has tag", "no tag", "scores"):
    _k = {"name": "name", "not name": "name", "has tag": "tag",
          "no tag": "tag", "scores": "scores"}[_n]
    CONTEXTS[_n] = (CONTEXTS[_n][0], selector(_k, _SEL_RE), None)


class Batch:
    """Many statements compiled together; lines(k): the command lines of
    the k-th statement."""

    def __init__(self, stmts, pre=PRE, **cfg):
        self.case = Case(None)
        self.err = None
        body = "".join("/%s %d\n%s\n" % (MARK, k, s)
                       for k, s in enumerate(stmts))
        self.text = pre + body + "/%s end\n" % MARK
        cfg.setdefault("optimizer", False)
        try:
            c = compile_case(self.case, self.text, **cfg)
        except repo.Error as e:
            self.err = e
            return
        self.files = c.files()
        self.parts, cur = {}, None
        for x in self.files["main"].split("\n"):
            m = re.match(r"/?say dv mark (\w+)\Z", x)
            if m:
                cur = m.group(1)
                self.parts[cur] = []
            elif cur is not None:
                self.parts[cur].append(x)
        self.sels = {o.get_selector().to_str(): n
                     for n, o in self.case.observed.items()}

    def lines(self, k):
        return self.parts.get(str(k), [])

    def sub(self, text):
        for s, n in self.sels.items():
            text = text.replace("{%s}" % n, s).replace(
                "{%s+player}" % n, s[:-1] + ",type=player]")
        return text


def statement(ctx, s, k):
    t = CONTEXTS[ctx][0]
    if t.startswith("@f"):
        return ("const f%d = Enfilter()" % k) + t[2:] % lit(s) + \
            "\ng%d := Engroup[Entity]()\ng%d.select(f%d)" % (k, k, k)
    if t.startswith("&v"):
        return t % (k, lit(s), k)
    if t.startswith("const c"):
        return t % (k, lit(s), k)
    return t % lit(s)


def failing(ctx, strings, **cfg):
    """The first string that does not come through, or None."""
    ok = CONTEXTS[ctx][2]
    strings = [s for s in strings if ok is None or ok(s)]
    stmts = [statement(ctx, s, k) for k, s in enumerate(strings)]
    b = Batch(stmts, **cfg)
    if b.err is not None:
        if len(strings) > 1:
            for s in strings:
                r = failing(ctx, [s], **cfg)
                if r is not None:
                    return r
        return "rejected: %s (%s)" % (b.err, stmts[:1])
    for k, s in enumerate(strings):
        ls = [x for x in b.lines(k) if x]
        try:
            if ctx in ("name", "not name", "has tag", "no tag", "scores"):
                ls = [x for x in ls if " add " in x][-1:]
            elif ctx in ("say", "tellmsg", "reason", "raw"):
                ls = b.lines(k)[:1]
            if len(ls) != 1:
                raise mc.McError("%d lines %r" % (len(ls), ls))
            got = CONTEXTS[ctx][1](ls[0], s, b)
        except (mc.McError, ValueError, IndexError, KeyError,
                AttributeError) as x:
            return "%s of %r: %s %s: %r" % (ctx, s, type(x).__name__, x, ls)
        if got != s:
            return "%s of %r: the game reads %r in %r" % (ctx, s, got, ls[0])
    return None


def _forms(chars):
    out = []
    for c in chars:
        out += [c, "a" + c, c + "b", "a" + c + "b", c + c]
    return out


BLOCKS = [list(range(k, k + 64)) for k in range(0, 0x300, 64)]
BLOCKS += [list(range(k, k + 64)) for k in range(0x300, 0xD800, 0x40 * 23)]
BLOCKS += [list(range(k, k + 64)) for k in (0x2000, 0x2028 & ~63, 0x3000,
                                            0xE000, 0xFE00, 0xFF00, 0xFFC0)]
BLOCKS += [list(range(k, k + 16)) for k in (0x10000, 0x1F600, 0x10FFF0)]


def vc_characters(H):
    """Every character of the block, alone, first, last, in the middle and
    doubled, in the context."""
    ctx = H.choose("context", list(CONTEXTS))
    blk = H.choose("block", list(range(len(BLOCKS))))
    H.choose("part", [0])
    chars = [chr(c) for c in BLOCKS[blk] if chr(c) not in BAD and
             not 0xD800 <= c < 0xE000]
    r = failing(ctx, _forms(chars) if blk < 4 else
                [x for c in chars for x in (c, "a" + c + "b")])
    H.prove("comes through", r is None, info=r)
    H.cover()


def vc_special(H):
    """All pairs of special characters, the empty string, white space and
    words with a meaning of their own."""
    ctx = H.choose("context", list(CONTEXTS))
    a = H.choose("first", list(SPECIAL) + ["words"])
    H.choose("part", [0])
    if a == "words":
        ss = ["", " ", "  ", "a b", " a", "a ", "true", "false", "null",
              "0", "-1", "1..2", "~", "^", "@s", "@e[tag=x]", "*", "run",
              "execute", "a\tb", "say", "!a", "#a", "/a", "//", "${x}",
              "\\", "\\\\", "\\\"", "\"", "\"\"", "%0", "%s", "%%", "%%s",
              "%1", "{0}", "\\n", "\u00a7l", "a=b", "a,b", "]", "[", "}"]
        if ctx in ("say", "tellmsg", "reason"):
            ss = [s for s in ss if s.strip() == s and s]
        if ctx == "pattern":
            ss = [s for s in ss if "%" not in s]
    else:
        ss = [a + b for b in SPECIAL] + ["x" + a + b for b in SPECIAL] + \
            [a + "x" + b for b in SPECIAL] + [a + b + "x" for b in SPECIAL]
    r = failing(ctx, ss)
    H.prove("comes through", r is None, info=r)
    H.cover()


# ----------------------------------------------------------------- entity
def vc_entity_name(H):
    """The name given to an entity by new() reaches the summon command."""
    blk = H.choose("strings", list(range(6)))
    ver = H.choose("version", [(1, 19, 50), (1, 20, 10)])
    opt = H.choose("optimizer", [False, True])
    ss = [["", " ", "a b", "\"", "\\", "\\\""], ["@e", "~", "a]b", "x\"y"],
          list(SPECIAL), ["a" + c for c in SPECIAL],
          [c + "b" for c in SPECIAL], ["\u00e9", "\u4e2d x", "\U0001f600"]
          ][blk]
    pre, stmts = "", []
    for k, s in enumerate(ss):
        pre += "entity T%d:\n    new():\n        new(\"pig\", " \
            "AbsPos(1.0, 2, 3.0), name=%s)\n" % (k, lit(s))
        stmts.append("t%d := T%d()" % (k, k))
    b = Batch(stmts, pre=pre, mc_version=ver, optimizer=opt)
    H.prove("accepted", b.err is None, info=str(b.err))
    if b.err is None:
        text = "\n".join(b.files.values())
        got = []
        for x in text.split("\n"):
            m = re.search(r"summon pig [^\"]*?\S+ (?=\S*$|\")", x)
            if "summon pig" in x:
                words = _args(x[x.index("summon pig"):])
                if words is None:
                    H.prove("name", False, info=x)
                else:
                    got.append(words[-1])
        H.prove("name", sorted(got) == sorted(ss),
                info="%s %s\n%s" % (got, ss, text))
    H.cover()


def _args(t):
    """words of a summon command, None when one is malformed"""
    out, i = [], 0
    while i < len(t):
        if t[i] == " ":
            i += 1
            continue
        if t[i] == '"':
            try:
                v, i = argument(t, i)
            except mc.McError:
                return None
            out.append(v)
            if i < len(t) and t[i] != " ":
                return None
        else:
            j = t.find(" ", i)
            j = len(t) if j < 0 else j
            w = t[i:j]
            if "\"" in w or "\\" in w:
                return None
            out.append(w)
            i = j
    return out


# ---------------------------------------------------------------- numbers
FLOATS = ["%s%s.%s" % (s, a, b) for s in ("", "-") for a in (
    "0", "1", "7", "10", "123", "99999", "30000000", "123456789012",
    "10000000000000000", "123456789012345680000") for b in (
    "0", "5", "25", "1", "001", "00001", "000000125", "0000000001")]


def _dec(t):
    """The double nearest to a decimal numeral."""
    return Fraction(float(t))


FCTX = [
    ("world.fill(AbsPos(0.0, 0, 0.0), Offset(x=%s), \"a\")",
     r"execute positioned 0\.0 0\.0 0\.0 run fill ~ ~ ~ ~(\S+) ~0\.0 ~0\.0 "
     r"a \[\] replace\Z"),
    ("world.fill(AbsPos(0.0, 0, 0.0), Offset(y_abs=%s), \"a\")",
     r"execute positioned 0\.0 0\.0 0\.0 run fill ~ ~ ~ ~0\.0 (\S+) ~0\.0 "
     r"a \[\] replace\Z"),
    ("world.setblock(Pos(0.0, %s, 0.0), \"a\")",
     r"execute positioned 0\.0 (\S+) 0\.0 run setblock"),
    ("world.setblock(Pos(%s, 0.0, 0.0), \"a\")",
     r"execute positioned (\S+) 0\.0 0\.0 run setblock"),
    ("world.setblock(AbsPos(0.0, 0.0, %s), \"a\")",
     r"execute positioned 0\.0 0\.0 (\S+) run setblock"),
    ("world.rotate(e, Rot(%s, 0))", r".* rotated (\S+) 0\.0 run"),
    ("world.rotate(e, Rot(e).offset(horizontal=%s))",
     r".* rotated ~ ~(\S+) run"),
    ("const c%d = %s\n/say ${c%d}", r"say (\S+)\Z"),
]


def vc_floats(H):
    """A float literal is written in decimal notation with its value."""
    n = H.choose("context", list(range(len(FCTX))))
    neg = H.choose("kind", ["positive", "negative", "sum"])
    H.choose("part", [0])
    t, pat = FCTX[n]
    fl = [f for f in FLOATS if f.startswith("-") == (neg == "negative")]
    if neg == "sum":
        fl = ["(%s + %s)" % (a, b) for a, b in zip(fl, fl[3:] + fl[:3])]
    stmts = []
    for k, f in enumerate(fl):
        g = f if not f.startswith("-") else "-" + f[1:]
        stmts.append(t % ((k, g, k) if t.startswith("const") else g))
    b = Batch(stmts)
    H.prove("accepted", b.err is None, info="%s" % b.err)
    if b.err is None:
        bad = None
        for k, f in enumerate(fl):
            ls = [x for x in b.lines(k) if x]
            m = re.match(pat, ls[0]) if ls else None
            want = eval(f)
            if not m or not re.match(r"-?\d+(\.\d+)?\Z", m.group(1)) or \
                    float(m.group(1)) != want:
                bad = "%s: %r" % (f, ls)
                break
        H.prove("decimal", bad is None, info=bad)
    H.cover()


INTS = [0, 1, -1, 5, 10, -10, 100, 2 ** 15, -2 ** 15, 2 ** 31 - 1,
        -2 ** 31 + 1, -2 ** 31, 123456789, -987654321]


def vc_ints(H):
    """Integer constants in text, in scores and in interpolation."""
    v = H.choose("value", INTS)
    opt = H.choose("optimizer", [False, True])
    t = str(v) if v > -2 ** 31 else "(-2147483647 - 1)"
    b = Batch(["print.tell(print.format(\"<%%0>\", %s))" % t,
               "const c = %s\n/say ${c} $${c} $${c}$".replace("$$", "$") % t,
               "&s = scb(\"h\", \"o\")\ns = %s" % t,
               "world.xp_add_levels(e, %s)" % t,
               "print.tell(\"${d}\")", "/give @s a ${%s}b" % t
               if False else "/say 1"],
              pre=PRE + "const d = %s\n" % t, optimizer=opt)
    H.prove("accepted", b.err is None, info=str(b.err))
    if b.err is None:
        def tellof(k):
            return rawtext(mc.parse(b.lines(k)[0])[2])
        H.prove("text", tellof(0) == "<%d>" % v, info=str(b.lines(0)))
        H.prove("command", b.lines(1)[0] == "say %d %d %d$" % (v, v, v) or
                b.lines(1)[0] == "say %d ${c} ${c}$" % v,
                info=str(b.lines(1)))
        c = mc.parse(b.lines(2)[0])
        H.prove("score", c == ("set", ("h", "o"), v), info=str(c))
        H.prove("literal", b.lines(3)[0] == b.sub(
            "xp %dL {e+player}" % v), info=str(b.lines(3)))
        H.prove("string", tellof(4) == str(v), info=str(b.lines(4)))
    H.cover()


# --------------------------------------------------------------- commands
KNOWN = {"scoreboard", "execute", "function", "schedule", "tag", "tellraw",
         "titleraw", "summon", "kill", "tp", "say", "tell", "me", "fill",
         "clone", "setblock", "effect", "give", "xp", "kick", "recipe",
         "gamemode", "clear", "damage", "enchant", "event", "replaceitem",
         "ride", "spreadplayers", "spawnpoint", "clearspawnpoint",
         "ability", "tickingarea", "title", "playsound", "particle"}


def _strict(line):
    """A command in full: known, parsed, one line."""
    if any(c in line for c in "\n\r"):
        return "line break"
    if not line or line.startswith("#"):
        return None
    try:
        c = mc.parse(line)
        while c[0] == "execute":
            for sub in c[1]:
                if sub[0] == "matches":
                    lo, hi = sub[3][1], sub[3][2]
                    for x in (lo, hi):
                        if x is not None and not \
                                mc.INT_MIN <= x <= mc.INT_MAX:
                            return "range"
            c = c[2]
    except mc.McError as x:
        return str(x)
    if c[0] == "other":
        t = c[1]
        k = mc._Toks(t)
        w = k.word()
        if w not in KNOWN:
            return "unknown command %r" % w
        if re.search(r"(None|<acaciamc|object at 0x|\bTrue\b|\bFalse\b)", t):
            return "Python text in %r" % t
        if re.search(r"\d[eE][-+]\d", t):
            return "exponent in %r" % t
    for x in (c[2:] if c[0] in ("set", "add", "remove", "random") else ()):
        if isinstance(x, int) and not mc.INT_MIN <= x <= mc.INT_MAX:
            return "literal out of range"
    return None


def vc_wellformed(H):
    """Each line of every program of the corpus is one whole command."""
    from . import corpus
    name = H.choose("program", sorted(corpus.TEXTS))
    opt = H.choose("optimizer", [False, True])
    dbg = H.choose("debug", [False, True])
    try:
        c = repo.compile_text(corpus.TEXTS[name], optimizer=opt,
                              education_edition=True)
    except repo.Error:
        H.skip()
        return
    for p, t in c.files(debug=dbg).items():
        for line in t.split("\n"):
            r = _strict(line)
            if r is not None:
                H.prove("command", False, info="%s: %s" % (line, r))
    H.prove("all lines", True)
    H.cover()


RAW = sorted({w + t for w in sorted(KNOWN | {
    "ability", "alwaysday", "camera", "changesetting", "daylock", "deop",
    "dialogue", "difficulty", "fog", "gamerule", "gametest", "help",
    "immutableworld", "inputpermission", "jigsaw", "list", "locate", "loot",
    "mobevent", "music", "op", "playanimation", "reload", "save", "script",
    "scriptevent", "setmaxplayers", "setworldspawn", "stopsound", "stop",
    "structure", "summon", "teleport", "testfor", "testforblock",
    "testforblocks", "time", "toggledownfall", "transfer", "volumearea",
    "weather", "whitelist", "wsserver", "w", "msg", "?", "unknown_cmd",
    "xp", "actionbar"}) for t in (
        "", " a b", " @s[tag=x] ~ ~1 ^ 0.5", ' "x y" {"a":["b",1]}')} | {
    "scoreboard players set @s obj -5",
    "scoreboard players operation a b %= c d",
    "scoreboard objectives add obj dummy \"x y\"",
    "execute as @e[type=pig,scores={a=..5}] at @s run say hi",
    "execute if score a b matches 1 run function lib/g",
    "execute if score a b = c d run execute as @s run say x",
    "execute as @a run scoreboard players add @s obj 1",
    "function lib/f", "schedule delay add lib/f 5 append",
    "schedule on_area_loaded add ~ ~ ~ ~ ~ ~ f",
    'tellraw @a {"rawtext":[{"text":"a"},{"score":{"name":"x","objective":'
    '"y"}}]}', 'titleraw @a title {"rawtext":[{"text":"\u00e9"}]}',
    "give @s diamond 1 0 {\"minecraft:keep_on_death\":{}}",
    "tag @s add execute", "say scoreboard players set x y 1",
    "say  two  spaces ", "say execute run function f", "say #", "say // x",
    "w @a say", "me */x", "say a:b;c", "kill", "say 'run", "summon pig run",
})
WRAPS = {
    "main": lambda c, k, t: "/" + c,
    "if": lambda c, k, t: "if p:\n    /" + c,
    "else": lambda c, k, t: "if i > 3:\n    i = 1\nelse:\n    /" + c,
    "def": lambda c, k, t:
        "def f%d():\n    /%s\nf%d()\nf%d()" % (k, c, k, k),
    "inline": lambda c, k, t:
        "inline def f%d(c: int):\n    /%s\nf%d(i)" % (k, c, k),
    "interface": lambda c, k, t: "interface a/b%d:\n    /%s" % (k, c),
    "while": lambda c, k, t: "while i < 3:\n    i += 1\n    /" + c,
    "for": lambda c, k, t: "for x in {1}:\n    /" + c,
    "group": lambda c, k, t: "for x in g:\n    /" + c,
    "method": lambda c, k, t:
        "entity A%d:\n    virtual def v():\n        /%s\na%d: A%d\n"
        "a%d.v()" % (k, c, k, k, k),
    "const": lambda c, k, t: "const c%d = %s\n/${c%d}" % (k, lit(t), k),
    "long": lambda c, k, t: "/* " + c.replace(" ", "\n   ") + "\n*/",
    "parts": lambda c, k, t: "const a%d = %s\nconst n%d = %s\n"
        "/${a%d}%s${n%d}" % (k, lit(t.partition(" ")[0]), k,
                             lit(t.partition(" ")[2]), k,
                             t.partition(" ")[1], k),
}


def vc_raw(H):
    """A raw command is in the output as written, once, wherever it is."""
    wrap = H.choose("wrap", list(WRAPS))
    opt = H.choose("optimizer", [False, True])
    dbg = H.choose("debug", [False, True])
    H.choose("part", [0])
    src, texts = "g: Engroup[Entity]\ni := 0\np := i == 0\n", []
    for k, text in enumerate(RAW):
        esc = text.replace("\\", "\\\\").replace("$", "\\$")
        if wrap == "long" and ("*/" in text or "  " in text):
            continue
        texts.append(text)
        src += WRAPS[wrap](esc, k, text) + "\n"
    try:
        c = repo.compile_text(src, optimizer=opt)
    except repo.Error as e:
        H.prove("accepted", False, info="%s\n%s" % (e, src))
        return
    have = {}
    for t in c.files(debug=dbg).values():
        for line in t.split("\n"):
            if wrap == "long":
                line = " ".join(line.split())
            elif wrap not in ("const", "parts"):
                line = line.rstrip(" ")
            have[line] = have.get(line, 0) + 1
    for text in texts:
        if wrap not in ("const", "parts"):
            text = text.rstrip(" ")
        n = have.get(text, 0) + sum(
            x for line, x in have.items() if line.startswith("execute ") and
            line.endswith(" run " + text) and line not in RAW)
        if n != 1:
            H.prove("once", False, info="%d times %r in\n%s\n%s" % (
                n, text, src, c.files()))
    H.prove("once", True)
    H.cover()


vc_raw.shards = 8
vc_characters.shards = 8
vc_special.shards = 8

CONTRACTS = [vc_characters, vc_special, vc_entity_name, vc_floats, vc_ints,
             vc_wellformed, vc_raw]
