"""Denotation of the environment part of commands: what the coordinates,
rotations and targets of a command resolve to (Bedrock semantics of
`execute` chains and of ~ / ^ coordinates), as terms.

canon(lines, selectors) gives, per command line, a normal form in which
two command texts are equal iff they do the same at the same place."""
from fractions import Fraction

from . import mc


def _num(text):
    import re
    if not re.match(r"-?\d+(\.\d+)?\Z", text):
        raise mc.McError("not a decimal number: %r" % text)
    return Fraction(round(Fraction(text) * 10 ** 10), 10 ** 10)


class Env:
    """exec: executing entity; pos, rot: components (base term or None,
    offset); dim; anchor."""
    __slots__ = ("exec", "pos", "rot", "dim", "anchor")

    def __init__(self, exec_="E0", pos=None, rot=None, dim="D0",
                 anchor="feet"):
        self.exec = exec_
        self.pos = pos or tuple((("P0", k), Fraction(0)) for k in range(3))
        self.rot = rot or tuple((("R0", k), Fraction(0)) for k in range(2))
        self.dim = dim
        self.anchor = anchor

    def but(self, **d):
        e = Env(self.exec, self.pos, self.rot, self.dim, self.anchor)
        for k, v in d.items():
            setattr(e, k, v)
        return e

    # ---- steps
    def coords(self, toks):
        if any(t.startswith("^") for t in toks):
            if not all(t.startswith("^") for t in toks):
                raise mc.McError("mixed local coordinates %s" % (toks,))
            off = tuple(_num(t[1:] or "0") for t in toks)
            return tuple((("local", self.pos, self.rot, self.anchor, off, k),
                          Fraction(0)) for k in range(3))
        return tuple(self.comp(t, c) for t, c in zip(toks, self.pos))

    @staticmethod
    def comp(t, c):
        if t.startswith("~"):
            return (c[0], c[1] + _num(t[1:] or "0"))
        return (None, _num(t))

    def at(self, who):
        return self.but(pos=tuple((("posof", who, k), Fraction(0))
                                  for k in range(3)),
                        rot=tuple((("rotof", who, k), Fraction(0))
                                  for k in range(2)),
                        dim=("dimof", who))

    def as_(self, who):
        return self.but(exec=who)

    def anchored(self, a):
        if a not in ("feet", "eyes"):
            raise mc.McError("anchor %r" % a)
        return self.but(anchor=a)

    def positioned(self, *toks):
        return self.but(pos=self.coords(toks))

    def positioned_as(self, who):
        return self.but(pos=tuple((("posof", who, k), Fraction(0))
                                  for k in range(3)))

    def align(self, axes):
        if not axes or len(set(axes)) != len(axes) or \
                not set(axes) <= set("xyz"):
            raise mc.McError("align %r" % axes)
        pos = list(self.pos)
        for a in axes:
            k = "xyz".index(a)
            b, o = pos[k]
            if b is None:
                pos[k] = (None, Fraction(o.__floor__()))
            elif isinstance(b, tuple) and b[0] == "floor":
                # the base is whole
                pos[k] = (b, Fraction(o.__floor__()))
            else:
                w = Fraction(o.__floor__())
                pos[k] = (("floor", b, o - w), w)
        return self.but(pos=tuple(pos))

    def in_(self, dim):
        return self.but(dim=dim, pos=tuple(
            (("in", dim, self.dim, c), Fraction(0)) for c in self.pos))

    def rotated(self, *toks):
        return self.but(rot=tuple(self.comp(t, c)
                                  for t, c in zip(toks, self.rot)))

    def rotated_as(self, who):
        return self.but(rot=tuple((("rotof", who, k), Fraction(0))
                                  for k in range(2)))

    def facing_entity(self, who, anchor):
        if anchor not in ("feet", "eyes"):
            raise mc.McError("anchor %r" % anchor)
        return self.but(rot=tuple(
            (("facing", who, anchor, self.pos, self.anchor, k), Fraction(0))
            for k in range(2)))


def selector(text, env, sels):
    """Canonical name of a target. sels: selector text -> name."""
    if text == "@s":
        return env.exec
    if not text.startswith("@"):
        return text
    kind, args = mc.parse_selector(text)
    key = (kind, frozenset(args))
    for t, name in sels.items():
        k2, a2 = mc.parse_selector(t)
        if k2 == kind and set(a2) <= set(args):
            extra = sorted(set(args) - set(a2))
            return (name,) + tuple(extra) if extra else name
    return key


ENVS = {"as", "at", "positioned", "positionedas", "anchored", "in", "align",
        "rotated", "rotatedas", "facingentity"}


def step(env, sub, sels):
    k = sub[0]
    if k == "as":
        return env.as_(selector(sub[1], env, sels))
    if k == "at":
        return env.at(selector(sub[1], env, sels))
    if k == "positioned":
        return env.positioned(*sub[1:])
    if k == "positionedas":
        return env.positioned_as(selector(sub[1], env, sels))
    if k == "anchored":
        return env.anchored(sub[1])
    if k == "in":
        return env.in_(sub[1])
    if k == "align":
        return env.align(sub[1])
    if k == "rotated":
        return env.rotated(*sub[1:])
    if k == "rotatedas":
        return env.rotated_as(selector(sub[1], env, sels))
    if k == "facingentity":
        return env.facing_entity(selector(sub[1], env, sels), sub[2])
    raise mc.McError("environment %r" % (sub,))


# position of coordinate triples (t), rotation pairs (r), x-z pairs (h)
GRAMMAR = {"fill": "ttb", "clone": "ttt", "setblock": "t",
           "replaceitem block": "t", "spreadplayers": "h", "summon": "wtR",
           "tp": "wtR", "teleport": "wtR", "spawnpoint": "wt"}


def other(text, env, sels):
    """Normal form of a command without control meaning."""
    k = mc._Toks(text)
    words = []
    name = k.word()
    g = ""
    if name == "replaceitem":
        sub = k.word()
        words.append(sub)
        g = "t" if sub == "block" else ""
    elif name in ("say", "me"):
        return (name, k.rest(), env.exec)
    elif name == "tell":
        return (name, selector(k.word(), env, sels), k.rest(), env.exec)
    elif name == "kick":
        return (name, k.word(), None if k.end() else k.rest())
    else:
        g = GRAMMAR.get(name, "")
    for c in g:
        if k.end():
            break
        if c == "t":
            words.append(("pos", env.coords((k.word(), k.word(), k.word())),
                          env.dim))
        elif c == "h":
            x, z = k.word(), k.word()
            p = env.coords((x, "~", z)) if "^" not in x + z else None
            if p is None:
                raise mc.McError("local coordinates in %r" % text)
            words.append(("posxz", p[0], p[2], env.dim))
        elif c == "R":
            save = k.pos
            a = k.word()
            if not k.end():
                b = k.word()
                if all(x[:1] in "~-0123456789" for x in (a, b)):
                    words.append(("rot", env.rotated(a, b).rot))
                    continue
            k.pos = save
        elif c == "w":
            w = k.word()
            words.append(selector(w, env, sels))
    while not k.end():
        k.skip()
        quoted = k.text[k.pos] == '"'
        if not quoted and k.text[k.pos] == "{":
            import json
            words.append(("json", json.dumps(json.loads(k.rest()),
                                             sort_keys=True)))
            break
        w = k.word()
        if not quoted and w.startswith("@"):
            w = selector(w, env, sels)
        elif w == "[]" and not quoted:
            continue
        elif not quoted and w.startswith("["):
            if not w.endswith("]"):
                raise mc.McError("block states in %r" % text)
            ps = mc.split_top(w[1:-1])
            w = ("states",) + tuple(sorted(ps))
        elif not quoted and mc.re.match(r"-?\d+\.\d+\Z", w):
            w = ("num", Fraction(w))
        elif not quoted and mc.re.match(r"-?\d+\Z", w):
            w = ("num", Fraction(w))
        words.append(w)
    return (name,) + tuple(words)


def block_key(text, env, sels):
    """Normal form of what `if block` / `if blocks` asks."""
    k = mc._Toks(text)
    w = []
    while not k.end():
        w.append(k.word())
    if len(w) == 10:
        p = [env.coords(tuple(w[j:j + 3])) for j in (0, 3, 6)]
        return ("blocks",) + tuple(p) + (env.dim, w[9])
    st = ()
    if len(w) > 4:
        ps = mc.split_top(w[4][1:-1])
        st = tuple(sorted(x for x in ps if x))
    return ("block", env.coords(tuple(w[:3])), env.dim, w[3], st)


def canon(line, sels, env=None):
    """Normal form of one command line."""
    c = mc.parse(line)
    env = env or Env()
    conds = []
    while c[0] == "execute":
        for sub in c[1]:
            if sub[0] in ENVS:
                env = step(env, sub, sels)
            elif sub[0] == "block":
                conds.append((sub[1], block_key(sub[2], env, sels)))
            else:
                raise mc.McError("condition %r" % (sub,))
        c = c[2]
    if c[0] == "tag":
        r = ("tag", selector(c[1], env, sels), c[2], c[3])
    elif c[0] == "other":
        r = other(c[1], env, sels)
    else:
        r = c
    return tuple(conds), r


class BlockWorld(mc.World):
    """Interpreter with an oracle for block conditions."""

    def __init__(self, files, oracle, sels, **kw):
        super().__init__(files, **kw)
        self.oracle, self.sels, self.env = oracle, sels, Env()
        self.asked = set()
        self.leaks = []

    def exec_execute(self, subs, i, cmd, ctx):
        if i < len(subs) and subs[i][0] in ENVS:
            if subs[i][0] in ("as", "at", "positionedas", "rotatedas") and \
                    not self.select(subs[i][1], ctx):
                return
            save = self.env
            self.env = step(self.env, subs[i], self.sels)
            self.exec_execute(subs, i + 1, cmd, ctx)
            self.env = save
        else:
            super().exec_execute(subs, i, cmd, ctx)

    def block(self, text, ctx):
        key = block_key(text, self.env, self.sels)
        self.asked.add(key)
        if key not in self.oracle:
            self.problems.append("asks for %r" % (key,))
            return False
        return self.oracle[key]

    def other(self, text, ctx):
        e, d = self.env, Env()
        if any(getattr(e, k) != getattr(d, k) for k in Env.__slots__):
            self.leaks.append(text)
        super().other(text, ctx)
