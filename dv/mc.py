"""Specification of the Minecraft (Bedrock) command language fragment that
the compiler targets: the meaning of the *text* of the emitted commands.

This file is the trusted specification.  It has
 * a parser of command text (`parse`),
 * `SymState`: the denotation of commands over z3 terms (used by the proof
   obligations), and
 * `World`: a concrete interpreter (used by replays and bounded checks).

Score arithmetic is 32-bit two's complement; `/=` and `%=` truncate like
C; division by zero is left unspecified (an uninterpreted function).
"""
import json
import re

import z3

from .sym import REG, Unsupported

INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1


class McError(Exception):
    """The emitted text is not an admissible command."""


# ---------------------------------------------------------------- parser
_WORD = re.compile(r'"((?:[^"\\]|\\.)*)"|(\S+)')
_INT = re.compile(r"-?\d+\Z")
_CACHE = {}


class _Toks:
    def __init__(self, text):
        self.text = text
        self.pos = 0

    def skip(self):
        while self.pos < len(self.text) and self.text[self.pos] == " ":
            self.pos += 1

    def end(self):
        self.skip()
        return self.pos >= len(self.text)

    def rest(self):
        self.skip()
        r = self.text[self.pos:]
        self.pos = len(self.text)
        return r

    def word(self):
        """One argument: quoted string, selector with [...] or word."""
        self.skip()
        t, i = self.text, self.pos
        if i >= len(t):
            raise McError("missing argument in %r" % t)
        if t[i] == '"':
            out = []
            i += 1
            while True:
                if i >= len(t):
                    raise McError("unterminated string in %r" % t)
                c = t[i]
                if c == "\\":
                    if i + 1 >= len(t):
                        raise McError("bad escape in %r" % t)
                    out.append(t[i + 1])
                    i += 2
                elif c == '"':
                    i += 1
                    break
                else:
                    out.append(c)
                    i += 1
            self.pos = i
            return "".join(out)
        start = i
        depth, instr = 0, False
        while i < len(t):
            c = t[i]
            if instr:
                if c == "\\":
                    i += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif c in "[{":
                depth += 1
            elif c in "]}":
                depth -= 1
            elif c == " " and depth <= 0:
                break
            i += 1
        self.pos = i
        return t[start:i]

    def int(self):
        w = self.word()
        if not _INT.match(w):
            raise McError("expected integer, got %r in %r" % (w, self.text))
        return int(w)

    def slot(self):
        return (self.word(), self.word())


def parse_range(text):
    """`matches` argument -> (invert, lo|None, hi|None)."""
    inv = text.startswith("!")
    if inv:
        text = text[1:]
    m = re.match(r"(-?\d+)?(\.\.)?(-?\d+)?\Z", text)
    if not m or (m.group(1) is None and m.group(3) is None):
        raise McError("bad range %r" % text)
    a, dots, b = m.groups()
    if dots:
        return inv, None if a is None else int(a), \
            None if b is None else int(b)
    if a is None or b is not None:
        raise McError("bad range %r" % text)
    return inv, int(a), int(a)


def parse(text):
    r = _CACHE.get(text)
    if r is None:
        r = _parse(text)
        if len(_CACHE) > 200000:
            _CACHE.clear()
        _CACHE[text] = r
    return r


def _parse(text):
    t = text.strip(" ")
    if t.startswith("/"):
        t = t[1:]
    if not t or t.startswith("#"):
        return ("comment",)
    k = _Toks(t)
    name = k.word()
    if name == "scoreboard":
        grp = k.word()
        if grp == "players":
            sub = k.word()
            if sub in ("set", "add", "remove"):
                s = k.slot()
                v = k.int()
                r = (sub, s, v)
            elif sub == "operation":
                a = k.slot()
                op = k.word()
                if op not in ("+=", "-=", "*=", "/=", "%=", "><", "<", ">",
                              "="):
                    raise McError("bad operation %r in %r" % (op, text))
                b = k.slot()
                r = ("op", a, op, b)
            elif sub == "random":
                s = k.slot()
                r = ("random", s, k.int(), k.int())
            elif sub == "reset":
                tgt = k.word()
                r = ("reset", tgt, None if k.end() else k.word())
            else:
                return ("other", t)
        elif grp == "objectives":
            sub = k.word()
            if sub == "add":
                r = ("objadd", k.word(), k.word(),
                     None if k.end() else k.word())
            elif sub == "remove":
                r = ("objremove", k.word())
            else:
                return ("other", t)
        else:
            raise McError("bad scoreboard command %r" % text)
        if not k.end():
            raise McError("trailing text in %r" % text)
        return r
    if name == "function":
        p = k.rest()
        return ("function", p.strip())
    if name == "schedule":
        return ("schedule", k.rest())
    if name == "execute":
        subs = []
        while True:
            w = k.word()
            if w == "run":
                return ("execute", tuple(subs), _parse(k.rest()))
            if w in ("if", "unless"):
                kind = k.word()
                if kind == "score":
                    a = k.slot()
                    op = k.word()
                    if op == "matches":
                        subs.append(("matches", w == "unless", a,
                                     parse_range(k.word())))
                    elif op in ("=", "<", ">", "<=", ">="):
                        subs.append(("comp", w == "unless", a, op, k.slot()))
                    else:
                        raise McError("bad comparison in %r" % text)
                elif kind == "entity":
                    subs.append(("entity", w == "unless", k.word()))
                elif kind == "block":
                    pos = (k.word(), k.word(), k.word())
                    what = " ".join(pos + (k.word(),))
                    # optional block states
                    save = k.pos
                    if not k.end() and k.text[k.pos] == "[":
                        what += " " + k.word()
                    else:
                        k.pos = save
                    subs.append(("block", w == "unless", what))
                elif kind == "blocks":
                    subs.append(("block", w == "unless", " ".join(
                        k.word() for _ in range(10))))
                elif kind == "abs":
                    subs.append(("abscond", w == "unless", k.word()))
                else:
                    raise McError("unknown condition %r in %r" % (kind, text))
            elif w == "as":
                subs.append(("as", k.word()))
            elif w == "at":
                subs.append(("at", k.word()))
            elif w == "positioned":
                x = k.word()
                if x == "as":
                    subs.append(("positionedas", k.word()))
                else:
                    subs.append(("positioned", x, k.word(), k.word()))
            elif w in ("anchored", "in", "align"):
                subs.append((w, k.word()))
            elif w == "rotated":
                x = k.word()
                if x == "as":
                    subs.append(("rotatedas", k.word()))
                else:
                    subs.append(("rotated", x, k.word()))
            elif w == "facing":
                x = k.word()
                if x == "entity":
                    subs.append(("facingentity", k.word(), k.word()))
                else:
                    subs.append(("facing", x, k.word(), k.word()))
            elif w == "absenv":
                subs.append(("absenv", k.word()))
            else:
                raise McError("unknown subcommand %r in %r" % (w, text))
    if name == "tag":
        sel = k.word()
        act = k.word()
        if act not in ("add", "remove", "list"):
            raise McError("bad tag command %r" % text)
        r = ("tag", sel, act, k.word())
        if not k.end():
            raise McError("trailing text in %r" % text)
        return r
    if name == "tellraw":
        tgt = k.word()
        try:
            js = json.loads(k.rest())
        except ValueError as e:
            raise McError("bad JSON in %r: %s" % (text, e))
        return ("tellraw", tgt, js)
    if name == "titleraw":
        tgt = k.word()
        mode = k.word()
        if mode in ("title", "subtitle", "actionbar"):
            try:
                js = json.loads(k.rest())
            except ValueError as e:
                raise McError("bad JSON in %r: %s" % (text, e))
            return ("tellraw", "%s %s" % (tgt, mode), js)
        return ("other", t)
    if name == "absop":
        return ("absop", k.word(), tuple(k.rest().split(" ")))
    return ("other", t)


# ------------------------------------------------- machine arithmetic (z3)
_I = z3.IntSort()
F = {n: z3.Function("mc_" + n, _I, _I, _I)
     for n in ("add", "sub", "mul", "div", "mod")}
DIV0 = z3.Function("mc_div_by_zero", _I, _I)
MOD0 = z3.Function("mc_mod_by_zero", _I, _I)
RAND = z3.Function("mc_random", _I, _I, _I, _I)


def wrap(t):
    return z3.If(z3.And(t >= INT_MIN, t <= INT_MAX), t,
                 (t - INT_MIN) % 2 ** 32 + INT_MIN)


def in_range(t):
    return z3.And(t >= INT_MIN, t <= INT_MAX)


def pywrap(v):
    return (v - INT_MIN) % 2 ** 32 + INT_MIN


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def tmod(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


TD = z3.Function("trunc_div", _I, _I, _I)
TM = z3.Function("trunc_mod", _I, _I, _I)


def zdiv(a, b):
    """C-style truncating division over z3 integers, b != 0 (defined by
    its characteristic property, see `is_trunc`)."""
    return TD(a, b)


def zmod(a, b):
    return TM(a, b)


def is_trunc(a, b, q, r):
    """q, r are quotient and remainder of truncating division."""
    return z3.And(a == q * b + r, zabs(r) < zabs(b),
                  z3.Or(r == 0, (r > 0) == (a > 0)))


def trunc_unique(a, b, q1, r1, q2, r2):
    """Lemma (proved by contracts_int.vc_lemma_trunc): truncating division
    is unique."""
    return z3.Implies(z3.And(b != 0, is_trunc(a, b, q1, r1),
                             is_trunc(a, b, q2, r2)),
                      z3.And(q1 == q2, r1 == r2))


def concrete_app(name, args):
    """Machine operation on values; None if `name` is something else."""
    ops = {"mc_add": "+=", "mc_sub": "-=", "mc_mul": "*=", "mc_div": "/=",
           "mc_mod": "%=", "trunc_div": "/", "trunc_mod": "%"}
    if name not in ops or not all(z3.is_int_value(x) for x in args):
        return None
    a, b = (x.as_long() for x in args)
    if b == 0 and ops[name][0] in "/%":
        return None
    if name == "trunc_div":
        return z3.IntVal(tdiv(a, b))
    if name == "trunc_mod":
        return z3.IntVal(tmod(a, b))
    return z3.IntVal(c_op(ops[name], a, b))


def zabs(a):
    return z3.If(a >= 0, a, -a)


def definition(app):
    """Defining axiom (instance) of an opaque machine operation."""
    n = app.decl().name()
    a, b = app.arg(0), app.arg(1)
    if n == "mc_add":
        return app == wrap(a + b)
    if n == "mc_sub":
        return app == wrap(a - b)
    if n == "mc_mul":
        return app == wrap(a * b)
    if n == "mc_div":
        return app == z3.If(b == 0, wrap(DIV0(a)), wrap(zdiv(a, b)))
    if n == "mc_mod":
        return app == z3.If(b == 0, wrap(MOD0(a)), wrap(zmod(a, b)))
    if n in ("trunc_div", "trunc_mod"):
        return z3.Implies(b != 0, is_trunc(a, b, TD(a, b), TM(a, b)))
    raise KeyError(n)


def definitions(formulas):
    """Definition instances for all machine operations in `formulas`."""
    done, out, todo = set(), [], list(formulas)
    while todo:
        apps = [a for a in machine_apps(todo) if a.get_id() not in done]
        todo = []
        for a in apps:
            done.add(a.get_id())
            d = definition(a)
            out.append(d)
            todo.append(d)
    return out


def machine_apps(formulas):
    names = {f.name() for f in F.values()} | {TD.name(), TM.name()}
    seen, out, todo = set(), [], list(formulas)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().name() in names:
                out.append(t)
            todo.extend(t.children())
        elif z3.is_quantifier(t):
            todo.append(t.body())
    return out


def m_op(op, a, b):
    """Result of `a op= b` on machine integers (symbolic)."""
    if op in ("=",):
        return b
    if op == "<":
        return z3.If(a < b, a, b)
    if op == ">":
        return z3.If(a > b, a, b)
    name = {"+=": "add", "-=": "sub", "*=": "mul", "/=": "div",
            "%=": "mod"}[op]
    sa, sb = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(sa) and z3.is_int_value(sb):
        x, y = sa.as_long(), sb.as_long()
        if not (name in ("div", "mod") and y == 0):
            return z3.IntVal(c_op(op, x, y))
    return F[name](a, b)


def c_op(op, a, b):
    """Concrete machine arithmetic."""
    if op == "=":
        return b
    if op == "<":
        return min(a, b)
    if op == ">":
        return max(a, b)
    if op == "+=":
        return pywrap(a + b)
    if op == "-=":
        return pywrap(a - b)
    if op == "*=":
        return pywrap(a * b)
    if b == 0:
        raise DivByZero()
    if op == "/=":
        return pywrap(tdiv(a, b))
    if op == "%=":
        return pywrap(tmod(a, b))
    raise KeyError(op)


class DivByZero(Exception):
    pass


def z_cmp(op, a, b):
    return {"=": lambda: a == b, "<": lambda: a < b, ">": lambda: a > b,
            "<=": lambda: a <= b, ">=": lambda: a >= b,
            "==": lambda: a == b, "!=": lambda: a != b}[op]()


# -------------------------------------------------------- symbolic state
class SymState:
    """Scoreboard as z3 terms.  `files`: path -> list of command texts.
    `calls`: path -> hook(state, guard), a contract for that function.
    `absops`: name -> hook(state, guard, args)."""

    def __init__(self, H, prefix="s", files=None):
        self.H = H
        self.prefix = prefix
        self.vals = {}
        self.init = {}
        self.files = files if files is not None else {}
        self.calls = {}
        self.absops = {}
        self.absconds = {}
        self.literals = []   # every integer literal met in the text
        self.nrand = 0
        self.depth = 0
        self.env = ()        # execution environment (as/at/...)
        self.events = []     # (guard, environment, payload) in order
        self.undefined = []  # guards under which an undefined function runs

    # The rest of the world (entities, blocks, output so far) is one
    # abstract value; commands outside the scoreboard map it to a new one.
    WORLD = ("#world", "#")

    def world(self):
        k = self.key(self.WORLD)
        if k not in self.vals:
            if k not in self.init:
                self.init[k] = z3.Int("%s[world]" % self.prefix)
            self.vals[k] = self.init[k]
        return self.vals[k]

    def set_world(self, t, g=None):
        old = self.world()
        if g is not None and not z3.is_true(g):
            t = z3.If(g, t, old)
        self.vals[self.key(self.WORLD)] = t

    def copy(self):
        r = SymState(self.H, self.prefix, self.files)
        r.vals = dict(self.vals)
        r.init = self.init
        r.calls, r.absops, r.absconds = self.calls, self.absops, self.absconds
        r.abstest = getattr(self, "abstest", None)
        r.literals = self.literals
        r.nrand = self.nrand
        r.depth = self.depth
        r.env = self.env
        r.events = list(self.events)
        r.undefined = self.undefined
        r.parent = getattr(self, "parent", None) or self
        return r

    @staticmethod
    def key(slot):
        return "%s %s" % (slot[0], slot[1])

    def get(self, slot):
        k = self.key(slot)
        if k not in self.vals:
            if k not in self.init:
                t = self.H.fresh_term("%s[%s]" % (self.prefix, k),
                                      INT_MIN, INT_MAX)
                self.init[k] = t
            self.vals[k] = self.init[k]
        return self.vals[k]

    def put(self, slot, v, guard=None):
        if guard is not None and not z3.is_true(guard):
            v = z3.If(guard, v, self.get(slot))
        else:
            self.get(slot)
        self.vals[self.key(slot)] = v

    def lit(self, n):
        t = REG.term_of(n)
        self.literals.append(t)
        return t

    def run_texts(self, texts, guard=None):
        for t in texts:
            self.exec(parse(t), guard)
        return self

    def run_cmds(self, commands, guard=None):
        """commands: real Command objects (or str)."""
        for c in commands:
            text = c if isinstance(c, str) else c.resolve()
            self.exec(parse(text), guard)
        return self

    def cond(self, sub):
        kind, inv = sub[0], sub[1]
        if kind == "matches":
            _, _, slot, (neg, lo, hi) = sub
            v = self.get(slot)
            c = []
            if lo is not None:
                c.append(v >= self.lit(lo))
            if hi is not None:
                c.append(v <= self.lit(hi))
            r = z3.And(*c) if len(c) != 1 else c[0]
            if neg:
                r = z3.Not(r)
        elif kind == "comp":
            _, _, a, op, b = sub
            r = z_cmp(op, self.get(a), self.get(b))
        elif kind == "abscond":
            r = (self.abstest(self, sub[2]) if ":" in sub[2] else
                 self.absconds[sub[2]](self))
        elif kind in ("entity", "block"):
            r = z3.Function("COND_%s_%s_%s" % (kind, sub[2], self.env),
                            _I, z3.BoolSort())(self.world())
        else:
            raise Unsupported("condition %r" % (sub,))
        return z3.Not(r) if inv else r

    def exec(self, c, g=None):
        k = c[0]
        if k in ("comment", "objadd"):
            return
        if k == "set":
            self.put(c[1], self.lit(c[2]), g)
        elif k == "add":
            self.put(c[1], m_op("+=", self.get(c[1]), self.lit(c[2])), g)
        elif k == "remove":
            self.put(c[1], m_op("-=", self.get(c[1]), self.lit(c[2])), g)
        elif k == "op":
            _, a, op, b = c
            va, vb = self.get(a), self.get(b)
            if op == "><":
                self.put(a, vb, g)
                self.put(b, va, g)
            else:
                self.put(a, m_op(op, va, vb), g)
        elif k == "random":
            self.nrand += 1
            lo, hi = self.lit(c[2]), self.lit(c[3])
            r = RAND(z3.IntVal(self.nrand), lo, hi)
            self.H.assume(z3.Implies(lo <= hi, z3.And(lo <= r, r <= hi)))
            self.put(c[1], r, g)
        elif k == "execute":
            self.exec_sub(c[1], 0, c[2], g)
        elif k == "tellraw":
            self.events.append((g, self.env, ("tellraw", c[1],
                                              self.render(c[2]))))
        elif k == "objremove":
            raise Unsupported("objective removed")
        elif k == "tag":
            t = " ".join(c)
            self.events.append((g, self.env, ("cmd", t)))
            f = z3.Function("CMD_%s_%s" % (t, self.env), _I, _I)
            self.set_world(f(self.world()), g)
        elif k in ("other", "schedule"):
            self.events.append((g, self.env, ("cmd", " ".join(
                c[1:] if k == "other" else c))))
            f = z3.Function("CMD_%s_%s" % (" ".join(c[1:]) if k == "other"
                                           else " ".join(c), self.env),
                            _I, _I)
            self.set_world(f(self.world()), g)
        elif k == "function":
            self.call(c[1], g)
        elif k == "absop":
            self.absops[c[1]](self, g, c[2])
        else:
            raise Unsupported("symbolic semantics of %r" % (c,))

    def render(self, js):
        """Parts of a raw text: strings (adjacent ones joined), score
        terms and other components."""
        out = []
        for comp in js["rawtext"]:
            if "text" in comp:
                if out and isinstance(out[-1], str):
                    out[-1] += comp["text"]
                elif comp["text"]:
                    out.append(comp["text"])
            elif "score" in comp:
                s = comp["score"]
                out.append(self.get((s["name"], s["objective"])))
            elif "translate" in comp and isinstance(comp.get("with"), dict):
                out.append(("translate", comp["translate"], tuple(
                    self.render({"rawtext": [x]})[:1] or ("",)
                    for x in comp["with"]["rawtext"])))
            else:
                out.append(json.dumps(comp, sort_keys=True))
        return out

    def exec_sub(self, subs, i, cmd, g):
        if i == len(subs):
            self.exec(cmd, g)
            return
        sub = subs[i]
        if sub[0] in ("matches", "comp", "abscond", "entity", "block"):
            t = self.cond(sub)
            self.exec_sub(subs, i + 1, cmd,
                          t if g is None else z3.And(g, t))
        elif sub == ("as", "@s"):
            self.exec_sub(subs, i + 1, cmd, g)
        else:
            # The command runs once for every selected target (two are
            # enough to observe an order); the selection is made before.
            w, old = self.world(), self.env
            sel = [z3.Function("SEL%d_%s_%s" % (k, sub, old), _I,
                               z3.BoolSort())(w) for k in (0, 1)]
            for k in (0, 1):
                self.env = old + ((sub, k),)
                self.exec_sub(subs, i + 1, cmd, sel[k] if g is None
                              else z3.And(g, sel[k]))
            self.env = old

    def call(self, path, g):
        if path in self.calls:
            self.calls[path](self, g)
            return
        if path not in self.files:
            raise McError("call of undefined function %r" % path)
        if self.depth > 30:
            raise Unsupported("unbounded recursion of %r" % path)
        self.depth += 1
        self.run_texts(self.files[path], g)
        self.depth -= 1


# ------------------------------------------------------ concrete world
class StepLimit(Exception):
    pass


class Ent:
    _n = 0

    def __init__(self, etype="player", pos=(0.0, 0.0, 0.0), name=None):
        Ent._n += 1
        self.id = Ent._n
        self.type = etype
        self.pos = tuple(float(x) for x in pos)
        self.tags = set()
        self.name = name
        self.families = set()
        self.alive = True
        self.extra = {}

    def __repr__(self):
        return "<Ent %d %s %s>" % (self.id, self.type, sorted(self.tags))


def split_top(s, sep=","):
    out, depth, cur, instr, i = [], 0, [], False, 0
    while i < len(s):
        c = s[i]
        if instr:
            cur.append(c)
            if c == "\\" and i + 1 < len(s):
                i += 1
                cur.append(s[i])
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur.append(c)
        elif c in "[{":
            depth += 1
            cur.append(c)
        elif c in "]}":
            depth -= 1
            cur.append(c)
        elif c == sep and depth == 0:
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
        i += 1
    if cur or out:
        out.append("".join(cur))
    return out


def unquote(s):
    s = s.strip()
    if s.startswith('"'):
        k = _Toks(s)
        r = k.word()
        if not k.end():
            raise McError("bad quoted string %r" % s)
        return r
    return s


_SEL = {}


def parse_selector(text):
    r = _SEL.get(text)
    if r is not None:
        return r
    m = re.match(r"@(s|e|a|p|r|initiator|n)(\[(.*)\])?\Z", text, re.S)
    if not m:
        raise McError("bad selector %r" % text)
    args = []
    if m.group(2):
        for part in split_top(m.group(3)):
            key, eq, val = part.partition("=")
            if not eq:
                raise McError("bad selector argument %r in %r" % (part, text))
            args.append((key.strip(" "), val.strip(" ")))
    r = (m.group(1), args)
    _SEL[text] = r
    return r


class World:
    """Concrete interpreter. Events (commands other than score/tag/control
    commands) are logged in `trace`."""

    def __init__(self, files, max_steps=200000, rng=None):
        self.files = {p: (t if isinstance(t, list) else t.split("\n"))
                      for p, t in files.items()}
        self.scores = {}
        self.objectives = set()
        self.ents = []
        self.trace = []
        self.steps = 0
        self.max_steps = max_steps
        self.uninit = []
        self.problems = []
        self.unknown = []
        self.divzero = False
        self.rng = rng
        self.scheduled = []
        self.depth = 0
        self.lenient_obj = False

    # targets
    def holders(self, target, ctx, single=False):
        if target.startswith("@"):
            r = [e.id for e in self.select(target, ctx)]
            return r
        if target == "*":
            return sorted({h for (h, o) in self.scores}, key=str)
        return [target]

    def select(self, text, ctx):
        kind, args = parse_selector(text)
        ent, pos = ctx
        if kind == "s":
            cand = [ent] if ent is not None and ent.alive else []
        elif kind in ("a", "p", "r"):
            cand = [e for e in self.ents if e.alive and e.type == "player"]
        elif kind == "initiator":
            cand = []
        else:
            cand = [e for e in self.ents if e.alive]
        limit = 1 if kind in ("p", "r") else None
        d = dict(args)
        if "x" in d or "dx" in d:
            org = [self.coord(d.get(k, "~"), p) for k, p in zip("xyz", pos)]
            pos = tuple(org)
            if "dx" in d:
                for k, lo in zip(("dx", "dy", "dz"), org):
                    lo, hi = sorted((lo, lo + float(d.get(k, 0))))
                    j = "xyz".index(k[1])
                    cand = [e for e in cand if lo <= e.pos[j] < hi + 1]
            args = [a for a in args if a[0] not in (
                "x", "y", "z", "dx", "dy", "dz")]
        for key, val in args:
            neg = val.startswith("!")
            v = unquote(val[1:] if neg else val)
            if key == "tag":
                f = lambda e, v=v: (v in e.tags) if v else not e.tags
            elif key == "type":
                f = lambda e, v=v: e.type.split(":")[-1] == v.split(":")[-1]
            elif key == "name":
                f = lambda e, v=v: e.name == v
            elif key == "family":
                f = lambda e, v=v: v in e.families
            elif key == "scores":
                if neg:
                    raise McError("negated scores")
                if not (val.startswith("{") and val.endswith("}")):
                    raise McError("bad scores %r" % val)
                conds = []
                for part in split_top(val[1:-1]):
                    o, _, rng = part.partition("=")
                    conds.append((unquote(o), parse_range(rng.strip())))

                def f(e, conds=conds):
                    for o, rng in conds:
                        s = self.scores.get((e.id, o))
                        if s is None or not match(rng, s):
                            return False
                    return True
                neg = False
            elif key == "c":
                limit = int(v)
                continue
            elif key in ("r", "rm"):
                d = float(v)

                def f(e, d=d, key=key):
                    q = sum((a - b) ** 2 for a, b in zip(e.pos, pos)) ** .5
                    return q <= d if key == "r" else q >= d
            elif key in e_extra:
                f = lambda e, key=key, v=v: e_extra[key](e, v)
            else:
                self.unknown.append("selector argument %s" % key)
                continue
            cand = [e for e in cand if bool(f(e)) != neg]
        if limit is not None:
            cand = sorted(cand, key=lambda e: sum(
                (a - b) ** 2 for a, b in zip(e.pos, pos)))
            if limit < 0:
                cand = cand[::-1]
            cand = cand[:abs(limit)]
        return cand

    def getscore(self, h, o):
        v = self.scores.get((h, o))
        if v is None:
            self.uninit.append((h, o))
            return 0
        return v

    def setscore(self, h, o, v):
        if o not in self.objectives and not self.lenient_obj:
            self.problems.append("objective %r used before being added" % o)
        self.scores[(h, o)] = v

    def lit(self, n):
        if not INT_MIN <= n <= INT_MAX:
            self.problems.append("integer literal %d out of 32-bit range" % n)
        return n

    def run_function(self, path, ctx=(None, (0., 0., 0.))):
        if path not in self.files:
            self.problems.append("call of undefined function %r" % path)
            return
        self.depth += 1
        if self.depth > 400:
            raise StepLimit("recursion")
        for line in self.files[path]:
            self.exec(parse(line), ctx)
        self.depth -= 1

    def exec(self, c, ctx):
        k = c[0]
        if k == "comment":
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        if k in ("set", "add", "remove"):
            v = self.lit(c[2])
            for h in self.holders(c[1][0], ctx):
                if k != "set":
                    o = self.scores.get((h, c[1][1]), 0)
                    w = c_op("+=" if k == "add" else "-=", o, v)
                else:
                    w = v
                self.setscore(h, c[1][1], w)
        elif k == "op":
            _, (t1, o1), op, (t2, o2) = c
            for h1 in self.holders(t1, ctx):
                for h2 in self.holders(t2, ctx):
                    b = self.getscore(h2, o2)
                    if op == "><":
                        a = self.getscore(h1, o1)
                        self.setscore(h1, o1, b)
                        self.setscore(h2, o2, a)
                    else:
                        a = self.getscore(h1, o1) if op != "=" else 0
                        try:
                            self.setscore(h1, o1, c_op(op, a, b))
                        except DivByZero:
                            self.divzero = True
                            self.setscore(h1, o1, a)
        elif k == "random":
            lo, hi = self.lit(c[2]), self.lit(c[3])
            for h in self.holders(c[1][0], ctx):
                self.setscore(h, c[1][1], self.rng.randint(lo, hi)
                              if self.rng else lo)
        elif k == "reset":
            for h in self.holders(c[1], ctx):
                for key in [x for x in self.scores if x[0] == h and
                            (c[2] is None or x[1] == c[2])]:
                    del self.scores[key]
        elif k == "objadd":
            if c[1] in self.objectives:
                self.problems.append("objective %r added twice" % c[1])
            self.objectives.add(c[1])
        elif k == "objremove":
            self.objectives.discard(c[1])
            for key in [x for x in self.scores if x[1] == c[1]]:
                del self.scores[key]
        elif k == "function":
            self.run_function(c[1], ctx)
        elif k == "execute":
            self.exec_execute(c[1], 0, c[2], ctx)
        elif k == "tag":
            if c[1].startswith("@"):
                for e in self.select(c[1], ctx):
                    (e.tags.add if c[2] == "add" else e.tags.discard)(c[3])
        elif k == "tellraw":
            self.trace.append(("tellraw", c[1], self.render(c[2], ctx)))
        elif k == "schedule":
            self.schedule(c[1], ctx)
        else:
            self.other(c[1], ctx)

    def schedule(self, rest, ctx):
        self.scheduled.append(rest)
        self.trace.append(("schedule", rest))

    def other(self, text, ctx):
        words = text.split(" ")
        if words[0] == "summon":
            self.summon(text, ctx)
            return
        if words[0] == "kill":
            for e in self.select(words[1], ctx):
                e.alive = False
        if words[0] == "tp" and len(words) >= 5:
            p = tuple(self.coord(a, b) for a, b in zip(words[2:5], ctx[1]))
            for e in self.select(words[1], ctx):
                e.pos = p
        self.trace.append((text, ctx[0].id if ctx[0] else None))

    def summon(self, text, ctx):
        k = _Toks(text)
        k.word()
        etype = k.word()
        e = Ent(etype, ctx[1])
        args = []
        while not k.end():
            args.append(k.word())
        e.extra["summon"] = args
        if args:
            try:
                xyz = [self.coord(a, b) for a, b in zip(args[:3], ctx[1])]
                if len(xyz) == 3:
                    e.pos = tuple(xyz)
                    if len(args) > 3 and args[-1] and not args[-1].startswith(
                            ("~", "^", "*")):
                        e.name = args[-1]
            except ValueError:
                if len(args) == 1:
                    e.name = args[0]
        self.ents.append(e)
        self.trace.append((text, ctx[0].id if ctx[0] else None))

    @staticmethod
    def coord(a, base):
        if a.startswith("~"):
            return base + (float(a[1:]) if len(a) > 1 else 0.0)
        if a.startswith("^"):
            return base
        return float(a)

    def render(self, js, ctx):
        out = []
        for comp in js["rawtext"]:
            if "text" in comp:
                out.append(comp["text"])
            elif "score" in comp:
                s = comp["score"]
                hs = self.holders(s["name"], ctx)
                out.append(",".join(str(self.getscore(h, s["objective"]))
                                    for h in hs))
            elif "selector" in comp:
                out.append("<%s>" % comp["selector"])
            elif "translate" in comp:
                w = comp.get("with")
                if isinstance(w, dict):
                    parts = [self.render({"rawtext": [x]}, ctx)
                             for x in w["rawtext"]]
                else:
                    parts = list(w or [])
                out.append(self.translate(comp["translate"], parts))
            else:
                raise McError("bad rawtext component %r" % comp)
        return "".join(out)

    @staticmethod
    def translate(fmt, parts):
        out, i, seq = [], 0, 0
        while i < len(fmt):
            if fmt.startswith("%%", i):
                m = re.match(r"%%(\d)", fmt[i:])
                if m:
                    n = int(m.group(1))
                    out.append(parts[n - 1] if 0 < n <= len(parts) else "")
                    i += 3
                    continue
                if fmt.startswith("%%s", i):
                    out.append(parts[seq] if seq < len(parts) else "")
                    seq += 1
                    i += 3
                    continue
            out.append(fmt[i])
            i += 1
        return "".join(out)

    def cond(self, sub, ctx):
        kind, inv = sub[0], sub[1]
        if kind == "matches":
            _, _, (t, o), rng = sub
            for x in rng[1:]:
                if x is not None:
                    self.lit(x)
            hs = self.holders(t, ctx)
            if not hs:
                r = False
            else:
                v = self.scores.get((hs[0], o))
                if v is None:
                    self.uninit.append((hs[0], o))
                    r = False
                else:
                    r = match(rng, v)
        elif kind == "comp":
            _, _, (t1, o1), op, (t2, o2) = sub
            h1, h2 = self.holders(t1, ctx), self.holders(t2, ctx)
            if not h1 or not h2:
                r = False
            else:
                a, b = self.scores.get((h1[0], o1)), \
                    self.scores.get((h2[0], o2))
                if a is None or b is None:
                    self.uninit.append((t1, o1, t2, o2))
                    r = False
                else:
                    r = {"=": a == b, "<": a < b, ">": a > b, "<=": a <= b,
                         ">=": a >= b}[op]
        elif kind == "entity":
            r = bool(self.select(sub[2], ctx))
        elif kind == "block":
            r = self.block(sub[2], ctx)
        else:
            raise McError("condition %r" % (sub,))
        return r != inv

    def block(self, text, ctx):
        self.unknown.append("block condition")
        return False

    def exec_execute(self, subs, i, cmd, ctx):
        if i == len(subs):
            self.exec(cmd, ctx)
            return
        sub = subs[i]
        k = sub[0]
        if k in ("matches", "comp", "entity", "block"):
            if self.cond(sub, ctx):
                self.exec_execute(subs, i + 1, cmd, ctx)
        elif k == "as":
            for e in self.select(sub[1], ctx):
                self.exec_execute(subs, i + 1, cmd, (e, ctx[1]))
        elif k == "at":
            for e in self.select(sub[1], ctx):
                self.exec_execute(subs, i + 1, cmd, (ctx[0], e.pos))
        elif k == "positionedas":
            for e in self.select(sub[1], ctx):
                self.exec_execute(subs, i + 1, cmd, (ctx[0], e.pos))
        elif k == "positioned":
            pos = tuple(self.coord(a, b) for a, b in zip(sub[1:], ctx[1]))
            self.exec_execute(subs, i + 1, cmd, (ctx[0], pos))
        else:
            # environment without influence on the modelled state
            self.exec_execute(subs, i + 1, cmd, ctx)


e_extra = {}


def match(rng, v):
    neg, lo, hi = rng
    r = (lo is None or v >= lo) and (hi is None or v <= hi)
    return r != neg
