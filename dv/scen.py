"""Program contracts: a source template (compiled as a whole by the real
compiler, optimizer on or off) and its specification, a scalar program in
a tiny language given by Python syntax with 32-bit arithmetic.

    scenario(H, source, spec, vars={"i": "int", "s.x": "int", ...})

The emitted text is executed symbolically from *arbitrary* initial scores;
the obligations are: every observed variable has the specified value, the
output events (tellraw, raw commands) are the specified ones in order, the
literals fit 32 bits, and every function called exists.

The template observes its variables through a binary module `dvhook`
(the documented extension interface), which also provides the holes:
symbolic literals (`L1`, `L2`, ...) and abstract statements.
"""
import ast
import os
import re
import shutil
import tempfile
import textwrap

import z3

from . import mc, repo
from .sym import REG, Unsupported

from acaciamc import objects as O
from acaciamc.mccmdgen import cmds
from acaciamc.compiler import Compiler, Config
from acaciamc.error import Error, ErrorType
from acaciamc.mccmdgen.expr import AcaciaExpr
import acaciamc.objects.integer as integer_mod
import acaciamc.objects.boolean as boolean_mod

MIN, MAX = mc.INT_MIN, mc.INT_MAX
_HOOKS = {"cur": None}

HOOK_SRC = '''
def acacia_build(compiler):
    from dv import scen
    return scen._build(compiler)
'''


def slotkey(slot):
    return (slot.target, slot.objective)


class AbsIntOp(integer_mod.IntOp):
    """aint("x", i, j): an arbitrary integer expression over i, j."""

    def __init__(self, name, slots):
        self.name, self.slots = name, slots

    def scb_did_read(self, slot):
        return slot in self.slots

    def scb_did_assign(self, slot):
        return False

    def resolve_full(self, var, compiler):
        return [AbsEval(self.name, self.slots, var.slot)]


class AbsEval(cmds.Command):
    def __init__(self, name, slots, target):
        self.name, self.slots, self.target = name, slots, target

    def resolve(self):
        return "absop aint %s %s" % (self.name, " ".join(
            "%s|%s" % (s.target, s.objective)
            for s in self.slots + [self.target]))

    def scb_did_read(self, slot):
        return slot in self.slots

    def scb_did_assign(self, slot):
        return slot == self.target


class AbsTest(cmds._ExecuteSubcmd):
    def __init__(self, name, slots, invert):
        self.name, self.slots, self.invert = name, slots, invert

    def resolve(self):
        return "if abs abool:%s:%s:%s" % (
            "n" if self.invert else "c", self.name, ":".join(
                "%s|%s" % (s.target, s.objective) for s in self.slots))

    def scb_did_read(self, slot):
        return slot in self.slots


class AbsBool(boolean_mod.CompareBase):
    """abool("x", i, j): an arbitrary condition over i, j."""

    def __init__(self, name, slots, invert=False):
        super().__init__()
        self.name, self.slots, self.invert = name, slots, invert

    def as_execute(self, compiler):
        return [], [AbsTest(self.name, self.slots, self.invert)]

    def unarynot(self, compiler):
        return AbsBool(self.name, self.slots, not self.invert)


def aint_fun(name, n):
    return z3.Function("AINT_" + name, *([z3.IntSort()] * (n + 1)))


def abool_fun(name, n):
    return z3.Function("ABOOL_" + name, *([z3.IntSort()] * n
                                          + [z3.BoolSort()]))


def aint_hook(state, g, args):
    slots = [tuple(a.split("|")) for a in args[1:]]
    t = aint_fun(args[0], len(slots) - 1)(*[state.get(s)
                                            for s in slots[:-1]])
    state.H.assume(mc.in_range(t))
    state.put(slots[-1], t, g)


def abool_test(state, text):
    _, k, name, *slots = text.split(":")
    vals = [state.get(tuple(s.split("|"))) for s in slots]
    t = abool_fun(name, len(vals))(*vals)
    return z3.Not(t) if k == "n" else t


class AbsAct(cmds.Command):
    def __init__(self, name, slots, tmp):
        self.name, self.slots, self.tmp = name, slots, tmp

    def resolve(self):
        return "absop act %s %s" % (self.name, " ".join(
            "%s|%s" % (s.target, s.objective)
            for s in self.slots + [self.tmp]))

    def scb_did_read(self, slot):
        return slot in self.slots

    def scb_did_assign(self, slot):
        return slot in self.slots or slot == self.tmp


def act_fun(name, k, n):
    return z3.Function("ACT_%s_%d" % (name, k),
                       *([z3.IntSort()] * (n + 1)))


def act_hook(state, g, args):
    name = args[0]
    slots = [tuple(a.split("|")) for a in args[1:]]
    vals = [state.get(s) for s in slots[:-1]]
    for k, s in enumerate(slots[:-1]):
        t = act_fun(name, k, len(vals))(*vals)
        state.H.assume(mc.in_range(t))
        state.put(s, t, g)
    state.nact = getattr(state, "nact", 0) + 1
    state.put(slots[-1], state.H.fresh_term("clob%d" % state.nact,
                                            MIN, MAX), g)
    state.events.append((g, state.env, ("tellraw", "act " + name, vals)))


class Case:
    """One compilation under observation."""

    def __init__(self, H, lits=None):
        self.H = H
        self.observed = {}     # name -> AcaciaExpr
        self.lits = lits or {}
        self.kept = []         # (name, expr) captured at their place

    # ---- members of the hook module
    def build(self, compiler):
        self.compiler = compiler
        d = {}

        def observe(compiler, args, kwds):
            name, e = args
            self.observed[name.value] = e
        d["observe"] = O.BinaryFunction(observe)

        def act(compiler, args, kwds):
            """Abstract statement act("name", x, y, ...): gives the
            variables arbitrary new values (a function of the old ones)
            and is observable (an event)."""
            name = args[0].value
            slots = [a.slot for a in args[1:]]
            tmp = compiler.allocate_tmp()
            return O.NoneLiteral(), [AbsAct(name, slots, tmp)]
        d["act"] = O.BinaryFunction(act)

        def aint(compiler, args, kwds):
            return O.IntOpGroup(init=AbsIntOp(
                args[0].value, [a.slot for a in args[1:]])), []
        d["aint"] = O.BinaryFunction(aint)

        def abool(compiler, args, kwds):
            return AbsBool(args[0].value, [a.slot for a in args[1:]]), []
        d["abool"] = O.BinaryFunction(abool)
        for n, v in self.lits.items():
            d[n] = O.IntLiteral(v) if not isinstance(v, AcaciaExpr) else v
        return d


def _build(compiler):
    return _HOOKS["cur"].build(compiler)


def compile_case(case, main, modules=None, **cfg):
    d = tempfile.mkdtemp(dir=repo.tmpdir())
    _HOOKS["cur"] = case
    try:
        mods = dict(modules or {})
        mods.setdefault("dvhook.py", HOOK_SRC)
        mods["main.aca"] = main
        home = os.path.join(d, "v")     # modules may be in ".."
        for name, src in mods.items():
            p = os.path.join(home, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if src.startswith("SYMLINK:"):
                os.symlink(src[8:], p)
                continue
            with open(p, "w", encoding="utf-8") as f:
                f.write(src)
        cfg.setdefault("encoding", "utf-8")
        return repo.Compiled(Compiler(os.path.join(home, "main.aca"),
                                      Config(**cfg)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------- spec language
class SpecError(Exception):
    pass


def _tobool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_bool(v):
        return v
    return v == 1


def _toint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


class Spec:
    """Executes the scalar specification program on terms."""

    def __init__(self, vals, bools, lits=(), funcs=None):
        self.v = dict(vals)
        self.bools = set(bools)
        self.lits = dict(lits)
        self.events = []
        self.requires = []
        self.funcs = funcs or {}

    def run(self, text):
        self.block(ast.parse(textwrap.dedent(text)).body, None)
        return self

    def path(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute):
            return self.path(n.value) + "." + n.attr
        raise SpecError(ast.dump(n))

    def block(self, body, g):
        for st in body:
            self.stmt(st, g)

    def assign(self, p, val, g):
        if z3.is_bool(val) or isinstance(val, bool):
            if p in self.v and p not in self.bools:
                raise SpecError("bool to int " + p)
            self.bools.add(p)
        val = _toint(val)
        if g is not None and p in self.v:
            val = z3.If(g, val, self.v[p])
        self.v[p] = val

    def stmt(self, st, g):
        if isinstance(st, ast.Pass):
            return
        if isinstance(st, ast.Assign):
            t = st.targets[0]
            if isinstance(t, ast.Tuple):
                vals = [self.ev(x) for x in st.value.elts]
                for x, y in zip(t.elts, vals):
                    self.assign(self.path(x), y, g)
            else:
                v = self.ev(st.value)
                for t in st.targets:
                    self.assign(self.path(t), v, g)
        elif isinstance(st, ast.AugAssign):
            p = self.path(st.target)
            self.assign(p, self.binop(st.op, self.get(p), self.ev(st.value)),
                        g)
        elif isinstance(st, ast.If):
            c = _tobool(self.ev(st.test))
            self.block(st.body, c if g is None else z3.And(g, c))
            if st.orelse:
                n = z3.Not(c)
                self.block(st.orelse, n if g is None else z3.And(g, n))
        elif isinstance(st, ast.For):
            for k in range(ast.literal_eval(st.iter.args[0])):
                self.v[st.target.id] = z3.IntVal(k)
                self.block(st.body, g)
            self.v.pop(st.target.id, None)
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            f = st.value.func.id
            if f == "emit":
                self.events.append((g, [
                    a.value if isinstance(a, ast.Constant) and isinstance(
                        a.value, str) else _toint(self.ev(a))
                    for a in st.value.args]))
            elif f == "title":
                self.events.append((g, (
                    "tellraw", "@a " + st.value.args[0].value, [
                        a.value if isinstance(a, ast.Constant) and
                        isinstance(a.value, str) else _toint(self.ev(a))
                        for a in st.value.args[1:]])))
            elif f == "cmd":
                self.events.append((g, ("cmd", st.value.args[0].value)))
            elif f == "act":
                name = st.value.args[0].value
                ps = [self.path(a) for a in st.value.args[1:]]
                vals = [self.get(q) for q in ps]
                for k, q in enumerate(ps):
                    self.assign(q, act_fun(name, k, len(vals))(*vals), g)
                self.events.append((g, ("tellraw", "act " + name, vals)))
            elif f == "unset":     # the documentation leaves them open
                for a in st.value.args:
                    self.v.pop(self.path(a), None)
            elif f == "require":   # precondition of the contract
                self.requires.append(self.ev(st.value.args[0]))
            elif f in self.funcs:
                self.funcs[f](self, g)
            else:
                raise SpecError(f)
        else:
            raise SpecError(ast.dump(st))

    def get(self, p):
        if p in self.lits:
            return REG.term_of(self.lits[p])
        if p not in self.v:
            raise SpecError("no variable " + p)
        return self.v[p]

    def binop(self, op, a, b):
        o = {ast.Add: "+=", ast.Sub: "-=", ast.Mult: "*=",
             ast.FloorDiv: "/=", ast.Div: "/=", ast.Mod: "%="}[type(op)]
        return mc.m_op(o, _toint(a), _toint(b))

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, (ast.Name, ast.Attribute)):
            p = self.path(n)
            v = self.get(p)
            return v == 1 if p in self.bools else v
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ev(n.left), self.ev(n.right))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return z3.Not(_tobool(self.ev(n.operand)))
            v = _toint(self.ev(n.operand))
            if isinstance(n.op, ast.USub):
                if z3.is_int_value(v):
                    return z3.IntVal(-v.as_long())
                return mc.m_op("*=", v, z3.IntVal(-1))
            return v
        if isinstance(n, ast.BoolOp):
            vs = [_tobool(self.ev(x)) for x in n.values]
            return (z3.And if isinstance(n.op, ast.And) else z3.Or)(*vs)
        if isinstance(n, ast.Compare):
            ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.Gt: ">",
                   ast.LtE: "<=", ast.GtE: ">="}
            r, left = [], self.ev(n.left)
            for o, x in zip(n.ops, n.comparators):
                right = self.ev(x)
                r.append(mc.z_cmp(ops[type(o)], _toint(left),
                                  _toint(right)))
                left = right
            return z3.And(*r) if len(r) > 1 else r[0]
        if isinstance(n, ast.IfExp):
            c, a, b = (self.ev(x) for x in (n.test, n.body, n.orelse))
            if z3.is_bool(a) or isinstance(a, bool):
                return z3.If(_tobool(c), _tobool(a), _tobool(b))
            return z3.If(_tobool(c), _toint(a), _toint(b))
        if isinstance(n, ast.Call) and n.func.id in ("min", "max"):
            vs = [_toint(self.ev(x)) for x in n.args]
            r = vs[0]
            for x in vs[1:]:
                r = z3.If((x < r) if n.func.id == "min" else (x > r), x, r)
            return r
        if isinstance(n, ast.Call) and n.func.id in ("aint", "abool"):
            vs = [self.get(self.path(x)) for x in n.args[1:]]
            f = aint_fun if n.func.id == "aint" else abool_fun
            return f(n.args[0].value, len(vs))(*vs)
        if isinstance(n, ast.Call) and n.func.id in self.funcs:
            return self.funcs[n.func.id](
                self, *[_toint(self.ev(x)) for x in n.args])
        raise SpecError(ast.dump(n))


# ------------------------------------------------------------- events
_MAGIC = re.compile(r"-?\d{46,}")


def norm_parts(parts):
    """Strings joined, constant terms turned to text."""
    out = []

    def text(s):
        if not s:
            return
        if out and isinstance(out[-1], str):
            out[-1] += s
        else:
            out.append(s)

    def item(x):
        if isinstance(x, str):
            i = 0
            for m in _MAGIC.finditer(x):
                text(x[i:m.start()])
                item(REG.term_of(int(m.group())))
                i = m.end()
            text(x[i:])
        elif isinstance(x, tuple):
            out.append(x)
        else:
            s = z3.simplify(x)
            if z3.is_int_value(s):
                text(str(s.as_long()))
            else:
                out.append(x)
    for x in parts:
        item(x)
    return out


def feasible(H, g):
    if g is None:
        return True
    if H.concrete is not None:
        return z3.is_true(H.model_eval(g))
    return H._feasible(g)


def canon_format(st):
    """The static part of a shown text with the format codes in force at
    every character written out in one way (codes add up until a reset)."""
    if not any(isinstance(p, str) and "\xa7" in p for p in st):
        return st
    out, cur, shown = [], (), ()
    for p in st:
        if p is None:
            t, p = "", ["\0"]
        elif not isinstance(p, str):
            return st
        t, i = "", 0
        while i < len(p):
            if p[i] == "\xa7" and i + 1 < len(p):
                cur = () if p[i + 1] == "r" else tuple(
                    sorted(set(cur) | {p[i + 1]}))
                i += 2
                continue
            if shown != cur:
                t += "\xa7r" + "".join("\xa7" + c for c in cur)
                shown = cur
            t += p[i]
            i += 1
        for n, x in enumerate(t.split("\0")):
            if n:
                out.append(None)
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
    return out


def _sig(e):
    """(static part, terms) of an event."""
    if e[0] == "cmd":
        return ("cmd", e[1]), []
    if e[1].startswith("act "):
        return ("tellraw", e[1], len(e[2])), [
            REG.term_of(x) if isinstance(x, int) else x for x in e[2]]
    parts = norm_parts(e[2])
    st, ts = ["tellraw", e[1]], []
    for p in parts:
        if isinstance(p, str):
            st.append(p)
        elif isinstance(p, tuple):
            st.append(("translate", p[1]))
            for sub in p[2]:
                for q in sub:
                    if isinstance(q, str):
                        st.append(q)
                    else:
                        st.append(None)
                        ts.append(q)
        else:
            st.append(None)
            ts.append(p)
    return tuple(st[:2] + canon_format(st[2:])), ts


def _unify(x, y):
    """Signatures that differ only in that one side shows a constant as
    text: the same static part and the terms of both sides."""
    (s, ts), (t, us) = x, y
    if s == t or s[:2] != t[:2] or s[0] != "tellraw" or \
            s[1].startswith("act ") or bool(ts) == bool(us):
        return x, y
    swap = not ts
    if swap:
        (s, ts), (t, us) = y, x
    if not all(isinstance(p, (str, type(None))) for p in s + t):
        return x, y
    m = re.match("".join("(-?[0-9]+)" if p is None else re.escape(p)
                         for p in s[2:]) + r"\Z", "".join(t[2:]), re.S)
    if not m:
        return x, y
    us = [z3.IntVal(int(v)) for v in m.groups()]
    return ((s, us), (s, ts)) if swap else ((s, ts), (s, us))


def prove_events(H, got, want, label=""):
    """got: SymState.events; want: [(guard, payload)]; payload a list of
    parts (told to @a) or ("cmd", text) or ("tellraw", target, parts)."""
    a = []
    for g, env, e in got:
        if feasible(H, g):
            a.append((g, _sig(e)))
    b = []
    for g, e in want:
        if isinstance(e, list):
            e = ("tellraw", "@a", e)
        if feasible(H, g):
            b.append((g, _sig(e)))
    T = z3.BoolVal(True)
    if len(a) == len(b):
        for n in range(len(a)):
            x, y = _unify(a[n][1], b[n][1])
            a[n], b[n] = (a[n][0], x), (b[n][0], y)
    same = len(a) == len(b) and all(x[1][0] == y[1][0]
                                    for x, y in zip(a, b))
    H.prove(label + "events", same, info="emitted %s instead of %s" % (
        [x[1][0] for x in a], [x[1][0] for x in b]))
    if not same:
        return
    for n, ((g, (_, t)), (h, (_, u))) in enumerate(zip(a, b)):
        g = T if g is None else g
        h = T if h is None else h
        H.prove(label + "event-runs", g == h, info="event %d" % n)
        for x, y in zip(t, u):
            H.prove(label + "event-value", z3.Implies(h, x == y),
                    info="value shown in event %d" % n)


# ------------------------------------------------------------ scenario
class Run:
    pass


def compile_scenario(H, src, vars, lits=None, modules=None, decl=True,
                     cfg=None, observe=None):
    """vars: name -> "int" | "bool": observed paths. Paths without a dot
    are declared (uninitialised) before `src` unless decl is False."""
    case = Case(H, lits)
    src = textwrap.dedent(src)
    head = "from dvhook import observe, act, aint, abool%s\n" % "".join(
        ", " + n for n in (lits or {}))
    ds = "".join("%s: %s\n" % (n, t) for n, t in vars.items()
                 if decl and "." not in n and not n.startswith("_"))
    tail = "".join('observe("%s", %s)\n' % (n, n)
                   for n in list(vars) + list(observe or ()))
    text = head + ds + src + ("\n" if not src.endswith("\n") else "") + tail
    r = Run()
    r.case, r.text = case, text
    r.err = None
    try:
        r.compiled = compile_case(case, text, modules, **(cfg or {}))
        r.files = {p: t.split("\n") for p, t in r.compiled.files().items()}
    except Error as e:
        r.err = e
    return r


def init_state(H, files, slots, bools):
    st = mc.SymState(H, files=files)
    st.absops["act"] = act_hook
    st.absops["aint"] = aint_hook
    st.abstest = abool_test
    for n, k in slots.items():
        t = st.get(k)
        if n in bools:
            H.assume(z3.And(t >= 0, t <= 1))
    return st


def scenario(H, src, spec, vars, lits=None, modules=None, observe=None,
             cfg=None, entries=None, funcs=None, label="", decl=True,
             rejected=None, events=True):
    """Compile `src`, run it symbolically, compare with `spec`.
    observe: extra variables (declared by the program itself): name->type.
    rejected: ErrorType(s) expected instead."""
    lits = {n: H.int(n, MIN, MAX) if v is None else v
            for n, v in (lits or {}).items()}
    r = compile_scenario(H, src, vars, lits, modules, decl, cfg, observe)
    if rejected is not None:
        H.prove(label + "rejected", r.err is not None and (
            rejected is True or r.err.type in rejected), info=str(r.err))
        return r
    H.prove(label + "accepted", r.err is None, info="%s\n%s" % (
        r.err, r.text))
    if r.err is not None:
        return r
    slots = {}
    bools = {n for n, t in {**vars, **(observe or {})}.items()
             if t == "bool"}
    for n, e in r.case.observed.items():
        if isinstance(e, (O.IntVar, O.BoolVar)):
            slots[n] = slotkey(e.slot)
    st = init_state(H, r.files, {n: k for n, k in slots.items()
                                 if n in vars}, bools)
    v0 = {n: st.get(slots[n]) for n in vars if n in slots}
    sp = Spec(v0, bools, lits, funcs)
    sp.run(spec)
    for t in sp.requires:
        H.assume(t)
    for e in entries or ["main"]:
        st.call(e, None)
    H.cover()
    for n in list(vars) + list(observe or ()):
        if n not in slots:
            H.prove(label + "is-variable", False,
                    info="%s is %r" % (n, r.case.observed.get(n)))
            continue
        if n not in sp.v:
            continue
        H.prove(label + "value-" + n, st.get(slots[n]) == sp.v[n],
                info="value of %s after\n%s" % (n, r.text))
    if events:
        prove_events(H, st.events, sp.events, label)
    H.prove(label + "literals", z3.And(*([mc.in_range(t) for t in st.literals]
                                         or [z3.BoolVal(True)])),
            info="literal out of range")
    r.state, r.slots, r.spec = st, slots, sp
    return r


__all__ = ["scenario", "compile_scenario", "Case", "Spec", "z3", "mc", "O",
           "ErrorType", "Error", "slotkey", "prove_events", "init_state",
           "Unsupported", "repo", "MIN", "MAX", "norm_parts"]
