"""Contract harness environment: real source fragments with holes.

A contract for a code-generating function is stated on a *source template*
(e.g. `r = x + y`) that is parsed by the real parser and visited by the
real generator; its sub-expressions and sub-statements are holes bound to
values that satisfy nothing but the callee's contract:

 * literals: symbolic 32-bit integers;
 * variables: slots with arbitrary contents;
 * compound int expressions: an operation group of abstract operations
   (uninterpreted functions of the slots they read, any number of
   operations composed);
 * compound bool expressions: an abstract boolean whose evaluation
   commands and /execute conditions are uninterpreted;
 * statements: abstract commands changing the declared slots in an
   arbitrary (uninterpreted) way, and clobbering a temporary.

The commands produced are turned to text by the real code and interpreted
by `mc.SymState`.
"""
import io

import z3

from . import mc
from . import repo
from .sym import SymInt, REG

from acaciamc.mccmdgen import cmds
from acaciamc.mccmdgen.generator import Generator
from acaciamc.parser import Parser
from acaciamc.tokenizer import Tokenizer
from acaciamc.error import Error, ErrorType
from acaciamc import objects as O
from acaciamc.ast import Module
import acaciamc.objects.integer as integer_mod
import acaciamc.objects.boolean as boolean_mod

MIN, MAX = mc.INT_MIN, mc.INT_MAX

# `int.__add__` & co. bypass operator overloading; the harness gives the
# folding table the overloadable equivalents (identical on `int`).  This
# is the only substitution made in the code under verification.
import operator as _op  # noqa: E402
_EQUIV = {int.__add__: _op.add, int.__sub__: _op.sub, int.__mul__: _op.mul}


def patch_tables():
    n = 0
    for mod in (integer_mod,):
        for v in vars(mod).values():
            if isinstance(v, dict):
                for k in list(v):
                    try:
                        if v[k] in _EQUIV:
                            v[k] = _EQUIV[v[k]]
                            n += 1
                    except TypeError:
                        pass
    return n


PATCHED = patch_tables()


def parse_src(src):
    return Parser(Tokenizer(io.StringIO(src), (1, 20, 20))).module()


class AbsCmd(cmds.Command):
    """An abstract command; its meaning is a hook in the SymState."""
    def __init__(self, name, args="-", reads=(), assigns=()):
        self.text = "absop %s %s" % (name, args)
        self.reads = set(reads)
        self.assigns = set(assigns)

    def resolve(self):
        return self.text

    def scb_did_read(self, slot):
        return slot in self.reads

    def scb_did_assign(self, slot):
        return slot in self.assigns


class AbsCond(cmds._ExecuteSubcmd):
    def __init__(self, name, reads=()):
        self.name = name
        self.reads = set(reads)

    def resolve(self):
        return "if abs %s" % self.name

    def scb_did_read(self, slot):
        return slot in self.reads


def slotkey(slot):
    return (slot.target, slot.objective)


class Env:
    def __init__(self, H, **cfg):
        self.H = H
        cfg.setdefault("optimizer", False)
        self.compiler = repo.bare_compiler(**cfg)
        self.gen = Generator(Module([], 1, 1), self.compiler.file_main,
                             "main.aca", self.compiler)
        self.compiler.current_generator = self.gen
        # drop what compiling the empty program produced
        self.compiler.file_main.commands = []
        self.user = {}       # name -> slot of user-visible variables
        self.bools = set()
        self.absops = {}
        self.absconds = {}
        self.n = 0
        self.pre = []

    # ---- holes ----
    def bind(self, name, value):
        self.gen.ctx.scope.set(name, value)
        return value

    def int_lit(self, name, lo=MIN, hi=MAX):
        e = O.IntLiteral(self.H.int(name, lo, hi))
        self.bind(name, e)
        return e

    def int_var(self, name):
        e = O.IntVar(self.compiler.allocate())
        self.user[name] = e.slot
        self.bind(name, e)
        return e

    def bool_var(self, name):
        e = O.BoolVar(self.compiler.allocate())
        self.user[name] = e.slot
        self.bools.add(name)
        self.bind(name, e)
        return e

    def fun(self, name, nargs):
        return z3.Function(name, *([z3.IntSort()] * (nargs + 1)))

    def ranged(self, t):
        self.H.assume(mc.in_range(t))
        return t

    def int_group(self, name, reads=(("a",), ("b",)), private=True):
        """Abstract operation group. Returns (expr, denotation) where the
        denotation maps a function slot->term to a term."""
        funs = []
        ops = []
        env = self
        for i, rd in enumerate(reads):
            f = self.fun("%s_op%d" % (name, i), len(rd) + (i > 0))
            slots = [self.user[r] for r in rd]
            priv = self.compiler.allocate() if private and i > 0 else None
            funs.append((f, slots))
            opn = "%s.%d" % (name, i)

            class AbsOp(integer_mod.IntOp):
                def __init__(self, opn=opn, slots=slots, priv=priv):
                    self.opn, self.slots, self.priv = opn, slots, priv

                def scb_did_read(self, slot):
                    return slot in self.slots or (
                        self.priv is not None and slot == self.priv)

                def scb_did_assign(self, slot):
                    return self.priv is not None and slot == self.priv

                def resolve_full(self, var, compiler):
                    return [AbsCmd(self.opn, "%s %s" % (
                        var.slot.target, var.slot.objective),
                        self.slots, [var.slot] + (
                            [self.priv] if self.priv else []))]

            def hook(state, g, args, f=f, slots=slots, i=i, priv=priv):
                tgt = (args[0], args[1])
                vals = [state.get(slotkey(s)) for s in slots]
                if i > 0:
                    vals = [state.get(tgt)] + vals
                t = env.ranged(f(*vals))
                state.put(tgt, t, g)
                if priv is not None:
                    env.n += 1
                    junk = self.H.fresh_term("junk%d" % env.n, MIN, MAX)
                    state.put(slotkey(priv), junk, g)
            self.absops[opn] = hook
            ops.append(AbsOp())
        e = O.IntOpGroup(init=ops[0])
        for o in ops[1:]:
            e.add_op(o)
        self.bind(name, e)

        def den(get):
            cur = None
            for i, (f, slots) in enumerate(funs):
                vals = [get(slotkey(s)) for s in slots]
                if i > 0:
                    vals = [cur] + vals
                cur = self.ranged(f(*vals))
            return cur
        return e, den

    def stmt(self, name, assigns, ret=None):
        """Abstract statement `name()` that changes the user variables in
        `assigns` arbitrarily (as a function of all user variables)."""
        env = self
        slots = [self.user[a] for a in assigns]
        bools = [a in self.bools for a in assigns]

        def hook(state, g, args):
            tmp = (args[0], args[1])
            old = [state.get(slotkey(s)) for s in self.user.values()]
            new = []
            for s, b in zip(slots, bools):
                f = env.fun("%s_%s" % (name, s.target), len(old))
                t = f(*old)
                if b:
                    env.H.assume(z3.And(t >= 0, t <= 1))
                else:
                    env.ranged(t)
                new.append(t)
            for s, t in zip(slots, new):
                state.put(slotkey(s), t, g)
            env.n += 1
            state.put(tmp, env.H.fresh_term("junk%d" % env.n, MIN, MAX), g)
        self.absops[name] = hook

        def impl(compiler, args, kwds):
            tmp = compiler.allocate_tmp()
            cmd = AbsCmd(name, "%s %s" % (tmp.target, tmp.objective),
                         self.user.values(), list(slots) + [tmp])
            return None if ret is None else ret, [cmd]

        def impl2(compiler, args, kwds):
            r, c = impl(compiler, args, kwds)
            return (O.NoneLiteral() if r is None else r), c
        self.bind(name, O.BinaryFunction(impl2))

        def spec(vals):
            """Spec transformer on dict user-name -> term."""
            old = [vals[u] for u in self.user]
            out = dict(vals)
            for a, s in zip(assigns, slots):
                out[a] = env.fun("%s_%s" % (name, s.target), len(old))(*old)
            return out
        return spec

    def abs_bool(self, name, reads=()):
        """Abstract comparison with its own dependency command and
        condition. Denotation: uninterpreted predicate of `reads`."""
        env = self
        slots = [self.user[r] for r in reads]
        p = z3.Function("B_" + name, *([z3.IntSort()] * len(slots)
                                       + [z3.BoolSort()]))
        tmp = self.compiler.allocate()

        def hook(state, g, args):
            vals = [state.get(slotkey(s)) for s in slots]
            state.put(slotkey(tmp), z3.If(p(*vals), z3.IntVal(7),
                                          z3.IntVal(3)), g)
        self.absops["dep_" + name] = hook
        self.absconds["c_" + name] = \
            lambda state: state.get(slotkey(tmp)) == 7
        self.absconds["n_" + name] = \
            lambda state: state.get(slotkey(tmp)) != 7

        class AbsBool(boolean_mod.CompareBase):
            def __init__(self, neg=False):
                super().__init__()
                self.neg = neg

            def as_execute(self, compiler):
                return ([AbsCmd("dep_" + name, "-", slots, [tmp])],
                        [AbsCond(("n_" if self.neg else "c_") + name,
                                 [tmp])])

            def unarynot(self, compiler):
                return AbsBool(not self.neg)
        e = AbsBool()
        self.bind(name, e)
        return e, lambda get: p(*[get(slotkey(s)) for s in slots])

    # ---- running ----
    def visit(self, src):
        """Compile a source template with the real parser and generator."""
        self.gen.node = parse_src(src)
        self.gen.processing_node = self.gen.node
        try:
            for st in self.gen.node.body:
                self.gen.visit(st)
        except Error as e:
            return e
        return None

    def visit_expr(self, src):
        """Visit one expression; returns the AcaciaExpr (may raise Error).
        Commands emitted on the way are in the main file."""
        node = parse_src(src + "\n").body[0].value
        self.gen.processing_node = node
        return self.gen.visit(node)

    def files(self):
        d = {}
        for f in self.compiler.output_mgr.files:
            if f.is_path_set():
                d[f.get_path()] = [c.resolve() for c in f.commands]
        return d

    def state(self):
        """Initial state: arbitrary slot contents (booleans 0/1), then the
        real initialization commands."""
        st = mc.SymState(self.H, files=self.files())
        st.absops = self.absops
        st.absconds = self.absconds
        for n, s in self.user.items():
            v = st.get(slotkey(s))
            if n in self.bools:
                self.H.assume(z3.And(v >= 0, v <= 1))
        st.run_cmds(self.compiler.output_mgr.generate_init())
        return st

    def vals(self, st):
        return {n: st.get(slotkey(s)) for n, s in self.user.items()}

    def run_main(self, st, commands=None):
        if commands is None:
            commands = self.compiler.file_main.commands
        st.run_cmds(commands)
        return st

    def literals_ok(self, st):
        return z3.And(*([mc.in_range(t) for t in st.literals] or
                        [z3.BoolVal(True)]))


def term(n):
    return REG.term_of(n)


def lit_term(e):
    """Value of a literal expression, through its public text form."""
    return REG.term_of(int(str(e.stringify())))


__all__ = ["Env", "AbsCmd", "AbsCond", "parse_src", "slotkey", "term",
           "lit_term", "MIN", "MAX", "O", "cmds", "Error", "ErrorType",
           "SymInt", "mc", "z3", "boolean_mod", "integer_mod", "repo"]
