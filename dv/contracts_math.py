"""Contracts of the math module (C21)."""
from .scen import *
from acaciamc.constants import INT_MAX as CMAX

V = {"i": "int", "j": "int", "k": "int"}
OPERANDS = ["L1", "L2", "i", "j", "-j", "i * 2", "aint('e', i, j)",
            "j - k * 2"]


def q(s):
    return s.replace("'", '"')


def lits(src):
    return {n: None for n in ("L1", "L2", "L3") if n in src}


def vc_minmax(H):
    """math.min / math.max of one to three operands of every class, into a
    variable that may itself be an operand, into a new variable, inside a
    larger expression, at compile time."""
    f = H.choose("f", ["min", "max"])
    n = H.choose("n", [1, 2, 3])
    ops = [H.choose("op%d" % k, OPERANDS if n < 3 else
                    ["L1", "L2", "i", "j + 1", "aint('e', i, j)"])
           for k in range(n)]
    if n == 3 and H.choose("third literal", [False, True]):
        ops[2] = "L3"
    use = H.choose("use", ["i = %s", "v := %s\nk = v", "i += %s * j",
                           "i = j - %s"] if n < 3 else
                   ["i = %s", "k = %s"])
    e = "%s(%s)" % (f, ", ".join(ops))
    src = "import math\n" + use % ("math." + e) + "\n"
    # compile-time folding of * and the like may leave 32 bits: literals
    # alone under `*` are C02's business
    if "*" in use and all(o.startswith("L") for o in ops):
        use = "i = %s"
        src = "import math\n" + use % ("math." + e) + "\n"
    scenario(H, q(src), q((use % e).replace(":=", "=")), V, lits(src))


def vc_minmax_const(H):
    """At compile time (const)."""
    f = H.choose("f", ["min", "max"])
    n = H.choose("n", [1, 2, 3])
    e = "%s(%s)" % (f, ", ".join(["L1", "L2", "L3"][:n]))
    src = "import math\nconst c = math.%s\ni = c\n" % e
    scenario(H, src, "i = " + e, V, lits(src))


def vc_moddiv(H):
    """math.mod and math.floordiv: Python's % and // (floor), for variables,
    literals and compound operands of either sign."""
    f = H.choose("f", ["mod", "floordiv"])
    a = H.choose("a", ["j", "L1", "aint('e', i, k)"])
    b = H.choose("b", ["k", "L2", "aint('h', i, j)"])
    if a == "L1" and b == "L2":
        b = "k"
    src = "import math\ni = math.%s(%s, %s)\n" % (f, a, b)
    # Truncating division and remainder (d, r) of a by b, C semantics; the
    # floor versions are defined from them by the textbook correction.
    spec = {"mod": """
a = %s
b = %s
require(b != 0)
r = a %% b
i = r
if r != 0 and (r > 0) != (b > 0):
    i = r + b
""", "floordiv": """
a = %s
b = %s
require(b != 0)
r = a %% b
d = a / b
i = d
if r != 0 and (r > 0) != (b > 0):
    i = d - 1
"""}[f] % (a, b)
    r = scenario(H, q(src), q(spec), V, lits(src), decl=True)


def vc_moddiv_lemma(H):
    """The textbook correction is the floor division and its remainder."""
    a = H.int("a", MIN, MAX)
    b = H.int("b", MIN, MAX)
    ta, tb = (int_term(a), int_term(b))
    d, m = z3.Int("d"), z3.Int("m")
    # truncating division, as the characteristic properties
    H.assume(tb != 0)
    H.assume(ta == d * tb + m)
    H.assume(z3.If(ta >= 0, m >= 0, m <= 0))
    H.assume(z3.And(m < z3.If(tb > 0, tb, -tb), -m < z3.If(tb > 0, tb, -tb)))
    corr = z3.And(m != 0, (m > 0) != (tb > 0))
    fm = z3.If(corr, m + tb, m)
    fd = z3.If(corr, d - 1, d)
    H.cover()
    H.prove("mod-range", z3.If(tb > 0, z3.And(fm >= 0, fm < tb),
                               z3.And(fm <= 0, fm > tb)))
    H.prove("mod-congruent", ta == fd * tb + fm)
    H.prove("no-overflow", mc.in_range(fm))


def int_term(x):
    from .sym import REG
    return REG.term_of(x)


def vc_const_moddiv(H):
    """On constants: Python's % and // exactly; zero is rejected; a quotient
    outside 32 bits is rejected."""
    f = H.choose("f", ["mod", "floordiv"])
    a, b = H.int("L1", MIN, MAX), H.int("L2", MIN, MAX)
    r = compile_scenario(H, "import math\nconst c = math.%s(L1, L2)\n"
                         "i = c\n" % f, V, {"L1": a, "L2": b})
    ta, tb = int_term(a), int_term(b)
    if r.err is not None:
        H.prove("rejected-only-if-invalid", z3.Or(tb == 0, z3.And(
            ta == MIN, tb == -1, f == "floordiv")), info=str(r.err))
        return
    H.prove("zero-rejected", tb != 0)
    st = init_state(H, r.files, {}, set())
    st.call("main", None)
    v = st.get(slotkey(r.case.observed["i"].slot))
    H.cover()
    m = z3.If(tb > 0, ta % tb, -((-ta) % (-tb)))
    if f == "mod":
        H.prove("value", v == m)
    else:
        H.prove("value", v == z3.If(tb > 0, ta / tb, (-ta) / (-tb)))
    H.prove("literals", z3.And(*[mc.in_range(t) for t in st.literals]))


def vc_randint(H):
    """randint(a, b): one uniform draw between the bounds given."""
    use = H.choose("use", ["i = %s", "i += %s", "v := %s\ni = v"])
    src = "import math\n" + use % "math.randint(L1, L2)" + "\n"
    a, b = H.int("L1", MIN, MAX), H.int("L2", MIN, MAX)
    H.assume(int_term(a) <= int_term(b))
    r = compile_scenario(H, src, V, {"L1": a, "L2": b})
    H.prove("accepted", r.err is None, info=str(r.err))
    if r.err is not None:
        return
    st = init_state(H, r.files, {}, set())
    i0 = st.get(slotkey(r.case.observed["i"].slot))
    j0 = st.get(slotkey(r.case.observed["j"].slot))
    st.call("main", None)
    H.prove("one draw", st.nrand == 1, info="%d draws" % st.nrand)
    v = st.get(slotkey(r.case.observed["i"].slot))
    t = mc.RAND(z3.IntVal(1), int_term(a), int_term(b))
    want = mc.m_op("+=", i0, t) if "+=" in use else t
    H.cover()
    H.prove("value", v == want, info="a draw between the bounds")
    H.prove("frame", st.get(slotkey(r.case.observed["j"].slot)) == j0)


# ------------------------------------------------------------------ pow
class ExpState(mc.SymState):
    """Besides the scores, tracks scores known to be g^n (32-bit product,
    a commutative monoid) as the exponent n."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.exps = {}
        self.loop = None
        self.writes = set()

    def _up(self, slot, e, g):
        k = self.key(slot)
        if g is not None and not z3.is_true(g):
            old = self.exps.get(k)
            if e is None and old is None:
                return
            self.nu = getattr(self, "nu", 0) + 1
            # not a power of g: an indeterminate that must not matter
            u = z3.Int("unknown%d%s" % (self.nu, self.prefix))
            e = z3.If(g, u if e is None else e, u if old is None else old)
        if e is None:
            self.exps.pop(k, None)
        else:
            self.exps[k] = e

    def exec(self, c, g=None):
        k = c[0]
        if k == "set":
            one = c[2] == 1
            super().exec(c, g)
            self._up(c[1], z3.IntVal(0) if one else None, g)
        elif k in ("add", "remove", "random"):
            super().exec(c, g)
            self._up(c[1], None, g)
        elif k == "op":
            _, a, op, b = c
            ea, eb = self.exps.get(self.key(a)), self.exps.get(self.key(b))
            super().exec(c, g)
            if op == "=":
                self._up(a, eb, g)
            elif op == "*=":
                self._up(a, None if ea is None or eb is None else ea + eb,
                         g)
            elif op == "><":
                self._up(a, eb, g)
                self._up(b, ea, g)
            else:
                self._up(a, None, g)
        else:
            super().exec(c, g)


EXPS = list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000, 1023,
                             65535, 65537, 2 ** 31 - 1, 2 ** 30, 123456789]


def vc_pow_const(H):
    """math.pow with a constant exponent: the product of that many factors
    (proved in the exponent monoid, hence for every base)."""
    e = H.choose("exp", EXPS)
    base = H.choose("base", ["j", "i", "aint('e', j, k)"])
    use = H.choose("use", ["i = %s", "v := %s\ni = v"])
    src = "import math\n" + use % ("math.pow(%s, %d)" % (base, e)) + "\n"
    r = compile_scenario(H, q(src), V)
    H.prove("accepted", r.err is None, info=str(r.err))
    if r.err is not None:
        return
    st = ExpState(H, files=r.files)
    obs = {n: slotkey(x.slot) for n, x in r.case.observed.items()}
    scen_absops(st, base, obs)
    j0 = st.get(obs["j"])
    if base in obs:
        st.exps[st.key(obs[base])] = z3.IntVal(1)
    st.call("main", None)
    if base != "j" or True:
        H.prove("frame", st.get(obs["j"]) == j0)
    got = st.exps.get(st.key(obs["i"]))
    H.cover()
    if e == 0:
        H.prove("value", st.get(obs["i"]) == 1)
    elif got is None:
        raise Unsupported("not a product of powers of the base")
    else:
        H.prove("exponent", got == e, info="pow(x, %d)" % e)


def scen_absops(st, base, obs):
    from . import scen
    st.absops["act"] = scen.act_hook

    def hook(state, g, args):
        scen.aint_hook(state, g, args)
        tgt = tuple(args[-1].split("|"))
        state._up(tgt, z3.IntVal(1), g)
    st.absops["aint"] = hook
    st.abstest = scen.abool_test


def vc_pow_lit(H):
    """Literal base and exponent: the exact power, or rejected."""
    b = H.choose("base", [0, 1, -1, 2, -2, 3, -3, 7, 10, 46340, 46341,
                          -46341, 65536, MAX, MIN])
    e = H.choose("exp", [-2, -1, 0, 1, 2, 3, 5, 9, 10, 15, 16, 30, 31, 32,
                         33])
    r = compile_scenario(H, "import math\ni = math.pow(%s, %d)\n" % (
        b if b != MIN else "-2147483647 - 1", e), V)
    ok = e >= 0 and MIN <= b ** e <= MAX
    H.prove("accepted-iff-defined", (r.err is None) == ok, info="%s %s" % (
        (b, e), r.err))
    if r.err is None:
        st = init_state(H, r.files, {}, set())
        st.call("main", None)
        H.prove("value", st.get(slotkey(r.case.observed["i"].slot))
                == b ** e)


def vc_pow_var(H):
    """math.pow with a variable exponent y >= 0: loop invariant
    x^y * t = X^Y (in the exponent monoid), variant y."""
    base = H.choose("base", ["j", "L1", "aint('e', j, k)"])
    ex = H.choose("exp", ["k", "i", "aint('h', i, k)"])
    src = "import math\nfrom _math import pow as powf\n" \
        "i = math.pow(%s, %s)\n" % (base, ex)
    opt = H.choose("optimizer", [False, True])
    r = compile_scenario(H, q(src), V, {n: H.int(n, MIN, MAX)
                                        for n in lits(src)},
                         cfg=dict(optimizer=opt), observe=["powf"])
    H.prove("accepted", r.err is None, info=str(r.err))
    if r.err is not None:
        return
    f = r.case.observed.pop("powf")
    xs, ys = slotkey(f.arg_vars["x"].slot), slotkey(f.arg_vars["y"].slot)
    loops = [p for p, t in r.files.items()
             if any(c.endswith("function " + p) for c in t)]
    if len(loops) != 1:
        raise Unsupported("%d loops in math.pow" % len(loops))
    obs = {n: slotkey(x.slot) for n, x in r.case.observed.items()}
    loop = loops[0]
    written = writes_of(r.files, loop)

    def fresh():
        st = ExpState(H, files=r.files)
        return st

    # ---- the caller, the loop replaced by its contract
    st = fresh()
    st.prefix = "m"
    scen_absops(st, base, obs)
    info = {}
    if base != "L1":
        pass
    Y = H.fresh_term("Y", 0, MAX)
    info["Y"] = Y

    def inv(s, tk):
        ex_, et = s.exps.get(s.key(xs)), s.exps.get(tk)
        if ex_ is None or et is None:
            return None
        y = s.get(ys)
        return z3.And(y >= 1, et + ex_ * y == Y)

    def hook(s, g):
        def zero(e):
            sv = z3.Solver()
            sv.set("timeout", 2000)
            sv.add(z3.BoolVal(True) if g is None else g, e != 0)
            return sv.check() == z3.unsat
        cand = [k for k, e in s.exps.items() if k != s.key(xs)
                and k in written and zero(e)]
        info["cands"] = cand
        info["entry"] = {k: inv(s, k) for k in cand}
        gg = z3.BoolVal(True) if g is None else g
        info["guard"] = gg
        info["notone"] = s.get(ys) != 1
        for k in written:
            t = H.fresh_term("after %s" % k, MIN, MAX)
            slot = tuple(k.split(" "))
            s.put(slot, t, g)
            s.exps[k] = z3.If(gg, H.fresh_term("exp after %s" % k),
                              s.exps.get(k, z3.IntVal(-1)))
        info["post"] = s
        for k in cand:
            pass
        tk = cand[0] if cand else None
        if tk is not None:
            H.assume(z3.Implies(gg, z3.And(inv(s, tk), s.get(ys) == 1)))
    st.calls[loop] = hook
    # the value of the base is the generator; the exponent is Y
    sets = {"j": lambda: st._up(obs["j"], z3.IntVal(1), None)}
    if base == "j":
        sets["j"]()
    if ex in obs:
        H.assume(st.get(obs[ex]) == Y)
    else:
        from .scen import aint_fun
        H.assume(aint_fun("h", 2)(st.get(obs["i"]), st.get(obs["k"])) == Y)

    class LitExp(dict):
        pass
    if base == "L1":
        lt = int_term(r.case.lits["L1"])
        old = st.exec

        def ex2(c, g=None):
            old(c, g)
            if c[0] == "set" and c[1] == xs:
                H.prove("base-bound", st.lit(c[2]) == lt)
                st._up(xs, z3.IntVal(1), g)
        st.exec = ex2
    # main up to the call of pow must not clobber; run everything
    st.call("main", None)
    if not info.get("cands"):
        raise Unsupported("loop of math.pow not recognised")
    tk = info["cands"][0]
    H.cover()
    H.prove("invariant-initially", z3.Implies(z3.And(
        info["guard"], info["notone"]), info["entry"][tk]))
    H.prove("entered-only-if-condition", z3.Implies(info["guard"],
                                                    info["notone"]))
    got = st.exps.get(st.key(obs["i"]))
    if got is None:
        raise Unsupported("result of math.pow not tracked")
    H.prove("result", z3.If(Y == 0, st.get(obs["i"]) == 1, got == Y))
    # ---- one iteration
    b = fresh()
    b.prefix = "b"
    a0, t0 = H.fresh_term("a0"), H.fresh_term("t0")
    b.exps[b.key(xs)], b.exps[tk] = a0, t0
    for k, v in constants_of(r.files).items():
        b.put(tuple(k.split(" ")), z3.IntVal(v))
    y0 = b.get(ys)
    H.assume(z3.And(inv(b, tk), y0 != 1))
    rec = {"g": z3.BoolVal(False)}

    def again(s, g):
        g = z3.BoolVal(True) if g is None else g
        iv = inv(s, tk)
        if iv is None:
            raise Unsupported("loop variables not tracked")
        H.prove("invariant-kept", z3.Implies(g, iv))
        H.prove("variant", z3.Implies(g, z3.And(s.get(ys) < y0,
                                                s.get(ys) >= 0)))
        H.prove("condition", z3.Implies(g, s.get(ys) != 1))
        for k in written:
            slot = tuple(k.split(" "))
            s.put(slot, H.fresh_term("again %s" % k, MIN, MAX), g)
            s.exps[k] = z3.If(g, H.fresh_term("exp again %s" % k),
                              s.exps.get(k, z3.IntVal(-1)))
        H.assume(z3.Implies(g, z3.And(inv(s, tk), s.get(ys) == 1)))
    b.calls[loop] = again
    b.run_texts(r.files[loop])
    iv = inv(b, tk)
    if iv is None:
        raise Unsupported("loop variables not tracked")
    H.prove("exit", z3.And(iv, b.get(ys) == 1))


def constants_of(files):
    """Scores written by exactly one command of the whole program, an
    unconditional `set` in main."""
    n, v = {}, {}
    for p, t in files.items():
        for line in t:
            c = mc.parse(line)
            for k in writes_of({"x": [line]}, "x"):
                n[k] = n.get(k, 0) + 1
                if p == "main" and c[0] == "set":
                    v[k] = int(c[2])
    return {k: v[k] for k in v if n[k] == 1}


def writes_of(files, path, seen=None):
    seen = set() if seen is None else seen
    out = set()
    if path in seen or path not in files:
        return out
    seen.add(path)

    def cmd(c):
        if c[0] in ("set", "add", "remove", "op", "random"):
            out.add("%s %s" % c[1])
            if c[0] == "op" and c[2] == "><":
                out.add("%s %s" % c[3])
        elif c[0] == "execute":
            cmd(c[2])
        elif c[0] == "function":
            out.update(writes_of(files, c[1], seen))
    for t in files[path]:
        cmd(mc.parse(t))
    return out


CONTRACTS = [vc_minmax, vc_minmax_const, vc_moddiv, vc_moddiv_lemma,
             vc_const_moddiv, vc_randint, vc_pow_const, vc_pow_lit,
             vc_pow_var]
vc_minmax.shards = 6
vc_pow_var.soft = True
vc_pow_const.shards = 2
vc_const_moddiv.shards = 1
