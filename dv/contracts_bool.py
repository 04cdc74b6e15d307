"""Contracts of the boolean expression code (C03)."""
from .holes import *
from .holes import Env
from .contracts_int import PYCMP, getter
from acaciamc.mccmdgen.expr import ConstExpr

CMP = list(PYCMP)
Z = z3


def begin(H, **cfg):
    env = Env(H, **cfg)
    for n in "ij":
        env.int_var(n)
    for n in "pqr":
        env.bool_var(n)
    return env


def istrue(v):
    return v == 1


def bget(g, env, n):
    return g(slotkey(env.user[n])) == 1


def int_operand(env, H, nm, kind):
    if kind == "lit":
        t = lit_term(env.int_lit(nm))
        return lambda g: t
    if kind in "ij":
        env.bind(nm, O.IntVar(env.user[kind]))
        return lambda g: g(slotkey(env.user[kind]))
    return env.int_group(nm, (("i",), ("j",)))[1]


def bool_operand(env, H, nm, kind):
    """Bind `nm` to a boolean expression of the given class; returns its
    denotation."""
    if kind in ("True", "False"):
        env.bind(nm, O.BoolLiteral(kind == "True"))
        return lambda g: z3.BoolVal(kind == "True")
    if kind in ("p", "q"):
        env.bind(nm, O.BoolVar(env.user[kind]))
        return lambda g: bget(g, env, kind)
    if kind in ("notp", "notq"):
        env.bind(nm, env.visit_expr("not %s" % kind[-1]))
        return lambda g: z3.Not(bget(g, env, kind[-1]))
    if kind in ("abs", "absr"):
        return env.abs_bool(nm, ("i", "p"))[1]
    if kind == "cmpc":   # ScbMatchesCompare, any operator, any literal
        op = H.choose(nm + ".op", CMP)
        k = lit_term(env.int_lit(nm + "_k"))
        env.bind(nm, env.visit_expr("i %s %s_k" % (op, nm)))
        return lambda g: PYCMP[op](g(slotkey(env.user["i"])), k)
    if kind == "cmpge":
        k = lit_term(env.int_lit(nm + "_k"))
        env.bind(nm, env.visit_expr("i >= %s_k" % nm))
        return lambda g: g(slotkey(env.user["i"])) >= k
    if kind == "cmpv":   # IntCompare
        op = H.choose(nm + ".op", ["==", "!=", "<", ">="])
        env.bind(nm, env.visit_expr("i %s j" % op))
        return lambda g: PYCMP[op](g(slotkey(env.user["i"])),
                                   g(slotkey(env.user["j"])))
    if kind == "eqb":    # ScbEqualCompare
        inv = H.choose(nm + ".inv", ["==", "!="])
        env.bind(nm, env.visit_expr("p %s q" % inv))
        return lambda g: PYCMP[inv](bget(g, env, "p"), bget(g, env, "q"))
    if kind in ("wild", "notwild"):
        # arbitrary conjunction: abstract condition and a range of `i`
        a = env.abs_bool(nm + "_a", ("j",))[1]
        lo = lit_term(env.int_lit(nm + "_lo"))
        hi = lit_term(env.int_lit(nm + "_hi"))
        src = "%s_a and i >= %s_lo and i <= %s_hi" % (nm, nm, nm)
        if kind == "notwild":
            src = "not (%s)" % src
        env.bind(nm, env.visit_expr(src))

        def den(g):
            i = g(slotkey(env.user["i"]))
            r = z3.And(a(g), i >= lo, i <= hi)
            return z3.Not(r) if kind == "notwild" else r
        return den
    raise KeyError(kind)


BK = ["True", "False", "p", "q", "notp", "abs", "cmpge", "cmpv", "eqb",
      "wild", "notwild"]
BK_ALL = BK + ["cmpc"]


def frame(H, env, st0, st, changed, label=""):
    for n, v in env.vals(st0).items():
        now = env.vals(st)[n]
        if n in changed:
            want = changed[n]
            if z3.is_bool(want):
                want = z3.If(want, z3.IntVal(1), z3.IntVal(0))
            H.prove(label + "post:" + n, now == want, info="value of " + n)
        else:
            H.prove(label + "frame:" + n, now == v,
                    info="%s must not change" % n)
    H.prove(label + "literals-in-range", env.literals_ok(st),
            info="literal outside the 32-bit range in a command")


def check(H, env, err, spec):
    H.prove("accepted", err is None, info=str(err))
    if err is not None:
        return
    st = env.state()
    st0 = st.copy()
    env.run_main(st)
    H.cover()
    frame(H, env, st0, st, spec(getter(st0)))


def vc_store(H):
    """t = x for every class of boolean x and every aliasing of t."""
    k = H.choose("x", BK_ALL)
    env = begin(H)
    d = bool_operand(env, H, "x", k)
    t = H.choose("target", ["r", "p"])
    err = env.visit("%s = x\n" % t)
    check(H, env, err, lambda g: {t: d(g)})


def vc_not(H):
    k = H.choose("x", BK_ALL)
    env = begin(H)
    d = bool_operand(env, H, "x", k)
    t = H.choose("target", ["r", "p"])
    err = env.visit("%s = not x\n" % t)
    check(H, env, err, lambda g: {t: z3.Not(d(g))})


def vc_notnot(H):
    k = H.choose("x", BK)
    env = begin(H)
    d = bool_operand(env, H, "x", k)
    t = H.choose("target", ["r", "p"])
    err = env.visit("%s = not (not x)\n" % t)
    check(H, env, err, lambda g: {t: d(g)})


def vc_andor(H):
    """x and y / x or y for every pair of classes (the left operand `wild`
    is the inductive hypothesis for longer operand lists)."""
    op = H.choose("op", ["and", "or"])
    k1 = H.choose("x", BK)
    k2 = H.choose("y", BK_ALL)
    env = begin(H)
    d1 = bool_operand(env, H, "x", k1)
    d2 = bool_operand(env, H, "y", k2)
    t = H.choose("target", ["r", "p"])
    err = env.visit("%s = x %s y\n" % (t, op))
    f = z3.And if op == "and" else z3.Or
    check(H, env, err, lambda g: {t: f(d1(g), d2(g))})


def vc_and3(H):
    """Three operands (element-wise processing of the operand list)."""
    op = H.choose("op", ["and", "or"])
    ks = ["True", "notp", "abs", "cmpge", "notwild", "eqb"]
    k1 = H.choose("x", ["wild", "p"])
    k2, k3 = (H.choose(n, ks) for n in "yz")
    env = begin(H)
    ds = [bool_operand(env, H, n, k) for n, k in zip("xyz", (k1, k2, k3))]
    err = env.visit("p = x %s y %s z\n" % (op, op))
    f = z3.And if op == "and" else z3.Or
    check(H, env, err, lambda g: {"p": f(*[d(g) for d in ds])})


IK = ["lit", "i", "j", "grp"]


def vc_compare(H):
    """x op y on integers of every class."""
    op = H.choose("op", CMP)
    k1, k2 = H.choose("x", IK), H.choose("y", IK)
    if k1 == "lit" and k2 == "lit":
        return  # C02: vc_fold_compare
    env = begin(H)
    d1, d2 = int_operand(env, H, "x", k1), int_operand(env, H, "y", k2)
    neg = H.choose("neg", ["", "not "])
    err = env.visit("r = %s(x %s y)\n" % (neg, op))

    def spec(g):
        v = PYCMP[op](d1(g), d2(g))
        return {"r": z3.Not(v) if neg else v}
    check(H, env, err, spec)


def vc_chain(H):
    """x op1 y op2 z is (x op1 y) and (y op2 z)."""
    op1 = H.choose("op1", CMP)
    op2 = H.choose("op2", CMP)
    k1, k2, k3 = (H.choose(n, ks) for n, ks in
                  zip("xyz", (["lit", "i"], ["lit", "j", "grp"],
                              ["lit", "i"])))
    env = begin(H)
    d = [int_operand(env, H, n, k) for n, k in zip("xyz", (k1, k2, k3))]
    try:
        err = env.visit("r = x %s y %s z\n" % (op1, op2))
    except Error as e:
        err = e
    check(H, env, err, lambda g: {"r": z3.And(
        PYCMP[op1](d[0](g), d[1](g)), PYCMP[op2](d[1](g), d[2](g)))})


def vc_booleq(H):
    """Boolean == and !=: whatever is accepted is correct; operands that
    are both variables, negated variables, comparisons, literals are
    accepted."""
    op = H.choose("op", ["==", "!="])
    k1, k2 = H.choose("x", BK), H.choose("y", BK)
    env = begin(H)
    d1, d2 = bool_operand(env, H, "x", k1), bool_operand(env, H, "y", k2)
    err = env.visit("r = x %s y\n" % op)
    check(H, env, err, lambda g: {"r": PYCMP[op](d1(g), d2(g))})


def vc_int_of_bool(H):
    """int(b) is 1 or 0."""
    k = H.choose("x", BK_ALL)
    env = begin(H)
    d = bool_operand(env, H, "x", k)
    err = env.visit("j = int(x)\n")

    def spec(g):
        return {"j": z3.If(d(g), z3.IntVal(1), z3.IntVal(0))}
    check(H, env, err, spec)


CONTRACTS = [vc_store, vc_not, vc_notnot, vc_andor, vc_and3, vc_compare,
             vc_chain, vc_booleq, vc_int_of_bool]

for _f in (vc_andor, vc_and3, vc_booleq, vc_chain, vc_compare):
    _f.shards = 16
