"""Contracts of the integer expression code (C01 runtime arithmetic,
C02 constant folding, part of C05 assignment)."""
from .holes import *
from .holes import Env
from acaciamc.mccmdgen.expr import ConstExpr
from .sym import lift

OPS = ["+", "-", "*", "/", "%"]
KINDS = ["lit", "a", "b", "grp1", "grp2"]
KINDS_RHS = ["lit", "a", "b", "grp1", "grp2"]


def operand(env, H, nm, kind):
    """Bind name `nm` to an int expression; returns denotation."""
    if kind == "lit":
        e = env.int_lit(nm)
        t = lit_term(e)
        return lambda get: t
    if kind in ("a", "b"):
        e = O.IntVar(env.user[kind])
        env.bind(nm, e)
        return lambda get: get(slotkey(env.user[kind]))
    if kind == "tmp":
        e = O.IntVar(env.user["a"])
        e.is_temporary = True
        env.bind(nm, e)
        return lambda get: get(slotkey(env.user["a"]))
    if kind == "grp1":
        return env.int_group(nm, (("a",),))[1]
    if kind == "grp2":
        return env.int_group(nm, (("a",), ("b",)))[1]
    if kind == "grp3":
        return env.int_group(nm, ((), ("b",), ("a", "b")))[1]
    raise KeyError(kind)


def zspec(op, a, b):
    return mc.m_op(op + "=", a, b)


def exact(op, a, b):
    """(exact mathematical result, defined) of a constant operation."""
    if op == "+":
        return a + b, z3.BoolVal(True)
    if op == "-":
        return a - b, z3.BoolVal(True)
    if op == "*":
        return a * b, z3.BoolVal(True)
    if op == "/":
        return mc.zdiv(a, b), b != 0
    return mc.zmod(a, b), b != 0


def check_state(H, env, st0, st, changed, label=""):
    """Frame: every user variable not in `changed` (name->term) keeps its
    value, those in `changed` have the specified value."""
    for n, v in env.vals(st0).items():
        now = env.vals(st)[n]
        if n in changed:
            H.prove(label + "post:" + n, now == changed[n],
                    info="final value of %s" % n)
        else:
            H.prove(label + "frame:" + n, now == v,
                    info="%s must not change" % n)
    H.prove(label + "literals-in-range", env.literals_ok(st),
            info="command literal outside the 32-bit range")


def begin(H, **cfg):
    env = Env(H, **cfg)
    env.int_var("a")
    env.int_var("b")
    env.int_var("c")
    return env


def getter(st):
    return lambda k: st.get((k[0], k[1]))


def run_and_check(H, env, spec_of_state):
    st = env.state()
    st0 = st.copy()
    env.run_main(st)
    H.cover()
    check_state(H, env, st0, st, spec_of_state(getter(st0)))
    return st0, st


def expect_accepted(H, err, label="accepted"):
    H.prove(label, err is None,
            info="rejected: %s" % (err and (err.type, err.kwds)
                                   if hasattr(err, "kwds") else err))
    return err is None


def vc_binop(H):
    """visit_Assign(t = x op y), visit_BinOp and every add/sub/mul/div/mod
    and radd/... of the int expression classes: the target receives
    x op y on 32-bit integers, nothing else changes."""
    op = H.choose("op", OPS)
    k1 = H.choose("left", KINDS)
    k2 = H.choose("right", KINDS)
    if k1 == "lit" and k2 == "lit":
        return  # see vc_fold
    env = begin(H)
    d1, d2 = operand(env, H, "x", k1), operand(env, H, "y", k2)
    tgt = H.choose("target", ["c", "a", "b"])
    err = env.visit("%s = x %s y\n" % (tgt, op))
    if not expect_accepted(H, err):
        return
    run_and_check(H, env, lambda g: {tgt: zspec(op, d1(g), d2(g))})


def vc_nested(H):
    """Two levels: (x op1 y) op2 z and z op2 (x op1 y): groups built by the
    real code (not abstract ones) satisfy the contract that abstract groups
    assume."""
    op1 = H.choose("op1", OPS)
    op2 = H.choose("op2", ["+", "-", "/"])
    k1 = H.choose("x", ["lit", "a", "grp2"])
    k2 = H.choose("y", ["b", "lit", "grp1"])
    k3 = H.choose("z", ["lit", "a", "grp2"])
    if k1 == "lit" and k2 == "lit":
        return
    side = H.choose("side", ["l", "r"])
    env = begin(H)
    d1, d2, d3 = (operand(env, H, n, k)
                  for n, k in zip("xyz", (k1, k2, k3)))
    tgt = H.choose("target", ["a", "b"])
    src = "%s = (x %s y) %s z\n" if side == "l" else "%s = z %s (x %s y)\n"
    if side == "l":
        err = env.visit("%s = (x %s y) %s z\n" % (tgt, op1, op2))
    else:
        err = env.visit("%s = z %s (x %s y)\n" % (tgt, op2, op1))
    if not expect_accepted(H, err):
        return

    def spec(g):
        i = zspec(op1, d1(g), d2(g))
        o = d3(g)
        return {tgt: zspec(op2, i, o) if side == "l" else zspec(op2, o, i)}
    run_and_check(H, env, spec)


def vc_unary(H):
    """Unary + and -."""
    op = H.choose("op", ["+", "-"])
    k = H.choose("operand", KINDS)
    env = begin(H)
    d = operand(env, H, "x", k)
    tgt = H.choose("target", ["c", "a", "b"])
    err = env.visit("%s = %sx\n" % (tgt, op))
    if err is not None:
        ok = k == "lit" and op == "-"
        H.prove("accepted", z3.And(z3.BoolVal(ok),
                                   d(None) == MIN) if ok else False,
                info="%s" % err)
        return

    def spec(g):
        v = d(g)
        return {tgt: v if op == "+" else mc.wrap(-v)}
    run_and_check(H, env, spec)


def vc_augassign(H):
    """t op= x for every operator and every kind of x, including x that
    mentions t itself."""
    op = H.choose("op", OPS)
    k = H.choose("value", KINDS)
    env = begin(H)
    d = operand(env, H, "x", k)
    tgt = H.choose("target", ["c", "a", "b"])
    err = env.visit("%s %s= x\n" % (tgt, op))
    if not expect_accepted(H, err):
        return
    run_and_check(H, env, lambda g: {
        tgt: zspec(op, g(slotkey(env.user[tgt])), d(g))})


def vc_assign(H):
    """t = x, t := x (new storage)."""
    k = H.choose("value", KINDS)
    form = H.choose("form", ["assign", "auto", "def"])
    env = begin(H)
    d = operand(env, H, "x", k)
    if form == "assign":
        tgt = H.choose("target", ["c", "a", "b"])
        src = "%s = x\n" % tgt
    else:
        tgt = "n"
        src = "n := x\n" if form == "auto" else "n: int = x\n"
    err = env.visit(src)
    if not expect_accepted(H, err):
        return
    if tgt == "n":
        e = env.gen.ctx.scope.lookup("n")
        H.prove("new-storage", all(e.slot != s for s in env.user.values()))
        env.user["n"] = e.slot
    run_and_check(H, env, lambda g: {tgt: d(g)})


def vc_fold(H):
    """Constant folding: x op y on literals is the exact result, equal to
    what the runtime computes; an error is raised only if the exact result
    is not representable or undefined."""
    op = H.choose("op", OPS)
    env = begin(H)
    d1, d2 = operand(env, H, "x", "lit"), operand(env, H, "y", "lit")
    x, y = d1(None), d2(None)
    want, defined = exact(op, x, y)
    try:
        r = env.visit_expr("x %s y" % op)
    except Error as e:
        H.prove("error-justified", z3.Or(
            z3.Not(defined), z3.Not(mc.in_range(want))), info=str(e.type))
        return
    H.cover()
    H.prove("constant", isinstance(r, ConstExpr))
    v = lit_term(r)
    H.prove("defined", defined)
    lemmas = []
    if op in "/%":
        # quotient/remainder pair of the folded value
        q, rr = (v, x - v * y) if op == "/" else (fold_quot(H, x, y, v), v)
        H.prove("value", mc.is_trunc(x, y, q, rr))
        H.assume(mc.is_trunc(x, y, q, rr))  # just proved
        lemmas = [mc.trunc_unique(x, y, q, rr, mc.TD(x, y), mc.TM(x, y))]
    else:
        H.prove("value", v == want)
    H.prove("same-as-runtime", v == zspec(op, x, y), reveal=lemmas)
    H.assume(v == zspec(op, x, y))  # just proved
    # storing the folded constant
    env.bind("z", r)
    env.visit("c = z\n")
    run_and_check(H, env, lambda g: {"c": zspec(op, x, y)})


def fold_quot(H, x, y, v):
    """A witness for the quotient of a remainder operation: the floor
    quotient of |x| by |y| (with its sign) as computed by the folding
    code, or an ad hoc one for other implementations."""
    for (ta, tb, (q, r)) in H.divs.values():
        qt = lift(q)
        for cand in (qt, -qt, qt + 1, -qt - 1, -qt + 1, qt - 1):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*H.pc)
            s.add(z3.Not(x == cand * y + v))
            if s.check() == z3.unsat:
                return cand
    return mc.TD(x, y)


def vc_lemma_trunc(H):
    """Lemma: truncating division with remainder is unique."""
    a, b, q1, r1, q2, r2 = (H.fresh_term(n) for n in
                            ("a", "b", "q1", "r1", "q2", "r2"))
    H.cover()
    k = q1 - q2
    # (q1-q2)*b = r2-r1 and |r2-r1| < |b| exclude |q1-q2| >= 1
    H.assume(z3.And(b != 0, mc.is_trunc(a, b, q1, r1),
                    mc.is_trunc(a, b, q2, r2)))
    H.prove("diff", k * b == r2 - r1)
    H.assume(k * b == r2 - r1)
    H.prove("bound", mc.zabs(r2 - r1) < mc.zabs(b))
    for name, c in (("pos", k >= 1), ("neg", k <= -1)):
        for bn, bc in (("bpos", b > 0), ("bneg", b < 0)):
            sk = k if name == "pos" else -k
            sb = b if bn == "bpos" else -b
            # (sk-1)*sb >= 0
            H.prove("mono-%s-%s" % (name, bn), z3.Implies(
                z3.And(c, bc), (sk - 1) * sb >= 0))
            H.assume(z3.Implies(z3.And(c, bc), (sk - 1) * sb >= 0))
    H.prove("quotient", q1 == q2)
    H.assume(q1 == q2)
    H.prove("remainder", r1 == r2)


def vc_fold_unary(H):
    op = H.choose("op", ["+", "-"])
    env = begin(H)
    x = operand(env, H, "x", "lit")(None)
    want = x if op == "+" else -x
    try:
        r = env.visit_expr("%sx" % op)
    except Error:
        H.prove("error-justified", z3.Not(mc.in_range(want)))
        return
    H.cover()
    H.prove("value", lit_term(r) == want)


PYCMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b,
         "<": lambda a, b: a < b, ">": lambda a, b: a > b,
         "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def vc_fold_compare(H):
    op = H.choose("op", list(PYCMP))
    env = begin(H)
    x = operand(env, H, "x", "lit")(None)
    y = operand(env, H, "y", "lit")(None)
    r = env.visit_expr("x %s y" % op)
    H.cover()
    H.prove("constant", isinstance(r, ConstExpr))
    v = r.stringify() == "true"
    H.prove("value", z3.BoolVal(v) == PYCMP[op](x, y))


def vc_literal(H):
    """A literal of any mathematical value: accepted iff representable."""
    n = H.int("n")
    t = term(n)
    try:
        e = O.IntLiteral(n)
    except Error:
        H.prove("rejected-only-out-of-range", z3.Not(mc.in_range(t)))
        return
    H.cover()
    H.prove("accepted-only-in-range", mc.in_range(t))
    H.prove("text", lit_term(e) == t)


def vc_intop(H):
    """Operation contract of every IntOp class (closure of the abstract
    group contract): run on target t it changes only t, and its result
    does not depend on a slot it does not report as read."""
    which = H.choose("class", ["IntSetConst", "IntOpConst", "IntOpVar",
                               "IntSetVar", "IntOpSelf", "IntCmdOp",
                               "IntRandom"])
    env = begin(H)
    I = integer_mod
    a, b, c = (env.user[x] for x in "abc")
    priv = None
    if which == "IntSetConst":
        op = I.IntSetConst(H.int("k", MIN, MAX))
    elif which == "IntOpConst":
        op = I.IntOpConst(H.choose("op", OPS), H.int("k", MIN, MAX))
    elif which == "IntOpVar":
        op = I.IntOpVar(H.choose("op", OPS + ["<", ">", "="]), a)
    elif which == "IntSetVar":
        op = I.IntSetVar(a)
    elif which == "IntOpSelf":
        op = I.IntOpSelf(H.choose("op", OPS + ["="]))
    elif which == "IntRandom":
        lo, hi = H.int("lo", MIN, MAX), H.int("hi", MIN, MAX)
        H.assume(term(lo) <= term(hi))
        op = I.IntRandom(lo, hi)
    else:
        priv = env.compiler.allocate()
        e, _ = env.int_group("g", (("a",), ("b",)))
        op = I.IntCmdOp(e.export(O.IntVar(priv), env.compiler))
        H.prove("reports-assign", bool(op.scb_did_assign(priv)))
    tgt = c
    cs = op.resolve_full(O.IntVar(tgt), env.compiler)
    st = env.state()
    st0 = st.copy()
    st.run_cmds(cs)
    H.cover()
    for n, s in env.user.items():
        if s != tgt:
            H.prove("frame:" + n, st.get(slotkey(s)) == st0.get(slotkey(s)))
    H.prove("literals-in-range", env.literals_ok(st))
    final = st.get(slotkey(tgt))
    for n, s in env.user.items():
        if s == tgt or op.scb_did_read(s):
            continue
        old = st0.get(slotkey(s))
        fresh = H.fresh_term("other_" + n, MIN, MAX)
        H.prove("independent:" + n,
                z3.substitute(final, (old, fresh)) == final,
                info="unreported read of %s" % n)
    if which in ("IntOpVar", "IntSetVar"):
        pass


CONTRACTS_C01 = [vc_binop, vc_nested, vc_unary, vc_augassign, vc_assign,
                 vc_intop]
CONTRACTS_C02 = [vc_lemma_trunc, vc_literal, vc_fold, vc_fold_unary, vc_fold_compare]

for _f in (vc_binop, vc_nested, vc_augassign):
    _f.shards = 16
