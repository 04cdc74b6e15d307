"""Contracts of the control-flow code (C04): visit_If, visit_While,
visit_For, statement sequencing."""
from .holes import *
from .contracts_int import getter
from .contracts_bool import begin, bool_operand, frame

Z = z3


def user_terms(vals):
    return [vals[u] for u in sorted(vals)]


def cond_hole(env, H, kind):
    """Returns (source text, effect(vals)->vals, denotation(get))."""
    if kind == "call":
        # evaluating the condition has an effect (a function call)
        eff = env.stmt("ev", ["j"], ret=None)
        p = Z.Function("B_ev", Z.IntSort(), Z.IntSort(), Z.BoolSort())
        res = env.compiler.allocate()
        old = env.absops["ev"]
        i, j = env.user["i"], env.user["j"]

        def hook(state, g, args):
            old(state, g, args)
            v = Z.If(p(state.get(slotkey(i)), state.get(slotkey(j))),
                     Z.IntVal(1), Z.IntVal(0))
            state.put(slotkey(res), v, g)
        env.absops["ev"] = hook
        r = O.BoolVar(res)
        r.is_temporary = True
        f = env.gen.ctx.scope.lookup("ev")
        impl = f.implementation

        def impl2(compiler, args, kwds):
            _, c = impl(compiler, args, kwds)
            return r, c
        env.bind("ev", O.BinaryFunction(impl2))
        neg = H.choose("neg", [False, True])
        src = "not ev()" if neg else "ev()"

        def den(get):
            t = p(get(slotkey(i)), get(slotkey(j)))
            return Z.Not(t) if neg else t
        return src, eff, den
    if kind == "orcall":
        e = cond_hole(env, H, "call")
        return "p or (%s)" % e[0], e[1], \
            lambda get: Z.Or(get(slotkey(env.user["p"])) == 1, e[2](get))
    den = bool_operand(env, H, "x", kind)
    src = "x"
    if kind == "abs" and H.choose("or", [False, True]):
        src = "x or q"
        return src, (lambda v: v), \
            lambda get: Z.Or(den(get), get(slotkey(env.user["q"])) == 1)
    return src, (lambda v: v), den


COND = ["True", "False", "p", "notp", "cmpge", "cmpv", "eqb", "abs",
        "wild", "notwild", "call", "orcall"]
BODY = ["empty", "s", "ss", "assign"]


def body_hole(env, H, nm, kind):
    """Source lines and effect of a branch."""
    if kind == "empty":
        return ["pass"], lambda v: v
    if kind == "s":
        f = env.stmt(nm, ["p", "i"])
        return [nm + "()"], f
    if kind == "ss":
        f = env.stmt(nm, ["p", "i"])
        g = env.stmt(nm + "2", ["q", "j"])
        return [nm + "()", nm + "2()"], lambda v: g(f(v))
    # real statements
    def eff(v):
        v = dict(v)
        v["p"] = Z.If(v["p"] == 1, Z.IntVal(0), Z.IntVal(1))
        v["i"] = mc.m_op("+=", v["i"], v["j"])
        return v
    return ["p = not p", "i += j"], eff


def vals_getter(env, vals):
    inv = {slotkey(s): n for n, s in env.user.items()}
    return lambda k: vals[inv[k]]


def ite(c, a, b):
    return {n: Z.If(c, a[n], b[n]) for n in a}


def compare_vals(H, env, st, want, label=""):
    now = env.vals(st)
    for n in want:
        H.prove(label + n, now[n] == want[n], info="value of %s" % n)
    H.prove(label + "literals-in-range", env.literals_ok(st), info="literal")


def vc_if(H):
    """visit_If: exactly the branch selected by the condition's value runs,
    once, for every class of condition, either branch empty or not, and
    branches that change what the condition depends on."""
    ck = H.choose("cond", COND)
    tk = H.choose("then", BODY)
    ek = H.choose("else", ["none"] + BODY)
    env = begin(H)
    src, ceff, cden = cond_hole(env, H, ck)
    tl, teff = body_hole(env, H, "s", tk)
    text = ["if %s:" % src] + ["    " + x for x in tl]
    if ek == "none":
        eeff = lambda v: v
    else:
        el, eeff = body_hole(env, H, "e", ek)
        text += ["else:"] + ["    " + x for x in el]
    err = env.visit("\n".join(text) + "\n")
    H.prove("accepted", err is None, info=str(err))
    if err is not None:
        return
    st = env.state()
    v0 = ceff(env.vals(st))
    c = cden(vals_getter(env, v0))
    want = ite(c, teff(v0), eeff(v0))
    env.run_main(st)
    H.cover()
    compare_vals(H, env, st, want)


def vc_elif(H):
    """if / elif / else chains and nested ifs."""
    k1 = H.choose("c1", ["p", "abs", "cmpge", "notwild", "call"])
    k2 = H.choose("c2", ["q", "notq", "cmpv"])
    form = H.choose("form", ["elif", "elifelse", "nested", "elif2"])
    env = begin(H)
    src, ceff, cden = cond_hole(env, H, k1)
    d2 = bool_operand(env, H, "y", k2)
    effs = [env.stmt("s%d" % n, ["p", "q", "i"]) for n in range(4)]
    text = {
        "elif": "if %s:\n    s0()\nelif y:\n    s1()\n",
        "elifelse": "if %s:\n    s0()\nelif y:\n    s1()\nelse:\n    s2()\n",
        "elif2": "if %s:\n    s0()\nelif y:\n    s1()\nelif p:\n    s2()\n"
                 "else:\n    s3()\n",
        "nested": "if %s:\n    s0()\n    if y:\n        s1()\n    s2()\n"
                  "else:\n    if y:\n        pass\n    else:\n        s3()\n",
    }[form]
    err = env.visit(text % src)
    H.prove("accepted", err is None, info=str(err))
    if err is not None:
        return
    st = env.state()
    v = ceff(env.vals(st))
    gv = lambda w: vals_getter(env, w)
    c1, c2 = cden(gv(v)), d2(gv(v))
    if form == "elif":
        want = ite(c1, effs[0](v), ite(c2, effs[1](v), v))
    elif form == "elifelse":
        want = ite(c1, effs[0](v), ite(c2, effs[1](v), effs[2](v)))
    elif form == "elif2":
        want = ite(c1, effs[0](v), ite(c2, effs[1](v), ite(
            v["p"] == 1, effs[2](v), effs[3](v))))
    else:
        a = effs[0](v)
        a = effs[2](ite(d2(gv(a)), effs[1](a), a))
        want = ite(c1, a, ite(c2, v, effs[3](v)))
    env.run_main(st)
    H.cover()
    compare_vals(H, env, st, want)


def callgraph(files):
    def callees(t):
        c = mc.parse(t)
        while c[0] == "execute":
            c = c[2]
        return [c[1]] if c[0] == "function" else []
    return {p: [q for t in b for q in callees(t)] for p, b in files.items()}


def loop_heads(files, main):
    """Functions reached from `main` that can reach themselves; the first
    one met on each way from main."""
    g = callgraph(files)

    def reach(p):
        seen, todo = set(), list(g.get(p, ()))
        while todo:
            q = todo.pop()
            if q not in seen:
                seen.add(q)
                todo += g.get(q, ())
        return seen
    heads, seen, todo = [], set(), [q for t in main for q in
                                   callgraph({"": [t]})[""]]
    while todo:
        q = todo.pop(0)
        if q in seen:
            continue
        seen.add(q)
        if q in reach(q):
            heads.append(q)
        else:
            todo += g.get(q, ())
    return heads


def prove_loop(H, env, main, ceff, cden, beff, label=""):
    """The text `main` behaves like  E; while cond: body; E  (E: effect of
    evaluating the condition).  The loop function K is an arbitrary
    transformer; K's defining text must satisfy the loop equation."""
    files = env.files()
    heads = loop_heads(files, main)
    st = env.state()
    gv = lambda w: vals_getter(env, w)
    if not heads:
        # no loop generated: only right if nothing could be observed
        v0 = env.vals(st)
        st.run_texts(main)
        w = ceff(v0)
        H.prove(label + "never-runs", Z.Not(cden(gv(w))),
                info="no loop function was generated")
        compare_vals(H, env, st, w, label)
        return
    H.prove(label + "one-loop", len(heads) == 1, info=str(heads))
    k = heads[0]
    kf = {n: Z.Function("K_" + n, *([Z.IntSort()] * (len(env.user) + 1)))
          for n in env.user}

    def K(v):
        out = {}
        for n in v:
            t = kf[n](*user_terms(v))
            if n in env.bools:
                H.assume(Z.And(t >= 0, t <= 1))
            else:
                H.assume(mc.in_range(t))
            out[n] = t
        return out

    def hook(state, g):
        new = K(env.vals(state))
        for n, t in new.items():
            state.put(slotkey(env.user[n]), t, g)
        # all other scores become arbitrary
        for key in list(state.vals):
            if key not in {state.key(slotkey(s))
                           for s in env.user.values()} \
                    and key in private:
                env.n += 1
                t = H.fresh_term("clob%d" % env.n, MIN, MAX)
                state.vals[key] = t if g is None else Z.If(
                    g, t, state.vals[key])

    # scores written by the loop function other than user variables
    private = set()
    g = callgraph(files)
    todo, seen = [k], set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        todo += g[p]
        for t in files[p]:
            c = mc.parse(t)
            while c[0] == "execute":
                c = c[2]
            if c[0] in ("set", "add", "remove", "op", "random"):
                private.add(mc.SymState.key(c[1]))
                if c[0] == "op" and c[2] == "><":
                    private.add(mc.SymState.key(c[3]))
            elif c[0] == "absop":
                a = c[2]
                if len(a) == 2:
                    private.add("%s %s" % tuple(a))
    private -= {mc.SymState.key(slotkey(s)) for s in env.user.values()}
    uncond = any(mc.parse(t) == ("function", k) for t in main)
    beff = beff or (lambda v: v)
    # --- the loop equation for K's text
    st = env.state()
    st.calls = {k: hook}
    v = env.vals(st)
    st.run_texts(files[k])
    if uncond:      # K = E; while c: body; E
        w = ceff(v)
        want = ite(cden(gv(w)), K(beff(w)), w)
    else:           # K = body; E; while ...
        w = ceff(beff(v))
        want = ite(cden(gv(w)), K(w), w)
    H.cover()
    compare_vals(H, env, st, want, label + "loop-equation:")
    # --- entry
    st = env.state()
    st.calls = {k: hook}
    v = env.vals(st)
    st.run_texts(main)
    if uncond:
        want = K(v)
    else:
        w = ceff(v)
        want = ite(cden(gv(w)), K(w), w)
    compare_vals(H, env, st, want, label + "entry:")


def main_texts(env):
    return [c.resolve() for c in env.compiler.file_main.commands]


def vc_while(H):
    """visit_While: the generated recursive function satisfies the loop
    equation  W = E; if c: body; W  for arbitrary bodies and conditions,
    the condition being evaluated (with its effects) before every
    iteration."""
    ck = H.choose("cond", COND)
    bk = H.choose("body", BODY)
    env = begin(H)
    src, ceff, cden = cond_hole(env, H, ck)
    bl, beff = body_hole(env, H, "s", bk)
    err = env.visit("while %s:\n" % src +
                    "".join("    %s\n" % x for x in bl))
    if ck == "True":
        H.prove("endless-rejected", err is not None and err.type is
                ErrorType.ENDLESS_WHILE_LOOP, info=str(err))
        return
    if err is not None:
        # only a loop that never ends may be rejected
        st = env.state()
        H.prove("accepted", Z.And(
            z3.BoolVal(err.type is ErrorType.ENDLESS_WHILE_LOOP),
            cden(vals_getter(env, env.vals(st)))), info=str(err))
        return
    main = main_texts(env)
    if ck == "False":
        st = env.state()
        v = env.vals(st)
        st.run_texts(main)
        H.cover()
        compare_vals(H, env, st, v)
        return
    if bk == "empty" and ck not in ("call", "orcall"):
        # a loop without any command: nothing to observe but termination
        st = env.state()
        v = env.vals(st)
        if loop_heads(env.files(), main):
            prove_loop(H, env, main, ceff, cden, beff)
        else:
            st.run_texts(main)
            H.cover()
            compare_vals(H, env, st, v)
        return
    prove_loop(H, env, main, ceff, cden, beff)


def vc_for(H):
    """visit_For over a compile-time iterable of n items: the body is
    executed once per item, in order, with the name bound to the item."""
    n = H.choose("n", [0, 1, 2, 3])
    kind = H.choose("items", ["lit", "var", "mixed"])
    form = H.choose("form", ["for", "nested", "shadow"])
    env = begin(H)
    ops = []

    class It(O.IntLiteral):
        def iterate(self):
            return items
    items = []
    for a in range(n):
        if kind == "lit" or (kind == "mixed" and a % 2):
            items.append(O.IntLiteral(H.int("it%d" % a, MIN, MAX)))
        else:
            items.append(O.IntVar(env.user["ij"[a % 2]]))
    it = It(0)
    env.bind("it", it)
    seff = env.stmt("s", ["p", "j"])
    if form == "for":
        src = "for k in it:\n    s()\n    i += k\n"
    elif form == "nested":
        src = "for k in it:\n    for m in it:\n        i += m\n        " \
              "s()\n    i -= k\n"
    else:
        src = "for k in it:\n    q1 := k\n    s()\n    i += q1\n"
    err = env.visit(src)
    H.prove("accepted", err is None, info=str(err))
    if err is not None:
        return
    st = env.state()
    v = env.vals(st)

    def val(item, v):
        return lit_term(item) if isinstance(item, O.IntLiteral) else \
            v[{slotkey(s): u for u, s in env.user.items()}[
                slotkey(item.slot)]]

    def add(op, v, item):
        v = dict(v)
        v["i"] = mc.m_op(op, v["i"], val(item, v))
        return v
    for x in items:
        if form == "for":
            v = add("+=", seff(v), x)
        elif form == "nested":
            for y in items:
                v = seff(add("+=", v, y))
            v = add("-=", v, x)
        else:
            q = val(x, v)
            v = seff(v)
            v = dict(v)
            v["i"] = mc.m_op("+=", v["i"], q)
    env.run_main(st)
    H.cover()
    compare_vals(H, env, st, v)
    H.prove("name-is-local",
            env.gen.ctx.scope.lookup("k") is None, info="loop variable leaks")


def vc_seq(H):
    """Sequencing: effects happen in source order, in every kind of block;
    temporaries of one statement do not disturb another."""
    where = H.choose("where", ["main", "if", "for", "inline", "def",
                               "while"])
    env = begin(H)
    effs = [env.stmt("s%d" % n, a) for n, a in enumerate(
        (["p", "i"], ["i", "j"], ["q", "p"]))]
    body = ["s0()", "j = (i + 1) * (j - i)", "s1()", "p = i < j and not p",
            "s2()", "/say hi", "i -= j * 3"]

    def eff(v):
        v = effs[0](v)
        v = dict(v)
        v["j"] = mc.m_op("*=", mc.m_op("+=", v["i"], Z.IntVal(1)),
                         mc.m_op("-=", v["j"], v["i"]))
        v = dict(effs[1](v))
        v["p"] = Z.If(Z.And(v["i"] < v["j"], v["p"] == 0), Z.IntVal(1),
                      Z.IntVal(0))
        v = dict(effs[2](v))
        v["i"] = mc.m_op("-=", v["i"], mc.m_op("*=", v["j"], Z.IntVal(3)))
        return v
    head = {"main": None, "if": "if q:", "for": "for k in {1, 2}:",
            "inline": "inline def f():", "def": "def f():",
            "while": "while q:"}[where]
    if head is None:
        lines = body
    else:
        lines = [head] + ["    " + b for b in body]
        if where in ("inline", "def"):
            lines += ["f()", "f()"]
    err = env.visit("\n".join(lines) + "\n")
    H.prove("accepted", err is None, info=str(err))
    if err is not None:
        return
    if where == "while":
        q = env.user["q"]
        prove_loop(H, env, main_texts(env), lambda v: v,
                   lambda get: get(slotkey(q)) == 1, eff)
        return
    st = env.state()
    v = env.vals(st)
    if where == "if":
        want = ite(v["q"] == 1, eff(v), v)
    else:
        want = v
        for _ in range(1 if where == "main" else 2):
            want = eff(want)
    env.run_main(st)
    H.cover()
    compare_vals(H, env, st, want)


CONTRACTS = [vc_if, vc_elif, vc_while, vc_for, vc_seq]

for _f in (vc_if, vc_elif):
    _f.shards = 8
