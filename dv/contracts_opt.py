"""Contracts of the optimizer (C07) and of the command classes' frame
methods it relies on.

A function file is a transformer of the state (scores and the rest of the
world).  The contract of `optimize`: for every surviving file, its new body
and its old body have the same effect for arbitrary meanings K_f of the
calls to surviving files (calls to removed files mean their old body).
The (recursive) equation systems of old and new program then have the same
solutions, so every entry point behaves the same, loops included.
"""
from .holes import *
from .holes import AbsCmd
from acaciamc.compiler import Config

Z = z3
P, Q, R = (cmds.ScbSlot(n, "o") for n in "pqr")
SLOTS = [P, Q, R]


def world_of(st):
    return st.world()


def absfun(name, env, arity):
    return Z.Function("%s@%s" % (name, env), *([Z.IntSort()] * (arity + 1)))


class Model:
    """Meaning of the abstract commands and of calls."""

    def __init__(self, H):
        self.H = H
        self.ops = {}
        self.assigns = {}

    def cmd(self, name, assigns=(), world=False):
        """An abstract command that assigns the given slots (a function of
        everything) and possibly changes the world."""
        def hook(st, g, args):
            args = [st.get(slotkey(s)) for s in SLOTS] + [st.world()]
            new = []
            for s in assigns:
                t = absfun("%s_%s" % (name, s.target), st.env, 4)(*args)
                self.H.assume(mc.in_range(t))
                new.append((s, t))
            w = absfun(name + "_w", st.env, 4)(*args) if world else None
            for s, t in new:
                st.put(slotkey(s), t, g)
            if world:
                st.set_world(w, g)
        self.ops[name] = hook
        self.assigns[name] = {slotkey(s) for s in assigns}
        return AbsCmd(name, "-", SLOTS, assigns)

    def frames(self, files):
        """Scores each file may change, through its calls too (least
        fixpoint over the command texts)."""
        fr = {p: set() for p in files}

        def of(c):
            if c[0] in ("set", "add", "remove", "random"):
                return {c[1]}
            if c[0] == "op":
                return {c[1], c[3]} if c[2] == "><" else {c[1]}
            if c[0] == "absop":
                return self.assigns[c[1]]
            if c[0] == "execute":
                return of(c[2])
            if c[0] == "function":
                return fr[c[1]]
            return set()
        todo = True
        while todo:
            todo = False
            for p, body in files.items():
                for t in body:
                    n = of(mc.parse(t)) - fr[p]
                    if n:
                        fr[p] |= n
                        todo = True
        return fr

    def call_hook(self, path, frame):
        """K_path: an arbitrary transformer that respects the frame of the
        function."""
        slots = [s for s in SLOTS if slotkey(s) in frame]

        def hook(st, g):
            args = [st.get(slotkey(s)) for s in SLOTS] + [st.world()]
            new = [(s, absfun("K_%s_%s" % (path, s.target), st.env, 4)(
                *args)) for s in slots]
            w = absfun("K_%s_w" % path, st.env, 4)(*args)
            for s, t in new:
                self.H.assume(mc.in_range(t))
                st.put(slotkey(s), t, g)
            st.set_world(w, g)
        return hook

    def state(self, files, survivors, frames):
        st = mc.SymState(self.H, files=files)
        st.absops = self.ops
        st.calls = {p: self.call_hook(p, frames[p]) for p in survivors}
        return st


def texts(f):
    return [c.resolve() for c in f.commands]


def make(H, **cfg):
    """A real optimizing output manager without files."""
    c = repo.bare_compiler(optimizer=True, **cfg)
    mgr = c.output_mgr
    mgr.files = []
    return c, mgr


def new_file(mgr, path, commands):
    f = cmds.MCFunctionFile()
    f.extend(commands)
    if path.startswith("lib"):
        mgr.add_lib(f)
    else:
        mgr.new_file(f, path)
    return f


def scheduled(text):
    c = mc.parse(text)
    while c[0] == "execute":
        c = c[2]
    return c[1].split(" ")[-1] if c[0] == "schedule" else None


def check(H, mgr, model, entries):
    """Run the real optimizer and prove the contract."""
    old = {f.get_path(): texts(f) for f in mgr.files}
    # scheduling a function without commands has no effect
    empty = {f.get_path() for f in mgr.files if not f.has_content()}
    old = {p: [t for t in b if scheduled(t) not in empty]
           for p, b in old.items()}
    had = {f.get_path(): f.has_content() for f in mgr.files}
    epaths = [f.get_path() for f in entries]
    mgr.optimize()
    new = {f.get_path(): texts(f) for f in mgr.files}
    for p in epaths:
        H.prove("entry-kept", p in new or not had[p],
                info="entry file %s was removed" % p)
    H.prove("no-new-file", all(p in old for p in new),
            info="files %s" % sorted(new))
    H.prove("files-distinct", len(new) == len(mgr.files), info="")
    for p, b in new.items():
        for t in b:
            q = scheduled(t)
            H.prove("schedule-resolves", q is None or q in new,
                    info="%s schedules %s, which was removed" % (p, q))
    surv = set(new)
    frames = model.frames(old)
    for p in surv:
        st_old = model.state(old, surv, frames)
        st_new = model.state(new, surv, frames)
        st_new.init = st_old.init
        st_old.run_texts(old[p])
        try:
            st_new.run_texts(new[p])
            ok = True
        except mc.McError as e:
            H.prove("calls-resolve", False, info=str(e))
            ok = False
        if not ok:
            continue
        H.cover()
        for s in SLOTS:
            H.prove("effect:" + s.target, st_old.get(slotkey(s))
                    == st_new.get(slotkey(s)),
                    info="score %s after %s" % (s.target, p))
        H.prove("effect:world", st_old.world() == st_new.world(),
                info="other effects of %s (old %s, new %s)" % (
                    p, old[p], new[p]))


KINDS = {"P": ((P,), False), "Q": ((Q,), True), "W": ((), True)}


def conds(H, kind, model):
    if kind == "none":
        return []
    if kind == "matchP":
        return [cmds.ExecuteScoreMatch(P, "1..5")]
    if kind == "unlessP":
        return [cmds.ExecuteScoreMatch(P, "3", invert=True)]
    if kind == "compPQ":
        return [cmds.ExecuteScoreComp(P, Q, cmds.ScbCompareOp.LT)]
    if kind == "compRP":
        return [cmds.ExecuteScoreComp(R, P, cmds.ScbCompareOp.GTE)]
    if kind == "matchR":
        return [cmds.ExecuteScoreMatch(R, "..0")]
    if kind == "entity":
        return [cmds.ExecuteCond("entity", "@e[tag=x]")]
    if kind == "ass":
        return [cmds.ExecuteEnv("as", "@s")]
    if kind == "ase":
        return [cmds.ExecuteEnv("as", "@e[tag=x]")]
    if kind == "at+P":
        return [cmds.ExecuteEnv("at", "@s"), cmds.ExecuteScoreMatch(P, "1")]
    if kind == "P+ase":
        return [cmds.ExecuteScoreMatch(P, "1"), cmds.ExecuteEnv("as", "@a")]
    if kind == "P+R":
        return [cmds.ExecuteScoreMatch(R, "1"),
                cmds.ExecuteScoreMatch(P, "2")]
    if kind == "block":
        return [cmds.ExecuteCond("block", "1 2 3 stone")]
    if kind == "unless blocks":
        return [cmds.ExecuteCond("blocks", "1 2 3 4 5 6 7 8 9 all", True)]
    if kind == "unless entity+R":
        return [cmds.ExecuteCond("entity", "@a", True),
                cmds.ExecuteScoreMatch(R, "..5")]
    if kind.startswith("comp "):
        _, inv, a, op, b = kind.split(" ")
        return [cmds.ExecuteScoreComp(
            {"P": P, "Q": Q, "R": R}[a], {"P": P, "Q": Q, "R": R}[b],
            cmds.ScbCompareOp(op), invert=inv == "unless")]
    raise KeyError(kind)


COMPS = ["comp %s %s" % (i, x) for i in ("if", "unless") for x in
         ["P %s Q" % op for op in ("=", "<", ">", "<=", ">=")] +
         ["R %s P" % op for op in ("=", "<", ">", "<=", ">=")]]
CONDS = ["none", "matchP", "unlessP", "compPQ", "compRP", "matchR",
         "entity", "ass", "ase", "at+P", "P+ase", "P+R", "block",
         "unless blocks", "unless entity+R"] + COMPS
BODIES = ["", "P", "Q", "W", "c", "PW", "WQ", "WP", "cPc", "PQW", "QWP",
          "WWW"]


def body(model, spec, pre, callee=None):
    out = []
    for i, k in enumerate(spec):
        if k == "c":
            out.append(cmds.Comment("# comment"))
        elif k == "X":
            out.append(cmds.execute([cmds.ExecuteScoreMatch(Q, "7")],
                                    model.cmd("%s%d" % (pre, i),
                                              *KINDS["P"])))
        elif k == "F":
            out.append(cmds.InvokeFunction(callee))
        elif k == "f":
            out.append(cmds.execute([cmds.ExecuteScoreMatch(P, "2..")],
                                    cmds.InvokeFunction(callee)))
        elif k == "w":
            # a raw command
            out.append(cmds.Cmd("say hi%d" % i))
        else:
            out.append(model.cmd("%s%d" % (pre, i), *KINDS[k]))
    return out


def vc_inline(H):
    """One call, with every kind of condition, of a function with every
    kind of body; small and large inline limits; main/tick/lib caller."""
    cond = H.choose("cond", CONDS)
    spec = H.choose("body", BODIES)
    limit = H.choose("limit", [20, 1, 0])
    where = H.choose("caller", ["main", "tick", "iface"])
    c, mgr = make(H, max_inline_file_size=limit)
    model = Model(H)
    callee = cmds.MCFunctionFile()
    callee.extend(body(model, spec, "f"))
    caller = cmds.MCFunctionFile()
    caller.extend([model.cmd("m0", *KINDS["P"]),
                   cmds.execute(conds(H, cond, model),
                                cmds.InvokeFunction(callee)),
                   model.cmd("m1", *KINDS["Q"])])
    mgr.new_file(caller, {"main": "main", "iface": "dir/if1",
                          "tick": mgr.tick_file_path}[where])
    mgr.add_lib(callee)
    check(H, mgr, model, [caller])


def vc_inline_cmds(H):
    """As vc_inline with real commands in the callee: the frame methods of
    the real command classes decide whether the condition is stable."""
    cond = H.choose("cond", ["matchP", "unlessP", "compPQ", "compRP", "P+R", "entity",
                             "block"] + COMPS)
    K = cmds.ScbSlot("k", "o")
    mk = {
        "set": lambda: cmds.ScbSetConst(P, 4),
        "setR": lambda: cmds.ScbSetConst(R, 4),
        "add": lambda: cmds.ScbAddConst(P, 2),
        "remove": lambda: cmds.ScbRemoveConst(Q, 2),
        "op1": lambda: cmds.ScbOperation(cmds.ScbOp.ADD_EQ, P, R),
        "op2": lambda: cmds.ScbOperation(cmds.ScbOp.MUL_EQ, K, P),
        "swap1": lambda: cmds.ScbOperation(cmds.ScbOp.SWAP, P, K),
        "swap2": lambda: cmds.ScbOperation(cmds.ScbOp.SWAP, K, P),
        "swap3": lambda: cmds.ScbOperation(cmds.ScbOp.SWAP, K, Q),
        "random": lambda: cmds.ScbRandom(P, 1, 5),
        "exec": lambda: cmds.Execute([cmds.ExecuteScoreMatch(K, "3")],
                                     cmds.ScbSetConst(P, 0)),
        "exec2": lambda: cmds.Execute(
            [cmds.ExecuteScoreMatch(K, "3")],
            cmds.Execute([cmds.ExecuteScoreMatch(P, "3")],
                         cmds.ScbSetConst(R, 0))),
    }
    spec = H.choose("cmd", list(mk) + ["call", "callx", "callcall"])
    c, mgr = make(H)
    model = Model(H)
    g = cmds.MCFunctionFile()
    g.extend([cmds.ScbSetConst(R, 7), cmds.ScbAddConst(P, 1)])
    h = cmds.MCFunctionFile()
    h.extend([cmds.ScbSetConst(K, 7), cmds.InvokeFunction(g)])
    extra = []
    if spec == "call":
        first = cmds.InvokeFunction(g)
    elif spec == "callx":
        first = cmds.Execute([cmds.ExecuteScoreMatch(K, "3")],
                             cmds.InvokeFunction(g))
    elif spec == "callcall":
        first = cmds.InvokeFunction(h)
    else:
        first = mk[spec]()
    if spec.startswith("call"):
        # referenced from elsewhere too: not inlined
        extra = [cmds.InvokeFunction(g), cmds.InvokeFunction(h)]
    callee = cmds.MCFunctionFile()
    callee.extend([first, model.cmd("f1", *KINDS["W"]),
                   model.cmd("f2", *KINDS["W"])])
    caller = cmds.MCFunctionFile()
    caller.extend([cmds.execute(conds(H, cond, model),
                                cmds.InvokeFunction(callee))])
    other = cmds.MCFunctionFile()
    other.extend([model.cmd("o0", *KINDS["W"])] + extra)
    mgr.new_file(caller, "main")
    mgr.new_file(other, "if1")
    for f in (callee, g, h):
        mgr.add_lib(f)
    check(H, mgr, model, [caller, other])


def vc_graph(H):
    """Call graphs over three internal functions and two entry files:
    nested, repeated, recursive, mutually recursive, dead and empty
    functions, scheduled functions."""
    mainspec = H.choose("main", ["PFW", "PfW", "FPF", "FGW", "fgP", "sF",
                                 "W", "FsG"])
    f = H.choose("f", ["PW", "PGW", "PgW", "P", "", "WFP", "Wf", "GG", "gP",
                       "HGP"])
    g = H.choose("g", ["W", "PW", "", "WFQ", "Wf", "PhW", "Q", "gP"])
    other = H.choose("other", ["W", "F", "GP", "hW", ""])
    c, mgr = make(H)
    model = Model(H)
    files = {n: cmds.MCFunctionFile() for n in "FGH"}

    def mk(spec, pre):
        out = []
        for i, k in enumerate(spec):
            if k in "FGH":
                out.append(cmds.InvokeFunction(files[k]))
            elif k in "fgh":
                out.append(cmds.execute(
                    [cmds.ExecuteScoreMatch(P, "2..")],
                    cmds.InvokeFunction(files[k.upper()])))
            elif k == "s":
                out.append(cmds.ScheduleFunction(
                    files["G"], "on_area_loaded add tickingarea x"))
            else:
                out.append(model.cmd("%s%d" % (pre, i), *KINDS[k]))
        return out
    files["F"].extend(mk(f, "f"))
    files["G"].extend(mk(g, "g"))
    files["H"].extend(mk("QW", "h"))
    main = cmds.MCFunctionFile()
    main.extend(mk(mainspec, "m"))
    iface = cmds.MCFunctionFile()
    iface.extend(mk(other, "i"))
    mgr.new_file(main, "main")
    for n in "FGH":
        mgr.add_lib(files[n])
    mgr.new_file(iface, "if1")
    check(H, mgr, model, [main, iface])


# ---------------------------------------------------------------- frames
TARGETS = ["x", "y", "@s", "@e[tag=t]", "*", "Steve"]


def may_alias(a, b):
    """Spec: two slots can denote a common score."""
    if a.objective != b.objective:
        return False
    sel = [t.target == "*" or t.target.startswith("@") for t in (a, b)]
    return a.target == b.target or any(sel)


def vc_frame(H):
    """`scb_did_assign` / `scb_did_read` of every command class: a slot
    that may be written (read) by the command is reported."""
    S = cmds.ScbSlot
    t1 = S(H.choose("t1", TARGETS), H.choose("o1", ["o", "o2"]))
    t2 = S(H.choose("t2", ["x", "@e[tag=t]"]), "o")
    kind = H.choose("kind", ["set", "add", "remove", "random", "op", "swap",
                             "execmatch", "execcomp", "invoke", "raw",
                             "tell", "schedule"])
    probe = S(H.choose("probe", TARGETS), "o")
    writes, reads = [], []
    if kind == "set":
        c, writes = cmds.ScbSetConst(t1, 3), [t1]
    elif kind == "add":
        c, writes = cmds.ScbAddConst(t1, 3), [t1]
    elif kind == "remove":
        c, writes = cmds.ScbRemoveConst(t1, 3), [t1]
    elif kind == "random":
        c, writes = cmds.ScbRandom(t1, 1, 3), [t1]
    elif kind == "op":
        op = H.choose("op", ["ADD_EQ", "SUB_EQ", "MUL_EQ", "DIV_EQ",
                             "MOD_EQ", "MIN", "MAX", "ASSIGN"])
        c = cmds.ScbOperation(getattr(cmds.ScbOp, op), t1, t2)
        writes, reads = [t1], [t2]
    elif kind == "swap":
        c = cmds.ScbOperation(cmds.ScbOp.SWAP, t1, t2)
        writes = reads = [t1, t2]
    elif kind == "execmatch":
        c = cmds.Execute([cmds.ExecuteScoreMatch(t1, "1")],
                         cmds.ScbSetConst(t2, 1))
        writes, reads = [t2], [t1]
    elif kind == "execcomp":
        c = cmds.Execute([cmds.ExecuteEnv("as", "@a"),
                          cmds.ExecuteScoreComp(t1, t2, cmds.ScbCompareOp.EQ)
                          ], cmds.ScbOperation(cmds.ScbOp.ASSIGN,
                                               S("z", "z"), S("w", "o")))
        reads = [t1, t2, S("w", "o")]
    elif kind == "invoke":
        f, g = cmds.MCFunctionFile(), cmds.MCFunctionFile()
        # mutually recursive
        f.extend([cmds.InvokeFunction(g), cmds.ScbSetConst(t1, 1)])
        g.extend([cmds.Execute([cmds.ExecuteScoreMatch(t2, "1")],
                               cmds.InvokeFunction(f))])
        c = cmds.Execute([cmds.ExecuteEnv("as", "@a")],
                         cmds.InvokeFunction(g))
        writes, reads = [t1], [t2]
    elif kind == "raw":
        c = cmds.Cmd("scoreboard players set %s 3" % t1.to_str(),
                     suppress_special_cmd=True)
        writes = [t1]
    elif kind == "tell":
        c = cmds.RawtextOutput("tellraw @a", cmds.Rawtext([
            cmds.RawtextText("x"), cmds.RawtextTranslate(
                "%%1", cmds.Rawtext([cmds.RawtextScore(t1)])),
            cmds.RawtextScore(t2)]))
        reads = [t1, t2]
    else:
        f = cmds.MCFunctionFile("p")
        f.extend([cmds.ScbSetConst(t1, 1)])
        c = cmds.ScheduleFunction(f, "x")
        H.prove("func-ref", c.func_ref() is f, info="scheduled function")
    H.cover()
    if any(may_alias(w, probe) for w in writes):
        H.prove("did-assign:" + kind, bool(c.scb_did_assign(probe)),
                info="%s may change %s" % (kind, probe))
    if any(may_alias(w, probe) for w in reads):
        H.prove("did-read:" + kind, bool(c.scb_did_read(probe)),
                info="%s may read %s" % (kind, probe))
    if kind == "invoke":
        H.prove("func-ref", c.func_ref() is g, info="called function")


CONTRACTS = [vc_inline, vc_inline_cmds, vc_graph, vc_frame]
for _f in (vc_inline, vc_graph):
    _f.shards = 16
