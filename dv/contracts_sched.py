"""Contracts of the schedule module (C20).

A game tick is one run of the `tick` function; the program's main function
has run before.  Events are calls of the scheduled function."""
import re

from .scen import *

V = {"i": "int", "j": "int", "p": "bool"}
INT_LIT = ["L1", "3", "1"]
F = {
    "plain": ("def f():\n    act('f', i, p)\n", "", []),
    "args": ("def f(a: int, b: bool = True):\n    act('f', a, b, i)\n",
             ", j, b=p", ["j", "p"]),
    "inline": ("inline def f(const a):\n    act('f', i, j)\n    i += a\n",
               ", 4", []),
}


def q(s):
    return s.replace("'", '"')


def setup(H, src, lits):
    lits = {n: H.int(n, lo, MAX) for n, lo in lits.items()}
    opt = H.choose("optimizer", [False, True])
    r = compile_scenario(H, q(src), V, lits, cfg=dict(optimizer=opt))
    H.prove("accepted", r.err is None, info="%s\n%s" % (r.err, src))
    if r.err is not None:
        return None
    r.lit = {n: REG.term_of(x) for n, x in lits.items()}
    st = init_state(H, r.files, {n: slotkey(e.slot) for n, e in
                                 r.case.observed.items()
                                 if n in V}, {"p"})
    r.st = st
    r.tick = r.compiled.tick_functions()
    r.slot = {n: slotkey(e.slot) for n, e in r.case.observed.items()
              if hasattr(e, "slot")}
    return r


from .sym import REG  # noqa: E402


def tick(r):
    """One tick; returns the list of (guard, event)."""
    st = r.st
    n = len(st.events)
    for f in r.tick:
        st.call(f, None)
    return st.events[n:]


def ran(evs, name="act f"):
    T = z3.BoolVal(True)
    gs = [T if g is None else g for g, _, e in evs
          if e[0] == "tellraw" and e[1] == name]
    return gs


def exactly(H, label, evs, cond, info=""):
    """The function runs once if `cond`, else not at all."""
    gs = ran(evs)
    n = z3.Sum([z3.If(g, 1, 0) for g in gs] + [z3.IntVal(0)])
    H.prove(label, n == z3.If(cond, 1, 0), info=info)


TICKS = 7


def vc_loop(H):
    """register_loop(f, n): f runs in the first tick and then every n
    ticks, for every n >= 1, for any n given as literal, variable or
    expression; with the arguments given."""
    fk = H.choose("f", list(F))
    iv = H.choose("interval", ["default", "L1", "v", "v + 1"])
    fd, args, _ = F[fk]
    if iv == "default" and fk != "plain":
        return
    src = "import schedule\n" + fd
    if iv in ("v", "v + 1"):
        src += "v: int = L1\n"
    src += "schedule.register_loop(f%s)\n" % (
        "" if iv == "default" else ", " + iv + args)
    r = setup(H, src, {"L1": 1} if "L1" in src else {})
    if r is None:
        return
    n = {"default": z3.IntVal(1), "L1": r.lit.get("L1"),
         "v": r.lit.get("L1"), "v + 1": None}[iv]
    if iv == "v + 1":
        H.assume(r.lit["L1"] < MAX)
        n = r.lit["L1"] + 1
    st = r.st
    st.call("main", None)
    H.prove("not-before-first-tick", not [g for g in ran(st.events)],
            info="runs in main")
    H.cover()
    for t in range(TICKS):
        evs = tick(r)
        exactly(H, "every-n-ticks", evs, t % n == 0,
                "tick %d of the loop" % t)
    H.prove("literals", z3.And(*([mc.in_range(x) for x in st.literals]
                                 or [z3.BoolVal(True)])))


def vc_loop_step(H):
    """Inductive step of register_loop for any number of ticks: with the
    timer at 0 <= t < n, f runs iff t = 0 and the timer becomes n - 1 or
    t - 1; registering sets it to 0."""
    src = "import schedule\ndef f():\n    act('f', i, p)\n" \
          "schedule.register_loop(f, L1)\n"
    r = setup(H, src, {"L1": 2})
    if r is None:
        return
    st = r.st
    n = r.lit["L1"]
    before = set(st.vals)
    w = None
    for line in [x for f in r.tick for x in r.files[f]]:
        c = mc.parse(line)
        if c[0] == "remove" and c[2] == 1:
            w = c[1] if w is None else False
    if not w:
        raise Unsupported("timer of the loop not recognised")
    st.call("main", None)
    H.prove("starts-at-0", st.get(w) == 0)
    t = H.fresh_term("timer", 0, MAX)
    H.assume(t < n)
    st.put(w, t)
    evs = tick(r)
    H.cover()
    exactly(H, "runs-iff-due", evs, t == 0)
    H.prove("timer", st.get(w) == z3.If(t == 0, n - 1, t - 1))


def vc_task(H):
    """Task.after(d): f runs exactly once, when d further ticks have
    passed; a later request replaces an earlier one; cancel drops it;
    has_schedule tells whether one is pending."""
    fk = H.choose("f", list(F))
    dk = H.choose("delay", ["L1", "v", "v + 1"])
    act = H.choose("then", ["nothing", "cancel", "again", "twice"])
    at = H.choose("at", [0, 1, 2]) if act != "nothing" else 0
    fd, args, _ = F[fk]
    src = "import schedule\n" + fd
    src += "const t = schedule.Task(f%s)\n" % args
    src += "v: int\n" if "v" in dk else ""
    src += """interface start:
    t.after(%s)
interface cancel:
    t.cancel()
interface again:
    t.after(L2)
interface query:
    p = t.has_schedule()
""" % dk
    r = setup(H, src, {n: 0 for n in ("L1", "L2") if n in src})
    if r is None:
        return
    st = r.st
    st.call("main", None)
    for _ in range(1):
        exactly(H, "not-unrequested", tick(r), z3.BoolVal(False))
    query(H, r, z3.BoolVal(False))
    if dk == "L1":
        d = r.lit["L1"]
    else:
        v = slotkey_of(r, "start")
        d = H.fresh_term("delay", 0, MAX - 1)
        if v is None:
            raise Unsupported("variable of the delay not found")
        st.put(v, d)
        if dk == "v + 1":
            d = d + 1
    st.call("start", None)
    due = d              # ticks left
    pending = z3.BoolVal(True)
    H.cover()
    for k in range(5):
        if act != "nothing" and k == at:
            if act == "cancel":
                st.call("cancel", None)
                pending = z3.BoolVal(False)
            elif act == "again":
                st.call("again", None)
                due, pending = r.lit["L2"], z3.BoolVal(True)
            elif act == "twice":
                st.call("start", None)
                due, pending = d, z3.BoolVal(True)
        query(H, r, pending)
        evs = tick(r)
        exactly(H, "runs-when-due", evs, z3.And(pending, due == 0),
                "tick %d after the request" % k)
        pending = z3.And(pending, due != 0)
        due = due - 1
        query(H, r, pending)


def query(H, r, want):
    """has_schedule without disturbing the program's variables."""
    old = r.st.get(r.slot["p"])
    r.st.call("query", None)
    H.prove("has_schedule", (r.st.get(r.slot["p"]) == 1) == want)
    r.st.put(r.slot["p"], old)


def slotkey_of(r, path):
    """Score the delay is taken from (the copy `timer = v`)."""
    for line in r.files.get(path, []):
        c = mc.parse(line)
        if c[0] == "op" and c[2] == "=":
            return c[3]
    return None


def vc_args(H):
    """The scheduled call gets the arguments given, evaluated when it is
    made; the function may change what it depends on and request itself
    again."""
    case = H.choose("case", ["task", "loop", "self", "two", "many"])
    pre = "import schedule\ndef f(a: int, b: bool):\n" \
          "    act('f', a, b, i)\n"
    if case == "task":
        src = pre + "const t = schedule.Task(f, i, b=p)\nt.after(0)\n"
    elif case == "loop":
        src = pre + "schedule.register_loop(f, 1, i, b=p)\n"
    elif case == "self":
        src = """import schedule
def f():
    act('f', i, p)
const t = schedule.Task(f)
def h():
    act('h', j)
    t.after(L1)
const u = schedule.Task(h)
u.after(1)
"""
    elif case == "two":
        src = pre + "const t = schedule.Task(f, i, p)\n" \
            "def g():\n    act('g', i, j)\nconst u = schedule.Task(g)\n" \
            "t.after(1)\nu.after(2)\nschedule.register_loop(g, 3)\n"
    else:
        src = pre + "def g(a: int):\n    act('f', a)\n" \
            "schedule.register_loop(g, 2, 5)\n" \
            "schedule.register_loop(g, 3, 6)\n"
    r = setup(H, src, {"L1": 1} if "L1" in src else {})
    if r is None:
        return
    st = r.st
    i0, p0 = st.get(r.slot["i"]), st.get(r.slot["p"])
    st.call("main", None)
    H.cover()
    T = z3.BoolVal(True)
    if case in ("task", "loop"):
        i0, p0 = st.get(r.slot["i"]), st.get(r.slot["p"])
        evs = tick(r)
        exactly(H, "runs", evs, T)
        for g, _, e in evs:
            H.prove("arguments", z3.Implies(
                T if g is None else g,
                z3.And(e[2][0] == i0, e[2][1] == p0)))
        for _ in range(2):
            exactly(H, "again", tick(r), z3.BoolVal(case == "loop"))
    elif case == "self":
        d = r.lit["L1"]
        # h runs in tick 1 and requests f; f runs d ticks later (it is
        # checked before h in the same tick)
        n = 0
        for k in range(6):
            evs = tick(r)
            H.prove("h-once", len([1 for g, _, e in evs
                                   if e[1] == "act h"]) <= 1)
            gs = [T if g is None else g for g, _, e in evs
                  if e[1] == "act h"]
            H.prove("h", z3.Or(*(gs or [z3.BoolVal(False)]))
                    == z3.BoolVal(k == 1))
            f = ran(evs)
            H.prove("f-not-early", z3.Implies(
                z3.Or(*(f or [z3.BoolVal(False)])), k - 1 >= d))
            n = n + z3.Sum([z3.If(g, 1, 0) for g in f] + [z3.IntVal(0)])
        H.prove("f-once", n <= 1)
        H.prove("f-in-time", z3.Implies(d <= 3, n == 1))
    elif case == "two":
        for k in range(6):
            evs = tick(r)
            exactly(H, "t", evs, z3.BoolVal(k == 1))
            gs = ran(evs, "act g")
            want = (k == 2) + (k % 3 == 0)
            H.prove("g", z3.Sum([z3.If(g, 1, 0) for g in gs]
                                + [z3.IntVal(0)]) == want)
    else:
        for k in range(7):
            evs = tick(r)
            for arg, m in ((5, 2), (6, 3)):
                gs = [T if g is None else g for g, _, e in evs]
                xs = [e[2][0] for g, _, e in evs]
                H.prove("loop%d" % m, z3.Sum([
                    z3.If(z3.And(g, x == arg), 1, 0)
                    for g, x in zip(gs, xs)] + [z3.IntVal(0)]) == int(
                        k % m == 0))


# position -> its `execute` subcommands
ORIGINS = {
    "Pos(1, 2, 3)": "positioned 1.5 2.0 3.5",
    "Pos(e)": "at {e} anchored feet",
    "Pos(e, 'eyes')": "at {e} anchored eyes",
    "Pos(1.5, 2, -3).dim('the_end')":
        "positioned 1.5 2.0 -2.5 in the_end",
    "Pos(0, 0, 0).offset(y=5).align('xz')":
        "positioned 0.5 0.0 0.5 positioned ~ ~5.0 ~ align xz",
    "Pos(e).local(Rot(1, 2), front=3)":
        "at {e} anchored feet rotated 1.0 2.0 positioned ^ ^ ^3.0",
}
AREAS = {
    "on_area_loaded(%s, Offset())": "~ ~ ~ ~ ~ ~",
    "on_area_loaded(%s, Offset(1, 2, 3))": "~ ~ ~ ~1.0 ~2.0 ~3.0",
    "on_area_loaded(%s, Offset(z=-5.25))": "~ ~ ~ ~ ~ ~-5.25",
    "on_area_loaded(%s, Offset(x_abs=4, y=5))": "~ ~ ~ 4.0 ~5.0 ~",
    "on_area_loaded(%s, AbsPos(4, 5, 6))": "~ ~ ~ 4.5 5.0 6.5",
    "on_area_loaded(%s, Offset.local(1, 2, 3))": "~ ~ ~ ^1.0 ^2.0 ^3.0",
    "on_area_loaded(offset=Offset(7), origin=%s)": "~ ~ ~ ~7.0 ~ ~",
    "on_circle_loaded(%s, 0)": "circle ~ ~ ~ 0",
    "on_circle_loaded(%s, 4)": "circle ~ ~ ~ 4",
    "on_circle_loaded(radius=12, origin=%s)": "circle ~ ~ ~ 12",
    "on_tickingarea('base')": "tickingarea base",
    "on_tickingarea(name='my base')": 'tickingarea "my base"',
}


def _tokens(text):
    """Words of a command, coordinates by value."""
    out = []
    text = re.sub(r"(?<=[~\d.])(?=[~^])|(?<=\^)(?=\^)", " ", text)
    for w in text.split():
        m = re.match(r"([~^]?)(-?\d*\.?\d+)\Z", w)
        out.append((m.group(1), float(m.group(2))) if m else
                   (w, 0.0) if w in ("~", "^") else w)
    return out


def vc_areas(H):
    """Task.on_area_loaded, on_circle_loaded, on_tickingarea: the function
    is registered for the area given, by one command that stands where it
    is called; the registered file runs the function with its arguments.
    Such requests are no part of has_schedule, are not dropped by cancel
    and do not make the task run in a tick."""
    fk = H.choose("f", list(F) + ["empty"])
    ak = H.choose("area", list(AREAS))
    ok = H.choose("origin", list(ORIGINS) if "%s" in ak else [None])
    if ok not in (None, "Pos(1, 2, 3)") and fk != "plain":
        H.skip()
        return
    fd, args, _ = F[fk] if fk != "empty" else ("def f():\n    pass\n", "", [])
    src = "import schedule\nentity E:\n    new():\n        " \
        "new('pig', Pos(0, 0, 0))\ne: E\n" + fd + \
        "const t = schedule.Task(f%s)\n" % args + \
        "interface reg:\n    t.%s\n" % (ak % ok if ok else ak) + \
        "interface cancel:\n    t.cancel()\n" \
        "interface query:\n    p = t.has_schedule()\nobserve('e', e)\n"
    r = setup(H, src, {})
    if r is None:
        return
    st = r.st
    lines = [x for x in r.files["reg"] if x and not x.startswith("#")]
    want = "schedule on_area_loaded add " + AREAS[ak]
    if ok:
        want = "execute %s run %s" % (ORIGINS[ok], want)
    want = want.replace("{e}", r.case.observed["e"].get_selector().to_str())
    got, path = lines[-1].rsplit(" ", 1) if lines else ("", "")
    H.prove("registered", len(lines) == 1 and
            _tokens(got) == _tokens(want) or fk == "empty" and not lines,
            info="%s, want %s" % (lines, want))
    name = next((n for n in r.files if path in (n, "acacia/" + n)
                 or path.endswith("/" + n)), None)
    H.prove("function-exists", name is not None or fk == "empty",
            info="%s of %s" % (path, sorted(r.files)))
    H.cover()
    if name is None:
        return
    st.call("main", None)
    st.call("reg", None)
    query(H, r, z3.BoolVal(False))
    exactly(H, "not-in-a-tick", tick(r), z3.BoolVal(False))
    st.call("cancel", None)
    if fk == "empty":
        return
    n = len(st.events)
    i0 = st.get(r.slot["i"])
    st.call(name, None)
    evs = st.events[n:]
    exactly(H, "runs-when-loaded", evs, z3.BoolVal(True))
    for g, _, e in evs:
        if e[0] == "tellraw":
            H.prove("sees-the-variables", z3.Implies(
                z3.BoolVal(True) if g is None else g,
                e[2][{"args": 2}.get(fk, 0)] == i0))
    query(H, r, z3.BoolVal(False))
    exactly(H, "once", tick(r), z3.BoolVal(False))


CONTRACTS = [vc_loop, vc_loop_step, vc_task, vc_args, vc_areas]
vc_loop_step.soft = True
vc_task.shards = 8
