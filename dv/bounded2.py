"""Further bounded stand-ins (labelled bounded)."""
import random

from . import mc, repo


def slotkey(s):
    return (s.target, s.objective)


def fail(what, inp="", key=""):
    return {"status": "fail", "what": what, "input": str(inp), "key": key}


def ok(inp=""):
    return {"status": "ok", "input": str(inp)}


def alloc_history(seed):
    """A random history of allocations, statement ends and function bodies:
    nothing in use is handed out again; temporaries of a function body are
    disjoint from those of every other body and of the caller."""
    r = random.Random(seed)
    c = repo.bare_compiler(optimizer=r.random() < .5)
    c.current_generator = repo.GenStub()
    live, owner, names, consts = {}, {}, set(), {}
    stack = [set()]
    frames, nframes, ctxs, log = [0], 0, [], []
    ops = ["alloc", "tmp", "tmp", "tmp", "endstmt", "infun", "outfun",
           "const", "scb", "tag", "etid"]
    for _ in range(r.randint(5, 40)):
        op = r.choice(ops)
        log.append(op)
        g = c.current_generator
        if op == "alloc":
            s = slotkey(c.allocate())
            if s in live or s in owner:
                return fail("score %s handed out twice" % (s,), log)
            live[s] = "var"
        elif op == "tmp":
            s = slotkey(c.allocate_tmp())
            if s in live or any(s in t for t in stack):
                return fail("temporary %s is in use" % (s,), log)
            if owner.get(s, frames[-1]) != frames[-1]:
                return fail("temporary %s shared between bodies" % (s,), log)
            owner[s] = frames[-1]
            stack[-1].add(s)
        elif op == "endstmt":
            for s in list(g.current_tmp_scores):
                c.free_tmp(s)
            g.current_tmp_scores = []
            stack[-1] = set()
        elif op == "infun":
            cm = c.separate_tmps()
            cm.__enter__()
            ctxs.append((cm, g.current_tmp_scores))
            g.current_tmp_scores = []
            nframes += 1
            frames.append(nframes)
            stack.append(set())
        elif op == "outfun":
            if not ctxs:
                continue
            for s in list(g.current_tmp_scores):
                c.free_tmp(s)
            cm, old = ctxs.pop()
            cm.__exit__(None, None, None)
            g.current_tmp_scores = old
            frames.pop()
            stack.pop()
        elif op == "const":
            v = r.randint(-3, 3)
            s = slotkey(c.add_int_const(v).slot)
            if s in owner or live.get(s, v) != v or type(live.get(s, v)) \
                    is not int:
                return fail("constant %d shares %s" % (v, s), log)
            live[s] = v
            consts[v] = s
        else:
            n = {"scb": c.add_scoreboard, "tag": c.allocate_entity_tag,
                 "etid": c.allocate_etemplate_id}[op]()
            if (op, n) in names:
                return fail("%s %s handed out twice" % (op, n), log)
            names.add((op, n))
    # constants keep their value: initialised, and only by the init code
    w = mc.World({"init": [x.resolve() for x in
                           c.output_mgr.generate_init()]})
    w.run_function("init")
    for v, s in consts.items():
        if w.scores.get(s) != v:
            return fail("constant %d is initialised to %r" % (
                v, w.scores.get(s)), log)
    for o in {s[1] for s in list(live) + list(owner)} | {
            n for k, n in names if k == "scb"}:
        if o not in w.objectives:
            return fail("objective %s is never added" % o, log)
    if w.problems:
        return fail(str(w.problems[:2]), log)
    return ok(log)


# ------------------------------------------------------------- helpers
def wrap(v):
    return (v + 2 ** 31) % 2 ** 32 - 2 ** 31


def tdiv(a, b):
    q = abs(a) // abs(b)
    return wrap(-q if (a < 0) != (b < 0) else q)


def trem(a, b):
    return a - b * (abs(a) // abs(b) * (-1 if (a < 0) != (b < 0) else 1))


EDGE = [0, 1, -1, 2, -2, 3, 7, -7, 10, 100, -100, 46341, 65536, 2 ** 31 - 1,
        -2 ** 31 + 1, -2 ** 31, 12345, -54321]


def run_world(compiled, entries=("main",), scores=None, **k):
    w = mc.World({p: t.split("\n") for p, t in compiled.files().items()},
                 **k)
    for (t, o), v in (scores or {}).items():
        w.objectives.add(o)
        w.scores[(t, o)] = v
    for e in entries:
        w.run_function(e)
    return w


def ext(names):
    return "".join('&%s = scb("%s", "p")\n' % (n, n) for n in names)


def math_case(seed):
    """Random nested math calls on concrete values."""
    r = random.Random(seed)
    names = ["a", "b", "c"]
    vals = {n: r.choice(EDGE) if r.random() < .6 else
            r.randint(-2 ** 31, 2 ** 31 - 1) for n in names}

    class Skip(Exception):
        pass

    def lit(v):
        return str(v) if v > -2 ** 31 else "(-2147483647 - 1)"

    def gen(d):
        """(text, value, constant?)"""
        k = r.random()
        if d == 0 or k < .2:
            if r.random() < .35:
                v = r.choice(EDGE)
                return lit(v), v, True
            n = r.choice(names)
            return n, vals[n], False
        if k < .45:
            f = r.choice(["min", "max"])
            xs = [gen(d - 1) for _ in range(r.randint(1, 4))]
            return ("math.%s(%s)" % (f, ", ".join(x[0] for x in xs)),
                    (min if f == "min" else max)(x[1] for x in xs),
                    all(x[2] for x in xs))
        if k < .7:
            f = r.choice(["mod", "floordiv"])
            x, y = gen(d - 1), gen(d - 1)
            if y[1] == 0 or (x[1] == -2 ** 31 and y[1] == -1):
                raise Skip
            v = x[1] % y[1] if f == "mod" else x[1] // y[1]
            return "math.%s(%s, %s)" % (f, x[0], y[0]), v, x[2] and y[2]
        if k < .85:
            x = gen(d - 1)
            if r.random() < .6:
                e = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16, 31])
                y = (str(e), e, True)
            else:
                y = gen(d - 1)
            if y[1] < 0:
                raise Skip
            if x[2] and y[2]:
                if y[1] > 64 or not -2 ** 31 <= x[1] ** y[1] < 2 ** 31:
                    raise Skip
            v = wrap(pow(x[1], y[1], 2 ** 32))
            return "math.pow(%s, %s)" % (x[0], y[0]), v, x[2] and y[2]
        op = r.choice("+-*")
        x, y = gen(d - 1), gen(d - 1)
        v = {"+": x[1] + y[1], "-": x[1] - y[1], "*": x[1] * y[1]}[op]
        if x[2] and y[2] and v != wrap(v):
            raise Skip
        return "(%s %s %s)" % (x[0], op, y[0]), wrap(v), x[2] and y[2]
    lines, post = [], None
    try:
        for _ in range(r.randint(1, 3)):
            t, v, c = gen(r.randint(1, 3))
            n = r.choice(names)
            if r.random() < .3:
                lines.append("%s += %s" % (n, t))
                vals[n] = wrap(vals[n] + v)
            else:
                lines.append("%s = %s" % (n, t))
                vals[n] = v
            post = dict(vals)
    except Skip:
        return {"status": "discard", "input": ""}
    # the values used above are those before the first statement
    r2 = random.Random(seed)
    init = {n: r2.choice(EDGE) if r2.random() < .6 else
            r2.randint(-2 ** 31, 2 ** 31 - 1) for n in names}
    src = "import math\n" + ext(names) + "\n".join(lines) + "\n"
    try:
        c = repo.compile_text(src, optimizer=r.random() < .5)
    except repo.Error as e:
        return fail("rejected: %s" % e, src)
    w = run_world(c, scores={(n, "p"): v for n, v in init.items()})
    got = {n: w.scores.get((n, "p")) for n in names}
    if got != post or w.problems:
        return fail("from %s: %s instead of %s %s" % (
            init, got, post, w.problems[:2]), src)
    return ok(src + str(init))


def q_aca(s):
    """Text as an Acacia string literal."""
    out = []
    for c in s:
        if c in "\\\"":
            out.append("\\" + c)
        elif c == "$":
            out.append("\\$")
        elif c == "\xa7":
            out.append("\\#")
        else:
            out.append(c)
    return '"%s"' % "".join(out)


def formatted(s):
    """[(char, frozenset of format codes)] of text with section signs."""
    out, cur, i = [], (), 0
    while i < len(s):
        if s[i] == "\xa7" and i + 1 < len(s):
            c = s[i + 1]
            cur = () if c == "r" else tuple(sorted(set(cur) | {c}))
            i += 2
        else:
            out.append((s[i], cur))
            i += 1
    return out


COL = {"red": "c", "green": "a", "blue": "9", "gold": "6", "default": None}


def print_case(seed):
    """Random fstrings: nested format, concatenation, with_font; titles and
    targets; the text shown is the one the documentation gives."""
    r = random.Random(seed)
    init = {n: r.choice(EDGE) for n in "abc"}
    vals = dict(init)
    lines = []

    class Skip(Exception):
        pass

    def num():
        k = r.random()
        n, m = r.choice("abc"), r.choice("abc")
        if k < .3:
            return n, str(vals[n])
        if k < .45:
            v = r.choice([x for x in EDGE if x > -2 ** 31])
            return str(v), str(v)
        if k < .7:
            op = r.choice("+-*")
            v = {"+": vals[n] + vals[m], "-": vals[n] - vals[m],
                 "*": vals[n] * vals[m]}[op]
            return "%s %s %s" % (n, op, m), str(wrap(v))
        if k < .85:
            op = r.choice(["<", ">=", "==", "!="])
            v = eval("%d %s %d" % (vals[n], op, vals[m]))
            return "%s %s %s" % (n, op, m), str(int(v))
        if k < .9:
            v = r.choice([True, False])
            return str(v), str(int(v))
        v = "%s < %s and not (%s == 3 or %s > %s)" % (n, m, n, m, n)
        return v, str(int(eval(v, {}, vals)))

    def plain(f):
        return [(c, f) for c in f]

    CH = ["a", "B", " ", "%", "0", "7", "{", "}", '"', "\\", "\u00e9", "$",
          "[", ":", "\u4f60", "'", "n"]

    def text():
        return "".join(r.choice(CH) for _ in range(r.randint(0, 5)))

    def fstr(d):
        """(source, [(char, fmt)])"""
        k = r.random()
        if d == 0 or k < .15:
            t = text()
            return q_aca(t), [(c, ()) for c in t], True
        if k < .6:
            args, kw, pat, out = [], {}, "", []
            for _ in range(r.randint(0, 5)):
                x = r.random()
                if x < .4:
                    t = text().replace("%", "")
                    pat += t
                    out += [(c, ()) for c in t]
                elif x < .5:
                    pat += "%%"
                    out.append(("%", ()))
                else:
                    if r.random() < .5 or d == 1:
                        s, v = num()
                        v = [(c, ()) for c in v]
                    else:
                        s, v, _ = fstr(d - 1)
                    if r.random() < .25:
                        n = r.choice(["k", "val_1", "Z9"])
                        if n in kw:
                            v = kw[n][1]
                        else:
                            kw[n] = (s, v)
                        pat += "%%{%s}" % n
                    else:
                        if args and r.random() < .25:
                            i = r.randrange(len(args))
                            v = args[i][1]
                        else:
                            i = len(args)
                            args.append((s, v))
                        if i > 9 or r.random() < .4:
                            pat += "%%{%d}" % i
                        else:
                            pat += "%%%d" % i
                    out += v
            a = [q_aca(pat)] + [x[0] for x in args] + [
                "%s=%s" % (n, x[0]) for n, x in kw.items()]
            return "print.format(%s)" % ", ".join(a), out, False
        if k < .8:
            x, y = fstr(d - 1), fstr(d - 1)
            if x[2] and y[2]:
                return "(%s + %s)" % (x[0], y[0]), x[1] + y[1], True
            return "(%s + %s)" % (x[0], y[0]), x[1] + y[1], False
        x = fstr(d - 1)
        col = r.choice(list(COL))
        b = {n: r.random() < .3 for n in ("bold", "italic", "obfuscated")}
        f = tuple(sorted(([COL[col]] if COL[col] else []) + [
            {"bold": "l", "italic": "o", "obfuscated": "k"}[n]
            for n in b if b[n]]))
        src = "print.with_font(%s, %s%s)" % (
            x[0], q_aca(col), "".join(", %s=%s" % (n, v)
                                      for n, v in b.items() if v))
        return src, [("font", f, x[1])], False

    def flat(items, f=()):
        """Innermost with_font wins."""
        out = []
        for it in items:
            if it[0] == "font" and len(it) == 3:
                out += flat(it[2], it[1])
            else:
                out.append((it[0], f))
        return out
    want = []
    names = 0
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .25:
            n, m = r.choice("abc"), r.choice("abc")
            lines.append("%s += %s" % (n, m))
            vals[n] = wrap(vals[n] + vals[m])
            continue
        s, items, isstr = fstr(r.randint(1, 3))
        if k < .4:
            names += 1
            lines.append("const t%d = %s" % (names, s))
            s = "t%d" % names
        if k < .8:
            lines.append("print.tell(%s)" % s)
            want.append(("@a", flat(items)))
        else:
            mode = r.choice([None, "TITLE", "SUBTITLE", "ACTIONBAR"])
            lines.append("print.title(%s%s)" % (
                s, "" if mode is None else ", mode=print." + mode))
            want.append(("@a " + (mode or "TITLE").lower(), flat(items)))
    src = "import print\n" + ext("abc") + "\n".join(lines) + "\n"
    try:
        c = repo.compile_text(src, optimizer=r.random() < .5)
    except repo.Error as e:
        return fail("rejected: %s" % e, src)
    w = run_world(c, scores={(n, "p"): v for n, v in init.items()})
    got = [(t[1], formatted(t[2])) for t in w.trace if t[0] == "tellraw"]
    want = [(t, x) for t, x in want]
    if got != want or w.problems:
        return fail("from %s shown %s instead of %s %s" % (
            init, got, want, w.problems[:2]), src)
    return ok(src)


def sched_case(seed, arg=None):
    """Random tasks and loops; random history of ticks and requests."""
    r = random.Random(seed)
    src = "import schedule\nimport print\n" + ext("abc")
    init = {n: r.choice([0, 1, 2, 3, 5, 9]) for n in "abc"}
    tasks, loops, body = [], [], {}
    nf = r.randint(1, 3)
    for k in range(nf):
        inl = r.random() < .3
        par = r.random() < .5
        # a function may request a task defined before it
        req = None
        src += "%sdef f%d(%s):\n" % ("inline " if inl else "", k,
                                    "x: int" if par else "")
        src += "    print.tell(print.format(\"f%d %%0\", %s))\n" % (
            k, "x" if par else "a")
        bump = r.random() < .4
        if bump:
            src += "    a += 1\n"
        if tasks and r.random() < .4:
            req = (r.randrange(len(tasks)), r.randint(1, 3))
            src += "    t%d.after(%d)\n" % req
        body[k] = (par, bump, req)
        a, av = (", b", "b") if par and r.random() < .5 else (
            (", x=7", 7) if par else ("", None))
        if r.random() < .6:
            src += "const t%d = schedule.Task(f%d%s)\n" % (len(tasks), k, a)
            tasks.append((k, av))
        else:
            iv = r.choice(["", "1", "2", "3", "c"])
            if iv == "" and a.startswith(", b"):
                iv = "1"
            src += "schedule.register_loop(f%d%s%s)\n" % (
                k, ", interval=" + iv if iv and a[:3] != ", b" else
                (", " + iv if iv else ""), a)
            loops.append((k, av, iv))
    order = []      # order of checks within a tick
    ti = li = 0
    for line in src.split("\n"):
        if "schedule.Task(" in line:
            order.append(("t", ti))
            ti += 1
        elif "register_loop(" in line:
            order.append(("l", li))
            li += 1
    steps = []
    for k in range(len(tasks)):
        src += "interface r%d:\n    t%d.after(%s)\n" % (
            k, k, r.choice(["0", "1", "2", "4", "c", "b + 1"]))
        src += "interface c%d:\n    t%d.cancel()\n" % (k, k)
        src += "interface h%d:\n    if t%d.has_schedule():\n" \
            "        print.tell(\"yes\")\n" % (k, k)
    lines = {x.split(":")[0].split()[1]: src.split("\n")[n + 1]
             for n, x in enumerate(src.split("\n"))
             if x.startswith("interface")}
    for _ in range(r.randint(4, 12)):
        x = r.random()
        if x < .6 or not tasks:
            steps.append("tick")
        else:
            steps.append(r.choice("rrch") + str(r.randrange(len(tasks))))
    try:
        c = repo.compile_text(src, optimizer=r.random() < .5)
    except repo.Error as e:
        return fail("rejected: %s" % e, src)
    ticks = c.tick_functions()
    w = mc.World({p: t.split("\n") for p, t in c.files().items()})
    for n, v in init.items():
        w.objectives.add("p")
        w.scores[(n, "p")] = v
    w.run_function("main")
    # ---- reference
    v = dict(init)
    timer = [-1] * len(tasks)
    lt = [0] * len(loops)
    want = []

    def run(k, av):
        par, bump, req = body[k]
        x = v["a"] if not par else (v["b"] if av == "b" else av)
        want.append("f%d %d" % (k, x))
        if bump:
            v["a"] += 1
        if req:
            timer[req[0]] = req[1]

    for s in steps:
        if s == "tick":
            for f in ticks:
                w.run_function(f)
            for kind, n in order:
                if kind == "t":
                    if timer[n] == 0:
                        run(*tasks[n])
                    if timer[n] >= 0:
                        timer[n] -= 1
                else:
                    k, av, iv = loops[n]
                    if lt[n] <= 0:
                        run(k, av)
                        lt[n] = v["c"] if iv == "c" else int(iv or 1)
                    lt[n] -= 1
            continue
        w.run_function(s)
        n = int(s[1])
        if s[0] == "r":
            d = lines[s].split("(", 1)[1][:-1]
            timer[n] = v["c"] if d == "c" else (
                v["b"] + 1 if d == "b + 1" else int(d))
        elif s[0] == "c":
            timer[n] = -1
        elif timer[n] >= 0:
            want.append("yes")
    got = []
    for t in w.trace:
        if t[0] == "tellraw":
            got.append(mc.plain(t[2]) if hasattr(mc, "plain") else
                       "".join(x[0] for x in formatted(t[2])))
    if got != want or w.problems:
        return fail("steps %s from %s: got %s instead of %s %s" % (
            steps, init, got, want, w.problems[:2]), src)
    return ok(src)
