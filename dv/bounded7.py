"""Bounded stand-ins for C12 (text), C24 (positions), C13-C16."""
import random

from . import contracts_world as CW
from . import mc, wenv


def world_case(seed, arg=None):
    """Random position, rotation and offset expressions (chains of up to 4
    methods) in random world functions."""
    r = random.Random(seed)
    g = CW.Gen(r)
    text, want = [], []
    for _ in range(r.randrange(1, 4)):
        t, w = CW._statements(g, r)
        text.append(t)
        want += w
    o = CW.Out("\n".join(text) + "\n",
               dict(optimizer=r.random() < .5))
    src = o.text
    if o.err is not None:
        return {"status": "fail", "input": src,
                "what": "rejected: %s" % o.err}
    try:
        got = o.canon()
        exp = [wenv.canon(o.sub(x), o.sels) for x in want]
    except mc.McError as x:
        return {"status": "fail", "input": src, "what": str(x)}
    if got != exp:
        return {"status": "fail", "input": src,
                "what": "expected %s, got %s" % (want, o.lines)}
    return {"status": "ok", "input": src}


def text_case(seed, arg=None):
    """Random strings in every context where the program may write one."""
    from . import contracts_text as CT
    r = random.Random(seed)
    ctx = r.choice(sorted(CT.CONTEXTS))
    ss = []
    for _ in range(8):
        s = ""
        for _ in range(r.randrange(1, 12)):
            k = r.random()
            if k < .5:
                s += r.choice(CT.SPECIAL)
            elif k < .8:
                s += r.choice("abcXYZ0129_.-")
            elif k < .9:
                s += chr(r.choice([r.randrange(0xA1, 0x2000),
                                   r.randrange(0x3001, 0xD800),
                                   r.randrange(0x10000, 0x20000)]))
            else:
                s += r.choice(["true", "1..2", "@s", "run", "\\\"", "~1"])
        if ctx in ("say", "tellmsg", "reason"):
            s = s.strip(" ") or "x"
        if ctx == "pattern":
            s = s.replace("%", "")
        ss.append(s)
    w = CT.failing(ctx, ss, mc_version=r.choice([(1, 19, 50), (1, 20, 10),
                                                 (1, 21)]),
                   optimizer=r.random() < .3)
    if w is not None:
        return {"status": "fail", "input": repr(ss), "what": w}
    return {"status": "ok", "input": repr((ctx, ss))}


# ------------------------------------------------------------ modules (C13)
def _mod_program(r):
    """Random modules (some in folders), each with a trace command, a
    counter and imports; the main file and interfaces import them in random
    statements. Returns (modules, source, entry -> list of steps)."""
    n = r.randrange(2, 6)
    dirs = ["", "", "d/", "d/e/", "f/"]
    mods = []
    for k in range(n):
        mods.append((r.choice(dirs), "m%d" % k))

    def dotted(k):
        d, name = mods[k]
        t = (d + name).replace("/", ".")
        return r.choice(["", "", "", "", ".", ".", "..v."]) + t

    count = [0]

    def imp(k, ind, scope):
        count[0] += 1
        a = "n%d" % count[0]
        how = r.randrange(5)
        pad = "    " * ind
        t = dotted(k)
        if how == 0:
            s = "%simport %s as %s\n" % (pad, t, a)
            ref = "%s.v%d" % (a, k)
        elif how == 1:
            s = "%sfrom %s import v%d as %s\n" % (pad, t, k, a)
            ref = a
        elif how == 2:
            s = "%sfrom %s import (v%d as o%s, v%d as %s)\n" % (
                pad, t, k, a, k, a)
            ref = a
        elif how == 3:
            s = "%simport %s as %s\n" % (pad, t, a)
            s += "%s%s.inc(0)\n" % (pad, a)
            ref = "%s.v%d" % (a, k)
        else:
            s = "%sfrom %s import inc as i%s, v%d as %s\n" % (
                pad, t, a, k, a)
            s += "%si%s(0)\n" % (pad, a)
            ref = a
        steps = [("import", k)]
        if r.random() < .6:
            c = r.randrange(1, 9)
            s += "%s%s += %d\n" % (pad, ref, c)
            steps.append(("add", k, c))
        return s, steps

    def block(choices, depth, ind):
        s, steps = "", []
        for _ in range(r.randrange(1, 4)):
            c = r.random()
            pad = "    " * ind
            if c < .55 or depth >= 2 or not choices:
                if choices and c < .9:
                    a, b = imp(r.choice(choices), ind, None)
                else:
                    count[0] += 1
                    a = "%s/say t%d\n" % (pad, count[0])
                    b = [("say", "t%d" % count[0])]
                s += a
                steps += b
            elif c < .85:
                v = r.choice("pq")
                a, b = block(choices, depth + 1, ind + 1)
                s += "%sif %s:\n%s" % (pad, v, a)
                e = []
                if r.random() < .5:
                    a, e = block(choices, depth + 1, ind + 1)
                    s += "%selse:\n%s" % (pad, a)
                steps.append(("if", v, b, e))
            else:
                count[0] += 1
                f = "g%d" % count[0]
                a, b = block(choices, depth + 1, ind + 1)
                inl = r.choice(["", "inline "])
                s += "%s%sdef %s():\n%s" % (pad, inl, f, a)
                k = r.randrange(3)
                s += ("%s%s()\n" % (pad, f)) * k
                steps += [("do", b)] * k
        return s, steps

    text, bodies = {}, {}
    for k, (d, name) in enumerate(mods):
        pre = "v%d := %d\ndef inc(n: int):\n    v%d += n\n/say m%d\n" % (
            k, 10 * k + 1, k, k)
        own = [("set", k, 10 * k + 1), ("say", "m%d" % k)]
        # p and q are variables of the main file; a module has its own
        loc = "p := %s\nq := %s\n" % (r.choice(["True", "False"]),
                                      r.choice(["True", "False"]))
        a, b = block(list(range(k)), 0, 0)
        if r.random() < .5:
            text[d + name + ".aca"] = loc + a + pre
            steps = b + own
        else:
            text[d + name + ".aca"] = loc + pre + a
            steps = own + b
        vals = [x.split(" := ")[1] == "True" for x in loc.split("\n")[:2]]
        bodies[k] = (dict(p=vals[0], q=vals[1]), steps)
    pv, qv = r.random() < .5, r.random() < .5
    src = "import dvhook\np := %s\nq := %s\n" % (pv, qv)
    a, b = block(list(range(n)), 0, 0)
    src += a
    prog = {"main": b}
    for e in ("ia", "ib"):
        if r.random() < .6:
            a, b = block(list(range(n)), 1, 1)
            src += "interface %s:\n%s" % (e, a)
            prog[e] = b
    for k in range(n):
        src += "import %s as z%d\ndvhook.observe(\"v%d\", z%d.v%d)\n" % (
            dotted(k), k, k, k, k)
        prog["main"] = prog["main"] + [("import", k)]
    return text, src, prog, bodies, dict(p=pv, q=qv)


def mod_case(seed, arg=None):
    """A module graph run against flag-by-flag initialisation."""
    r = random.Random(seed)
    mods, src, prog, bodies, env = _mod_program(r)
    from .scen import compile_case, Case
    from . import repo
    case = Case(None)
    cfg = dict(optimizer=r.random() < .6,
               max_inline_file_size=r.choice([0, 1, 20]),
               split_init=r.random() < .3)
    seq = ["main"] + [r.choice(sorted(prog)) for _ in range(r.randrange(4))]
    show = "%s\n%s\n%s\n%s" % (cfg, seq, src, "\n".join(
        "--- %s\n%s" % x for x in sorted(mods.items())))
    try:
        c = compile_case(case, src, mods, **cfg)
    except repo.Error as e:
        return {"status": "fail", "input": show, "what": "rejected: %s" % e}
    w = mc.World({p: t.split("\n") for p, t in c.files().items()})
    if cfg["split_init"]:
        w.run_function("init")
    vals, trace, done = {}, [], set()

    def run(steps, e):
        for s in steps:
            if s[0] == "import":
                if s[1] not in done:
                    done.add(s[1])
                    run(bodies[s[1]][1], bodies[s[1]][0])
            elif s[0] == "add":
                vals[s[1]] += s[2]
            elif s[0] == "set":
                vals[s[1]] = s[2]
            elif s[0] == "say":
                trace.append("say " + s[1])
            elif s[0] == "do":
                run(s[1], e)
            else:
                run(s[2] if e[s[1]] else s[3], e)
    for name in seq:
        if name == "main":
            done.clear()
        run(prog[name], env)
        w.run_function(name)
    got = [x[0] for x in w.trace]
    if got != trace:
        return {"status": "fail", "input": show,
                "what": "commands %s instead of %s" % (got, trace)}
    for k, v in vals.items():
        e = case.observed["v%d" % k]
        g = w.scores.get((e.slot.target, e.slot.objective))
        if g != v:
            return {"status": "fail", "input": show,
                    "what": "v%d is %s instead of %s" % (k, g, v)}
    return {"status": "ok", "input": show}
