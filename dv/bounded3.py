"""Bounded stand-ins for entities (labelled bounded): random programs over
random template hierarchies, executed against a Python reference.  The
method resolution order of the reference is the one of Python's own
classes (the documentation says "the same C3 algorithm as Python")."""
import random

from . import mc, repo
from .bounded2 import fail, ok, formatted, wrap


class _Obj:
    def __init__(self, cls):
        self.cls = cls
        self.f = {}


def _mro(name, parents, classes):
    """Python's MRO of a new class, None when there is none."""
    try:
        c = type(name, tuple(classes[p] for p in parents) or (object,), {})
    except TypeError:
        return None
    classes[name] = c
    return [k.__name__ for k in c.__mro__ if k is not object]


class _Hier:
    def __init__(self, r):
        self.r = r
        self.t = []                  # names
        self.parents, self.mro = {}, {}
        self.fields = {}             # own fields
        self.v, self.s, self.st, self.w = {}, {}, {}, {}
        classes = {}
        for k in range(r.randint(2, 5)):
            n = "T%d" % k
            while True:
                ps = []
                if k:
                    ps = r.sample(self.t, min(len(self.t),
                                              r.choice([1, 1, 1, 2, 2])))
                    if not any("T0" in self.mro[p] for p in ps):
                        continue
                m = _mro(n, ps, classes)
                if m is not None:
                    break
            self.t.append(n)
            self.parents[n], self.mro[n] = ps, m
            if k == 0 or r.random() < .5:
                self.v[n] = r.choice(["inline ", ""])
            if r.random() < .5:
                self.s[n] = r.choice(["inline ", ""])
            if k == 0 or r.random() < .4:
                self.st[n] = r.choice(["inline ", ""])
            if k == 0 or r.random() < .4:
                self.w[n] = r.choice(["inline ", ""])
        # fields: never inherited over two paths
        for n in self.t:
            if not any(sum(n in self.mro[p] for p in self.parents[m]) > 1
                       for m in self.t):
                if n == "T0" or r.random() < .6:
                    self.fields[n] = "f%s" % n[1:]
        self.consts = {n: r.randint(-5, 9) for n in self.t}

    def sub(self, a, b):
        return b in self.mro[a]

    def all_fields(self, n):
        return [self.fields[m] for m in self.mro[n] if m in self.fields]

    def find(self, table, n):
        return next((m for m in self.mro[n] if m in table), None)

    def source(self):
        out = []
        for n in self.t:
            ps = self.parents[n]
            out.append("entity %s%s:" % (
                n, " extends " + ", ".join(ps) if ps else ""))
            if n in self.fields:
                out.append("    %s: int" % self.fields[n])
            out.append("    new(k: int):")
            out.append('        new("pig", Pos(%d, 2, 3))' % int(n[1:]))
            for i, f in enumerate(sorted(self.all_fields(n))):
                out.append("        self.%s = k + %d" % (f, i))
            q = "virtual" if n == "T0" else "override"
            own = self.all_fields(n)
            if n in self.v:
                out.append("    %s %sdef v(k: int) -> int:" % (q, self.v[n]))
                self.tell(out, n + ".v", ["k"] + ["self." + f for f in own])
                for f in own[:1]:
                    out.append("        self.%s += k" % f)
                out.append("        result k * 2 + %d" % self.consts[n])
            if n in self.w:
                out.append("    %s %sdef w():" % (q, self.w[n]))
                self.tell(out, n + ".w", ["self." + f for f in own])
            if n in self.s:
                out.append("    %sdef s(k: int) -> int:" % self.s[n])
                self.tell(out, n + ".s", ["k"])
                for f in own[-1:]:
                    out.append("        self.%s -= k" % f)
                out.append("        result k + %d" % self.consts[n])
            if n in self.st:
                out.append("    static %sdef t(k: int) -> int:" % self.st[n])
                self.tell(out, n + ".t", [])
                out.append("        result k - %d" % self.consts[n])
            if n == "T0":
                out.append("    def cv(k: int) -> int:")
                self.tell(out, "cv", ["k"])
                out.append("        result self.v(k + 1) - 3")
        return "\n".join(out) + "\n"

    @staticmethod
    def tell(out, name, vals):
        out.append('        print.tell(print.format("%s%s"%s))' % (
            name, "".join(" %%%d" % i for i in range(len(vals))),
            "".join(", " + x for x in vals)))

    # ---- reference
    def new(self, n, k):
        o = _Obj(n)
        for i, f in enumerate(sorted(self.all_fields(n))):
            o.f[f] = wrap(k + i)
        return o

    def call(self, what, o, static, k, log):
        if what == "cv":
            log.append("cv %d" % k)
            return wrap(self.call("v", o, static, wrap(k + 1), log) - 3)
        if what in ("v", "w"):
            n = self.find(getattr(self, what), o.cls)
        else:
            n = self.find(self.s, static)
        own = self.all_fields(n)
        if what == "w":
            log.append(" ".join([n + ".w"] + [str(o.f[f]) for f in own]))
            return None
        if what == "v":
            log.append(" ".join([n + ".v", str(k)]
                                + [str(o.f[f]) for f in own]))
            for f in own[:1]:
                o.f[f] = wrap(o.f[f] + k)
            return wrap(k * 2 + self.consts[n])
        log.append("%s.s %d" % (n, k))
        for f in own[-1:]:
            o.f[f] = wrap(o.f[f] - k)
        return wrap(k + self.consts[n])


def entity_case(seed, arg=None):
    r = random.Random(seed)
    h = _Hier(r)
    opt = r.random() < .5
    src = "import print\n" + h.source()
    vs = {"x%d" % i: r.choice(h.t) for i in range(r.randint(2, 4))}
    src += "".join("%s: %s\n" % x for x in vs.items())
    src += "g: Engroup[T0]\nh: Engroup[T0]\ni: int\np: bool\n"
    env = {}
    ints = {"i": 0}
    groups = {"g": [], "h": []}
    order = []                       # entities in the order of creation
    log = []
    lines = ["i = 3", "p = False", "g = Engroup[T0]()", "h = Engroup[T0]()"]
    ints["i"] = 3

    def new(n, k):
        o = h.new(n, k)
        order.append(o)
        return o

    def sorted_group(g):
        return [o for o in order if o in groups[g]]

    def pickval():
        if r.random() < .4:
            return "i", lambda: ints["i"]
        c = r.randint(-4, 9)
        return str(c), lambda: c

    def stmt(ind, loopvar=None):
        """(text, action)"""
        x = r.choice(list(vs))
        pool = list(vs) + ([loopvar] if loopvar else [])
        y = r.choice(pool)
        ty = vs.get(y, "T0")
        obj = (lambda: env[y])
        kt, kv = pickval()
        kind = r.choice(["new", "move", "field", "call", "call", "call",
                         "cv", "w", "s", "st", "up", "two", "if", "add",
                         "remove", "for", "size", "has", "set", "readf",
                         "swap", "fun"])
        pad = "    " * ind
        if kind == "new" and not loopvar:
            n = r.choice([t for t in h.t if h.sub(t, vs[x])])

            def act():
                env[x] = new(n, kv())
            return pad + "%s = %s(%s)" % (x, n, kt), act
        if kind == "move":
            c = [z for z in pool if h.sub(vs.get(z, "T0"), vs[x])]
            if c:
                z = r.choice(c)

                def act():
                    env[x] = env[z]
                return pad + "%s = %s" % (x, z), act
        fs = h.all_fields(ty)
        if kind == "field" and fs:
            f = r.choice(fs)
            op = r.choice(["+", "-", "*", ""])

            def act():
                o, k = obj(), kv()
                o.f[f] = wrap({"+": o.f[f] + k, "-": o.f[f] - k,
                               "*": o.f[f] * k, "": k}[op])
            return pad + "%s.%s %s= %s" % (y, f, op, kt), act
        if kind == "readf" and fs:
            f = r.choice(fs)

            def act():
                ints["i"] = wrap(obj().f[f] - kv())
            return pad + "i = %s.%s - %s" % (y, f, kt), act
        if kind in ("call", "cv"):
            m = "v" if kind == "call" else "cv"

            def act():
                ints["i"] = h.call(m, obj(), ty, kv(), log)
            return pad + "i = %s.%s(%s)" % (y, m, kt), act
        if kind == "two":
            z = r.choice(pool)
            c1, c2 = r.randint(0, 5), r.randint(0, 5)

            def act():
                a = h.call("v", obj(), ty, c1, log)
                b = h.call("v", env[z], vs.get(z, "T0"), c2, log)
                ints["i"] = wrap(a - b)
            return pad + "i = %s.v(%d) - %s.v(%d)" % (y, c1, z, c2), act
        if kind == "w":
            def act():
                h.call("w", obj(), ty, None, log)
            return pad + "%s.w()" % y, act
        if kind == "s" and h.find(h.s, ty):
            def act():
                ints["i"] = h.call("s", obj(), ty, kv(), log)
            return pad + "i = %s.s(%s)" % (y, kt), act
        if kind == "st":
            n = r.choice(h.t)
            d = h.find(h.st, n)

            def act():
                k = kv()
                log.append("%s.t" % d)
                ints["i"] = wrap(k - h.consts[d])
            return pad + "i = %s.t(%s)" % (n, kt), act
        if kind == "up" and y in vs:
            n = r.choice(h.mro[ty])
            d = h.find(h.v, n)
            if d is not None:
                def act():
                    o, k = obj(), kv()
                    cls, o.cls = o.cls, n
                    try:
                        ints["i"] = h.call("v", o, n, k, log)
                    finally:
                        o.cls = cls
                return pad + "i = upcast(%s, %s).v(%s)" % (y, n, kt), act
        if kind == "if" and ind < 2 and fs:
            f = r.choice(fs)
            c = r.randint(-2, 8)
            a = [stmt(ind + 1, loopvar) for _ in range(2)]
            b = [stmt(ind + 1, loopvar) for _ in range(1)]

            def act():
                for _, z in (a if obj().f[f] > c else b):
                    z()
            return "\n".join(
                [pad + "if %s.%s > %d:" % (y, f, c)] + [q for q, _ in a]
                + [pad + "else:"] + [q for q, _ in b]), act
        g = r.choice("gh")
        if kind == "add":
            def act():
                if obj() not in groups[g]:
                    groups[g].append(obj())
            return pad + "%s.add(%s)" % (g, y), act
        if kind == "remove":
            def act():
                if obj() in groups[g]:
                    groups[g].remove(obj())
            return pad + "%s.remove(%s)" % (g, y), act
        if kind == "set":
            m = r.choice(["extend", "subtract", "intersect", "=", "copy"])
            o = "h" if g == "g" else "g"

            def act():
                a, b = groups[g], groups[o]
                groups[g] = {
                    "extend": a + [z for z in b if z not in a],
                    "subtract": [z for z in a if z not in b],
                    "intersect": [z for z in a if z in b],
                    "=": list(b), "copy": list(b)}[m]
            return pad + {"=": "%s = %s", "copy": "%s = %s.copy()"}.get(
                m, "%%s.%s(%%s)" % m) % (g, o), act
        if kind == "size":
            def act():
                ints["i"] = wrap(len(groups[g]) + kv())
            return pad + "i = %s.size() + %s" % (g, kt), act
        if kind == "has":
            b = [stmt(ind + 1, loopvar) for _ in range(1)] if ind < 2 else []

            def act():
                if (obj() in groups[g]):
                    for _, z in b:
                        z()
                elif groups[g]:
                    log.append("none")
            return "\n".join(
                [pad + "p = %s.has(%s)" % (g, y), pad + "if %s.has(%s):"
                 % (g, y)] + ([q for q, _ in b] or [pad + "    pass"])
                + [pad + "elif not %s.is_empty():" % g,
                   pad + '    print.tell("none")']), act
        if kind == "for" and ind == 0:
            lv = "e"
            b = [stmt(1, lv) for _ in range(r.randint(1, 3))]

            def act():
                for o in sorted_group(g):
                    env[lv] = o
                    for _, z in b:
                        z()
                env.pop(lv, None)
            return "\n".join([pad + "for e in %s:" % g]
                             + [q for q, _ in b]), act
        if kind == "swap":
            c = [z for z in vs if vs[z] == vs[x]]
            z = r.choice(c)

            def act():
                env[x], env[z] = env[z], env[x]
            return pad + "swap(%s, %s)" % (x, z), act
        if kind == "fun":
            def act():
                o, k = obj(), kv()
                a = h.call("v", o, "T0", k, log)
                h.call("w", o, "T0", None, log)
                ints["i"] = wrap(a + 1)
            return pad + "i = fun(%s, %s)" % (y, kt), act
        return pad + "i += 1", lambda: ints.__setitem__(
            "i", wrap(ints["i"] + 1))

    src += "%sdef fun(e: T0, k: int) -> int:\n    r := e.v(k)\n" \
        "    e.w()\n    result r + 1\n" % r.choice(["", "inline "])
    acts = []
    for x, t in vs.items():
        n = r.choice([u for u in h.t if h.sub(u, t)])
        k = r.randint(-3, 9)
        lines.append("%s = %s(%d)" % (x, n, k))
        acts.append(lambda x=x, n=n, k=k: env.__setitem__(x, new(n, k)))
    for _ in range(r.randint(3, 10)):
        t, a = stmt(0)
        lines.append(t)
        acts.append(a)
    for x, t in vs.items():
        for f in h.all_fields(t):
            lines.append('print.tell(print.format("%s.%s %%0", %s.%s))' % (
                x, f, x, f))
            acts.append(lambda x=x, f=f: log.append("%s.%s %d" % (
                x, f, env[x].f[f])))
    for g in "gh":
        lines.append('i = %s.size()\nprint.tell(print.format("%s %%0", i))'
                     % (g, g))
        acts.append(lambda g=g: log.append("%s %d" % (g, len(groups[g]))))
    src += "\n".join(lines) + "\n"
    try:
        c = repo.compile_text(src, optimizer=opt)
    except repo.Error as e:
        return fail("rejected: %s" % e, src)
    w = mc.World({p: t.split("\n") for p, t in c.files().items()})
    w.ents.append(mc.Ent("player", (10., 64., 10.)))
    try:
        w.run_function("main")
    except mc.StepLimit:
        return {"status": "discard", "input": src}
    for a in acts:
        a()
    got = ["".join(x[0] for x in formatted(t[2])) for t in w.trace
           if t[0] == "tellraw"]
    if got != log or w.problems or w.unknown:
        k = next((i for i, (a, b) in enumerate(zip(got, log)) if a != b),
                 min(len(got), len(log)))
        return fail("line %d: got %s instead of %s %s" % (
            k, got[k:k + 3], log[k:k + 3], w.problems[:2] + w.unknown[:2]),
            src)
    return ok(src)
