"""Bounded stand-ins: random const functions and random list/map
expressions, compiled by the real compiler and compared with the
reference interpreter `ctref.Interp`."""
import random
import traceback

from . import ctref
from .ctref import Interp, Fail, Discard, render, rexpr


class Gen:
    def __init__(self, r, funcs=()):
        self.r = r
        self.funcs = dict(funcs)   # name -> (arg types, result type)
        self.vars = [{}]
        self.n = 0
        self.fixed = set()

    def new(self):
        self.n += 1
        return "v%d" % self.n

    def names(self, t, writable=False):
        return [n for sc in self.vars for n, x in sc.items()
                if x == t and not (writable and n in self.fixed)]

    def int_(self, d):
        r = self.r
        k = r.random()
        ns = self.names("int")
        if d <= 0 or k < .3:
            if ns and r.random() < .7:
                return r.choice(ns)
            return str(r.choice([0, 1, 2, 3, 5, 7, 10, 100, 46341,
                                 2147483647, -1, -2, -7]))
        if k < .62:
            return "(%s %s %s)" % (self.int_(d - 1), r.choice("++--*/%"),
                                   self.int_(d - 1))
        if k < .66:
            return "(-%s)" % self.int_(d - 1)
        if k < .7:
            return "int(%s)" % self.bool_(d - 1)
        if k < .8:
            return "%s.size()" % self.coll(d - 1)
        if k < .92:
            l = self.names("list")
            m = self.names("map")
            if l and r.random() < .6:
                return "%s[%d]" % (r.choice(l), r.choice([0, 0, 1, -1]))
            if m:
                return "%s.get(%s, %s)" % (r.choice(m), self.key(),
                                           self.int_(d - 1))
        return self.call("int", d)

    def call(self, t, d):
        fs = [f for f, (_, res) in self.funcs.items() if res == t]
        if not fs or d <= 0:
            return {"int": "4", "bool": "True", "list": "[1, 2]"}[t]
        f = self.r.choice(fs)
        args = [self.of(x, d - 1) for x in self.funcs[f][0]]
        return "%s(%s)" % (f, ", ".join(args))

    def key(self):
        return self.r.choice(["1", "2", "3", "True", '"1"', '"k"'])

    def bool_(self, d):
        r = self.r
        k = r.random()
        ns = self.names("bool")
        if d <= 0 or k < .2:
            return r.choice(ns) if ns and r.random() < .7 else \
                r.choice(["True", "False"])
        if k < .6:
            return "(%s %s %s)" % (self.int_(d - 1), r.choice(
                ["==", "!=", "<", "<=", ">", ">="]), self.int_(d - 1))
        if k < .7:
            return "(not %s)" % self.bool_(d - 1)
        if k < .9:
            op = " %s " % r.choice(["and", "or"])
            return "(%s)" % op.join(self.bool_(d - 1) for _ in range(
                r.choice([2, 2, 3, 4])))
        if self.names("map"):
            return "%s.has(%s)" % (r.choice(self.names("map")), self.key())
        return "(%s < %s < %s)" % (self.int_(d - 1), self.int_(d - 1),
                                   self.int_(d - 1))

    def list_(self, d):
        r = self.r
        k = r.random()
        ns = self.names("list")
        if ns and k < .3:
            return r.choice(ns)
        if k < .55 or d <= 0:
            return "[%s]" % ", ".join(self.int_(d - 1)
                                      for _ in range(r.randrange(1, 4)))
        base = self.list_(d - 1)
        if k < .65:
            return base + ".copy()"
        if k < .75:
            a = r.choice(["None", "0", "1", "-1", "-2"])
            b = r.choice(["None", "0", "1", "2", "-1", "5"])
            c = r.choice(["", "", ", 1", ", -1", ", 2"])
            return base + ".slice(%s, %s%s)" % (a, b, c)
        if k < .82:
            return base + ".cycle(%d)" % r.randrange(3)
        if k < .9 and self.names("map"):
            return "%s.%s()" % (r.choice(self.names("map")),
                                r.choice(["keys", "values"]))
        return self.call("list", d)

    def coll(self, d):
        if self.r.random() < .3 and self.names("map"):
            return self.r.choice(self.names("map"))
        return self.list_(d)

    def map_(self, d):
        r = self.r
        ns = self.names("map")
        if ns and r.random() < .4:
            return r.choice(ns) + r.choice(["", ".copy()"])
        return "{%s}" % ", ".join(
            "%s: %s" % (self.key(), self.int_(d - 1))
            for _ in range(r.randrange(4)))

    def str_(self, d):
        r = self.r
        parts = ["a", "{%s}" % self.int_(d - 1), "{%s}" % self.bool_(d - 1)]
        return "f\"%s\"" % "".join(r.choice(parts) for _ in range(2))

    def of(self, t, d):
        return {"int": self.int_, "bool": self.bool_, "list": self.list_,
                "map": self.map_, "str": self.str_}[t](d)

    def block(self, depth, ind, inloop=False):
        out = ""
        for _ in range(self.r.randrange(1, 5 if depth > 1 else 3)):
            out += self.stmt(depth, ind, inloop)
        return out

    def stmt(self, depth, ind, inloop):
        r = self.r
        p = "    " * ind
        k = r.random()
        if k < .22 and not inloop:
            t = r.choice(["int", "int", "bool", "list", "map"])
            e = self.of(t, 2)
            n = self.new()
            self.vars[-1][n] = t
            return p + "%s = VAR(%s)\n" % (n, e)
        if k < .27 and not inloop and self.names("list"):
            e = "%s[%d]" % (r.choice(self.names("list")),
                            r.choice([0, 0, -1, 1]))
            n = self.new()
            self.vars[-1][n] = "int"
            return p + "%s = REF(%s)\n" % (n, e)
        if k < .32 and not inloop and self.names("int", True):
            e = r.choice(self.names("int", True))
            n = self.new()
            self.vars[-1][n] = "int"
            return p + "%s = REF(%s)\n" % (n, e)
        if k < .55:
            t = r.choice(["int", "int", "bool", "list"])
            ns = self.names(t, True)
            if ns:
                n = r.choice(ns)
                if t == "int" and r.random() < .5:
                    return p + "%s %s= %s\n" % (n, r.choice("++-*/%"),
                                                self.int_(2))
                return p + "%s = %s\n" % (n, self.of(t, 2))
            return p + "pass\n"
        if k < .68:
            ls = self.names("list")
            ms = self.names("map")
            if ls and (not ms or r.random() < .7):
                l = r.choice(ls)
                op = r.choice(["append(%s)", "insert(0, %s)", "reverse()",
                               "pop(0)", "extend([%s])", "[0]",
                               "[-1]+"])
                if op[0] == "[":
                    return p + "%s%s %s %s\n" % (
                        l, op.rstrip("+"), "+=" if op[-1] == "+" else "=",
                        self.int_(2))
                return p + l + "." + (op % self.int_(1) if "%s" in op
                                      else op) + "\n"
            if ms:
                m = r.choice(ms)
                op = r.choice(["pop(K, 0)", "update({K: %s})",
                               "set_default(K, %s)", "update({K: %s})"])
                op = op.replace("K", self.key())
                return p + m + "." + (op % self.int_(1) if "%s" in op
                                      else op) + "\n"
            return p + "pass\n"
        if k < .8 and depth:
            s = p + "if %s:\n" % self.bool_(2)
            s += self.scoped(depth, ind, True)
            while r.random() < .3:
                s += p + "elif %s:\n" % self.bool_(2)
                s += self.scoped(depth, ind, True)
            if r.random() < .5:
                s += p + "else:\n" + self.scoped(depth, ind, True)
            return s
        if k < .9 and depth:
            it = r.choice(["list.range(%d)" % r.randrange(4),
                           self.list_(1), self.list_(1) + ".copy()"])
            n = self.new()
            self.vars.append({n: "int"})
            self.fixed.add(n)
            b = self.block(depth - 1, ind + 1, inloop)
            self.vars.pop()
            return p + "for %s in %s:\n" % (n, it) + b
        if k < .95 and depth and not inloop:
            n = self.new()
            self.vars[-1][n] = "int"
            self.fixed.add(n)
            cond = "%s < %d" % (n, r.randrange(4))
            if r.random() < .4:
                cond = "%s and %s" % (cond, self.bool_(1))
            s = p + "%s = VAR(0)\n" % n + p + "while %s:\n" % cond
            b = self.scoped(depth, ind, True)
            return s + b + p + "    %s += 1\n" % n
        return p + "RESULT(%s)\n" % self.of(self.res, 2)

    def scoped(self, depth, ind, inloop):
        # names are only defined outside of conditional blocks
        self.vars.append({})
        b = self.block(depth - 1, ind + 1, inloop)
        self.vars.pop()
        return b

    def func(self, name):
        r = self.r
        ts = [r.choice(["int", "int", "bool", "list"])
              for _ in range(r.randrange(4))]
        self.res = r.choice(["int", "bool", "list"])
        self.vars = [{}]
        self.fixed = set()
        ps = []
        for i, t in enumerate(ts):
            n = self.new()
            self.vars[0][n] = t
            self.fixed.add(n)
            ps.append("%s: %s" % (n, t) if r.random() < .8 else n)
        # parameters are not assigned (aliasing is not specified)
        s = "def %s(%s) -> %s:\n" % (name, ", ".join(ps), self.res)
        for n, t in list(self.vars[0].items()):
            if t == "list" and r.random() < .8 or r.random() < .2:
                m = self.new()
                s += "    %s = VAR(%s)\n" % (
                    m, n + ".copy()" if t == "list" else n)
                del self.vars[0][n]
                self.vars[0][m] = t
        s += self.block(2, 1) + self.block(2, 1)
        s += "    RESULT(%s)\n" % self.of(self.res, 2)
        if r.random() < .2:
            s += self.block(1, 1)
        self.funcs[name] = (ts, self.res)
        return s


def program(r):
    g = Gen(r)
    src = "".join(g.func("f%d" % i) for i in range(r.randrange(1, 4)))
    g.vars = [{}]
    calls = []
    for _ in range(3):
        f = r.choice(sorted(g.funcs))
        calls.append("%s(%s)" % (f, ", ".join(
            rt_of(r, t) for t in g.funcs[f][0])))
    return src, calls


def rt_of(r, t):
    i = lambda: str(r.choice([0, 1, 2, 3, 7, -1, -5, 2147483647, 1000]))
    if t == "int":
        return i()
    if t == "bool":
        return r.choice(["True", "False"])
    return "[%s]" % ", ".join(i() for _ in range(r.randrange(4)))


class _H:
    """Collects the obligations of a concrete run."""
    def __init__(self):
        self.bad = []

    def prove(self, name, ok, info=""):
        import z3
        if not isinstance(ok, bool):
            ok = z3.is_true(z3.simplify(ok))
        if not ok:
            self.bad.append("%s: %s" % (name, info))

    def choose(self, n, l):
        return l[0]

    def cover(self):
        pass


def ct_case(seed, arg=None):
    from .contracts_int import begin
    from .contracts_list import check_expr
    r = random.Random(seed)
    src, calls = program(r)
    show = "%s\n%s" % (src, calls)
    it = Interp(fuel=30000)
    it.define(src)
    wants = []
    for c in calls:
        rt = Interp(it.glob, rt=True, fuel=30000)
        try:
            wants.append(rt.eval(c))
        except Fail as e:
            wants.append(e)
        except (Discard, RecursionError):
            wants.append(None)
    if all(w is None for w in wants) or any(
            abs_big(w) for w in wants):
        return {"status": "discard", "input": show}
    H = _H()
    env = begin(H)
    err = env.visit(render(src))
    if err is not None:
        return {"status": "fail", "input": show, "what": "rejected: %s" % err}
    for c, w in zip(calls, wants):
        if w is not None:
            check_expr(H, env, rexpr(c), w, c)
    if H.bad:
        return {"status": "fail", "input": show + "\n" + render(src),
                "what": "; ".join(H.bad)}
    return {"status": "ok", "input": show,
            "accepted": sum(not isinstance(w, Fail) for w in wants)}


def abs_big(w):
    return isinstance(w, ctref.L) and len(w.cells) > 2000
