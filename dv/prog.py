"""Random Acacia programs with a reference semantics.

Used for the *bounded* complement of the deductive obligations (labelled
bounded in the evidence) and to replay refuted obligations on whole
programs.  Every construct is generated as a pair: source text and a
Python closure giving its meaning, written from the language
documentation (test/brief.aca, README) -- not from the compiler.

Programs whose meaning the documentation leaves open are not generated:
an operand changed by a call in the same expression, recursion, division
by zero (such runs are discarded), reads of uninitialised variables.
"""
import random

from . import mc

MIN, MAX = mc.INT_MIN, mc.INT_MAX

P_OR, P_AND, P_NOT, P_CMP, P_ADD, P_MUL, P_UN, P_ATOM = range(8)
CMPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b,
        "<": lambda a, b: a < b, ">": lambda a, b: a > b,
        "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


class Discard(Exception):
    """The run leaves the specified fragment (division by zero...)."""


class E:
    __slots__ = ("src", "prec", "ty", "ev", "const")

    def __init__(self, src, prec, ty, ev, const=False):
        self.src, self.prec, self.ty, self.ev, self.const = \
            src, prec, ty, ev, const

    def at(self, p):
        return self.src if self.prec >= p else "(%s)" % self.src


def arith(op, a, b):
    try:
        return mc.c_op(op + "=", a, b)
    except mc.DivByZero:
        raise Discard("division by zero")


class Env:
    def __init__(self):
        self.v = {}
        self.alias = {}
        self.trace = []
        self.steps = 0

    def key(self, k):
        while k in self.alias:
            k = self.alias[k]
        return k

    def get(self, k):
        return self.v[self.key(k)]

    def set(self, k, x):
        self.v[self.key(k)] = x

    def tick(self):
        self.steps += 1
        if self.steps > 4000:
            raise Discard("too long")


class Var:
    def __init__(self, name, ty, key=None, const=None, mutable=True):
        self.name, self.ty, self.key = name, ty, key or name
        self.const = const
        self.mutable = mutable


class Func:
    def __init__(self, name, params, ret, kind, call, pure, mod=None):
        self.name, self.params, self.ret = name, params, ret
        self.kind, self.call, self.pure = kind, call, pure
        self.mod = mod


class Struct:
    def __init__(self, name, fields, bases=()):
        self.name = name
        self.fields = fields          # own + inherited: name -> 'int'/'bool'
        self.bases = bases


DEFAULT = dict(
    n_stmts=(4, 9), depth=2, funcs=(0, 3), inline=(0, 2), structs=(0, 2),
    loops=1, ifs=1, calls=1, fors=1, swaps=1, tells=1, says=1, modules=0,
    interfaces=0, refs=1, aug=1, bools=1, ints=1, consts=1, expr=3,
    constfold=0, extscb=0)


class Gen:
    def __init__(self, seed, **prof):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.n = 0
        self.funcs = []
        self.structs = []
        self.modules = {}
        self.ifaces = []
        self.loop_depth = 0
        self.infunc = False

    # ------------------------------------------------------- helpers
    def uid(self, base):
        self.n += 1
        return "%s%d" % (base, self.n)

    def chance(self, p):
        return self.r.random() < p

    def lit(self):
        r = self.r
        k = r.random()
        if k < .55:
            return r.randint(-9, 20)
        if k < .75:
            return r.randint(-300, 300)
        if k < .9:
            return r.choice([MIN, MAX, MIN + 1, MAX - 1, 0, 1, -1, 2, 65536,
                             -65536, 46341])
        return r.randint(MIN, MAX)

    @staticmethod
    def litE(v):
        if v == MIN:
            return E("int.MIN", P_ATOM, "int", lambda e: MIN, True)
        if v < 0:
            return E("-%d" % -v, P_UN, "int", lambda e, v=v: v, True)
        return E(str(v), P_ATOM, "int", lambda e, v=v: v, True)

    def vars_of(self, scope, ty, mutable=False):
        return [v for v in scope if v.ty == ty and
                (v.mutable or not mutable)]

    def read(self, v):
        if v.const is not None:
            c = v.const
            return E(v.name, P_ATOM, v.ty, lambda e: c, True)
        k = v.key
        return E(v.name, P_ATOM, v.ty, lambda e: e.get(k))

    # ----------------------------------------------------- expressions
    def int_expr(self, scope, d, pure=True, nocall=False):
        r = self.r
        if d <= 0 or self.chance(.2):
            vs = self.vars_of(scope, "int")
            if vs and self.chance(.7):
                return self.read(r.choice(vs))
            return self.litE(self.lit())
        k = r.random()
        if k < .62:
            op = r.choice("+-*/%+-*")
            a = self.int_expr(scope, d - 1, pure, nocall)
            b = self.int_expr(scope, d - 1, pure, nocall)
            if op in "/%" and self.chance(.7):
                b = self.litE(r.choice([1, 2, 3, 7, 10, -2, -3, -1, 100]))
            if a.const and b.const:
                # both operands compile-time constants: folded exactly
                va, vb = a.ev(None), b.ev(None)
                if op in "/%" and vb == 0:
                    return a
                x = {"+": lambda: va + vb, "-": lambda: va - vb,
                     "*": lambda: va * vb, "/": lambda: mc.tdiv(va, vb),
                     "%": lambda: mc.tmod(va, vb)}[op]()
                if not MIN <= x <= MAX:
                    return a
            p = P_ADD if op in "+-" else P_MUL
            return E("%s %s %s" % (a.at(p), op, b.at(p + 1)), p, "int",
                     lambda e: arith(op, a.ev(e), b.ev(e)),
                     a.const and b.const)
        if k < .72:
            a = self.int_expr(scope, d - 1, pure, nocall)
            if a.const and a.ev(None) == MIN:
                return a
            s = r.choice(["-", "-", "+"])
            if s == "+":
                return E("+" + a.at(P_UN), P_UN, "int", a.ev, a.const)
            return E("-" + a.at(P_UN), P_UN, "int",
                     lambda e: arith("-", 0, a.ev(e)), a.const)
        if k < .80 and self.p["bools"]:
            a = self.bool_expr(scope, d - 1, pure, nocall)
            return E("int(%s)" % a.src, P_ATOM, "int",
                     lambda e: int(a.ev(e)), a.const)
        if k < .95 and not nocall:
            c = self.call_expr(scope, "int", d - 1, pure)
            if c is not None:
                return c
        return self.field_expr(scope, "int") or \
            self.int_expr(scope, 0, pure, nocall)

    def field_expr(self, scope, ty):
        sv = [(v, f) for v in scope if isinstance(v.ty, Struct)
              for f, t in v.ty.fields.items() if t == ty]
        if not sv:
            return None
        v, f = self.r.choice(sv)
        k = v.key
        return E("%s.%s" % (v.name, f), P_ATOM, ty,
                 lambda e: e.get(k)[f])

    def bool_expr(self, scope, d, pure=True, nocall=False):
        r = self.r
        if d <= 0 or self.chance(.12):
            vs = self.vars_of(scope, "bool")
            if vs and self.chance(.8):
                return self.read(r.choice(vs))
            if self.chance(.8):
                return self.compare(scope, 0, pure, nocall)
            b = self.chance(.5)
            return E(str(b), P_ATOM, "bool", lambda e: b, True)
        k = r.random()
        if k < .35:
            return self.compare(scope, d - 1, pure, nocall)
        if k < .7:
            op = r.choice(["and", "or"])
            n = r.choice([2, 2, 3])
            xs = [self.bool_expr(scope, d - 1, pure, nocall)
                  for _ in range(n)]
            p = P_AND if op == "and" else P_OR
            src = (" %s " % op).join(x.at(p + 1) for x in xs)
            f = all if op == "and" else any
            return E(src, p, "bool",
                     lambda e: f([x.ev(e) for x in xs]),
                     all(x.const for x in xs))
        if k < .85:
            a = self.bool_expr(scope, d - 1, pure, nocall)
            return E("not " + a.at(P_NOT), P_NOT, "bool",
                     lambda e: not a.ev(e), a.const)
        if k < .92:
            a = self.bool_expr(scope, d - 1, pure, nocall)
            b = self.bool_expr(scope, d - 1, pure, nocall)
            op = r.choice(["==", "!="])
            return E("%s %s %s" % (a.at(P_CMP + 1), op, b.at(P_CMP + 1)),
                     P_CMP, "bool",
                     lambda e: CMPS[op](a.ev(e), b.ev(e)),
                     a.const and b.const)
        if not nocall:
            c = self.call_expr(scope, "bool", d - 1, pure)
            if c is not None:
                return c
        return self.field_expr(scope, "bool") or \
            self.compare(scope, d - 1, pure, nocall)

    def compare(self, scope, d, pure, nocall):
        r = self.r
        n = r.choice([1, 1, 1, 2])
        xs = [self.int_expr(scope, d, pure, nocall) for _ in range(n + 1)]
        ops = [r.choice(list(CMPS)) for _ in range(n)]
        src = xs[0].at(P_CMP + 1)
        for op, x in zip(ops, xs[1:]):
            src += " %s %s" % (op, x.at(P_CMP + 1))

        def ev(e):
            vs = [x.ev(e) for x in xs]
            return all(CMPS[o](a, b) for o, a, b in zip(ops, vs, vs[1:]))
        return E(src, P_CMP, "bool", ev, all(x.const for x in xs))

    def expr(self, scope, ty, d, pure=True, nocall=False):
        if ty == "int":
            return self.int_expr(scope, d, pure, nocall)
        if ty == "bool":
            return self.bool_expr(scope, d, pure, nocall)
        vs = self.vars_of(scope, ty)
        if vs and self.chance(.5):
            return self.read(self.r.choice(vs))
        if not nocall and self.chance(.5):
            c = self.call_expr(scope, ty, d, pure)
            if c is not None:
                return c
        return self.struct_lit(scope, ty, d)

    def struct_lit(self, scope, ty, d):
        fs = list(ty.fields.items())
        self.r.shuffle(fs)
        xs = {f: self.expr(scope, t, min(d, 2), True, True) for f, t in fs}
        src = "%s(%s)" % (ty.name, ", ".join(
            "%s=%s" % (f, x.src) for f, x in xs.items()))
        return E(src, P_ATOM, ty,
                 lambda e: {f: x.ev(e) for f, x in xs.items()})

    # ------------------------------------------------------------ calls
    def bind_args(self, f, scope, d):
        """Random argument list: returns (src, list of closures)."""
        r = self.r
        pos, kw, out = [], [], {}
        used_kw = False
        for p in f.params:
            name, ty, port, default = p
            if default is not None and self.chance(.35):
                out[name] = None
                used_kw = True
                continue
            if port == "ref":
                vs = self.vars_of(scope, ty, True)
                if not vs:
                    return None
                v = r.choice(vs)
                a = E(v.name, P_ATOM, ty, lambda e, v=v: v.key)
            elif port == "const":
                a = self.litE(self.lit()) if ty == "int" else \
                    self.bool_expr([], 0)
                if not a.const:
                    a = E("True", P_ATOM, "bool", lambda e: True, True)
            else:
                a = self.expr(scope, ty, d, True, nocall=self.chance(.6))
            out[name] = a
            if used_kw or self.chance(.25):
                used_kw = True
                kw.append("%s=%s" % (name, a.src))
            else:
                pos.append(a.src)
        r.shuffle(kw)
        return ", ".join(pos + kw), out

    def call_expr(self, scope, ty, d, pure):
        fs = [f for f in self.funcs if f.ret is ty or f.ret == ty]
        fs = [f for f in fs if f.pure]
        if not fs or not self.p["calls"]:
            return None
        return self.make_call(self.r.choice(fs), scope, d)

    def make_call(self, f, scope, d):
        b = self.bind_args(f, scope, d)
        if b is None:
            return None
        src, args = b

        def ev(e):
            e.tick()
            vals = []
            for (name, ty, port, default) in f.params:
                a = args[name]
                vals.append(default if a is None else a.ev(e))
            return f.call(e, vals)
        return E("%s(%s)" % (f.name, src), P_ATOM, f.ret, ev)

    # ------------------------------------------------------- statements
    # A statement generator returns (lines, closure).
    def block(self, scope, n, depth):
        scope = list(scope)
        lines, acts = [], []
        for _ in range(n):
            s = self.stmt(scope, depth)
            if s is None:
                continue
            lines += s[0]
            acts.append(s[1])
        if not lines:
            lines = ["pass"]

        def run(e):
            for a in acts:
                a(e)
        return lines, run, scope

    @staticmethod
    def ind(lines):
        return ["    " + x for x in lines]

    def stmt(self, scope, depth):
        p = self.p
        kinds = [("assign", 3), ("def", 2), ("aug", 2 * p["aug"]),
                 ("say", p["says"]), ("tell", p["tells"]),
                 ("swap", .5 * p["swaps"]), ("call", 1.5 * p["calls"]),
                 ("ref", .4 * p["refs"]), ("const", .4 * p["consts"]),
                 ("field", 1 * bool(self.structs)), ("sdef", .8 * bool(
                     self.structs)), ("sassign", .8 * bool(self.structs)),
                 ("ext", p["extscb"])]
        if depth > 0:
            kinds += [("if", 2 * p["ifs"]), ("while", 1.2 * p["loops"]),
                      ("for", .6 * p["fors"])]
        k = self.r.choices([x for x, _ in kinds], [w for _, w in kinds])[0]
        return getattr(self, "s_" + k)(scope, depth)

    def ity(self):
        return "int" if self.chance(.6) or not self.p["bools"] else "bool"

    def s_def(self, scope, depth):
        ty = self.ity()
        name = self.uid("v")
        x = self.expr(scope, ty, self.p["expr"])
        form = self.r.randrange(3)
        lines = {0: ["%s := %s" % (name, x.src)],
                 1: ["%s: %s = %s" % (name, ty, x.src)],
                 2: ["%s: %s" % (name, ty), "%s = %s" % (name, x.src)]}[form]
        scope.append(Var(name, ty))
        return lines, lambda e: e.set(name, x.ev(e))

    def s_assign(self, scope, depth):
        ty = self.ity()
        vs = self.vars_of(scope, ty, True)
        if not vs:
            return self.s_def(scope, depth)
        v = self.r.choice(vs)
        x = self.expr(scope, ty, self.p["expr"])
        return ["%s = %s" % (v.name, x.src)], \
            lambda e: e.set(v.key, x.ev(e))

    def s_ext(self, scope, depth):
        """External scoreboard slots, read and written."""
        o = self.r.choice(["o1", "my obj"])
        h = self.r.choice(["h1", "h 2"])
        k = "ext %s %s" % (h, o)
        x = self.expr(scope, "int", self.p["expr"])
        v = self.uid("v")
        scope.append(Var(v, "int"))

        def run(e):
            e.set(k, x.ev(e))
            e.set(v, e.get(k))
        s = 'scb("%s", "%s")' % (h, o)
        return ["%s = %s" % (s, x.src), "%s := %s" % (v, s)], run

    def s_aug(self, scope, depth):
        vs = self.vars_of(scope, "int", True)
        if not vs:
            return self.s_def(scope, depth)
        v = self.r.choice(vs)
        op = self.r.choice("+-*/%")
        x = self.int_expr(scope, self.p["expr"] - 1)
        if op in "/%" and self.chance(.8):
            x = self.litE(self.r.choice([1, 2, 3, 5, -2, 10]))
        return ["%s %s= %s" % (v.name, op, x.src)], \
            lambda e: e.set(v.key, arith(op, e.get(v.key), x.ev(e)))

    def s_say(self, scope, depth):
        lab = self.uid("L")
        cs = [v for v in scope if v.const is not None]
        if cs and self.chance(.4):
            v = self.r.choice(cs)
            txt = "say %s %s" % (lab, ("1" if v.const else "0")
                                 if v.ty == "bool" else v.const)
            if v.ty == "bool":
                txt = "say %s %s" % (lab, "true" if v.const else "false")
                return ["/say %s" % lab], lambda e: e.trace.append(
                    ("say " + lab, None))
            return ["/say %s ${%s}" % (lab, v.name)], \
                lambda e: e.trace.append((txt, None))
        return ["/say %s" % lab], \
            lambda e: e.trace.append(("say " + lab, None))

    def s_tell(self, scope, depth):
        n = self.r.choice([1, 1, 2])
        xs = [self.expr(scope, self.ity(), self.p["expr"] - 1)
              for _ in range(n)]
        lab = self.uid("T")
        fmt = lab + " " + ",".join("%%%d" % i for i in range(n)) + "%%"
        src = 'print.tell(print.format("%s", %s))' % (
            fmt, ", ".join(x.src for x in xs))

        def run(e):
            t = lab + " " + ",".join(str(int(x.ev(e))) for x in xs) + "%"
            e.trace.append(("tellraw", "@a", t))
        return [src], run

    def s_swap(self, scope, depth):
        ty = self.r.choice(["int", "bool"] + self.structs)
        vs = self.vars_of(scope, ty, True)
        if len(vs) < 1:
            return self.s_assign(scope, depth)
        a, b = self.r.choice(vs), self.r.choice(vs)

        def run(e):
            x, y = e.get(a.key), e.get(b.key)
            e.set(a.key, y)
            e.set(b.key, x)
        return ["swap(%s, %s)" % (a.name, b.name)], run

    def s_call(self, scope, depth):
        if not self.funcs:
            return self.s_assign(scope, depth)
        f = self.r.choice(self.funcs)
        c = self.make_call(f, scope, 2)
        if c is None:
            return self.s_assign(scope, depth)
        form = self.r.randrange(3)
        if f.ret is not None and form:
            vs = [v for v in self.vars_of(scope, f.ret, True)]
            if not f.pure:
                # the target may alias what the call changes: fresh one
                vs = []
            if form == 1 and vs:
                v = self.r.choice(vs)
                return ["%s = %s" % (v.name, c.src)], \
                    lambda e: e.set(v.key, c.ev(e))
            name = self.uid("v")
            scope.append(Var(name, f.ret))
            return ["%s := %s" % (name, c.src)], \
                lambda e: e.set(name, c.ev(e))

        def run(e):
            c.ev(e)
        return [c.src], run

    def s_ref(self, scope, depth):
        ty = self.r.choice(["int", "bool"] + self.structs)
        vs = self.vars_of(scope, ty, True)
        if not vs:
            return self.s_assign(scope, depth)
        v = self.r.choice(vs)
        name = self.uid("r")
        scope.append(Var(name, ty, key=v.key))
        tyname = ty if isinstance(ty, str) else ty.name
        ann = ": " + tyname if self.chance(.5) else ""
        return ["&%s%s = %s" % (name, ann, v.name)], lambda e: None

    def s_const(self, scope, depth):
        name = self.uid("C")
        cs = [v for v in scope if v.const is not None]
        x = self.int_expr(cs, 2, nocall=True)
        if not x.const:
            return None
        scope.append(Var(name, "int", const=x.ev(None), mutable=False))
        return ["const %s = %s" % (name, x.src)], lambda e: None

    def s_sdef(self, scope, depth):
        ty = self.r.choice(self.structs)
        name = self.uid("s")
        x = self.expr(scope, ty, 2)
        if self.chance(.5):
            lines = ["%s := %s" % (name, x.src)]
        else:
            lines = ["%s: %s" % (name, ty.name), "%s = %s" % (name, x.src)]
        scope.append(Var(name, ty))
        return lines, lambda e: e.set(name, dict(x.ev(e)))

    def s_sassign(self, scope, depth):
        ty = self.r.choice(self.structs)
        vs = self.vars_of(scope, ty, True)
        if not vs:
            return self.s_sdef(scope, depth)
        v = self.r.choice(vs)
        x = self.expr(scope, ty, 2)
        return ["%s = %s" % (v.name, x.src)], \
            lambda e: e.set(v.key, dict(x.ev(e)))

    def s_field(self, scope, depth):
        sv = [v for v in scope if isinstance(v.ty, Struct) and v.mutable
              and v.ty.fields]
        if not sv:
            return self.s_sdef(scope, depth)
        v = self.r.choice(sv)
        f = self.r.choice(list(v.ty.fields))
        t = v.ty.fields[f]
        x = self.expr(scope, t, self.p["expr"] - 1)
        op = self.r.choice(["", "+", "-", "*"]) if t == "int" else ""

        def run(e):
            d = dict(e.get(v.key))
            y = x.ev(e)
            d[f] = arith(op, d[f], y) if op else y
            e.set(v.key, d)
        return ["%s.%s %s= %s" % (v.name, f, op, x.src)], run

    def s_if(self, scope, depth):
        n = self.r.choice([1, 1, 1, 2, 3])
        conds = [self.bool_expr(scope, self.p["expr"] - 1)
                 for _ in range(n)]
        blocks = [self.block(scope, self.r.randint(0 if self.chance(.2)
                                                   else 1, 3), depth - 1)
                  for _ in range(n)]
        els = self.block(scope, self.r.randint(1, 3), depth - 1) \
            if self.chance(.55) else None
        lines = []
        for i, (c, b) in enumerate(zip(conds, blocks)):
            lines.append("%s %s:" % ("elif" if i else "if", c.src))
            lines += self.ind(b[0])
        if els:
            lines.append("else:")
            lines += self.ind(els[0])

        def run(e):
            for c, b in zip(conds, blocks):
                if c.ev(e):
                    b[1](e)
                    return
            if els:
                els[1](e)
        return lines, run

    def s_while(self, scope, depth):
        if self.loop_depth >= 2:
            return self.s_assign(scope, depth)
        i = self.uid("i")
        n = self.r.randint(0, 4)
        iv = Var(i, "int", mutable=False)
        sc = scope + [iv]
        extra = self.bool_expr(sc, 2) if self.chance(.5) else None
        if extra is not None and extra.const:
            extra = None
        form = self.r.randrange(5)
        lts = [f for f in self.funcs if f.kind == "lt"]
        base = "%s < %d" % (i, n)
        if form == 1:
            base = "not %s >= %d" % (i, n)
        elif form == 2:
            base = "%d > %s" % (n, i)
        elif form >= 3 and lts:
            base = "%s(%s, %d)" % (lts[0].name, i, n)
        if extra is not None:
            a, b = "(%s)" % base, "(%s)" % extra.src
            base = "%s and %s" % ((a, b) if self.chance(.5) else (b, a))
        self.loop_depth += 1
        inc_first = self.chance(.3)
        body = self.block(sc, self.r.randint(1, 3), depth - 1)
        self.loop_depth -= 1
        inc = "%s += 1" % i
        lines = ["%s := 0" % i, "while %s:" % base]
        lines += self.ind([inc] + body[0] if inc_first else body[0] + [inc])

        def run(e):
            e.set(i, 0)
            while e.get(i) < n and (extra is None or extra.ev(e)):
                e.tick()
                if inc_first:
                    e.set(i, e.get(i) + 1)
                body[1](e)
                if not inc_first:
                    e.set(i, e.get(i) + 1)
        return lines, run

    def s_for(self, scope, depth):
        k = self.uid("k")
        n = self.r.randint(1, 3)
        vals = [self.r.randint(-5, 60) for _ in range(n)]
        form = self.r.randrange(3)
        if form == 0:
            src = "{%s}" % ", ".join(map(str, vals))
        elif form == 1:
            a, st = self.r.randint(0, 4), self.r.randint(1, 3)
            vals = list(range(a, a + n * st, st))
            src = "list.range(%d, %d, %d)" % (a, a + n * st, st)
        else:
            vs = self.vars_of(scope, "int", True)
            if vs:
                v = self.r.choice(vs)
                body = self.block(scope + [Var(k, "int", key=v.key)],
                                  self.r.randint(1, 2), depth - 1)

                def run(e):
                    for _ in range(n):
                        body[1](e)
                return ["for %s in list.repeat(%s, %d):" % (
                    k, v.name, n)] + self.ind(body[0]), run
            src = "{%s}" % ", ".join(map(str, vals))
        # the body is compiled once per item; the item is a constant
        key = "for:" + k
        body = self.block(scope + [Var(k, "int", key=key, mutable=False)],
                          self.r.randint(1, 2), depth - 1)

        def run(e):
            for x in vals:
                e.v[key] = x
                body[1](e)
        return ["for %s in %s:" % (k, src)] + self.ind(body[0]), run

    # -------------------------------------------------------- functions
    def gen_struct(self):
        name = self.uid("St")
        own = {self.uid("f"): self.ity()
               for _ in range(self.r.randint(1, 3))}
        base = None
        if self.structs and self.chance(.35):
            base = self.r.choice(self.structs)
        fields = dict(own)
        if base:
            fields.update(base.fields)
        s = Struct(name, fields, (base,) if base else ())
        lines = ["struct %s%s:" % (name, " extends " + base.name
                                   if base else "")]
        lines += ["    %s: %s" % x for x in own.items()]
        self.structs.append(s)
        return lines

    def rty(self):
        if self.structs and self.chance(.25):
            return self.r.choice(self.structs)
        return self.ity()

    @staticmethod
    def tyname(t):
        return t if isinstance(t, str) else t.name

    def gen_func(self, scope, pure=None):
        """Normal function. `pure`: does not change globals or print."""
        r = self.r
        name = self.uid("f")
        pure = self.chance(.6) if pure is None else pure
        ret = self.rty() if self.chance(.85) else None
        params, decl, inner = [], [], []
        dflt = False
        for _ in range(r.randint(0, 3)):
            pn = self.uid("p")
            ty = self.rty()
            default = None
            if isinstance(ty, str) and (dflt or self.chance(.25)):
                dflt = True
                default = self.lit() if ty == "int" else self.chance(.5)
                ds = self.litE(default).src if ty == "int" else str(default)
                decl.append("%s: %s = %s" % (pn, ty, ds)
                            if self.chance(.7) else "%s = %s" % (pn, ds))
            elif dflt:
                continue
            else:
                decl.append("%s: %s" % (pn, self.tyname(ty)))
            params.append((pn, ty, "val", default))
            inner.append(Var(pn, ty))
        # a pure function may read globals; it sees its own locals only
        # for writing
        if pure:
            outer = [Var(v.name, v.ty, v.key, v.const, False)
                     for v in scope]
        else:
            outer = list(scope)
        saved = (dict(self.p), self.funcs)
        if pure:
            self.p["says"] = self.p["tells"] = 0
            self.p["extscb"] = 0
            self.funcs = [f for f in self.funcs if f.pure]
        old_ld = self.loop_depth
        self.loop_depth = 1
        local = outer + inner
        if pure:
            # references to outer variables stay read-only
            self.p["refs"] = 0
        lines, run, sc = self.block(local, r.randint(1, 3), 1)
        res = []
        if ret is not None:
            x = self.expr(sc, ret, 2)
            res.append(("result %s" % x.src, x))
        extra = None
        if ret is not None and self.chance(.4):
            c = self.bool_expr(sc, 1)
            y = self.expr(sc, ret, 1)
            extra = (c, y)
        self.loop_depth = old_ld
        self.p, self.funcs = saved
        head = "def %s(%s)%s:" % (name, ", ".join(decl),
                                  "" if ret is None else
                                  " -> " + self.tyname(ret))
        body = list(lines)
        if res:
            body.append(res[0][0])
        if extra:
            body += ["if %s:" % extra[0].src,
                     "    result %s" % extra[1].src]

        def call(e, vals):
            for (pn, ty, _, _), v in zip(params, vals):
                e.set(pn, dict(v) if isinstance(v, dict) else v)
            run(e)
            out = None
            if res:
                out = res[0][1].ev(e)
            if extra and extra[0].ev(e):
                out = extra[1].ev(e)
            return dict(out) if isinstance(out, dict) else out
        self.funcs.append(Func(name, params, ret, "def", call, pure))
        return [head] + self.ind(body)

    def gen_lt(self):
        name = self.uid("lt")
        params = [("a" + name, "int", "val", None),
                  ("b" + name, "int", "val", None)]

        def call(e, vals):
            return vals[0] < vals[1]
        self.funcs.append(Func(name, params, "bool", "lt", call, True))
        return ["def %s(a%s: int, b%s: int) -> bool:" % (name, name, name),
                "    result a%s < b%s" % (name, name)]

    def gen_inline(self, scope):
        r = self.r
        name = self.uid("g")
        ret = self.rty() if self.chance(.7) else None
        params, decl, inner = [], [], []
        anyref = False
        for _ in range(r.randint(0, 3)):
            pn = self.uid("p")
            ty = self.ity()
            port = r.choice(["val", "ref", "const"])
            if port == "const":
                ty = "int"
            if port == "ref":
                anyref = True
            params.append((pn, ty, port, None))
            pre = {"val": "", "ref": "&", "const": "const "}[port]
            ann = ": " + ty if self.chance(.6) else ""
            decl.append("%s%s%s" % (pre, pn, ann))
            inner.append(Var(pn, ty, mutable=(port != "const")))
        old = self.loop_depth
        self.loop_depth = 1
        lines, run, sc = self.block(list(scope) + inner, r.randint(1, 3), 1)
        x = self.expr(sc, ret, 2) if ret is not None else None
        extra = None
        if ret is not None and self.chance(.4):
            extra = (self.bool_expr(sc, 1), self.expr(sc, ret, 1))
        self.loop_depth = old
        head = "inline def %s(%s)%s:" % (name, ", ".join(decl),
                                         "" if ret is None else
                                         " -> " + self.tyname(ret))
        body = list(lines)
        if x is not None:
            body.append("result " + x.src)
        if extra:
            body += ["if %s:" % extra[0].src,
                     "    result " + extra[1].src]

        def call(e, vals):
            saved = dict(e.alias)
            keys = [e.key(v) if port == "ref" else v
                    for (_, _, port, _), v in zip(params, vals)]
            for (pn, ty, port, _), v in zip(params, keys):
                if port == "ref":
                    e.alias[pn] = v
                else:
                    e.alias.pop(pn, None)
                    e.v[pn] = v
            run(e)
            out = x.ev(e) if x is not None else None
            if extra and extra[0].ev(e):
                out = extra[1].ev(e)
            e.alias = saved
            return dict(out) if isinstance(out, dict) else out
        # the body may change globals: only in statement position
        self.funcs.append(Func(name, params, ret, "inline", call, False))
        return [head] + self.ind(body)

    # --------------------------------------------------------- program
    def program(self):
        r, p = self.r, self.p
        lines, acts, scope = ["import print"], [], []
        for _ in range(r.randint(*p["structs"])):
            lines += self.gen_struct()
        for _ in range(2):
            s = self.s_def(scope, 0)
            lines += s[0]
            acts.append(s[1])
        if p["loops"] and p["calls"] and self.chance(.5):
            lines += self.gen_lt()
        todo = ["f"] * r.randint(*p["funcs"]) + ["g"] * r.randint(*p["inline"])
        r.shuffle(todo)
        for t in todo:
            lines += self.gen_func(scope) if t == "f" else \
                self.gen_inline(scope)
        b = self.block(scope, r.randint(*p["n_stmts"]), p["depth"])
        lines += b[0]
        acts.append(b[1])
        probes = []
        for v in b[2]:
            if v.const is not None:
                continue
            if v.ty == "int":
                probes.append((v.name, v.key, None))
                lines.append('scb("%s", "probe") = %s' % (v.name, v.name))
            elif v.ty == "bool":
                probes.append((v.name, v.key, None))
                lines.append('scb("%s", "probe") = int(%s)'
                             % (v.name, v.name))
            else:
                for f, t in v.ty.fields.items():
                    n = "%s.%s" % (v.name, f)
                    probes.append((n, v.key, f))
                    lines.append('scb("%s", "probe") = %s' % (
                        n, n if t == "int" else "int(%s)" % n))
        ifaces = []
        for _ in range(r.randint(0, p["interfaces"])):
            path = r.choice(["", "dir/"]) + self.uid("if")
            ib = self.block(b[2], r.randint(1, 3), 1)
            lines += ["interface %s:" % path] + self.ind(ib[0])
            for v in b[2]:
                if v.const is None and v.ty == "int":
                    lines.append('    scb("%s", "probe2") = %s' % (v.name,
                                                                  v.name))
            ifaces.append((path, ib[1]))
        return Program("\n".join(lines) + "\n", acts, probes, ifaces,
                       dict(self.modules), b[2])


class Program:
    def __init__(self, src, acts, probes, ifaces, modules, scope):
        self.src, self.acts, self.probes = src, acts, probes
        self.ifaces, self.modules, self.scope = ifaces, modules, scope
        # constants of unknown value (const parameters, loop items) may
        # be combined into a constant that overflows
        self.folds = "(const " in src or " const " in src or "\nfor " in \
            src or " for " in src

    def expected(self):
        e = Env()
        for a in self.acts:
            a(e)
        out = {}

        def probe(tag):
            for name, key, f in self.probes:
                x = e.get(key)
                x = x[f] if f else x
                out[(name, tag)] = int(x)
        probe("probe")
        for path, run in self.ifaces:
            run(e)
            for v in self.scope:
                if v.const is None and v.ty == "int":
                    out[(v.name, "probe2")] = int(e.get(v.key))
        return out, e.trace


def execute(files, entries, objectives=("probe", "probe2", "o1", "my obj")):
    """Run compiled files concretely; returns (probes, trace, problems)."""
    w = mc.World({k: v.split("\n") for k, v in files.items()})
    for o in objectives:
        w.objectives.add(o)
    for e in entries:
        w.run_function(e)
    out = {(h, o): v for (h, o), v in w.scores.items()
           if o in ("probe", "probe2")}
    return out, w.trace, w


def check(prog, comp_cfgs, compile_text):
    """Compare one program with its reference meaning under each
    configuration. Returns None (ok), 'discard' or a failure text."""
    try:
        exp, trace = prog.expected()
    except (Discard, RecursionError):
        return "discard"
    for cfg in comp_cfgs:
        try:
            files = compile_text(prog.src, modules=prog.modules,
                                 **cfg).files()
        except Exception as e:
            if prog.folds and "Integer overflow" in str(e):
                return "discard"
            if "Arithmetic error" in str(e):
                return "discard"   # a constant divisor that is zero
            return "compilation failed with %r under %s" % (
                "%s" % e or e, cfg)
        root = cfg.get("root_folder", "")
        pre = root + "/" if root else ""
        main = cfg.get("main_file", "main")
        entries = [pre + main] + [pre + p for p, _ in prog.ifaces]
        if cfg.get("split_init"):
            entries.insert(0, pre + cfg.get("init_file", "init"))
        entries = [x for x in entries if x in files or x == pre + main]
        try:
            got, gtrace, w = execute(files, entries)
        except mc.StepLimit:
            return "generated code does not terminate (%s)" % cfg
        except mc.McError as e:
            return "invalid command under %s: %s" % (cfg, e)
        if w.problems:
            return "problem under %s: %s" % (cfg, w.problems[:2])
        if gtrace != trace:
            i = next((i for i, (a, b) in enumerate(
                zip(gtrace + [None], trace + [None])) if a != b), None)
            return "trace differs under %s at %s: expected %r, got %r" % (
                cfg, i, trace[i:i + 1], gtrace[i:i + 1])
        for k, v in exp.items():
            if got.get(k) != v:
                return "%s is %r instead of %r under %s" % (
                    k[0], got.get(k), v, cfg)
    return None


CFGS = [dict(optimizer=False), dict(optimizer=True)]
