"""Reference semantics of compile-time code: const functions, lists, maps.

A program is written in Python syntax (`x = VAR(e)` defines, `r = REF(e)`
makes a reference, `RESULT(e)` sets the result); `render` gives the Acacia
text and `Interp` the value the text denotes.  Integers may be symbolic
(`sym.SymInt`): comparisons then fork the path, so the reference covers
all values of the path.
"""
import ast

INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1


class Fail(Exception):
    """The program has to be rejected."""
    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


class Discard(Exception):
    """Outside the stated fragment."""


class Loop(Discard):
    pass


class Cell:
    def __init__(self, v, param=None):
        self.v, self.param = v, param


class L:
    def __init__(self, items, mutable=True):
        self.cells = [Cell(val(i)) for i in items]
        self.mutable = mutable


class M:
    """Ordered map; keys are (kind, value) pairs."""
    def __init__(self, keys, values, mutable=True):
        self.d = {}
        self.mutable = mutable
        for k, v in zip(keys, values):
            self.set(k, v)

    def set(self, k, v):
        kk = key(k)
        if kk in self.d:
            self.d[kk][1].v = val(v)
        else:
            self.d[kk] = (val(k), Cell(val(v)))

    def keys(self):
        return [k for k, _ in self.d.values()]

    def values(self):
        return [c.v for _, c in self.d.values()]


class F:
    """A const function."""
    def __init__(self, node, defaults):
        self.node, self.defaults = node, defaults


class T(str):
    """Type names."""


def val(x):
    return x.v if isinstance(x, Cell) else x


def kind(v):
    if v is None:
        return "None"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, str):
        return "str"
    if isinstance(v, float):
        return "float"
    return {L: "list", M: "map", F: "function"}[type(v)]


def key(v):
    v = val(v)
    k = kind(v)
    if k in ("int", "bool", "str", "float"):
        return (k, v)
    if isinstance(v, L):
        return ("list", v.mutable, tuple(key(c) for c in v.cells))
    raise Fail("INVALID_MAP_KEY")


def chk(n):
    if not n >= INT_MIN or not n <= INT_MAX:
        raise Fail("INT_OVERFLOW")
    return n


def tdiv(a, b):
    if b == 0:
        raise Fail("CONST_ARITHMETIC")
    q = (a if a >= 0 else -a) // (b if b >= 0 else -b)
    return q if (a >= 0) == (b >= 0) else -q


def tmod(a, b):
    if b == 0:
        raise Fail("CONST_ARITHMETIC")
    r = (a if a >= 0 else -a) % (b if b >= 0 else -b)
    return r if a >= 0 else -r


OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
       ast.Mod: "%"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
       ast.Gt: ">", ast.GtE: ">="}


def isint(v):
    return kind(v) == "int"


def pybool(b):
    return bool(b)


class Interp:
    """`rt`: semantics of runtime-level constant expressions."""
    def __init__(self, glob=None, rt=False, fuel=4000, typecheck=True):
        self.glob = dict(glob or {})
        self.rt = rt
        self.fuel = fuel

    def burn(self):
        self.fuel -= 1
        if self.fuel <= 0:
            raise Loop()

    # ---------------------------------------------------------- program
    def define(self, src):
        for n in ast.parse(src).body:
            if isinstance(n, ast.FunctionDef):
                sc = Scope(self.glob)
                ds = [val(self.expr(d, sc)) for d in n.args.defaults]
                self.glob[n.name] = F(n, ds)
            else:
                raise Discard("toplevel")

    def eval(self, text):
        return val(self.expr(ast.parse(text, mode="eval").body,
                             Scope(self.glob)))

    def call(self, f, args, kwds):
        self.burn()
        if self.rt:
            # constants are copied into the function
            it = Interp(self.glob)
            r = it.call(f, args, kwds)
            return const(r)
        if not isinstance(f, F):
            raise Fail("UNCALLABLE")
        names = [a.arg for a in f.node.args.args]
        if len(args) > len(names):
            raise Fail("TOO_MANY_ARGS")
        b = dict(zip(names, args))
        for k, v in kwds.items():
            if k not in names:
                raise Fail("UNEXPECTED_KEYWORD_ARG")
            if k in b:
                raise Fail("ARG_MULTIPLE_VALUES")
            b[k] = v
        off = len(names) - len(f.defaults)
        types = {a.arg: a.annotation for a in f.node.args.args}
        for i, n in enumerate(names):
            if n not in b:
                if i < off:
                    raise Fail("MISSING_ARG")
                b[n] = fresh(f.defaults[i - off])
            elif types[n] is not None:
                self.typed(val(b[n]), types[n], "WRONG_ARG_TYPE")
        sc = Scope(self.glob)
        for n in names:
            # aliasing of a caller's variable by a parameter is not
            # specified: assigning such a parameter is outside
            sc.d[n] = Cell(val(b[n]), param=(b[n].param or b[n]) if isinstance(
                b[n], Cell) else None)
        res = [None]
        self.body(f.node.body, sc, res)
        if f.node.returns is None:
            if val(res[0]) is not None:
                raise Fail("WRONG_RESULT_TYPE")
        else:
            self.typed(val(res[0]), f.node.returns, "WRONG_RESULT_TYPE")
        return val(res[0])

    def typed(self, v, t, err):
        t = "None" if isinstance(t, ast.Constant) else t.id
        k = kind(v)
        if t != k:
            raise Fail(err)

    # -------------------------------------------------------- statements
    def body(self, stmts, sc, res):
        for s in stmts:
            self.stmt(s, sc, res)

    def stmt(self, s, sc, res):
        self.burn()
        if isinstance(s, ast.Pass):
            return
        if isinstance(s, ast.AnnAssign):
            v = val(self.expr(s.value, sc))
            self.typed(v, s.annotation, "WRONG_ASSIGN_TYPE")
            sc.new(s.target.id, Cell(v))
        elif isinstance(s, ast.Assign):
            t = s.targets[0]
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) \
                    and c.func.id in ("VAR", "REF"):
                r = self.expr(c.args[0], sc)
                if c.func.id == "REF":
                    if not isinstance(r, Cell):
                        raise Fail("CANT_REF")
                    sc.new(t.id, r)
                else:
                    sc.new(t.id, Cell(val(r)))
                return
            cell = self.expr(t, sc)
            if not isinstance(cell, Cell):
                raise Fail("INVALID_ASSIGN_TARGET")
            v = val(self.expr(c, sc))
            if cell.param is not None:
                raise Discard("parameter assigned")
            cell.v = v
        elif isinstance(s, ast.AugAssign):
            cell = self.expr(s.target, sc)
            if not isinstance(cell, Cell):
                raise Fail("INVALID_ASSIGN_TARGET")
            v = val(self.expr(s.value, sc))
            if cell.param is not None:
                raise Discard("parameter assigned")
            cell.v = self.binop(OPN[type(s.op)], cell.v, v)
        elif isinstance(s, ast.If):
            c = val(self.expr(s.test, sc))
            if kind(c) != "bool":
                raise Fail("WRONG_IF_CONDITION")
            self.body(s.body if c else s.orelse, sc, res)
        elif isinstance(s, ast.While):
            while True:
                self.burn()
                c = val(self.expr(s.test, sc))
                if kind(c) != "bool":
                    raise Fail("WRONG_WHILE_CONDITION")
                if not c:
                    break
                self.body(s.body, sc, res)
        elif isinstance(s, ast.For):
            it = val(self.expr(s.iter, sc))
            items = self.iterate(it)
            start = list(items)
            seen = [val(x) for x in start]
            for i, x in enumerate(start):
                x = val(x)
                inner = Scope(sc)
                inner.d[s.target.id] = x
                self.body(s.body, inner, res)
                if isinstance(it, L) and (
                        len(it.cells) != len(start) or
                        any(c is not d for c, d in zip(it.cells, start)) or
                        any(c.v is not v for c, v in zip(
                            start[i + 1:], seen[i + 1:]))):
                    raise Discard("list changed while iterated")
        elif isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                    and v.func.id == "RESULT":
                r = self.expr(v.args[0], sc)
                res[0] = val(r)
                return
            self.expr(v, sc)
        else:
            raise Discard(type(s).__name__)

    def iterate(self, it):
        if isinstance(it, L):
            return it.cells
        if isinstance(it, M):
            return it.keys()
        raise Fail("NOT_ITERABLE")

    # ------------------------------------------------------- expressions
    def binop(self, op, a, b):
        if isint(a) and isint(b):
            if op == "+":
                return chk(a + b)
            if op == "-":
                return chk(a - b)
            if op == "*":
                return chk(a * b)
            if op == "/":
                return chk(tdiv(a, b))
            return chk(tmod(a, b))
        if op == "+" and kind(a) == kind(b) == "str":
            return a + b
        if self.rt and op == "+" and kind(a) == kind(b) == "list":
            return L(a.cells + b.cells, False)
        if self.rt and op == "*" and kind(a) == "list" and isint(b):
            return L(a.cells * b, False)
        if "float" in (kind(a), kind(b)):
            raise Discard("float arithmetic")
        raise Fail("INVALID_OPERAND")

    def compare(self, op, a, b):
        if isint(a) and isint(b):
            return pybool({"==": lambda: a == b, "!=": lambda: a != b,
                           "<": lambda: a < b, "<=": lambda: a <= b,
                           ">": lambda: a > b, ">=": lambda: a >= b}[op]())
        if kind(a) == kind(b) == "bool" and op in ("==", "!="):
            return (a == b) == (op == "==")
        if "float" in (kind(a), kind(b)):
            raise Discard("float comparison")
        raise Fail("INVALID_OPERAND")

    def expr(self, e, sc):
        self.burn()
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            r = sc.get(e.id)
            if r is MISSING:
                if e.id in ("int", "bool", "list", "map"):
                    return T(e.id)
                raise Fail("NAME_NOT_DEFINED")
            return r
        if isinstance(e, ast.List):
            return L([val(self.expr(x, sc)) for x in e.elts],
                     not self.rt)
        if isinstance(e, ast.Dict):
            ks = [val(self.expr(x, sc)) for x in e.keys]
            vs = [val(self.expr(x, sc)) for x in e.values]
            return M(ks, vs, not self.rt)
        if isinstance(e, ast.JoinedStr):
            out = ""
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out += p.value
                else:
                    out += self.text(val(self.expr(p.value, sc)))
            return out
        if isinstance(e, ast.UnaryOp):
            v = val(self.expr(e.operand, sc))
            if isinstance(e.op, ast.Not):
                if kind(v) != "bool":
                    raise Fail("INVALID_OPERAND")
                return not v
            if kind(v) == "float":
                raise Discard("float")
            if not isint(v):
                raise Fail("INVALID_OPERAND")
            return chk(-v) if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.BinOp):
            a = val(self.expr(e.left, sc))
            b = val(self.expr(e.right, sc))
            return self.binop(OPN[type(e.op)], a, b)
        if isinstance(e, ast.Compare):
            # all operands are evaluated; a failure after the deciding
            # comparison is not specified
            left = val(self.expr(e.left, sc))
            final = True
            for op, x in zip(e.ops, e.comparators):
                try:
                    right = val(self.expr(x, sc))
                    if not self.compare(CMP[type(op)], left, right):
                        final = False
                except Fail:
                    if final is False:
                        raise Discard("short circuit")
                    raise
                left = right
            return final
        if isinstance(e, ast.BoolOp):
            dec = isinstance(e.op, ast.Or)
            res = not dec
            for x in e.values:
                try:
                    v = val(self.expr(x, sc))
                    if kind(v) != "bool":
                        raise Fail("INVALID_BOOLOP_OPERAND")
                except Fail:
                    if res == dec:
                        raise Discard("short circuit")
                    # operands are all evaluated before they are checked
                    raise Fail("*")
                if v == dec:
                    res = dec
            return res
        if isinstance(e, ast.Subscript):
            o = val(self.expr(e.value, sc))
            i = val(self.expr(e.slice, sc))
            return self.item(o, i)
        if isinstance(e, ast.Call):
            return self.callexpr(e, sc)
        raise Discard(type(e).__name__)

    def text(self, v):
        k = kind(v)
        if k == "bool":
            return "true" if v else "false"
        if k in ("int", "str"):
            return str(v)
        if k == "float":
            raise Discard("float text")
        raise Fail("INVALID_FEXPR")

    def item(self, o, i):
        if isinstance(o, L):
            n = self.index(o, i)
            c = o.cells[n]
            return c if o.mutable else c.v
        if isinstance(o, M):
            kk = key(i)
            if kk not in o.d:
                raise Fail("MAP_KEY_NOT_FOUND")
            c = o.d[kk][1]
            return c if o.mutable else c.v
        raise Fail("*")

    def index(self, o, i):
        if not isint(i):
            raise Fail("ARG")
        if not -len(o.cells) <= i < len(o.cells):
            raise Fail("LIST_INDEX_OUT_OF_BOUNDS")
        return i

    def callexpr(self, e, sc):
        f = e.func
        if isinstance(f, ast.Attribute):
            o = val(self.expr(f.value, sc))
            if f.attr in MUTATORS and not getattr(o, "mutable", False):
                raise Fail("HAS_NO_ATTRIBUTE")
            args = [self.expr(a, sc) for a in e.args]
            kwds = {k.arg: self.expr(k.value, sc) for k in e.keywords}
            return self.method(o, f.attr, [val(a) for a in args],
                               {k: val(v) for k, v in kwds.items()})
        fn = val(self.expr(f, sc))
        args = [self.expr(a, sc) for a in e.args]
        kwds = {k.arg: self.expr(k.value, sc) for k in e.keywords}
        if isinstance(fn, T):
            return self.construct(fn, [val(a) for a in args],
                                  {k: val(v) for k, v in kwds.items()})
        return self.call(fn, args, kwds)

    # ---------------------------------------------------------- methods
    def construct(self, t, a, k):
        if t == "int" and len(a) == 1 and not k:
            if kind(a[0]) != "bool":
                raise Fail("ARG")
            return 1 if a[0] else 0
        if t == "list" and len(a) == 1 and not k:
            return L(self.iterate_arg(a[0]), False)
        if t == "map":
            a = bind(a, k, ("iter1", "iter2"))
            return M(self.iterate_arg(a[0]), self.iterate_arg(a[1]), False)
        raise Discard("constructor " + t)

    def iterate_arg(self, x):
        try:
            return list(self.iterate(x))
        except Fail:
            raise Fail("ARG")

    def method(self, o, name, a, k):
        if isinstance(o, T):
            return self.static(o, name, a, k)
        if isinstance(o, L):
            return self.listmeth(o, name, a, k)
        if isinstance(o, M):
            return self.mapmeth(o, name, a, k)
        raise Fail("HAS_NO_ATTRIBUTE")

    def static(self, t, name, a, k):
        if t == "list" and name == "range":
            ints(a)
            if k or not 1 <= len(a) <= 3:
                raise Fail("ARG")
            if len(a) == 3 and a[2] == 0:
                raise Fail("ARG")
            return L(range(*a), False)
        if t == "list" and name == "repeat":
            a = bind(a, k, ("object", "times"))
            ints(a[1:])
            return L([a[0]] * a[1], False)
        if t == "list" and name == "geometric":
            a = bind(a, k, ("start", "ratio", "length"))
            ints(a)
            out, cur = [], a[0]
            for _ in range(a[2]):
                out.append(chk(cur))
                cur = cur * a[1]
            return L(out, False)
        if t == "map" and name == "from_keys":
            if len(a) < 1:
                raise Fail("ARG")
            r = bind(a[1:], k, ("fill",), {"fill": None})
            ks = self.iterate_arg(a[0])
            return M(ks, [r[0]] * len(ks), False)
        raise Fail("HAS_NO_ATTRIBUTE")

    def listmeth(self, o, name, a, k):
        mut = not self.rt
        if name == "copy":
            bind(a, k, ())
            return L(o.cells, mut)
        if name == "size":
            bind(a, k, ())
            return len(o.cells)
        if name == "slice":
            if k or not 1 <= len(a) <= 3:
                raise Fail("ARG")
            if len(a) == 1:
                ints(a)
            else:
                ints([x for x in a[:2] if x is not None])
                ints(a[2:])
                if len(a) == 3 and a[2] == 0:
                    raise Fail("ARG")
            return L(o.cells[slice(*a)], mut)
        if name == "cycle":
            a = bind(a, k, ("times",))
            ints(a)
            if a[0] < 0:
                raise Fail("ARG")
            return L(o.cells * a[0], mut)
        if o.mutable:
            if name == "append":
                self.only(a, k, 1)
                o.cells.append(Cell(a[0]))
                return None
            if name == "extend":
                self.only(a, k, 1)
                o.cells.extend([Cell(val(x))
                                for x in self.iterate_arg(a[0])])
                return None
            if name == "insert":
                self.only(a, k, 2)
                ints(a[:1])
                if a[0] == len(o.cells):
                    raise Discard("insert at the end")
                self.index(o, a[0])
                o.cells.insert(a[0], Cell(a[1]))
                return None
            if name == "reverse":
                bind(a, k, ())
                o.cells.reverse()
                return None
            if name == "pop":
                a = bind(a, k, ("index",))
                ints(a)
                self.index(o, a[0])
                return o.cells.pop(a[0]).v
        raise Fail("HAS_NO_ATTRIBUTE")

    def only(self, a, k, n):
        if k or len(a) != n:
            raise Fail("ARG")

    def mapmeth(self, o, name, a, k):
        mut = not self.rt
        if name == "copy":
            bind(a, k, ())
            return M(o.keys(), o.values(), mut)
        if name == "keys":
            bind(a, k, ())
            return L(o.keys(), mut)
        if name == "values":
            bind(a, k, ())
            return L(o.values(), mut)
        if name == "size":
            bind(a, k, ())
            return len(o.d)
        if name == "has":
            a = bind(a, k, ("key",))
            return key(a[0]) in o.d
        if name == "get":
            a = bind(a, k, ("key", "default"), {"default": None})
            kk = key(a[0])
            return o.d[kk][1].v if kk in o.d else a[1]
        if o.mutable:
            if name == "pop":
                a = bind(a, k, ("key", "default"), {"default": MISSING})
                kk = key(a[0])
                if kk in o.d:
                    return o.d.pop(kk)[1].v
                if a[1] is MISSING:
                    raise Fail("MAP_KEY_NOT_FOUND")
                return a[1]
            if name == "set_default":
                a = bind(a, k, ("key", "default"), {"default": None})
                kk = key(a[0])
                if kk not in o.d:
                    o.set(a[0], a[1])
                return o.d[kk][1].v
            if name == "clear":
                bind(a, k, ())
                o.d.clear()
                return None
            if name == "update":
                a = bind(a, k, ("other",))
                if not isinstance(a[0], M):
                    raise Fail("ARG")
                for kx, v in list(zip(a[0].keys(), a[0].values())):
                    o.set(kx, v)
                return None
        raise Fail("HAS_NO_ATTRIBUTE")


def fresh(v):
    """A default value belongs to the call."""
    if isinstance(v, L):
        return L([fresh(c.v) for c in v.cells], v.mutable)
    if isinstance(v, M):
        return M(v.keys(), [fresh(x) for x in v.values()], v.mutable)
    return v


def const(v, depth=0):
    """The value as a constant of run-time code (immutable)."""
    if depth > 40:
        raise Discard("a list that contains itself")
    if isinstance(v, L):
        return L([const(c.v, depth + 1) for c in v.cells], False)
    if isinstance(v, M):
        return M([const(k, depth + 1) for k in v.keys()],
                 [const(x, depth + 1) for x in v.values()], False)
    return v


def ints(a):
    for x in a:
        if not isint(x):
            raise Fail("ARG")


def bind(a, k, names, defaults=None):
    if len(a) > len(names):
        raise Fail("ARG")
    r = dict(zip(names, a))
    for n, v in k.items():
        if n in r or n not in names:
            raise Fail("ARG")
        r[n] = v
    for n in names:
        if n not in r:
            if n not in (defaults or {}):
                raise Fail("ARG")
            r[n] = defaults[n]
    return [r[n] for n in names]


MISSING = object()
MUTATORS = ("append", "extend", "insert", "reverse", "pop", "set_default",
            "clear", "update")


class Scope:
    def __init__(self, outer):
        self.d, self.outer = {}, outer

    def get(self, n):
        if n in self.d:
            c = self.d[n]
            if isinstance(c, Cell) and c.param is not None and \
                    c.param.v is not c.v:
                raise Discard("the passed variable was assigned")
            return c
        if isinstance(self.outer, Scope):
            return self.outer.get(n)
        return self.outer.get(n, MISSING)

    def new(self, n, cell):
        if n in self.d:
            raise Fail("SHADOWED_NAME")
        self.d[n] = cell


# ---------------------------------------------------------------- rendering
def _q(s):
    out = ""
    for c in s:
        if c in '"\\$%':
            out += "\\" + c
        else:
            out += c
    return out


def rx(e):
    if isinstance(e, ast.Constant):
        if isinstance(e.value, str):
            return '"%s"' % _q(e.value)
        return str(e.value)
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.List):
        return "{%s}" % ", ".join(map(rx, e.elts))
    if isinstance(e, ast.Dict):
        if not e.keys:
            return "{:}"
        return "{%s}" % ", ".join("%s: %s" % (rx(k), rx(v))
                                  for k, v in zip(e.keys, e.values))
    if isinstance(e, ast.JoinedStr):
        return '"%s"' % "".join(
            _q(p.value) if isinstance(p, ast.Constant)
            else "${%s}" % rx(p.value) for p in e.values)
    if isinstance(e, ast.UnaryOp):
        o = {ast.Not: "not ", ast.USub: "-", ast.UAdd: "+"}[type(e.op)]
        return "(%s%s)" % (o, rx(e.operand))
    if isinstance(e, ast.BinOp):
        return "(%s %s %s)" % (rx(e.left), OPN[type(e.op)], rx(e.right))
    if isinstance(e, ast.Compare):
        return "(%s%s)" % (rx(e.left), "".join(
            " %s %s" % (CMP[type(o)], rx(x))
            for o, x in zip(e.ops, e.comparators)))
    if isinstance(e, ast.BoolOp):
        o = " or " if isinstance(e.op, ast.Or) else " and "
        return "(%s)" % o.join(map(rx, e.values))
    if isinstance(e, ast.Subscript):
        return "%s[%s]" % (rx(e.value), rx(e.slice))
    if isinstance(e, ast.Attribute):
        return "%s.%s" % (rx(e.value), e.attr)
    if isinstance(e, ast.Call):
        return "%s(%s)" % (rx(e.func), ", ".join(
            [rx(a) for a in e.args] +
            ["%s=%s" % (k.arg, rx(k.value)) for k in e.keywords]))
    raise Discard(type(e).__name__)


def rs(stmts, ind):
    p = "    " * ind
    out = ""
    for s in stmts:
        if isinstance(s, ast.Pass):
            out += p + "pass\n"
        elif isinstance(s, ast.AnnAssign):
            out += p + "%s: %s = %s\n" % (s.target.id, rx(s.annotation),
                                          rx(s.value))
        elif isinstance(s, ast.Assign):
            c = s.value
            n = c.func.id if isinstance(c, ast.Call) and isinstance(
                c.func, ast.Name) else ""
            if n == "VAR":
                out += p + "%s := %s\n" % (s.targets[0].id, rx(c.args[0]))
            elif n == "REF":
                out += p + "&%s = %s\n" % (s.targets[0].id, rx(c.args[0]))
            else:
                out += p + "%s = %s\n" % (rx(s.targets[0]), rx(c))
        elif isinstance(s, ast.AugAssign):
            out += p + "%s %s= %s\n" % (rx(s.target), OPN[type(s.op)],
                                        rx(s.value))
        elif isinstance(s, ast.If):
            out += p + "if %s:\n" % rx(s.test) + rs(s.body, ind + 1)
            o = s.orelse
            while len(o) == 1 and isinstance(o[0], ast.If):
                out += p + "elif %s:\n" % rx(o[0].test) + \
                    rs(o[0].body, ind + 1)
                o = o[0].orelse
            if o:
                out += p + "else:\n" + rs(o, ind + 1)
        elif isinstance(s, ast.While):
            out += p + "while %s:\n" % rx(s.test) + rs(s.body, ind + 1)
        elif isinstance(s, ast.For):
            out += p + "for %s in %s:\n" % (s.target.id, rx(s.iter)) + \
                rs(s.body, ind + 1)
        elif isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                    and v.func.id == "RESULT":
                out += p + "result %s\n" % rx(v.args[0])
            else:
                out += p + rx(v) + "\n"
        else:
            raise Discard(type(s).__name__)
    return out


def render(src):
    """Acacia text of function definitions in Python syntax."""
    out = ""
    for n in ast.parse(src).body:
        args = n.args.args
        off = len(args) - len(n.args.defaults)
        ps = []
        for i, a in enumerate(args):
            s = a.arg
            if a.annotation is not None:
                s += ": " + rx(a.annotation)
            if i >= off:
                s += " = " + rx(n.args.defaults[i - off])
            ps.append(s)
        out += "const def %s(%s)%s:\n" % (
            n.name, ", ".join(ps),
            " -> " + rx(n.returns) if n.returns is not None else "")
        out += rs(n.body, 1)
    return out


def rexpr(text):
    return rx(ast.parse(text, mode="eval").body)
