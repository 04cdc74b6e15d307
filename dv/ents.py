"""Symbolic semantics of commands over entities, and specifications of
entity programs.

The universe has a fixed number of *arbitrary* entities plus those the
program summons.  Every entity has symbolic tags, scores and position, so
all aliasings of entity variables and all memberships are covered at once.
Commands select entities only by tags, scores and abstract predicates, and
(limits apart) treat every entity independently of the others; entities
beyond those a program's variables denote behave like one of the universe.
"""
import re

import z3

from . import mc, scen
from .mc import SymState, parse_selector, split_top, unquote, parse_range, \
    split_top as _split
from .sym import REG, Unsupported
from .scen import Spec, SpecError, _tobool, _toint, _sig, norm_parts

I = z3.IntSort()
BAD = -10 ** 9           # the entity variable denotes no single entity


def conj(*gs):
    gs = [g for g in gs if g is not None and not (
        isinstance(g, z3.BoolRef) and z3.is_true(g))]
    if not gs:
        return z3.BoolVal(True)
    return gs[0] if len(gs) == 1 else z3.And(*gs)


def disj(gs):
    gs = list(gs)
    if not gs:
        return z3.BoolVal(False)
    return gs[0] if len(gs) == 1 else z3.Or(*gs)


_SELRE = re.compile(r"@(?:initiator|[seapr])(?:\[[^\]]*(?:\[[^\]]*\][^\]]*)*"
                    r"\])?")


def options(key, val):
    """Conditions of hasitem={..}/[{..},..] and haspermission={..}."""
    if key == "hasitem":
        objs = split_top(val[1:-1]) if val.startswith("[") else [val]
        for o in objs:
            if not (o.startswith("{") and o.endswith("}")):
                raise Unsupported("hasitem %r" % val)
            o = split_top(o[1:-1])
            if "quantity=1.." in o:      # (what the game assumes)
                o.remove("quantity=1..")
            yield "hasitem " + ",".join(sorted(o)), True
    else:
        if not (val.startswith("{") and val.endswith("}")):
            raise Unsupported("haspermission %r" % val)
        for o in split_top(val[1:-1]):
            k, _, v = o.partition("=")
            if v not in ("enabled", "disabled"):
                raise Unsupported("haspermission %r" % val)
            yield "permission " + k, v == "enabled"


class EntState(SymState):
    def __init__(self, H, n, prefix="s", files=None, default="empty"):
        super().__init__(H, prefix, files)
        self.n = n                    # entities so far
        self.alive = [z3.BoolVal(True)] * n
        self.pos = [self.H.fresh_term("%s.pos%d" % (prefix, i), 0, 1000)
                    for i in range(n)]
        self.tags = {}
        self.default = default        # initial value of unknown tags
        self.etype = {}
        self.ctx = z3.IntVal(0)       # execution position
        self.me = None                # executing entity
        self.nrank = 0
        self.scored = {}

    # ----- entities
    def tag(self, i, t):
        k = (i, t)
        if k not in self.tags:
            self.init_tag(t)
        return self.tags.get(k, z3.BoolVal(False))

    def init_tag(self, t):
        if any(k[1] == t for k in self.tags):
            return
        if self.default == "empty":
            for i in range(self.n):
                self.tags[(i, t)] = z3.BoolVal(False)
        else:            # a temporary: at most one entity has it
            v = self.H.fresh_term("%s.tag %s" % (self.prefix, t), -1,
                                  self.n0 - 1)
            for i in range(self.n):
                self.tags[(i, t)] = (v == i) if i < self.n0 else \
                    z3.BoolVal(False)

    @property
    def n0(self):
        return getattr(self, "_n0", self.n)

    def bool_term(self, name):
        return self.H.fresh_term(name, 0, 1) == 1

    def set_tag_var(self, t, v):
        """Tag `t` denotes exactly the entity number `v`."""
        for i in range(self.n):
            self.tags[(i, t)] = v == i

    def set_tag_set(self, t, name):
        for i in range(self.n):
            self.tags[(i, t)] = self.bool_term("%s.%s has %d" % (
                self.prefix, name, i))

    def select(self, text):
        """[guard per entity]: whether entity i is selected."""
        kind, args = parse_selector(text)
        T = z3.BoolVal(True)
        if kind == "s":
            base = [z3.BoolVal(i == self.me) for i in range(self.n)]
        elif kind == "e":
            base = list(self.alive)
        elif kind in ("a", "p", "r"):
            typed = any(k == "type" for k, _ in args)
            base = [conj(a, T if kind == "r" and typed else
                         self.atom("player", i))
                    for i, a in enumerate(self.alive)]
        else:
            raise Unsupported("selector %r" % text)
        limit = 1 if kind in ("p", "r") else None
        spot = self.spot_of(args)
        for key, val in args:
            if key == "c":
                limit = int(val)
                continue
            if spot is not None and key in ("x", "y", "z", "dx", "dy", "dz"):
                continue
            if key in ("hasitem", "haspermission"):
                for i in range(self.n):
                    for text, yes in options(key, val):
                        f = self.atom(text, i)
                        base[i] = conj(base[i], f if yes else z3.Not(f))
                continue
            neg = val.startswith("!")
            v = val[1:] if neg else val
            for i in range(self.n):
                if key == "tag":
                    u = unquote(v)
                    if u == "":
                        raise Unsupported("tag=")
                    f = self.tag(i, u)
                elif key == "scores":
                    neg = False
                    f = T
                    for part in split_top(val[1:-1]):
                        o, _, rng = part.partition("=")
                        f = conj(f, self.match(
                            self.get(("#%d" % i, unquote(o))),
                            parse_range(rng.strip())))
                elif key in ("r", "rm", "x", "y", "z", "dx", "dy", "dz"):
                    f = z3.Function("NEAR_%s_%s" % (key, v), I, I,
                                    z3.BoolSort())(self.ctx, self.pos[i])
                else:
                    f = self.atom("%s=%s" % (key, unquote(v)), i)
                base[i] = conj(base[i], z3.Not(f) if neg else f)
        if spot is not None:
            base = [conj(b, self.pos[i] == spot)
                    for i, b in enumerate(base)]
        if limit is not None and self.n > 1:
            base = self.limited(base, limit, kind)
        return base

    def atom(self, text, i):
        """Property of an entity the program does not change."""
        if text == "player" or text == "type=player":
            text = "type=player"
        return z3.Function("IS_" + text, I, z3.BoolSort())(z3.IntVal(i))

    def limited(self, base, limit, kind):
        if kind == "r":
            self.nrank += 1
            who = z3.IntVal(-self.nrank)
        else:
            who = self.ctx
        R = z3.Function("RANK" if kind == "r" else "DIST", I, I, I)
        rk = [R(who, z3.IntVal(i) if kind == "r" else self.pos[i])
              for i in range(self.n)]
        # ties are broken by the number of the entity
        out = []
        for i in range(self.n):
            before = []
            for j in range(self.n):
                if j == i:
                    continue
                lt = rk[j] < rk[i] if limit > 0 else rk[j] > rk[i]
                tie = conj(rk[j] == rk[i], z3.BoolVal(j < i))
                before.append(z3.If(conj(base[j], z3.Or(lt, tie)), 1, 0))
            out.append(conj(base[i], z3.Sum(before + [z3.IntVal(0)])
                            < abs(limit)))
        return out

    @staticmethod
    def spot_of(args):
        """x=~,y=N,z=~,dx=0,dy=0,dz=0: the point N below the player."""
        d = dict(args)
        if all(k in d for k in ("x", "y", "z", "dx", "dy", "dz")) and \
                d["x"] == d["z"] == "~" and {d["dx"], d["dy"], d["dz"]} <= {
                    "0", "0.000"} and re.match(r"-?\d+\Z", d["y"]):
            return z3.IntVal(-1000 + int(d["y"]))
        return None

    def match(self, v, rng):
        neg, lo, hi = rng
        c = []
        if lo is not None:
            c.append(v >= self.lit(lo))
        if hi is not None:
            c.append(v <= self.lit(hi))
        r = conj(*c)
        return z3.Not(r) if neg else r

    # ----- scores
    def holders(self, target):
        """[(guard, name)]"""
        if target.startswith("@"):
            return [(g, "#%d" % i) for i, g in enumerate(self.select(target))
                    if not z3.is_false(z3.simplify(g))]
        return [(None, target)]

    def get(self, slot):
        if slot[0].startswith("@"):
            hs = self.holders(slot[0])
            if not hs:
                return z3.IntVal(0)
            r = super().get((hs[-1][1], slot[1]))
            for g, h in reversed(hs[:-1]):
                r = z3.If(g, super().get((h, slot[1])), r)
            return r
        return super().get(slot)

    def put(self, slot, v, guard=None):
        if slot[0].startswith("@"):
            for g, h in self.holders(slot[0]):
                super().put((h, slot[1]), v, conj(g, guard))
            return
        super().put(slot, v, guard)

    def exec(self, c, g=None):
        k = c[0]
        if k in ("set", "add", "remove", "random") and \
                c[1][0].startswith("@"):
            for h, name in self.holders(c[1][0]):
                super().exec((k, (name, c[1][1])) + c[2:], conj(g, h))
            return
        if k == "op" and (c[1][0].startswith("@") or
                          c[3][0].startswith("@")):
            for h1, n1 in self.holders(c[1][0]):
                for h2, n2 in self.holders(c[3][0]):
                    super().exec(("op", (n1, c[1][1]), c[2],
                                  (n2, c[3][1])), conj(g, h1, h2))
            return
        if k == "tag":
            if not c[1].startswith("@"):
                raise Unsupported("tag of %s" % c[1])
            for i, s in enumerate(self.select(c[1])):
                s = conj(g, s)
                old = self.tag(i, c[3])
                self.tags[(i, c[3])] = z3.simplify(
                    z3.Or(old, s) if c[2] == "add" else
                    z3.And(old, z3.Not(s)))
            return
        if k in ("other", "schedule"):
            text = " ".join(c[1:]) if k == "other" else " ".join(c)
            w = text.split(" ")
            if w[0] == "summon":
                self.summon(w, g)
                return
            if w[0] == "tp" and len(w) >= 5 and w[1].startswith("@"):
                self.tp(text, g)
                return
            if w[0] == "kill" and w[1].startswith("@"):
                sel = self.select(w[1])
                self.event(g, text)
                for i, s in enumerate(sel):
                    self.alive[i] = conj(self.alive[i],
                                         z3.Not(conj(g, s)))
                return
            self.event(g, text)
            return
        if k == "tellraw":
            payload = self.render(c[2])
            sels = []
            t = self.resolve_text(c[1], sels)
            self.events.append((g, (self.me,), ("tellraw", t, payload, sels)))
            return
        super().exec(c, g)

    def resolve_text(self, text, sels):
        def f(m):
            if m.group() in ("@a",):
                return "@a"
            try:
                sels.append(self.select(m.group()))
            except mc.McError:
                return m.group()
            return "<>"
        return _SELRE.sub(f, text)

    def event(self, g, text):
        sels = []
        t = self.resolve_text(text, sels)
        self.events.append((g, (self.me,), ("cmd", t, sels)))

    def place(self, words):
        if words == ["~", "~", "~"]:
            return self.ctx
        if words[0] == words[2] == "~" and re.match(r"-?\d+\Z", words[1]):
            return z3.IntVal(-1000 + int(words[1]))
        r = z3.Function("PLACE_" + " ".join(words), I, I)(self.ctx)
        self.H.assume(r >= 0)      # never a place entities are summoned at
        return r

    def summon(self, w, g):
        i = self.n
        self.n += 1
        if not hasattr(self, "_n0"):
            self._n0 = i
        self.alive.append(g if g is not None else z3.BoolVal(True))
        self.pos.append(self.place(w[2:5]))
        self.etype[i] = w[1]
        for (j, t) in list(self.tags):
            if j == 0:
                self.tags[(i, t)] = z3.BoolVal(False)
        self.born = getattr(self, "born", []) + [i]

    def tp(self, text, g):
        w = text.split(" ")
        sel = w[1]
        p = self.place(w[2:5])
        for i, s in enumerate(self.select(sel)):
            self.pos[i] = z3.If(conj(g, s), p, self.pos[i])

    # ----- execution
    def cond(self, sub):
        if sub[0] == "entity":
            r = disj(self.select(sub[2]))
            return z3.Not(r) if sub[1] else r
        if sub[0] == "matches" and sub[2][0].startswith("@"):
            _, inv, (t, o), rng = sub
            r = disj([conj(g, self.match(super(EntState, self).get((h, o)),
                                         rng))
                      for g, h in self.holders(t)])
            return z3.Not(r) if inv else r
        if sub[0] == "comp" and (sub[2][0].startswith("@") or
                                 sub[4][0].startswith("@")):
            _, inv, (t1, o1), op, (t2, o2) = sub
            G = super(EntState, self).get
            r = disj([conj(g1, g2, mc.z_cmp(op, G((h1, o1)), G((h2, o2))))
                      for g1, h1 in self.holders(t1)
                      for g2, h2 in self.holders(t2)])
            return z3.Not(r) if inv else r
        return super().cond(sub)

    def exec_sub(self, subs, i, cmd, g):
        if i == len(subs):
            self.exec(cmd, g)
            return
        sub = subs[i]
        k = sub[0]
        if k in ("matches", "comp", "abscond", "entity", "block"):
            t = self.cond(sub)
            self.exec_sub(subs, i + 1, cmd, conj(g, t))
            return
        me, ctx = self.me, self.ctx
        if k == "at" and sub[1] == "@a[c=1]":
            self.ctx = z3.Int("%s.player pos" % self.prefix)
            self.exec_sub(subs, i + 1, cmd, g)
        elif k in ("as", "at", "positionedas", "rotatedas"):
            for n, s in enumerate(self.select(sub[1])):
                if z3.is_false(z3.simplify(s)):
                    continue
                h = conj(g, s)
                if not self.feasible(h):
                    continue
                if k == "as":
                    self.me = n
                elif k == "rotatedas":
                    self.ctx = z3.Function("ROTAS", I, I, I)(
                        ctx, z3.IntVal(n))
                else:
                    self.ctx = self.pos[n]
                self.exec_sub(subs, i + 1, cmd, h)
                self.me, self.ctx = me, ctx
        else:
            sels = []
            text = self.resolve_text(" ".join(sub), sels)
            args = [ctx] + [z3.If(s, 1, 0) for x in sels for s in x]
            self.ctx = z3.Function("CTX_%s_%d" % (text, len(args)),
                                   *([I] * (len(args) + 1)))(*args)
            self.H.assume(self.ctx >= 0)
            self.exec_sub(subs, i + 1, cmd, g)
        self.me, self.ctx = me, ctx

    def call(self, path, g):
        if self.depth > 1 and not self.feasible(g):
            return
        super().call(path, g)

    def feasible(self, g):
        return scen.feasible(self.H, g)

    def copy(self):
        raise Unsupported("copy of an entity state")


# ------------------------------------------------------- specification
class ESpec(Spec):
    """Scalar specification programs with entity variables.

    `ents`: name -> term (number of the entity); fields: (i, field) ->
    term. `a.x` is the field of the entity a denotes at that time;
    `a = b` makes a denote the entity of b; `a = new()` a new one."""

    def __init__(self, vals, bools, lits, funcs, ents, fields, n, groups):
        super().__init__(vals, bools, lits, funcs)
        self.e = dict(ents)
        self.fields = fields     # (i, name) -> term
        self.fbools = set()
        self.n = n
        self.groups = {k: list(v) for k, v in groups.items()}
        self.me = None

    def ev_me(self):
        return [(g, e, m) for (g, e), m in zip(self.events, self.mes)]

    def run(self, text):
        self.mes = getattr(self, "mes", [])
        return super().run(text)

    def block(self, body, g):
        for st in body:
            self.stmt(st, g)
            while len(self.mes) < len(self.events):
                self.mes.append(self.me)

    def field(self, ent, f):
        t = self.entity(ent)
        r = None
        for i in range(self.n):
            v = self.fields.get((i, f))
            if v is None:
                continue
            r = v if r is None else z3.If(t == i, v, r)
        if r is None:
            raise SpecError("no field " + f)
        return r

    def entity(self, n):
        if n in self.e:
            return self.e[n]
        raise SpecError("no entity " + n)

    def split(self, p):
        if "." in p and p not in self.v:
            a, f = p.rsplit(".", 1)
            if a in self.e:
                return a, f
        return None

    def get(self, p):
        s = self.split(p)
        if s:
            return self.field(*s)
        return super().get(p)

    def ev(self, n):
        import ast
        if isinstance(n, ast.Attribute):
            s = self.split(self.path(n))
            if s:
                v = self.field(*s)
                return v == 1 if s[1] in self.fbools else v
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == "same":
            return self.entity(n.args[0].id) == self.entity(n.args[1].id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == "isa":
            t = self.entity(n.args[0].id)
            return disj([conj(t == i, disj([x == self.tids[y.value]
                                            for y in n.args[1:]]))
                         for i, x in self.tmpl.items()])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == "has":
            return self.member(n.args[0].id, self.entity(n.args[1].id))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == "size":
            return z3.Sum([z3.If(b, 1, 0)
                           for b in self.groups[n.args[0].id]])
        return super().ev(n)

    def member(self, g, t):
        return disj([conj(t == i, b)
                     for i, b in enumerate(self.groups[g])])

    def assign(self, p, val, g):
        s = self.split(p)
        if s:
            t = self.entity(s[0])
            val = _toint(val)
            for i in range(self.n):
                old = self.fields.get((i, s[1]))
                if old is None:
                    continue
                self.fields[(i, s[1])] = z3.If(conj(g, t == i), val, old)
            return
        super().assign(p, val, g)

    def stmt(self, st, g):
        import ast
        if isinstance(st, ast.Assign) and isinstance(
                st.targets[0], ast.Name):
            n = st.targets[0].id
            v = st.value
            if isinstance(v, ast.Name) and v.id in self.e:
                self.e[n] = self.e[v.id] if g is None or n not in self.e \
                    else z3.If(g, self.e[v.id], self.e[n])
                return
            if isinstance(v, ast.Call) and v.func.id == "new":
                i = self.n
                self.n += 1
                for f in self.obj:
                    self.fields[(i, f)] = self.st.get(
                        ("#%d" % i, self.obj[f]))
                a = [x.value for x in v.args]
                old = self.st.get(("#%d" % i, self.etid))
                self.tmpl[i] = z3.IntVal(self.tids[a[0]]) if a and \
                    a[0] in self.tids else old
                self.newpos[i] = (a[2] if len(a) > 2 else None,
                                  z3.Function("CTX_%s_1" % a[1], I, I)(0)
                                  if len(a) > 1 else None)
                if g is not None:
                    self.tmpl[i] = z3.If(g, self.tmpl[i], old)
                for b in self.groups.values():
                    b.append(z3.BoolVal(False))
                t = z3.IntVal(i)
                self.e[n] = t if g is None or n not in self.e else z3.If(
                    g, t, self.e[n])
                return
        if isinstance(st, ast.For) and isinstance(st.iter, ast.Name) and \
                st.iter.id in self.groups:
            mem = list(self.groups[st.iter.id])
            old = self.e.get(st.target.id)
            me = self.me
            for i in range(self.n):
                self.e[st.target.id] = z3.IntVal(i)
                self.me = i
                self.block(st.body, conj(g, mem[i]))
            self.me = me
            self.e.pop(st.target.id, None)
            if old is not None:
                self.e[st.target.id] = old
            return
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            f = st.value.func.id
            a = st.value.args
            if f in ("gadd", "gremove"):
                t = self.entity(a[1].id)
                G = self.groups[a[0].id]
                for i in range(self.n):
                    c = conj(g, t == i)
                    G[i] = z3.Or(G[i], c) if f == "gadd" else z3.And(
                        G[i], z3.Not(c))
                return
            if f == "gset":      # gset(g, lambda-like expression over sets)
                new = self.gexpr(a[1])
                G = self.groups.get(a[0].id, new)
                self.groups[a[0].id] = [
                    y if g is None else z3.If(g, y, x)
                    for x, y in zip(G, new)]
                return
            if f == "retag":     # the members of a group get a template
                for i, b in enumerate(self.groups[a[0].id]):
                    self.tmpl[i] = z3.If(conj(g, b), self.tids[a[1].value],
                                         self.tmpl[i])
                return
            if f == "cmdon":     # cmdon('kill <>', e)
                sel = []
                for x in a[1:]:
                    if x.id in self.groups:
                        sel.append(list(self.groups[x.id]))
                    else:
                        t = self.entity(x.id)
                        sel.append([t == i for i in range(self.n)])
                self.events.append((g, ("cmd", a[0].value, sel)))
                return
        super().stmt(st, g)

    def gexpr(self, n):
        import ast
        if isinstance(n, ast.Name):
            return list(self.groups[n.id])
        if isinstance(n, ast.BinOp):
            x, y = self.gexpr(n.left), self.gexpr(n.right)
            if isinstance(n.op, ast.BitOr):
                return [z3.Or(p, q) for p, q in zip(x, y)]
            if isinstance(n.op, ast.BitAnd):
                return [z3.And(p, q) for p, q in zip(x, y)]
            if isinstance(n.op, ast.Sub):
                return [z3.And(p, z3.Not(q)) for p, q in zip(x, y)]
        if isinstance(n, ast.Call):
            f = self.funcs[n.func.id]
            return f(self, *[ast.literal_eval(a) if isinstance(
                a, (ast.Constant, ast.UnaryOp)) else self.gexpr(a)
                for a in n.args])
        raise SpecError(ast.dump(n))


# ------------------------------------------------------------ scenario
def _esig(e, env):
    if e[0] == "cmd":
        st, ts = ["cmd", e[1]], []
        sels = e[2] if len(e) > 2 else []
    else:
        (st, ts) = _sig(e[:3])
        st = list(st)
        sels = e[3] if len(e) > 3 else []
    # numbers in the text are terms too
    st2, ts2, ts = [], [], list(ts)
    for x in st:
        if x is None:
            st2.append(None)
            ts2.append(ts.pop(0))
        elif isinstance(x, str):
            for i, y in enumerate(re.split(r"(?<![\w.])(-?\d+)(?![\w.])", x)):
                if i % 2:
                    st2.append(None)
                    ts2.append(z3.IntVal(int(y)))
                elif y:
                    st2.append(y)
        else:
            st2.append(x)
    st, ts = st2, ts2 + ts
    for s in sels:
        st.append(len(s))
        ts = list(ts) + [z3.If(b, 1, 0) for b in s]
    return tuple(st), list(ts)


def prove_events(H, got, want, n, label=""):
    def pad(e):
        if len(e) > 2 and e[0] == "cmd":
            return e[:2] + ([list(s) + [z3.BoolVal(False)] * (n - len(s))
                             for s in e[2]],)
        if len(e) > 3:
            return e[:3] + ([list(s) + [z3.BoolVal(False)] * (n - len(s))
                             for s in e[3]],)
        return e
    a = [(g, _esig(pad(e), env[0] if env else None)) for g, env, e in got
         if scen.feasible(H, g)]
    b = []
    for g, e, *me in want:
        if isinstance(e, list):
            e = ("tellraw", "@a", e)
        if scen.feasible(H, g):
            b.append((g, _esig(pad(e), me[0] if me else None)))
    T = z3.BoolVal(True)
    a = [(T if g is None else g, x) for g, x in a]
    b = [(T if g is None else g, x) for g, x in b]
    info = "emitted %s instead of %s" % ([x[1][0] for x in a],
                                         [x[1][0] for x in b])

    def places(es):
        # number of events that run before each one
        out, known, terms = [], 0, []
        for g, _ in es:
            out.append(z3.Sum(terms + [z3.IntVal(known)]) if terms
                       else z3.IntVal(known))
            if z3.is_true(z3.simplify(g)):
                known += 1
            else:
                terms.append(z3.If(g, 1, 0))
        out.append(z3.Sum(terms + [z3.IntVal(known)]) if terms
                   else z3.IntVal(known))
        return out
    pa, pb = places(a), places(b)
    H.prove(label + "events", z3.simplify(pa[-1] == pb[-1]), info=info)
    # at every place of the sequence the two events are the same
    for (h, (sw, u)), m in zip(b, pb):
        cs = []
        for (g, (sg, t)), k in zip(a, pa):
            eq = z3.And(*[x == y for x, y in zip(t, u)]) if sg == sw \
                else z3.BoolVal(False)
            c = z3.simplify(z3.Implies(z3.And(h, g, k == m), eq))
            if not z3.is_true(c):
                cs.append(c)
        H.prove(label + "event", z3.And(*cs) if cs else T, info=info)


class Entities:
    """Declaration of what a scenario observes."""

    def __init__(self, evars=None, fields=None, groups=None, temps=None):
        self.evars = evars or {}      # name -> list of template names
        self.fields = fields or {}    # name -> (path observed, type)
        self.groups = groups or {}    # name -> template


def escenario(H, src, spec, ents, vars=None, lits=None, modules=None,
              cfg=None, entries=None, n=None, stale=True, rejected=None,
              label="", runs=1, funcs=None, templates=(), tags=()):
    """ents: Entities. The observed entity variables denote arbitrary
    entities at the start (all aliasings), the groups arbitrary sets."""
    from .sym import REG  # noqa: F401
    vars = vars or {}
    lits = {k: H.int(k, scen.MIN, scen.MAX) if v is None else v
            for k, v in (lits or {}).items()}
    obs = dict.fromkeys(list(ents.evars) + list(ents.groups)
                        + list(templates))
    for f, (path, _) in ents.fields.items():
        obs[path] = None
    r = scen.compile_scenario(H, src, vars, lits, modules, True, cfg,
                              list(obs))
    if rejected is not None:
        H.prove(label + "rejected", r.err is not None and (
            rejected is True or r.err.type in rejected),
            info=str(r.err) + "\n" + r.text)
        return r
    H.prove(label + "accepted", r.err is None, info="%s\n%s" % (
        r.err, r.text))
    if r.err is not None:
        return r
    O_ = r.case.observed
    n = n if n is not None else max(1, len(ents.evars) + (
        1 if ents.groups else 0))
    st = EntState(H, n, files=r.files,
                  default="stale" if stale else "empty")
    st._n0 = n
    st.absops["act"] = scen.act_hook
    st.absops["aint"] = scen.aint_hook
    st.abstest = scen.abool_test
    slots = {}
    for k in vars:
        slots[k] = scen.slotkey(O_[k].slot)
        t = st.get(slots[k])
        if vars[k] == "bool":
            H.assume(z3.And(t >= 0, t <= 1))
    try:
        tids = {t: O_[t].runtime_id for t in templates}
        etid = r.compiled.compiler.etemplate_id_scb
        tag = {k: O_[k].tag for k in list(ents.evars) + list(ents.groups)}
        obj = {f: O_[p].slot.objective for f, (p, _) in ents.fields.items()}
    except AttributeError as e:
        raise Unsupported("observation: %s" % e)
    e0, g0 = {}, {}
    for k, ts in ents.evars.items():
        e0[k] = H.fresh_term("entity " + k, 0, n - 1)
        st.set_tag_var(tag[k], e0[k])
        if tids and ts:
            for i in range(n):
                v = st.get(("#%d" % i, etid))
                H.assume(z3.Implies(e0[k] == i, z3.Or(
                    *[v == tids[t] for t in ts])))
    for k in tags:
        st.set_tag_set(k, "tag " + k)
    for k in ents.groups:
        st.set_tag_set(tag[k], k)
        g0[k] = [st.tag(i, tag[k]) for i in range(n)]
    for i in range(n):
        H.assume(st.pos[i] >= 0)
    # functions of positions never hit the place entities are summoned at
    fields = {}
    bools = {f for f, (_, t) in ents.fields.items() if t == "bool"}
    for f in ents.fields:
        for i in range(n):
            t = st.get(("#%d" % i, obj[f]))
            fields[(i, f)] = t
            if f in bools:
                H.assume(z3.And(t >= 0, t <= 1))
    sp = ESpec({k: st.get(slots[k]) for k in vars},
               {k for k in vars if vars[k] == "bool"}, lits,
               dict(funcs or {}), e0, fields, n, g0)
    sp.fbools = bools
    sp.st, sp.tids, sp.obj, sp.etid = st, tids, obj, etid
    sp.tmpl = {i: st.get(("#%d" % i, etid)) for i in range(n)}
    sp.newpos = {}
    for k in range(runs):
        sp.run(spec)
    for t in sp.requires:
        H.assume(t)
    for k in range(runs):
        for e in entries or ["main"]:
            st.call(e, None)
    H.cover()
    info = "\n" + r.text
    H.prove(label + "entities", st.n == sp.n, info="%d entities made "
            "instead of %d%s" % (st.n - n, sp.n - n, info))
    if st.n != sp.n:
        return r
    for k in vars:
        H.prove(label + "value-" + k, st.get(slots[k]) == sp.v[k],
                info="value of %s%s" % (k, info))
    for k in ents.evars:
        H.prove(label + "entity-" + k, z3.And(*[
            st.tag(i, tag[k]) == (sp.e[k] == i) for i in range(st.n)]),
            info="entity of %s%s" % (k, info))
    for k in ents.groups:
        H.prove(label + "group-" + k, z3.And(*[
            st.tag(i, tag[k]) == sp.groups[k][i] for i in range(st.n)]),
            info="members of %s%s" % (k, info))
    for f in ents.fields:
        H.prove(label + "field-" + f, z3.And(*[
            st.get(("#%d" % i, obj[f])) == sp.fields[(i, f)]
            for i in range(st.n)]), info="field %s%s" % (f, info))
    if tids:
        H.prove(label + "template", z3.And(*[
            st.get(("#%d" % i, etid)) == sp.tmpl[i] for i in range(st.n)]),
            info="template of an entity" + info)
    for i, (t, p) in sp.newpos.items():
        if p is not None:
            H.prove(label + "position", st.pos[i] == p,
                    info="position of the new entity" + info)
        if t is not None:
            H.prove(label + "type", st.etype.get(i) == t,
                    info="type of the new entity" + info)
    prove_events(H, st.events, [(g, e) + ((m,) if m is not None else ())
                                for g, e, m in sp.ev_me()], st.n, label)
    H.prove(label + "literals", z3.And(*([mc.in_range(t)
                                          for t in st.literals]
                                         or [z3.BoolVal(True)])))
    r.state, r.spec = st, sp
    return r
