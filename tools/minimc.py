"""A small interpreter of the emitted commands, for the demonstrations."""
import io
import json
import os
import re
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


def compile_aca(src, modules=None, **cfg):
    """Compile; returns {path without extension: list of lines}."""
    from acaciamc.compiler import Compiler, Config
    cfg.setdefault("encoding", "utf-8")
    d = tempfile.mkdtemp()
    try:
        for n, t in dict(modules or {}, **{"main.aca": src}).items():
            p = os.path.join(d, "src", n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(t)
        c = Compiler(os.path.join(d, "src", "main.aca"), Config(**cfg))
        out = os.path.join(d, "out")
        c.output(out)
        r = {}
        for dp, _, fs in os.walk(out):
            for n in fs:
                p = os.path.join(dp, n)
                rel = os.path.relpath(p, out).replace(os.sep, "/")
                with open(p, encoding="utf-8") as f:
                    r[rel.replace(".mcfunction", "")] = f.read().split("\n")
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def wrap(x):
    return (x + 2 ** 31) % 2 ** 32 - 2 ** 31


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def toks(line):
    out, i = [], 0
    while i < len(line):
        if line[i] == " ":
            i += 1
            continue
        j, depth, q, s = i, 0, False, ""
        while j < len(line) and (q or depth or line[j] != " "):
            c = line[j]
            if q and c == "\\":
                s += line[j:j + 2]
                j += 2
                continue
            if c == '"':
                q = not q
            elif not q and c in "[{":
                depth += 1
            elif not q and c in "]}":
                depth -= 1
            s += c
            j += 1
        if s[0] == '"':
            s = re.sub(r"\\(.)", r"\1", s[1:-1])
        out.append(s)
        i = j
    return out


def split(s):
    out, depth, q, cur = [], 0, False, ""
    for c in s:
        if c == '"':
            q = not q
        if not q and c in "{[":
            depth += 1
        if not q and c in "}]":
            depth -= 1
        if c == "," and not depth and not q:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur] if cur else out


def inrange(rng, v):
    neg = rng.startswith("!")
    rng = rng.lstrip("!")
    if ".." in rng:
        lo, hi = rng.split("..")
        r = (not lo or v >= int(lo)) and (not hi or v <= int(hi))
    else:
        r = v == int(rng)
    return r != neg


class Ent:
    n = 0

    def __init__(self, type_="x", pos=(0., 0., 0.), name=""):
        Ent.n += 1
        self.id = "#e%d" % Ent.n
        self.type, self.pos, self.name, self.tags = type_, pos, name, set()


class MC:
    def __init__(self, files):
        self.f, self.s, self.trace, self.ents = files, {}, [], []
        self.steps = 0

    def sel(self, t, ctx):
        m = re.match(r"@(\w+)(?:\[(.*)\])?$", t, re.S)
        if m.group(1) == "s":
            c = [ctx] if ctx in self.ents else []
        elif m.group(1) in "apr":
            c = [e for e in self.ents if e.type == "player"]
        else:
            c = list(self.ents)
        for p in split(m.group(2) or ""):
            k, _, v = p.partition("=")
            neg = v.startswith("!")
            v2 = v.lstrip("!").strip('"')
            if k == "tag":
                c = [e for e in c if (v2 in e.tags) != neg]
            elif k == "type":
                c = [e for e in c if (e.type.split(":")[-1]
                                      == v2.split(":")[-1]) != neg]
            elif k == "name":
                c = [e for e in c if (e.name == v2) != neg]
            elif k == "scores":
                for q in split(v[1:-1]):
                    o, _, r = q.partition("=")
                    o = o.strip('"')
                    c = [e for e in c if (e.id, o) in self.s
                         and inrange(r, self.s[e.id, o])]
            elif k == "dx":
                # the place where entities are summoned: the newest one
                c = [e for e in c if e is self.ents[-1]]
            elif k == "c":
                c = c[:int(v)]
        return c

    def hold(self, t, ctx):
        if t.startswith("@"):
            return [e.id for e in self.sel(t, ctx)]
        return [t]

    def run(self, path, ctx=None):
        for line in self.f[path]:
            if line.strip() and not line.startswith("#"):
                self.do(toks(line), line, ctx)

    def get(self, h, o):
        return self.s.get((h, o), 0)

    def do(self, w, line, ctx):
        self.steps += 1
        if self.steps > 200000:
            raise RuntimeError("does not terminate")
        k = w[0]
        if k == "scoreboard" and w[1] == "players":
            op = w[2]
            if op == "operation":
                for a in self.hold(w[3], ctx):
                    for b in self.hold(w[6], ctx):
                        x, y = self.get(a, w[4]), self.get(b, w[7])
                        if w[5] == "><":
                            self.s[b, w[7]] = x
                        self.s[a, w[4]] = {
                            "=": lambda: y, "><": lambda: y,
                            "+=": lambda: wrap(x + y),
                            "-=": lambda: wrap(x - y),
                            "*=": lambda: wrap(x * y),
                            "/=": lambda: wrap(tdiv(x, y)) if y else x,
                            "%=": lambda: x - tdiv(x, y) * y if y else x,
                            "<": lambda: min(x, y),
                            ">": lambda: max(x, y)}[w[5]]()
            elif op in ("set", "add", "remove"):
                n = int(w[5])
                assert -2 ** 31 <= n < 2 ** 31, "literal out of range: " + line
                for a in self.hold(w[3], ctx):
                    x = self.get(a, w[4])
                    self.s[a, w[4]] = n if op == "set" else wrap(
                        x + n if op == "add" else x - n)
            elif op == "random":
                for a in self.hold(w[3], ctx):
                    self.s[a, w[4]] = int(w[5])
            elif op == "reset":
                for a in self.hold(w[3], ctx):
                    for key in list(self.s):
                        if key[0] == a and (len(w) < 5 or key[1] == w[4]):
                            del self.s[key]
        elif k == "scoreboard":
            pass
        elif k == "function":
            assert w[1] in self.f, "no such function: " + w[1]
            self.run(w[1], ctx)
        elif k == "execute":
            self.ex(w[1:], ctx)
        elif k == "tag":
            for e in self.sel(w[1], ctx):
                (e.tags.add if w[2] == "add" else e.tags.discard)(w[3])
        elif k == "summon":
            e = Ent(w[1])
            e.args = w[2:]
            self.ents.append(e)
        elif k == "kill":
            dead = self.sel(w[1], ctx)
            self.ents = [e for e in self.ents if e not in dead]
        elif k in ("tellraw", "titleraw"):
            js = json.loads(line[line.index("{"):])
            self.trace.append((k, w[1], self.text(js, ctx)))
        else:
            self.trace.append(line)

    def text(self, js, ctx):
        out = ""
        for c in js["rawtext"]:
            if "text" in c:
                out += c["text"]
            elif "score" in c:
                out += ",".join(str(self.get(h, c["score"]["objective"]))
                                for h in self.hold(c["score"]["name"], ctx))
            elif "selector" in c:
                out += "<%s>" % c["selector"]
            elif "translate" in c:
                ws = c.get("with")
                ws = [self.text({"rawtext": [x]}, ctx)
                      for x in ws["rawtext"]] if isinstance(ws, dict) else ws
                ws = ws or []
                seq = iter(ws)

                def rep(m):
                    if m.group(1) == "s":
                        return next(seq, "")
                    i = int(m.group(1)) - 1
                    return ws[i] if i < len(ws) else ""
                out += re.sub(r"%%(s|\d)", rep, c["translate"])
        return out

    def ex(self, w, ctx):
        i = 0
        while w[i] != "run":
            k = w[i]
            if k in ("if", "unless"):
                if w[i + 1] == "score":
                    a = self.hold(w[i + 2], ctx)
                    if w[i + 4] == "matches":
                        v = self.s.get((a[0], w[i + 3])) if a else None
                        r = v is not None and inrange(w[i + 5], v)
                        n = 6
                    else:
                        b = self.hold(w[i + 5], ctx)
                        x, y = self.get(a[0], w[i + 3]), self.get(
                            b[0], w[i + 6])
                        r = {"=": x == y, "<": x < y, ">": x > y,
                             "<=": x <= y, ">=": x >= y}[w[i + 4]]
                        n = 7
                elif w[i + 1] == "entity":
                    r, n = bool(self.sel(w[i + 2], ctx)), 3
                else:
                    raise RuntimeError("cond " + " ".join(w))
                if r != (k == "if"):
                    return
                i += n
            elif k == "as":
                for e in self.sel(w[i + 1], ctx):
                    self.ex(w[i + 2:], e)
                return
            elif k == "at":
                for e in self.sel(w[i + 1], ctx):
                    self.ex(w[i + 2:], ctx)
                return
            elif k == "positioned":
                i += 3 if w[i + 1] == "as" else 4
            elif k in ("align", "in", "anchored"):
                i += 2
            else:
                raise RuntimeError("subcommand " + k)
        rest = w[i + 1:]
        self.do(rest, " ".join(
            x if not (" " in x) else json.dumps(x) for x in rest), ctx)


def run(src, entries=("main",), modules=None, **cfg):
    """Compile and run; returns the machine. `scb(name, "p") = x` in the
    program exposes x as m.s[name, "p"]."""
    m = MC(compile_aca(src, modules, **cfg))
    m.ents.append(Ent("player"))
    for e in entries:
        m.run(e)
    return m


def expect(what, got, want):
    if got != want:
        print("FAIL %s: got %r, expected %r" % (what, got, want))
        sys.exit(1)
