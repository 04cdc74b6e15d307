"""Verification-condition generator for the real Python code of /repo.

The functions under contract are *executed by CPython* from the current
source in /repo.  Their integer arguments are `SymInt` objects: an `int`
subclass that carries a z3 term and overloads every arithmetic and
comparison operator.  A branch on a symbolic condition calls
`Explorer.decide`, which explores both feasible outcomes by re-execution.
At the end of every path the harness states the postcondition as a
z3 formula, and one proof obligation  (path condition => postcondition)
is generated and discharged.  Nothing of the function is dropped or
rewritten.

Integers are mathematical integers on the Python side (as in Python);
the 32-bit score arithmetic of Minecraft is the `wrap`ped arithmetic in
`mc.SymAlg`.

How symbolic integers get through string formatting: the *underlying*
`int` value of a SymInt is a unique huge "magic" number, so `'%d' % x`,
`str(x)`, f-strings and json all print that number; the command parser in
`mc` maps it back to the z3 term.  Arithmetic that by-passes the operator
overloads (e.g. `int.__add__`) would produce an unregistered magic number
and raises `Unsupported` (the path is then undecided, never proved).
"""
import subprocess
import tempfile
import time
import traceback

import z3
import z3.z3 as _z3impl

_z3impl.Z3_DEBUG = False
MAGIC = 10 ** 60
STEP = 10 ** 30
MAGIC_LO = 10 ** 45
SHARD_DEPTH = 3


class Unsupported(Exception):
    """The engine cannot follow the code here: result is undecided."""


class PathEnd(Exception):
    """Path is infeasible / cut."""


class _Registry:
    def __init__(self):
        self.terms = []
        self.by_id = {}

    def magic(self, term):
        k = term.get_id()
        if k in self.by_id:
            return self.by_id[k]
        m = MAGIC + len(self.terms) * STEP
        self.terms.append(term)
        self.by_id[k] = m
        return m

    def term_of(self, n):
        """z3 term for a python integer (possibly magic)."""
        if isinstance(n, SymInt):
            return n.term
        n = int(n)
        if abs(n) < MAGIC_LO:
            return z3.IntVal(n)
        neg = n < 0
        a = abs(n) - MAGIC
        if a >= 0 and a % STEP == 0 and a // STEP < len(self.terms):
            t = self.terms[a // STEP]
            return -t if neg else t
        raise Unsupported("magic integer escaped: %d" % n)


REG = _Registry()
CUR = None  # current Explorer


def lift(x):
    if type(x) is SymInt:
        return x.term
    if type(x) is SymBool:
        return z3.If(x.term, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return REG.term_of(x)
    raise Unsupported("cannot lift %r" % (type(x),))


def _isint(x):
    return isinstance(x, int)


class SymBool:
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __bool__(self):
        return CUR.decide(self.term)

    def __eq__(self, other):
        if type(other) is SymBool:
            return SymBool(self.term == other.term)
        if isinstance(other, bool):
            return self if other else SymBool(z3.Not(self.term))
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else SymBool(z3.Not(r.term))

    __hash__ = None
    # `isinstance(x, bool)` holds, as it would for the concrete value
    __class__ = property(lambda self: bool)

    def __and__(self, o):
        return bool(self) & bool(o)

    def __or__(self, o):
        return bool(self) | bool(o)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


class SymInt(int):
    def __new__(cls, term):
        term = z3.simplify(term)
        if z3.is_int_value(term):
            # constants stay ordinary Python integers
            return term.as_long()
        self = int.__new__(cls, REG.magic(term))
        self.term = term
        return self

    # --- arithmetic -------------------------------------------------
    def _bin(self, o, f):
        if not _isint(o):
            return NotImplemented
        return SymInt(f(self.term, lift(o)))

    def _rbin(self, o, f):
        if not _isint(o):
            return NotImplemented
        return SymInt(f(lift(o), self.term))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rbin(o, lambda a, b: a * b)
    def __neg__(self): return SymInt(-self.term)
    def __pos__(self): return self
    def __invert__(self): return SymInt(-self.term - 1)

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return _divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return _divmod(o, self)[0]

    def __mod__(self, o):
        if not _isint(o):
            return NotImplemented
        return _divmod(self, o)[1]

    def __rmod__(self, o):
        if not _isint(o):
            return NotImplemented
        return _divmod(o, self)[1]

    def __divmod__(self, o):
        return _divmod(self, o)

    def __rdivmod__(self, o):
        return _divmod(o, self)

    def _unsup(self, *a, **k):
        raise Unsupported("operation on symbolic integer")
    __pow__ = __rpow__ = __truediv__ = __rtruediv__ = _unsup
    __lshift__ = __rshift__ = __and__ = __or__ = __xor__ = _unsup
    __rlshift__ = __rrshift__ = __rand__ = __ror__ = __rxor__ = _unsup
    __round__ = bit_length = to_bytes = _unsup

    def __float__(self):
        raise Unsupported("float() of symbolic integer")

    # --- comparison -------------------------------------------------
    def _cmp(self, o, f):
        if not _isint(o):
            return NotImplemented
        t = z3.simplify(f(self.term, lift(o)))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0

    def __bool__(self):
        return CUR.decide(self.term != 0)

    def __int__(self):
        return self

    def __index__(self):
        return self

    def __str__(self):
        return int.__repr__(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec not in ("", "d"):
            raise Unsupported("format spec %r" % spec)
        return int.__repr__(self)


def _divmod(a, b):
    """Python's floor division with remainder (both proved unique by
    their defining constraints)."""
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    ta, tb = lift(a), lift(b)
    if z3.is_int_value(z3.simplify(tb)):
        d = z3.simplify(tb).as_long()
        if d > 0:
            return SymInt(ta / d), SymInt(ta % d)
    return CUR.pydiv(ta, tb)


class Result:
    """Accumulated outcome of a set of obligations."""
    def __init__(self):
        self.obl = []        # dicts: name, status, backend, time
        self.paths = 0
        self.undecided = []  # (contract, reason)
        self.refuted = []    # dicts with model / info
        self.solver_time = 0.0
        self.functions = {}  # real function -> contract name

    def merge(self, o):
        self.obl += o.obl
        self.paths += o.paths
        self.undecided += o.undecided
        self.refuted += o.refuted
        self.solver_time += o.solver_time
        self.functions.update(o.functions)


class Explorer:
    """Depth-first path exploration of one contract harness."""

    def __init__(self, name, harness, timeout_ms=20000, max_paths=20000,
                 concrete=None, deadline=None, shard=(0, 1)):
        # shard (i, n): explore the paths whose first three harness choices
        # hash to i modulo n (n processes share one contract)
        self.shard = shard
        self.name = name
        self.harness = harness
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.res = Result()
        self.deadline = deadline
        # concrete replay mode: dict name->value + forced choices + model
        self.concrete = concrete

    # -- path-level API used by SymInt --
    def decide(self, cond):
        if self.concrete is not None:
            v = self.model_eval(cond)
            return z3.is_true(v)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self._assert(cond if v else z3.Not(cond))
            return v
        can_t = self._feasible(cond)
        can_f = self._feasible(z3.Not(cond)) if can_t else True
        if not can_t and not can_f:
            raise PathEnd()
        if can_t and can_f:
            self.todo.append(self.prefix + [False])
        v = can_t
        self.prefix = self.prefix + [v]
        self._assert(cond if v else z3.Not(cond))
        return v

    def choose(self, label, options):
        """n-ary nondeterministic choice made by the harness."""
        options = list(options)
        if self.concrete is not None:
            v = self.concrete["choices"][self.cpos]
            self.cpos += 1
            self.choice_log.append((label, options[v]))
            return options[v]
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            for k in range(len(options) - 1, 0, -1):
                self.todo.append(self.prefix + [k])
            v = 0
            self.prefix = self.prefix + [v]
        self.choices.append(v)
        self.choice_log.append((label, options[v]))
        if len(self.choices) == SHARD_DEPTH and self.shard[1] > 1 and \
                (self.choices[0] * 31 + self.choices[1] * 7
                 + self.choices[2]) % self.shard[1] != self.shard[0]:
            raise PathEnd()
        return options[v]

    def _feasible(self, c):
        t0 = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.res.solver_time += time.time() - t0
        return r != z3.unsat

    def _assert(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def skip(self):
        """This choice is outside the precondition."""
        raise PathEnd()

    def assume(self, c):
        if self.concrete is not None:
            return
        self._assert(c)

    def fresh_term(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        self.inputs[name] = t
        return t

    def int(self, name, lo=None, hi=None):
        """A universally quantified Python integer."""
        t = self.fresh_term(name, lo, hi)
        if self.concrete is not None:
            v = self.model_eval(t)
            return v.as_long()
        return SymInt(t)

    def pydiv(self, ta, tb):
        if self.concrete is not None:
            a, b = (self.model_eval(x).as_long() for x in (ta, tb))
            return a // b, a % b
        key = (ta.get_id(), tb.get_id())
        if key in self.divs:
            return self.divs[key][2]
        n = len(self.divs)
        q, r = z3.Int("q!%d" % n), z3.Int("r!%d" % n)
        self._assert(ta == q * tb + r)
        self._assert(z3.If(tb > 0, z3.And(0 <= r, r < tb),
                           z3.And(tb < r, r <= 0)))
        out = (SymInt(q), SymInt(r))
        self.divs[key] = (ta, tb, out)
        return out

    def model_eval(self, t):
        """Value of a term under the counter-model, with the machine
        operations computed by their definition."""
        from . import mc
        if isinstance(t, bool):
            return z3.BoolVal(t)
        m = self.concrete["model"]
        cache = self.concrete.setdefault("cache", {})

        def ev(t):
            k = t.get_id()
            if k in cache:
                return cache[k][1]
            if z3.is_app(t) and t.num_args():
                args = [ev(c) for c in t.children()]
                r = mc.concrete_app(t.decl().name(), args)
                if r is None:
                    r = z3.simplify(m.eval(t.decl()(*args),
                                           model_completion=True))
            else:
                r = m.eval(t, model_completion=True)
            cache[k] = (t, r)
            return r
        return ev(t)

    # -- obligations --
    def prove(self, label, formula, info=None, reveal=()):
        """Generate the obligation pc => formula and discharge it."""
        name = "%s/%s" % (self.name, label)
        if isinstance(formula, bool):
            formula = z3.BoolVal(formula)
        if self.concrete is not None:
            ok = z3.is_true(self.model_eval(formula))
            self.concrete_results.append((name, ok, info))
            return
        t0 = time.time()
        status, backend, model = self._discharge(formula, reveal)
        dt = time.time() - t0
        self.res.solver_time += dt
        self.res.obl.append({"name": name, "status": status,
                             "backend": backend, "time": round(dt, 3)})
        if status == "refuted":
            self.res.refuted.append({
                "name": name, "contract": self.name,
                "choices": list(self.choices),
                "choice_log": [(a, str(b)) for a, b in self.choice_log],
                "inputs": {k: str(model.eval(v, model_completion=True))
                           for k, v in self.inputs.items()},
                "model": model, "info": str(info) if info else "",
                "backend": backend,
            })
        elif status == "unknown":
            self.res.undecided.append((name, "solver returned unknown"))

    def _discharge(self, formula, reveal):
        from . import mc
        neg = z3.Not(formula)
        sneg = z3.simplify(neg)
        if z3.is_false(sneg):
            return "discharged", "z3-simplify", None
        # 1. opaque machine arithmetic
        s = self.solver
        s.push()
        s.add(neg)
        r = s.check()
        model = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unsat:
            return "discharged", "z3", None
        apps = mc.machine_apps(self.pc + [neg])
        if r == z3.sat and not apps:
            return "refuted", "z3", model
        # 2. reveal the definitions of the machine arithmetic
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*self.pc)
        s.add(neg)
        s.add(*mc.definitions(self.pc + [neg] + list(reveal)))
        for lemma in reveal:
            s.add(lemma)
        r = s.check()
        if r == z3.unsat:
            return "discharged", "z3+defs", None
        if r == z3.sat:
            return "refuted", "z3+defs", s.model()
        # 3. second back end
        r = run_cvc5(s, self.timeout_ms)
        if r == "unsat":
            return "discharged", "cvc5", None
        # 4. bounded model search (for refutation only)
        for bound in (8, 64):
            s2 = z3.Solver()
            s2.set("timeout", self.timeout_ms // 4)
            s2.add(*s.assertions())
            for v in self.inputs.values():
                s2.add(v >= -bound, v <= bound)
            if s2.check() == z3.sat:
                return "refuted", "z3+defs(small)", s2.model()
        return "unknown", "-", None

    def cover(self, label="cover"):
        """Vacuity guard: the current path condition is satisfiable."""
        self.covered = True
        if self.concrete is not None:
            return

    def _reset(self):
        self.pos = 0
        self.cpos = 0
        self.choices = []
        self.choice_log = []
        self.pc = []
        self.inputs = {}
        self.divs = {}
        self.concrete_results = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)

    def run(self):
        global CUR
        self.todo = [[]]
        self.any_complete = False
        old = CUR
        CUR = self
        try:
            while self.todo:
                if self.res.paths >= self.max_paths:
                    self.res.undecided.append((self.name, "path limit"))
                    break
                if self.deadline and time.time() > self.deadline:
                    self.res.undecided.append((self.name, "time limit"))
                    break
                self.prefix = self.todo.pop()
                self._reset()
                self.res.paths += 1
                n0 = len(self.res.obl)
                nr, nu = len(self.res.refuted), len(self.res.undecided)
                try:
                    self.harness(self)
                    self.any_complete = True
                except PathEnd:
                    self.res.paths -= 1
                except Unsupported as e:
                    self.res.undecided.append(
                        (self.name, "unsupported: %s [%s]"
                         % (e, self.choice_log)))
                except Exception as e:  # crash of the code or the harness
                    self._crash(e)
                if len(self.choices) < SHARD_DEPTH and self.shard[0] != 0:
                    # belongs to shard 0
                    del self.res.obl[n0:], self.res.refuted[nr:]
                    del self.res.undecided[nu:]
        finally:
            CUR = old
        if not self.any_complete and not self.res.undecided \
                and not self.res.refuted and self.shard[1] == 1:
            self.res.undecided.append((self.name, "vacuous: no path"))
        return self.res

    def _crash(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else "?"
        where = "%s:%s" % (last, tb[-1].lineno if tb else "?")
        text = "".join(traceback.format_exception(e)[-4:])
        in_repo = "/acaciamc/" in last or \
            type(e).__name__ == "McError"
        # A crash inside the code under contract on admissible inputs is
        # the failure of the implicit obligation "returns normally or
        # raises a documented exception"; it only counts after a replay
        # with concrete values (see replay.py).
        status, backend, model = "refuted", "z3", None
        if self.solver.check() != z3.unsat:
            try:
                model = self.solver.model()
            except z3.Z3Exception:
                model = None
        if not in_repo or model is None or any(
                a in repr(e) for a in ("AbsOp", "AbsCmd", "AbsBool",
                                       "AbsCond", "GenStub", "SymInt",
                                       "SymBool", "Abs")):
            self.res.undecided.append(
                (self.name, "harness exception at %s: %r %s"
                 % (where, e, self.choice_log)))
            return
        name = "%s/no-crash" % self.name
        self.res.obl.append({"name": name, "status": "refuted",
                             "backend": "z3", "time": 0.0})
        self.res.refuted.append({
            "name": name, "contract": self.name,
            "choices": list(self.choices),
            "choice_log": [(a, str(b)) for a, b in self.choice_log],
            "inputs": {k: str(model.eval(v, model_completion=True))
                       for k, v in self.inputs.items()},
            "model": model, "info": text, "backend": "z3",
        })

    # -- replay of a refuted obligation with concrete values --
    def replay(self, ref):
        """Re-run the harness on the real code with the concrete values
        of the counter-model. Returns (confirmed, description)."""
        global CUR
        old = CUR
        self.concrete = {"model": ref["model"], "choices": ref["choices"]}
        CUR = self
        self._reset()
        try:
            try:
                self.harness(self)
            except PathEnd:
                return False, "path ended"
            except Unsupported as e:
                return False, "unsupported in replay: %s" % e
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                if type(e).__name__ == "McError":
                    return True, "bad command emitted: %s" % e
                if tb and "/acaciamc/" in tb[-1].filename:
                    return True, "the real code raised %r at %s:%d" % (
                        e, tb[-1].filename, tb[-1].lineno)
                return False, "harness exception %r" % e
            bad = [r for r in self.concrete_results if not r[1]]
            if bad:
                return True, "; ".join(
                    "%s is false (%s)" % (n, i) for n, _, i in bad[:3])
            return False, "all postconditions hold concretely"
        finally:
            self.concrete = None
            CUR = old


def run_cvc5(solver, timeout_ms):
    """Second back end: dump SMT-LIB and ask cvc5."""
    text = "(set-logic ALL)\n" + solver.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
        f.write(text)
        f.flush()
        try:
            p = subprocess.run(
                ["cvc5", "--tlimit=%d" % timeout_ms, f.name],
                capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        except Exception:
            return "unknown"
    out = p.stdout.strip().splitlines()
    return out[0] if out else "unknown"
