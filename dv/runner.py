"""Runs the obligations and bounded stand-ins registered for a property."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from .assume import ASSUME

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("DV_NPROC") or 0) or \
    max(2, min(8, os.cpu_count() or 2))


class TaskTimeout(BaseException):
    pass


def _alarm(*_):
    raise TaskTimeout()


_FUNCS = set()


def _watch():
    """Record which functions of /repo run while obligations are made."""
    m = getattr(sys, "monitoring", None)
    if m is None or m.get_tool(4) is not None:
        return
    root = os.path.join("acaciamc", "")

    def start(code, off):
        f = code.co_filename
        k = f.rfind(root)
        if k >= 0 and "<" not in code.co_name and not \
                code.co_name.startswith("__"):
            _FUNCS.add("%s:%s" % (f[k + len(root):], code.co_qualname))
        return m.DISABLE
    m.use_tool_id(4, "dv")
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)


def _contract_task(mod, fn, shard, deadline, timeout_ms):
    """Executed in a worker: generate and discharge the obligations of one
    contract (or a shard of it); replay refuted ones."""
    from .sym import Explorer
    _watch()
    m = importlib.import_module("dv." + mod)
    f = getattr(m, fn)
    ex = Explorer(fn[3:] if fn.startswith("vc_") else fn, f,
                  deadline=deadline, shard=shard, timeout_ms=timeout_ms)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(deadline - time.time()) + 5))
    try:
        res = ex.run()
    except TaskTimeout:
        res = ex.res
        res.undecided.append((ex.name, "time limit"))
    finally:
        signal.alarm(0)
    refuted, seen = [], {}
    if getattr(f, "soft", False):
        # The contract states how the present code achieves its result
        # (an invariant of a particular loop): failing it means that the
        # proof has to be redone, not that the property is broken.
        for r in res.refuted:
            res.undecided.append((r["name"], "not proved: %s" % (
                r["choice_log"],)))
        res.refuted = []
    for r in res.refuted:
        n = seen.get(r["name"], 0)
        seen[r["name"]] = n + 1
        if n >= 3:
            continue
        if r["model"] is None:
            ok, text = False, "no model"
        else:
            try:
                signal.alarm(30)
                ok, text = ex.replay(r)
            except TaskTimeout:
                ok, text = False, "replay timed out"
            except BaseException as e:
                ok, text = False, "replay failed: %r" % e
            finally:
                signal.alarm(0)
        r = {k: v for k, v in r.items() if k != "model"}
        r["replayed"], r["replay"] = ok, text
        refuted.append(r)
    return {"contract": fn, "obl": res.obl, "paths": res.paths,
            "undecided": [(a, str(b)[:400]) for a, b in res.undecided],
            "refuted": refuted, "nrefuted": len(res.refuted),
            "solver_time": res.solver_time, "funcs": sorted(_FUNCS)}


def _bounded_task(mod, fn, seeds, arg, limit):
    m = importlib.import_module("dv." + mod)
    f = getattr(m, fn)
    out = {"item": fn, "n": 0, "discard": 0, "fail": [], "keys": set(),
           "samples": [], "errors": []}
    signal.signal(signal.SIGALRM, _alarm)
    for s in seeds:
        if time.time() > limit:
            break
        signal.alarm(60)
        try:
            r = f(s, arg) if arg is not None else f(s)
        except TaskTimeout:
            out["fail"].append(
                {"seed": s, "what": "the code under test did not finish "
                 "within 60 s", "input": "", "key": ""})
            break
        except Exception as e:
            out["errors"].append("seed %s: %r %s" % (
                s, e, traceback.format_exc()[-600:]))
            continue
        finally:
            signal.alarm(0)
        # r: dict(status=ok|discard|fail, what=, input=, key=)
        if r["status"] == "discard":
            out["discard"] += 1
            continue
        out["n"] += 1
        out["keys"].add(hash(r.get("input", s)))
        if r["status"] == "fail":
            out["fail"].append({"seed": s, "what": r["what"],
                                "input": r.get("input", ""),
                                "key": r.get("key", "")})
            if len(out["fail"]) >= 3:
                break
        elif len(out["samples"]) < 1:
            out["samples"].append(str(r.get("input", ""))[:1500])
    return out


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    random.seed(0)


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def save_replay(pid, n, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import registry
    P = registry.PROPS[pid]
    thorough = tier == "thorough"
    budget = 820.0 if thorough else float(P.get("budget", 420))
    deadline = t0 + budget
    tmo = 60000 if thorough else 20000
    from . import repo  # noqa: F401  (import the code once, then fork)
    for mod in {c[0] for c in P.get("contracts", ())} | {
            b["mod"] for b in P.get("bounded", ())}:
        importlib.import_module("dv." + mod)
    ctx = mp.get_context("fork")
    ex = cf.ProcessPoolExecutor(NPROC, mp_context=ctx, initializer=_init)
    jobs = {}
    heavy = []
    for mod, fn in P.get("contracts", ()):
        f = getattr(importlib.import_module("dv." + mod), fn)
        n = getattr(f, "shards", 1)
        for i in range(n):
            heavy.append((n, mod, fn, (i, n)))
    for n, mod, fn, sh in sorted(heavy, key=lambda x: -x[0]):
        j = ex.submit(_contract_task, mod, fn, sh, deadline - 40, tmo)
        jobs[j] = ("contract", fn)
    for b in P.get("bounded", ()):
        total = b["thorough"] if thorough else b["quick"]
        total = int(total * float(os.environ.get("DV_SCALE") or 1))
        step = max(1, min(b.get("chunk", 50), -(-total // NPROC)))
        base = seed * 10_000_000 if b.get("random", True) else 0
        for a in range(0, total, step):
            j = ex.submit(_bounded_task, b["mod"], b["fn"],
                          range(base + a, base + min(a + step, total)),
                          b.get("arg"), deadline - 20)
            jobs[j] = ("bounded", b["fn"])
    contracts, bounded, broken = [], [], []
    for j in cf.as_completed(jobs):
        kind, name = jobs[j]
        try:
            r = j.result()
        except BaseException as e:
            broken.append("%s %s: worker ended: %r" % (kind, name, e))
            continue
        (contracts if kind == "contract" else bounded).append(r)
        if os.environ.get("DV_FIRST") and (r.get("refuted") or
                                           r.get("fail")):
            break  # development only: the first failure is enough
    procs = list((getattr(ex, "_processes", None) or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        p.kill()
    return report(pid, P, tier, seed, t0, contracts, bounded, broken)


def report(pid, P, tier, seed, t0, contracts, bounded, broken):
    known = load_known()
    kkeys = {f["key"]: f for f in known["findings"] if f["property"] == pid}
    obl = [o for c in contracts for o in c["obl"]]
    undecided = [u for c in contracts for u in c["undecided"]]
    st = sum(c["solver_time"] for c in contracts)
    by = {}
    for o in obl:
        if o["status"] == "discharged":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    discharged = sum(by.values())
    names = sorted({o["name"] for o in obl})
    evals = sum(b["n"] for b in bounded)
    discard = sum(b["discard"] for b in bounded)
    keys = set()
    for b in bounded:
        keys |= {(b["item"], k) for k in b["keys"]}
    errors = [e for b in bounded for e in b["errors"]] + broken

    # --- violations ---
    viol, hit = [], {}
    refuted = sorted((r for c in contracts for r in c["refuted"]),
                     key=lambda r: (not r["replayed"], r["name"]))
    seen = set()
    for r in refuted:
        k = "%s %s" % (r["name"], r["choice_log"])
        if k in kkeys:
            hit[k] = kkeys[k]
            continue
        if r["name"] in seen:
            continue
        seen.add(r["name"])
        viol.append((r["replayed"], "obligation %s" % r["name"], {
            "property": pid, "kind": "failed obligation",
            "obligation": r["name"], "case": r["choice_log"],
            "counter_model": r["inputs"], "info": r["info"],
            "back_end": r["backend"], "replay_confirmed": r["replayed"],
            "replay_on_the_real_code": r["replay"]}))
    fails = [(b["item"], f) for b in bounded for f in b["fail"]]
    fails.sort(key=lambda x: (x[0], len(str(x[1]["input"]))))
    seen = set()
    for item, f in fails:
        k = f["key"]
        if k and k in kkeys:
            hit[k] = kkeys[k]
            continue
        if item in seen:
            continue
        seen.add(item)
        viol.append((True, "bounded check %s" % item, {
            "property": pid, "kind": "bounded check failed", "item": item,
            "seed": f["seed"], "what": f["what"], "input": f["input"]}))
    viol.sort(key=lambda v: not v[0])

    cov = {
        "obligations": len(obl), "discharged": discharged,
        "checker_cmd": "python3-vt run.py %s %s" % (pid, tier),
        "trusted_base": list(P.get("trusted", ())) + BASE_TRUST,
        "back_ends": by, "solver_seconds": round(st, 2),
        "paths": sum(c["paths"] for c in contracts),
        "obligation_families": len(names),
        "contracts": sorted({c["contract"] for c in contracts}),
        "functions_under_contract": sorted(
            {f for c in contracts for f in c["funcs"]}),
        "undecided": undecided[:20], "undecided_count": len(undecided),
        "evaluations": evals, "distinct_nontrivial": len(keys),
        "discarded": discard,
        "rule": P.get("rule", BOUNDED_RULE if bounded else
                      "no bounded part"),
        "samples": [s for b in bounded for s in b["samples"]][:3] or [
            n for n in names[:5]],
        "bounded_items": {b: {"evaluations": sum(
            x["n"] for x in bounded if x["item"] == b)}
            for b in {x["item"] for x in bounded}},
        "errors": errors[:10],
        "explanation": P.get("explanation", ""),
    }
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": P["level"], "coverage": cov,
          "assumptions": list(ASSUME.get(pid, ())) + BASE_ASSUME,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print("%s: %d obligations, %d discharged (%s), %d undecided, %d paths; "
          "bounded: %d evaluations (%d distinct), %d discarded; %.1fs" % (
              pid, len(obl), discharged, by, len(undecided), cov["paths"],
              evals, len(keys), discard, ev["wall_s"]))
    for u in undecided[:5]:
        print("  undecided: %s: %s" % (u[0], str(u[1])[:300]))
    for e in errors[:5]:
        print("  error: %s" % e[:600])
    for k, f in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for i, (ok, name, data) in enumerate(viol[:6]):
        p = save_replay(pid, i, data)
        print("  %s: %s" % (name, str(data.get("what") or data.get(
            "replay_on_the_real_code"))[:400]))
        print("VIOLATION property=%s replay=%s%s" % (
            pid, p, "" if ok else " no-failing-input-found"))
    sys.stdout.flush()
    if viol:
        return 1
    if not discharged and not evals:
        print("nothing was checked")
        return 2
    return 0


BOUNDED_RULE = (
    "random cases (seeded) of the labelled bounded stand-in; a case is "
    "counted when it ran to the end (not discarded as outside the "
    "specified fragment), distinct by input text")
BASE_TRUST = [
    "CPython executing the functions under contract",
    "dv/sym.py (path exploration, obligation generation)",
    "z3 4.x / cvc5 1.1.2",
    "dv/mc.py (semantics of Minecraft scoreboard/execute/function "
    "commands; see DESIGN.md)"]
BASE_ASSUME = [
    "Minecraft executes commands as dv/mc.py describes (32-bit wrap-"
    "around; `/=` and `%=` truncate like C)",
]
