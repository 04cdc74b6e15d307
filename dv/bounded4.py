"""Bounded stand-ins for the pack as a whole (labelled bounded)."""
import hashlib
import json
import os
import random
import subprocess
import sys

from . import bounded, bounded2, bounded3, integrity, mc, prog, repo
from .bounded2 import fail, ok

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBJ = ("probe", "probe2", "o1", "my obj", "p", "chk")


def source(r):
    """A random program: (source, modules)."""
    k = r.random()
    seed = r.randrange(10 ** 9)
    if k < .6:
        p = prog.Gen(seed, **bounded._merge("all")).program()
        return p.src, p.modules, p
    f = bounded3.entity_case if k < .75 else (
        bounded2.sched_case if k < .9 else bounded2.print_case)
    x = f(seed)
    return x["input"] if x["status"] == "ok" else "", {}, None


def config(r):
    cfg = dict(optimizer=r.random() < .6)
    if r.random() < .6:
        cfg["root_folder"] = r.choice(["a", "my/pack", "x/y/z", "main"])
    if r.random() < .5:
        cfg["split_init"] = True
        if r.random() < .5:
            cfg["init_file"] = r.choice(["setup", "Init2", "z"])
    if r.random() < .3:
        cfg["main_file"] = r.choice(["start", "go_main", "M"])
    if r.random() < .3:
        cfg["internal_folder"] = r.choice(["lib", "_x", "i1"])
    if r.random() < .3:
        cfg["scoreboard"] = r.choice(["sb", "my_scb", "_"])
    if r.random() < .3:
        cfg["entity_tag"] = r.choice(["tg", "T_"])
    if r.random() < .3:
        cfg["max_inline_file_size"] = r.choice([0, 1, 3, 1000])
    cfg["debug_comments"] = r.random() < .3
    return cfg


def pack_case(seed, arg=None):
    """A random program under a random configuration gives a closed pack
    that behaves like the reference; a second compilation in the same
    process gives the same text."""
    r = random.Random(seed)
    src, mods, p = source(r)
    cfg = config(r)
    shown = "%s\n%s%s" % (cfg, src, "".join(
        "\n### %s\n%s" % m for m in (mods or {}).items()))
    try:
        c = repo.compile_text(src, modules=mods, **cfg)
    except repo.Error as e:
        if "Integer overflow" in str(e) or "Arithmetic error" in str(e):
            return {"status": "discard", "input": src}
        return fail("rejected: %s" % e, shown)
    files = c.files(debug=cfg["debug_comments"])
    root = cfg.get("root_folder", "")
    pre = root + "/" if root else ""
    main = pre + cfg.get("main_file", "main")
    ini = pre + cfg.get("init_file", "init")
    entries = [ini] if cfg.get("split_init") else [main]
    w = integrity.check(c.file_list(), files, c.tick_functions(), root, OBJ,
                        entries, scores_ok=False)
    if w:
        return fail(w, shown)
    if p is not None:
        w = prog.check(p, [cfg], repo.compile_text)
        if w == "discard":
            return {"status": "discard", "input": src}
        if w:
            return fail(w, shown)
    c2 = repo.compile_text(src, modules=mods, **cfg)
    f1, f2 = c.files(), c2.files()
    if f1 != f2 or c.file_list() != c2.file_list() or \
            c.tick_functions() != c2.tick_functions():
        return fail("a second compilation differs", shown)
    return ok(shown)


def determinism_case(seed, arg=None):
    """The same programs compiled in fresh processes with different hash
    seeds give the same text and the same order of files."""
    n = 25
    outs = []
    for hs in ("0", "1", "77"):
        x = subprocess.run(
            [sys.executable, "-m", "dv.bounded4", str(seed), str(n)],
            cwd=HERE, env=dict(os.environ, PYTHONHASHSEED=hs),
            capture_output=True, text=True, timeout=300)
        if x.returncode:
            return {"status": "error", "what": x.stderr[-500:], "input": ""}
        outs.append(json.loads(x.stdout.strip().split("\n")[-1]))
    for k in range(n):
        if len({o[k] for o in outs}) > 1:
            r = random.Random(seed * 1000 + k)
            return fail("output depends on PYTHONHASHSEED", source(r)[0])
    return ok("%d programs" % n)


def _main(seed, n):
    out = []
    for k in range(n):
        r = random.Random(seed * 1000 + k)
        src, mods, p = source(r)
        cfg = config(r)
        try:
            c = repo.compile_text(src, modules=mods, **cfg)
            t = json.dumps([c.file_list(), c.files(), c.tick_functions()])
        except repo.Error as e:
            t = "error %s" % e.type.name
        out.append(hashlib.sha256(t.encode()).hexdigest())
    print(json.dumps(out))


if __name__ == "__main__":
    _main(int(sys.argv[1]), int(sys.argv[2]))
