"""seed.py SPEC.py ...: confirm and store planted bugs in /verif/seeded.

A spec defines SEEDS = [dict(id, property, edits=[(file, old, new)...],
demo=<python text>, needs, breaks)]. Each is applied to a scratch copy of
/repo; kept when the existing tests pass with it, the demonstration passes
on the unchanged tree and fails with the change."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, timeout=timeout,
                          capture_output=True, text=True)


def one(s):
    tmp = tempfile.mkdtemp(prefix="seed")
    w = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                return "edit of %s matches %d times" % (f, t.count(old))
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        d = os.path.join(SEEDED, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        patch = sh("git diff", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        shutil.copy(os.path.join(HERE, "minimc.py"), d)
        open(os.path.join(d, "demo.py"), "w").write(
            "from minimc import *\n" + s["demo"].lstrip("\n"))
        demo = os.path.join(d, "demo.sh")
        open(demo, "w").write(
            '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(demo, 0o755)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash %s" % demo, "/repo")
        if r.returncode != 0:
            return "demo fails on the clean tree: %s" % (r.stdout + r.stderr)[-800:]
        r = sh("bash %s" % demo, w)
        if r.returncode == 0:
            return "demo passes with the bug"
        msg = (r.stdout + r.stderr).strip().split("\n")[-1][:200]
        # the repository's own tests, run against the copy
        t = open("/opt/vp/acacia_tests.py").read()
        if "/repo" in t:
            lines = os.path.join(tmp, "lines")
            tt = os.path.join(tmp, "t.py")
            open(tt, "w").write(t.replace("/repo", w))
            env = ("PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONHASHSEED=0 "
                   "PYTHONPYCACHEPREFIX=/nonexistent PYTHONWARNINGS=ignore ")
            sh(env + "/usr/bin/python3 %s %s" % (tt, lines), w)
            out = os.path.join(tmp, "out.json")
            sh("/usr/bin/python3 /opt/vp/results.py %s lines:%s" % (
                out, lines), w)
            got = set(json.load(open(out))["passed"])
            need = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            if need - got:
                return "breaks tests: %s" % sorted(need - got)[:4]
        else:
            return "cannot locate /repo in the test runner"
        return "OK (%s)" % msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        subprocess.run(["find", SEEDED, "-name", "__pycache__", "-exec",
                        "rm", "-r", "{}", "+"])


for path in sys.argv[1:]:
    spec = importlib.util.spec_from_file_location("spec", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        r = one(s)
        if not r.startswith("OK"):
            shutil.rmtree(os.path.join(SEEDED, s["id"]), ignore_errors=True)
        print(s["id"], r, flush=True)
