"""catch.py [ids]: run each planted bug's own check against a scratch copy
of /repo with the bug applied; print what the check says."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def one(i):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "-C", w, "apply",
                        os.path.join(d, "patch.diff")], check=True)
        r = subprocess.run(["python3-vt", "run.py", prop, "quick"], cwd=HERE,
                           env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"),
                           capture_output=True, text=True, timeout=900)
        v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
        how = "caught" if r.returncode == 1 and any(
            "property=%s " % prop in x for x in v) else "MISSED"
        soft = sum(x.endswith("no-failing-input-found") for x in v)
        return "%-28s %s rc=%d violations=%d (%d without input) %s" % (
            i, how, r.returncode, len(v), soft,
            "" if r.returncode in (0, 1) else (r.stdout + r.stderr)[-500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for i in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    print(one(i), flush=True)
