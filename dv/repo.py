"""Access to the code under verification (the current source in /repo)."""
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(6000)

import acaciamc  # noqa: E402
if not os.path.realpath(acaciamc.__file__).startswith(
        os.path.realpath(REPO) + os.sep):
    raise SystemExit("acaciamc imported from the wrong place: %s"
                     % acaciamc.__file__)
from acaciamc.compiler import Compiler, Config  # noqa: E402
from acaciamc.error import Error, ErrorType  # noqa: E402
from acaciamc.localization import localize  # noqa: E402,F401

_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None:
        _TMP = tempfile.mkdtemp(prefix="dv")
        import atexit
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(_TMP, ignore_errors=True)
        atexit.register(_clean)
    return _TMP


def after_fork():
    global _TMP
    _TMP = None


class Compiled:
    def __init__(self, compiler):
        self.compiler = compiler

    def files(self, debug=False):
        """path -> text, exactly what Compiler.output would write."""
        c = self.compiler
        return {f.get_path(): f.to_str(debugging=debug)
                for f in c.output_mgr.files}

    def tick_functions(self):
        """Functions the game runs every tick (tick.json as written)."""
        import json
        d = tempfile.mkdtemp(dir=tmpdir())
        try:
            self.compiler.output(d)
            p = os.path.join(d, "tick.json")
            if not os.path.exists(p):
                return []
            with open(p, encoding="utf-8") as f:
                return json.load(f)["values"]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def file_list(self):
        return [f.get_path() for f in self.compiler.output_mgr.files]


def compile_text(text, modules=None, **cfg):
    """Compile `text` (main file). Returns Compiled or raises Error."""
    d = tempfile.mkdtemp(dir=tmpdir())
    try:
        main = os.path.join(d, "main.aca")
        with open(main, "w", encoding="utf-8") as f:
            f.write(text)
        for name, src in (modules or {}).items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(src)
        cfg.setdefault("encoding", "utf-8")
        return Compiled(Compiler(main, Config(**cfg)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bare_compiler(**cfg):
    """A real Compiler that has compiled the empty program; ready to
    allocate temporaries."""
    c = compile_text("pass\n", **cfg).compiler
    c.current_generator = GenStub()
    return c


class GenStub:
    def __init__(self):
        self.current_tmp_scores = []

    def fix_error_location(self, error):
        error.location.linecol = (1, 1)
