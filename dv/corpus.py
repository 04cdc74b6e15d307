"""A corpus of small programs using every construct of the language and
every built-in module; sources for the mutation-based stand-ins."""
import os

from .contracts_out import PROGS

with open(os.path.join(os.path.dirname(__file__), "corpus.txt"),
          encoding="utf-8") as _f:
    TEXTS = dict((t.split("\n", 1)[0].strip(), t.split("\n", 1)[1])
                 for t in _f.read().split("=== ")[1:])
TEXTS.update({
    "out-" + k: "a := 5\nb := -3\n" + v.replace("L1", "17") + "\n"
    for k, v in PROGS.items() if "helper" not in v})
