"""Integrity of a generated pack, judged from its text alone."""
import re

from . import mc


def subcommands(cmd):
    """The command and everything it runs."""
    yield cmd
    if cmd[0] == "execute":
        yield from subcommands(cmd[2])


def called(cmd):
    """Functions a parsed command calls or schedules."""
    out = []
    for c in subcommands(cmd):
        if c[0] == "function":
            out.append(c[1])
        elif c[0] == "schedule":
            out.append(c[1].split(" ")[-1])
    return out


def _scores_in_json(j):
    out = []
    if isinstance(j, dict):
        for k, v in j.items():
            if k == "score" and isinstance(v, dict):
                out.append((v["name"], v["objective"]))
            else:
                out += _scores_in_json(v)
    elif isinstance(j, list):
        for x in j:
            out += _scores_in_json(x)
    return out


def slots(cmd):
    """(reads, writes) of a parsed command, conservatively."""
    rd, wr = [], []
    for c in subcommands(cmd):
        k = c[0]
        if k in ("set", "random"):
            wr.append(c[1])
        elif k in ("add", "remove"):
            rd.append(c[1])
            wr.append(c[1])
        elif k == "op":
            if c[2] == "=":
                wr.append(c[1])
                rd.append(c[3])
            else:
                rd += [c[1], c[3]]
                wr.append(c[1])
                if c[2] == "><":
                    wr.append(c[3])
        elif k == "tellraw":
            rd += _scores_in_json(c[2])
        elif k == "execute":
            for s in c[1]:
                if s[0] == "matches":
                    rd.append(s[2])
                elif s[0] == "comp":
                    rd += [s[2], s[4]]
    return rd, wr


def check(paths, files, ticks, root="", objectives=(), entries=(),
          scores_ok=True, known=(),
          internal="_acacia"):
    """None or a description of what is wrong.
    paths: file paths in the order they are written; files: path -> text;
    objectives: those the program itself is responsible for; entries:
    functions that must exist; known: scores the program does not have to
    initialise itself."""
    low = [p.lower() for p in paths]
    for p in low:
        if low.count(p) > 1:
            return "file %r is written twice" % p
    if sorted(paths) != sorted(files):
        return "paths and files differ"
    pre = root + "/" if root else ""
    for p in paths:
        if not p.startswith(pre):
            return "file %r is not below the root folder %r" % (p, root)
        if "//" in p or p.startswith("/") or not p or p.endswith("/") or \
                any(x in (".", "..") for x in p.split("/")):
            return "bad path %r" % p
    for e in entries:
        if e not in files:
            return "entry %r is missing (files: %s)" % (e, paths)
    for t in ticks:
        if t not in files:
            return "tick.json lists %r, which does not exist" % t
    added, used, rd, wr = [], set(), set(), set()
    calls, reads = {}, {}
    for p, text in files.items():
        for line in text.split("\n"):
            try:
                c = mc.parse(line)
            except mc.McError as e:
                return "malformed command in %s: %s" % (p, e)
            for f in called(c):
                calls.setdefault(p, set()).add(f)
                if f not in files:
                    return "%s: %r refers to a missing function" % (p, line)
            for s in subcommands(c):
                if s[0] == "objadd":
                    added.append(s[1])
            r, w = slots(c)
            for s in r + w:
                used.add(s[1])
            wr |= set(w)
            reads.setdefault(p, set()).update(r)
    live = [p for p in paths if p in ticks or
            not p.startswith(pre + internal + "/")]
    for p in live:
        rd |= reads.get(p, set())
        live += [f for f in calls.get(p, ()) if f not in live]
    for o in added:
        if added.count(o) > 1:
            return "objective %r is added twice" % o
    for o in used:
        if o not in added and o not in objectives:
            return "objective %r is used but never added" % o
    if scores_ok:
        for s in rd - wr:
            if s[1] in added and s not in known and not re.match(
                    r"[@*]", s[0]):
                return "score %s is read but nothing ever sets it" % (s,)
    return None
