"""Bounded stand-ins of the error behaviour (C11), labelled bounded: mutated
programs are accepted or rejected with a located, formatted error."""
import random
import re
import signal

from . import corpus, repo
from .bounded2 import fail, ok

TOK = re.compile(r"\n *|[A-Za-z_]\w*|\d+|\"[^\"\n]*\"|[:=<>!]=|->|\s+|.",
                 re.S)
WORDS = ("int bool str list map Engroup Entity Pos Offset Rot Enfilter scb "
         "swap upcast print math world schedule None True False and or not "
         "if elif else while for in pass interface def inline const entity "
         "extends self new virtual override static struct result import "
         "from as fstring Task float").split()
PUNCT = ["+", "-", "*", "/", "%", "(", ")", "[", "]", "{", "}", ",", ".",
         ":", "=", ":=", "->", "==", "<", ">=", "!=", "+=", "&", "|", "@",
         "\n", "\n    ", "${1}"]
LITS = ["0", "1", "-1", "7", "2147483647", "2147483648", "-2147483648",
        "3.5", "\"\"", "\"a\"", "\"3..5\"", "\"%0\"", "True", "None",
        "{}", "{1, 2}", "{1: 2}", "{:}", "Pos(0, 0, 0)", "Offset()",
        "Engroup[Entity]()", "Enfilter()", "int", "list", "print", "math",
        "1 / 0", "(1 > 2)", "not True", "-\"a\"", "0x1F"]
EXPR = re.compile(r"[A-Za-z_][\w.]*(\[[^\[\]]*\]|\([^()]*\))?|\d+|\"[^\"\n]*\"")


def toks(t):
    return TOK.findall(t)


def mutate(text, r, pool):
    k = r.random()
    ts = toks(text)
    if k < .45:   # replace an operand-like fragment by another
        ms = list(EXPR.finditer(text))
        m = r.choice(ms)
        q = r.random()
        if q < .4:
            new = r.choice(ms).group()
        elif q < .7:
            new = r.choice(LITS)
        elif q < .85:
            new = r.choice(WORDS)
        else:
            t2 = pool[r.choice(list(pool))]
            new = r.choice(list(EXPR.finditer(t2))).group()
        return text[:m.start()] + new + text[m.end():]
    i = r.randrange(len(ts))
    if k < .55:
        del ts[i]
    elif k < .6:
        ts.insert(i, ts[r.randrange(len(ts))])
    elif k < .68:
        ts[i] = r.choice(PUNCT)
    elif k < .76:
        ts.insert(i, r.choice(PUNCT + WORDS))
    elif k < .84:
        j = r.randrange(len(ts))
        ts[i], ts[j] = ts[j], ts[i]
    else:
        ls = text.split("\n")
        i, j = r.randrange(len(ls)), r.randrange(len(ls))
        q = r.random()
        if q < .3:
            del ls[i]
        elif q < .5:
            ls.insert(j, ls[i])
        elif q < .6:
            ls[i], ls[j] = ls[j], ls[i]
        elif q < .7:
            ls[i] = r.choice(["    ", "  "]) + ls[i]
        elif q < .8:
            ls[i] = ls[i].lstrip()
        else:
            t2 = pool[r.choice(list(pool))].split("\n")
            a = r.randrange(len(t2))
            b = min(len(t2), a + r.randint(1, 4))
            ls[i:i] = t2[a:b]
        return "\n".join(ls)
    return "".join(ts)


PLACEHOLDER = re.compile(r"\{[a-z_]*\}")


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def judge(src, mods=None, **cfg):
    """None when `src` is accepted or properly rejected, else what is
    wrong. Programs that ask for an endless compile time loop or recursion
    are discarded."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 4)
    try:
        c = repo.compile_text(src, modules=mods, **cfg)
        c.files()
        c.files(debug=True)
        return None
    except Timeout:
        return "discard"
    except repo.Error as e:
        return judge_error(e, src, mods)
    except (RecursionError, MemoryError):
        return "discard"
    except Exception as e:  # noqa
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "internal error %s: %s (%s:%s)" % (
            type(e).__name__, e, tb.filename.split("/")[-1], tb.name)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def judge_error(e, src, mods=None):
    try:
        msg = e.full_msg()
        str(e)
    except Exception as x:  # noqa
        return "the message of %s cannot be formatted: %s %s" % (
            e.type, type(x).__name__, x)
    locs = [e.location] + [f.location for f in e.frames]
    for n, loc in enumerate(locs):
        if not loc.file_set():
            return "an error without file (%s)" % msg
        name = loc.file.replace("\\", "/").split("/")[-1]
        text = src if name == "main.aca" else (mods or {}).get(name)
        if text is None:
            if n:
                continue
            return "the error is in %s (%s)" % (loc.file, msg)
        if not loc.linecol_set():
            return "an error without line (%s)" % msg
        line, col = loc.linecol
        ls = text.split("\n")
        if not (1 <= line <= len(ls) and 0 <= col <= len(ls[line - 1]) + 1):
            if not (line == len(ls) + 1 and col <= 1):
                return "an error outside of the text: %s" % msg
    return None


def error_case(seed, arg=None):
    r = random.Random(seed)
    pool = corpus.TEXTS
    t = pool[r.choice(list(pool))]
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
        t = mutate(t, r, pool)
    w = judge(t, optimizer=r.random() < .7,
              education_edition=r.random() < .3)
    if w == "discard":
        return {"status": "discard", "input": t}
    return fail(w, t) if w else ok(t)
