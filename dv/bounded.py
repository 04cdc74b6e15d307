"""Bounded stand-ins (labelled bounded, never counted as proved): seeded
random whole programs compiled by the real compiler, the emitted text
executed by `mc.World` and compared with the reference semantics."""
from . import prog, repo

_OFF = dict(funcs=(0, 0), inline=(0, 0), structs=(0, 0), loops=0, ifs=0, calls=0, fors=0,
            swaps=0, tells=0, says=0, interfaces=0, refs=0, aug=1, extscb=0)

PROFILES = {
    "int": dict(_OFF, bools=0, expr=4, extscb=.5),
    "bool": dict(_OFF, expr=4, ifs=.5),
    "fold": dict(_OFF, constfold=1, expr=4, consts=3),
    "control": dict(_OFF, loops=2, ifs=3, fors=1, says=1, funcs=(0, 2), calls=.5,
                    depth=4),
    "storage": dict(_OFF, structs=(1, 2), swaps=2, refs=2, extscb=1, fors=.5,
                    ifs=.4, funcs=(0, 1), calls=.5),
    "calls": dict(funcs=(1, 4), inline=(0, 3), calls=3, extscb=.3, loops=.5),
    "ifaces": dict(_OFF, interfaces=4, ifs=1, funcs=(0, 2), inline=(0, 1),
                   calls=1, structs=(0, 1), says=1, refs=1),
    "all": dict(interfaces=1, extscb=.5),
}

CFG_SETS = {
    "plain": [dict(optimizer=False)],
    "both": [dict(optimizer=False), dict(optimizer=True)],
    "opt": [dict(optimizer=True)],
}


def _merge(name):
    d = dict(PROFILES[name])
    return d


def program(seed, arg):
    profile, cfgs = arg
    p = prog.Gen(seed, **_merge(profile)).program()
    r = prog.check(p, CFG_SETS[cfgs], repo.compile_text)
    if r is None:
        return {"status": "ok", "input": p.src}
    if r == "discard":
        return {"status": "discard", "input": p.src}
    src = p.src
    for n, t in p.modules.items():
        src += "\n##### module %s\n%s" % (n, t)
    return {"status": "fail", "what": r, "input": src}
