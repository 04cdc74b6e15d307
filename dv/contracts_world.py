"""Contracts of positions, rotations and the world module (C24)."""
import itertools
import random
from fractions import Fraction

from .scen import *
from . import wenv, repo, mc
from .scen import compile_case, Case
from .wenv import Env

PRE = """import world
entity Any:
    new():
        new("pig", Pos(0, 0, 0))
e: Entity
f: Entity
g := Engroup[Entity]()
h := Engroup[Any]()
p := Engroup[Entity]()
import dvhook
dvhook.observe("e", e)
dvhook.observe("f", f)
dvhook.observe("g", g)
dvhook.observe("h", h)
dvhook.observe("p", p)
"""
MARK = "say dv mark"


class Out:
    """A compiled program: the command lines between the marks."""

    def __init__(self, body, cfg, pre=PRE):
        self.case = Case(None)
        self.err = None
        self.text = pre + "/%s\n" % MARK + body + "/%s\n" % MARK
        try:
            self.compiled = compile_case(self.case, self.text, **cfg)
        except repo.Error as e:
            self.err = e
            return
        self.files = self.compiled.files()
        lines = self.files[cfg.get("main_file", "main")].split("\n")
        at = [n for n, x in enumerate(lines) if x.lstrip("/") == MARK]
        self.lines = lines[at[0] + 1:at[1]] if len(at) == 2 else None
        self.sels = {}
        for n, o in self.case.observed.items():
            s = o.get_selector().to_str()
            self.sels[s] = n

    def canon(self):
        return [wenv.canon(x, self.sels) for x in self.lines
                if x.strip() and not x.startswith("#")]

    def sub(self, text):
        for s, n in self.sels.items():
            text = text.replace("{%s}" % n, s)
        return text


def _same(H, label, o, want):
    """The emitted commands are `want` (command texts) up to canon."""
    if o.err is not None:
        H.prove(label, False, info="%s\n%s" % (o.err, o.text))
        return
    try:
        got = o.canon()
        exp = [wenv.canon(o.sub(x), o.sels) for x in want]
        H.prove(label, got == exp, info="%s\nexpected %s\ngot      %s" % (
            o.text[len(PRE):], want, o.lines))
    except mc.McError as x:
        H.prove(label, False, info="%s\n%s\n%s" % (
            x, o.text[len(PRE):], o.lines))


# -------------------------------------------------------- world functions
# call, command (Bedrock syntax). P stands for the position Pos(1, 2, 3).
P = "execute positioned 1.5 2 3.5 run "
CALLS = [x.split(" => ", 1) for x in '''
world.clone(Pos(1, 2, 3), Offset(4, 5, 6), Offset(x=7, y_abs=8)) => @P clone ~ ~ ~ ~4 ~5 ~6 ~7 8 ~ replace normal
world.clone(Pos(1, 2, 3), Offset(4), Offset(x=7), mode="force", no_air=True) => @P clone ~ ~ ~ ~4 ~ ~ ~7 ~ ~ masked force
world.clone(Pos(1, 2, 3), Offset(4), Offset(x=7), "move") => @P clone ~ ~ ~ ~4 ~ ~ ~7 ~ ~ replace move
world.clone(Pos(1, 2, 3), Offset(4), Offset(x=7), None, True) => @P clone ~ ~ ~ ~4 ~ ~ ~7 ~ ~ masked normal
world.clone_only(Pos(1, 2, 3), Offset(4), Offset(x=7), "stone") => @P clone ~ ~ ~ ~4 ~ ~ ~7 ~ ~ filtered normal stone []
world.clone_only(Pos(1, 2, 3), Offset(4), Offset(x=7), world.Block("stone", {"a": 1}), mode="move") => @P clone ~ ~ ~ ~4 ~ ~ ~7 ~ ~ filtered move stone ["a"=1]
world.clone_only(Pos(1, 2, 3), Offset(4), Offset(x=7), "stone", "force") => @P clone ~ ~ ~ ~4 ~ ~ ~7 ~ ~ filtered force stone []
world.fill(Pos(1, 2, 3), Offset(4), "stone") => @P fill ~ ~ ~ ~4 ~ ~ stone [] replace
world.fill(Pos(1, 2, 3), Offset(4), "stone", "destroy") => @P fill ~ ~ ~ ~4 ~ ~ stone [] destroy
world.fill(Pos(1, 2, 3), Offset(4), "stone", "hollow") => @P fill ~ ~ ~ ~4 ~ ~ stone [] hollow
world.fill(Pos(1, 2, 3), Offset(4), "stone", "outline") => @P fill ~ ~ ~ ~4 ~ ~ stone [] outline
world.fill(Pos(1, 2, 3), Offset(4), "stone", replacement="aironly") => @P fill ~ ~ ~ ~4 ~ ~ stone [] keep
world.fill(Pos(1, 2, 3), Offset(4), "stone", "all") => @P fill ~ ~ ~ ~4 ~ ~ stone [] replace
world.fill_replace(Pos(1, 2, 3), Offset(4), "stone", world.Block("dirt", {"b": True, "c": "x", "d": 4, "e": False})) => @P fill ~ ~ ~ ~4 ~ ~ stone [] replace dirt ["b"=true,"c"="x","d"=4,"e"=false]
world.fill_replace(Pos(1, 2, 3), Offset(4), world.Block("dirt", {"m:b": -1}), "stone") => @P fill ~ ~ ~ ~4 ~ ~ dirt ["m:b"=-1] replace stone []
world.setblock(Pos(1, 2, 3), "stone") => @P setblock ~ ~ ~ stone [] replace
world.setblock(Pos(1, 2, 3), world.Block("stone"), "aironly") => @P setblock ~ ~ ~ stone [] keep
world.setblock(Pos(1, 2, 3), "stone", "destroy") => @P setblock ~ ~ ~ stone [] destroy
world.setblock(Pos(1, 2, 3), "stone", replacement="all") => @P setblock ~ ~ ~ stone [] replace
world.damage(@S, 3) => damage @S 3
world.damage(@S, 0, "fire") => damage @S 0 fire
world.damage(@S, 3, "attack", f) => damage @S 3 attack entity {f}
world.damage(@S, 2147483647, damager=e, cause="x") => damage @S 2147483647 x entity {e}
world.effect_give(@S, "speed", 10) => effect @S speed 10 0 false
world.effect_give(@S, "speed", 10, 255) => effect @S speed 10 255 false
world.effect_give(@S, "speed", 0, 2, False) => effect @S speed 0 2 true
world.effect_give(@S, "speed", 1000000, 2, particle=True) => effect @S speed 1000000 2 false
world.effect_clear(@S) => effect @S clear
world.enchant(@S, "sharpness") => enchant @S sharpness 1
world.enchant(@S, "sharpness", 5) => enchant @S sharpness 5
world.event_entity(@S, "minecraft:x") => event entity @S minecraft:x
world.kill(@S) => kill @S
world.msg_me(e, "hello  all") => execute as {e} run me hello  all
world.msg_say(e, "hello  all") => execute as {e} run say hello  all
world.msg_say(f, "x") => execute as {f} run say x
world.msg_tell(e, @S, "hello  all") => execute as {e} run tell @S hello  all
world.replaceitem_block(Pos(1, 2, 3), 4, "stone") => @P replaceitem block ~ ~ ~ slot.container 4 destroy stone 1 0
world.replaceitem_block(Pos(1, 2, 3), 4, world.Item("stone", 7, True), 64, True) => @P replaceitem block ~ ~ ~ slot.container 4 keep stone 64 7 {"minecraft:keep_on_death": {}}
world.replaceitem_block(Pos(1, 2, 3), 26, world.Item("a:b"), keep_old=False) => @P replaceitem block ~ ~ ~ slot.container 26 destroy a:b 1 0
world.replaceitem_entity(@S, "slot.weapon", 2, "stone") => replaceitem entity @S slot.weapon 2 destroy stone 1 0
world.replaceitem_entity(@S, "slot.weapon", 2, world.Item("stone", data=3, can_destroy={"dirt", "grass"}, can_place_on={"sand"}, lock="lock_in_slot"), amount=3, keep_old=True) => replaceitem entity @S slot.weapon 2 keep stone 3 3 {"minecraft:can_destroy": {"blocks": ["dirt", "grass"]}, "minecraft:can_place_on": {"blocks": ["sand"]}, "minecraft:item_lock": {"mode": "lock_in_slot"}}
world.ride_start_tp_ride(e, f) => ride {e} start_riding {f} teleport_ride
world.ride_start_tp_rider(@S, f) => ride @S start_riding {f} teleport_rider until_full
world.ride_start_tp_rider(@S, f, "if_group_fits") => ride @S start_riding {f} teleport_rider if_group_fits
world.ride_start_tp_rider(@S, f, "until_full") => ride @S start_riding {f} teleport_rider until_full
world.ride_stop(@S) => ride @S stop_riding
world.ride_evict_riders(@S) => ride @S evict_riders
world.summon_rider(@S, "pig") => ride @S summon_rider pig *
world.summon_rider(@S, "pig", "ev", "my name") => ride @S summon_rider pig ev "my name"
world.summon_rider(@S, "pig", name="bob") => ride @S summon_rider pig * bob
world.summon_ride(@S, "pig") => ride @S summon_ride pig reassign_rides *
world.summon_ride(@S, "pig", "ev", "my name", "skip_riders") => ride @S summon_ride pig skip_riders ev "my name"
world.summon_ride(@S, "pig", name="bob", mode="no_ride_change") => ride @S summon_ride pig no_ride_change * bob
world.summon_ride(@S, "pig", event="ev", mode="reassign_rides") => ride @S summon_ride pig reassign_rides ev
world.spread(@S, Pos(1, 2, 3), 10) => @P spreadplayers ~ ~ 0.0 10.0 @S
world.spread(@S, Pos(1, 2, 3), 4.5, 3.5) => @P spreadplayers ~ ~ 3.5 4.5 @S
world.spread(@S, Pos(1, 2, 3), range=1.0, interval=0.0) => @P spreadplayers ~ ~ 0.0 1.0 @S
world.spread(@S, Pos(1, 2, 3), 1000.25, 0.125) => @P spreadplayers ~ ~ 0.125 1000.25 @S
world.tag_add(@S, "t") => tag @S add t
world.tag_add(@S, "my tag") => tag @S add "my tag"
world.tag_remove(@S, "t") => tag @S remove t
world.tag_remove(@S, "my tag") => tag @S remove "my tag"
world.tp(@S, Pos(1, 2, 3)) => @P tp @S ~ ~ ~ false
world.tp(@S, Pos(1, 2, 3), True) => @P tp @S ~ ~ ~ true
world.tp(@S, Pos(f).offset(y=1), check_for_blocks=False) => execute at {f} positioned ~ ~1 ~ run tp @S ~ ~ ~ false
world.rotate(@S, Rot(10, 20)) => execute as @S at @s run tp @s ~ ~ ~ 10 20
world.rotate(@S, Rot(f).offset(5)) => execute as @S at @s rotated as {f} run tp @s ~ ~ ~ ~5 ~
world.rotate(@S, Rot.face_entity(f)) => execute as @S at @s facing entity {f} feet run tp @s ~ ~ ~ ~ ~
world.rotate(@S, Rot.face_entity(f, "eyes")) => execute as @S at @s facing entity {f} eyes run tp @s ~ ~ ~ ~ ~
world.move(@S, 1.5) => execute as @S at @s run tp @s ~1.5 ~ ~ false
world.move(@S, 1, 2, 3, True) => execute as @S at @s run tp @s ~1 ~2 ~3 true
world.move(@S, y=2, z=-3.25, check_for_blocks=True) => execute as @S at @s run tp @s ~ ~2 ~-3.25 true
world.move_local(@S, 1.5) => execute as @S at @s run tp @s ^1.5 ^ ^ false
world.move_local(@S, 1, 2, 3, True) => execute as @S at @s run tp @s ^1 ^2 ^3 true
world.move_local(@S, up=2, front=-3.25, check_for_blocks=True) => execute as @S at @s run tp @s ^ ^2 ^-3.25 true
world.ability(@S, "mayfly", True) => ability @p mayfly true
world.ability(@S, "mute", False) => ability @p mute false
world.clear_inventory(@S) => clear @p
world.clear(@S, "stone") => clear @p stone -1 -1
world.clear(@S, "stone", 3, 5) => clear @p stone 3 5
world.clear(@S, "stone", max_count=0) => clear @p stone -1 0
world.spawnpoint_clear(@S) => clearspawnpoint @p
world.gamemode(@S, "survival") => gamemode survival @p
world.gamemode(@S, "creative") => gamemode creative @p
world.gamemode(@S, "adventure") => gamemode adventure @p
world.gamemode(@S, "spectator") => gamemode spectator @p
world.gamemode(@S, "default") => gamemode default @p
world.give(@S, "stone") => give @p stone 1 0
world.give(@S, world.Item("stone", 2, lock="lock_in_inventory"), 64) => give @p stone 64 2 {"minecraft:item_lock": {"mode": "lock_in_inventory"}}
world.give(@S, world.Item("stone", can_place_on={"b"}, keep_on_death=True), 32767) => give @p stone 32767 0 {"minecraft:can_place_on": {"blocks": ["b"]}, "minecraft:keep_on_death": {}}
world.kick("bob") => kick bob
world.kick("my bob", "go  away") => kick "my bob" go  away
world.recipe(@S, "*", True) => recipe give @p *
world.recipe(@S, "a:b c", False) => recipe take @p "a:b c"
world.recipe(@S, "stone", unlock=True) => recipe give @p stone
world.spawnpoint_set(@S, Pos(1, 2, 3)) => @P spawnpoint @p ~ ~ ~
world.xp_add_levels(@S, 5) => xp 5L @p
world.xp_add_levels(@S, -5) => xp -5L @p
world.xp_add_levels(@S, 0) => xp 0L @p
world.xp_add_points(@S, 5) => xp 5 @p
world.xp_add_points(@S, 0) => xp 0 @p
world.summon("pig", Pos(1, 2, 3)) => @P summon pig ~ ~ ~ @R *
world.summon("pig", Pos(1, 2, 3), event="ev", name="my name") => @P summon pig ~ ~ ~ @R ev "my name"
world.summon("pig", Pos(1, 2, 3), "ev2", "bob") => @P summon pig ~ ~ ~ @R ev2 bob
world.summon("pig", Pos(1, 2, 3), name="bob", rot=Rot(10, 20)) => @P summon pig ~ ~ ~ 10 20 * bob
world.summon("pig", Pos(e), rot=Rot(f).offset(1, 2)) => execute at {e} rotated as {f} run summon pig ~ ~ ~ ~1 ~2 *
world.summon("pig", Pos(e), rot=Rot.face_entity(f, "eyes")) => execute at {e} facing entity {f} eyes run summon pig ~ ~ ~ ~ ~ *
'''.strip().split("\n")]


def _calls():
    for call, want in CALLS:
        if "@S" in call:
            for s in ("e", "g", "h"):
                yield call.replace("@S", s), want.replace("@S", "{%s}" % s)
            yield call.replace("@S", "Enfilter().is_name(\"x\")"), \
                want.replace("@S", "@e[name=x]")
        else:
            yield call, want


VERSIONS = [(1, 19, 50), (1, 19, 70), (1, 20, 0), (1, 20, 9), (1, 20, 10),
            (1, 21, 0)]


def _versioned(want, call, v):
    if "@R" in want:
        want = want.replace("@R ", "0 0 " if v >= (1, 19, 70) else "")
    if v < (1, 20, 10) and "Block(" in call:
        i = want.find("[")
        want = want[:i] + want[i:].replace('"=', '":')
    return want.replace("@P ", P)


def _players(want):
    """@p: the same target restricted to players."""
    return want


def vc_functions(H):
    """Every function of the world module: the command it stands for, with
    its arguments in the documented places, for every kind of target, on
    every game version."""
    n = H.choose("call", list(range(len(CALLS))))
    call, want = CALLS[n]
    sels = ["e", "g", "h", "f"] if "@S" in call else [None]
    s = H.choose("target", sels)
    v = H.choose("version", VERSIONS)
    opt = H.choose("optimizer", [False, True])
    H.choose("part", [0])
    if s == "f" and "{f}" in want or s in ("h", "f") and opt:
        H.skip()
        return
    if s is not None:
        call = call.replace("@S", s)
        if "@p" in want:
            want = want.replace("@p", "{%s+player}" % s)
        want = want.replace("@S", "{%s}" % s)
    want = _versioned(want, call, v)
    o = Out(call + "\n", dict(optimizer=opt, mc_version=v,
                              education_edition=True))
    if "rot=" in call and v < (1, 19, 70):
        H.prove("rejected: needs a later version", o.err is not None,
                info=call)
        H.cover()
        return
    if o.err is None and s is not None:
        t = [k for k, x in o.sels.items() if x == s][0]
        want = want.replace("{%s+player}" % s, t[:-1] + ",type=player]")
    _same(H, "command", o, [want])
    H.cover()


ENUM = [
    ('world.fill(Pos(1, 2, 3), Offset(), "a", %s)', "'keep' 'replace' '' 1"),
    ('world.setblock(Pos(1, 2, 3), "a", %s)', "'keep' 'hollow' None"),
    ('world.clone(Pos(1, 2, 3), Offset(), Offset(), %s)',
     "'normal' 'replace' 'masked'"),
    ('world.damage(e, %s)', "-1 -2147483648 True 'x' 1.5"),
    ('world.damage(e, 1, None, %s)', "f e"),
    ('world.effect_give(e, "a", %s)', "-1 True 1.0 None"),
    ('world.effect_give(e, "a", 1, %s)', "-1 256 1000 True"),
    ('world.effect_give(e, "a", 1, 1, %s)', "1 0 'x' None"),
    ('world.enchant(e, "a", %s)', "0 -1 True"),
    ('world.replaceitem_block(Pos(1, 2, 3), 1, "a", %s)', "0 -1 True"),
    ('world.replaceitem_entity(e, "s", 1, "a", %s)', "0 -1"),
    ('world.Item("a", %s)', "-1 32768 True 'x'"),
    ('world.Item("a", lock=%s)', "'x' True 1"),
    ('world.Item("a", can_destroy=%s)', "'x' {1} {'a',2}"),
    ('world.Block("a", %s)', "{1:2} {'a':1.5} {'a':None} {'a','b'}"),
    ('world.give(e, "a", %s)', "0 -1 32768"),
    ('world.clear(e, "a", %s)', "-2 True"),
    ('world.clear(e, "a", 1, %s)', "-2 True"),
    ('world.gamemode(e, %s)', "'s' 'Survival' 0"),
    ('world.xp_add_points(e, %s)', "-1 True 1.5"),
    ('world.xp_add_levels(e, %s)', "True 1.5 'x'"),
    ('world.spread(e, Pos(1, 2, 3), %s)', "0.9 0 -1.0 0.999"),
    ('world.spread(e, Pos(1, 2, 3), 5.0, %s)', "-0.1 4.1 4.01 5"),
    ('world.kill(%s)', "1 'e' None Pos(1,2,3)"),
    ('world.tp(e, %s)', "Offset() f 1 Rot(1,2)"),
    ('world.rotate(e, %s)', "Pos(1,2,3) f 1"),
    ('world.ride_start_tp_ride(%s, e)', "g 1 'e'"),
    ('world.ride_start_tp_ride(e, %s)', "g 1"),
    ('world.msg_say(%s, "x")', "g 'e'"),
    ('world.summon_ride(e, "pig", None, None, %s)', "'x' None"),
    ('world.ride_start_tp_rider(e, f, %s)', "'x' None 1"),
    ('const x = Pos(1, 2, 3).align(%s)', "'xx' 'a' 'xyzx' 'X' 1"),
    ('const x = Offset(%s)', "x=1,x_abs=2 y=1,y_abs=2 z=0,z_abs=0 "
     "1,x_abs=2 1,2,y_abs=3"),
    ('const x = Pos(%s)', "1,2 e,'a' 'e' 1,2,3,4 g 1,2,'x'"),
    ('const x = Rot(%s)', "1 g 1,2,3 'x','y' Pos(1,2,3)"),
    ('const x = Pos(1, 2, 3).apply(%s)', "Pos(1,2,3) 1 Rot(1,2)"),
    ('const x = Pos(1, 2, 3).local(%s)', "Offset() 1"),
    ('const x = AbsPos(%s)', "1,2 e 1,2,3,4 1,2,'x'"),
]
OKS = [
    'world.damage(e, 0)', 'world.effect_give(e, "a", 0, 0)',
    'world.effect_give(e, "a", 2147483647, 255)',
    'world.enchant(e, "a", 1)', 'world.give(e, "a", 1)',
    'world.give(e, "a", 32767)', 'world.clear(e, "a", -1, -1)',
    'world.clear(e, "a", 0, 0)', 'world.xp_add_points(e, 0)',
    'world.spread(e, Pos(1, 2, 3), 1.0)', 'world.spread(e, Pos(1, 2, 3), 1)',
    'world.spread(e, Pos(1, 2, 3), 5.0, 4.0)',
    'world.spread(e, Pos(1, 2, 3), 5.0, 0)',
    'const x = world.Item("a", 0)', 'const x = world.Item("a", 32767)',
    'const x = Pos(1, 2, 3).align("zyx")', 'const x = Pos(1, 2, 3).align("y")',
    'world.replaceitem_block(Pos(1, 2, 3), -5, "a", 1)',
    'world.replaceitem_entity(e, "s", -5, "a", 1)',
    'world.fill(AbsPos(1, 2, 3), AbsPos(4, 5, 6), "a")',
    'world.damage(e, 1, "x", None)',
]


def vc_arguments(H):
    """Arguments outside the documented range, enumeration or type are
    rejected with a located error; those at its borders are accepted."""
    n = H.choose("call", list(range(len(ENUM) + len(OKS))))
    if n < len(ENUM):
        t, vals = ENUM[n]
        val = H.choose("value", vals.split(" "))
        text = (t % val).replace("'", '"')
        if text.startswith("world.Item") or text.startswith("world.Block"):
            text = "const x = " + text
        o = Out(text + "\n", dict(optimizer=False))
        H.prove("rejected", o.err is not None, info=text)
        if o.err is not None:
            H.prove("located", o.err.location.linecol is not None and
                    o.err.location.linecol[0] == o.text.count("\n", 0, len(
                        PRE)) + 2, info="%s: %s" % (text, o.err))
    else:
        o = Out(OKS[n - len(ENUM)] + "\n", dict(optimizer=False))
        H.prove("accepted", o.err is None, info="%s %s" % (o.text, o.err))
    H.cover()


def vc_education(H):
    """ability is there in the education edition only."""
    edu = H.choose("edu", [False, True])
    o = Out('world.ability(e, "mute", True)\n',
            dict(optimizer=False, education_edition=edu))
    H.prove("edition", (o.err is None) == edu, info=str(o.err))
    H.cover()


# ------------------------------------------------ positions and rotations
NUM = ["1", "-3", "0", "0.5", "-2.25", "100000.0", "0.0001", "-0.0625",
       "30000000", "7.0", "-1"]


def V(t):
    return Fraction(t)


def XZ(t):
    """integer x and z are at the centre of the block"""
    return Fraction(t) + (0 if "." in t else Fraction(1, 2))


def fs(x):
    """decimal text of a fraction with a finite expansion"""
    sign = "-" if x < 0 else ""
    x = abs(x)
    n, d = divmod(x, 1)
    k = 0
    while (d * 10 ** k) % 1:
        k += 1
    return sign + str(int(n)) + ("." + str(int(d * 10 ** k)).zfill(k)
                                 if k else "")


class Gen:
    """A random or enumerated Pos/Rot/Offset expression with its meaning,
    a list of `execute` subcommands / coordinates."""

    def __init__(self, rng):
        self.r = rng

    def num(self):
        return self.r.choice(NUM)

    def offset(self, depth=2):
        """(text, [3 tokens])"""
        r = self.r
        k = r.randrange(4)
        if k == 3:
            x = [self.num() for _ in range(3)]
            t = "AbsPos(%s, %s, %s)" % tuple(x)
            c = [XZ(x[0]), V(x[1]), XZ(x[2])]
            while r.random() < .4 and depth:
                depth -= 1
                kw, vals = self.axes()
                if r.random() < .5:
                    t += ".abs(%s)" % kw
                    for j, v in vals.items():
                        c[j] = V(v) if j == 1 else XZ(v)
                else:
                    t += ".offset(%s)" % kw
                    for j, v in vals.items():
                        c[j] += V(v)
            return t, [fs(x) for x in c]
        if k == 2:
            x = [self.num() for _ in range(3)]
            n = r.randrange(4)
            names = ("left", "up", "front")
            if r.random() < .5:
                t = "Offset.local(%s)" % ", ".join(x[:n])
                x = x[:n] + ["0"] * (3 - n)
            else:
                pick = [j for j in range(3) if r.random() < .6]
                t = "Offset.local(%s)" % ", ".join(
                    "%s=%s" % (names[j], x[j]) for j in pick)
                x = [x[j] if j in pick else "0" for j in range(3)]
            return t, ["^" + fs(V(y)) for y in x]
        toks = [["~", Fraction(0)] for _ in range(3)]
        args = []
        if k == 0:
            n = r.randrange(4)
            args = [self.num() for _ in range(n)]
            for j, a in enumerate(args):
                toks[j] = ["~", V(a)]
        else:
            for j in r.sample(range(3), r.randrange(4)):
                a = self.num()
                if r.random() < .5:
                    args.append("xyz"[j] + "=" + a)
                    toks[j] = ["~", V(a)]
                else:
                    args.append("xyz"[j] + "_abs=" + a)
                    toks[j] = ["", V(a)]
        t = "Offset(%s)" % ", ".join(args)
        while depth and r.random() < .5:
            depth -= 1
            kw, vals = self.axes()
            if r.random() < .5:
                t += ".abs(%s)" % kw
                for j, v in vals.items():
                    toks[j] = ["", V(v) if j == 1 else XZ(v)]
            else:
                t += ".offset(%s)" % kw
                for j, v in vals.items():
                    toks[j] = ["~", V(v)]
        return t, [a + fs(b) for a, b in toks]

    def axes(self):
        """arguments of .abs / .offset"""
        r = self.r
        if r.random() < .3:
            n = r.randrange(1, 4)
            a = [self.num() if r.random() < .8 else "None"
                 for _ in range(n)]
            return ", ".join(a), {j: v for j, v in enumerate(a)
                                  if v != "None"}
        pick = r.sample(range(3), r.randrange(1, 4))
        v = {j: self.num() for j in pick}
        return ", ".join("%s=%s" % ("xyz"[j], v[j]) for j in pick), v

    def rot(self, depth=2):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            a, b = self.num(), self.num()
            t, s = "Rot(%s, %s)" % (a, b), ["rotated %s %s" % (
                fs(V(a)), fs(V(b)))]
        elif k == 1:
            e = r.choice("ef")
            t, s = "Rot(%s)" % e, ["rotated as {%s}" % e]
        else:
            e = r.choice("ef")
            a = r.choice([None, "eyes", "feet"])
            t = "Rot.face_entity(%s%s)" % (e, ', "%s"' % a if a else "")
            s = ["facing entity {%s} %s" % (e, a or "feet")]
        while depth and r.random() < .4:
            depth -= 1
            names = ("vertical", "horizontal")
            pick = r.sample(range(2), r.randrange(3))
            v = {j: self.num() for j in pick}
            kind = r.choice(["abs", "offset"])
            t += ".%s(%s)" % (kind, ", ".join(
                "%s=%s" % (names[j], v[j]) for j in pick)
                if r.random() < .7 or 0 not in pick else
                "%s%s" % (v[0], ", " + v[1] if 1 in v else ""))
            pre = "~" if kind == "offset" else ""
            s = s + ["rotated " + " ".join(
                pre + fs(V(v[j])) if j in v else "~" for j in range(2))]
        return t, s

    def pos(self, depth=3):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            x = [self.num() for _ in range(3)]
            t = "Pos(%s, %s, %s)" % tuple(x)
            s = ["positioned %s %s %s" % (fs(XZ(x[0])), fs(V(x[1])),
                                          fs(XZ(x[2])))]
        elif k == 3:
            t, c = self.offset()
            while not t.startswith("AbsPos"):
                t, c = self.offset()
            return t, ["positioned " + " ".join(c)]
        else:
            e = r.choice("ef")
            a = r.choice([None, "eyes", "feet"])
            t = "Pos(%s%s)" % (e, ', "%s"' % a if a else "")
            s = ["at {%s}" % e, "anchored %s" % (a or "feet")]
        for _ in range(r.randrange(depth + 1)):
            m, sub = self.method()
            t += m
            s = s + sub
        return t, s

    METHODS = ["offset", "abs", "apply", "local", "align", "dim"]

    def method(self, m=None):
        r = self.r
        m = m or r.choice(self.METHODS)
        if m in ("offset", "abs"):
            kw, v = self.axes()
            toks = []
            for j in range(3):
                if j not in v:
                    toks.append("~")
                elif m == "offset":
                    toks.append("~" + fs(V(v[j])))
                else:
                    toks.append(fs(V(v[j]) if j == 1 else XZ(v[j])))
            return ".%s(%s)" % (m, kw), ["positioned " + " ".join(toks)]
        if m == "apply":
            t, c = self.offset()
            return ".apply(%s)" % t, ["positioned " + " ".join(c)]
        if m == "local":
            t, s = self.rot()
            x = [self.num() for _ in range(3)]
            n = r.randrange(4)
            if r.random() < .5:
                a = x[:n]
                x = x[:n] + ["0"] * (3 - n)
            else:
                pick = [j for j in range(3) if r.random() < .6]
                a = ["%s=%s" % (("left", "up", "front")[j], x[j])
                     for j in pick]
                x = [x[j] if j in pick else "0" for j in range(3)]
            return ".local(%s)" % ", ".join([t] + a), s + [
                "positioned " + " ".join("^" + fs(V(y)) for y in x)]
        if m == "align":
            a = r.choice(["", "x", "y", "z", "xy", "xz", "zyx", "zx"])
            return '.align(%s)' % ('"%s"' % a if a else ""), \
                ["align " + (a or "xyz")]
        d = r.choice(["nether", "the_end", "overworld", "a:b"])
        return '.dim("%s")' % d, ["in " + d]


def ex(subs, cmd):
    return "execute %s run %s" % (" ".join(subs), cmd)


def _statements(g, r):
    """One random statement using positions: (text, [commands])."""
    k = r.randrange(7)
    if k == 0:
        t, s = g.pos()
        return 'world.setblock(%s, "a")' % t, [
            ex(s, "setblock ~ ~ ~ a [] replace")]
    if k == 1:
        t, s = g.pos()
        w, rs = g.rot()
        return 'world.summon("pig", %s, rot=%s)' % (t, w), [
            ex(s + rs, "summon pig ~ ~ ~ ~ ~ *")]
    if k == 2:
        t, s = g.pos()
        o, c = g.offset()
        return 'world.fill(%s, %s, "a")' % (t, o), [
            ex(s, "fill ~ ~ ~ %s a [] replace" % " ".join(c))]
    if k == 3:
        t, s = g.pos()
        o, c = g.offset()
        o2, c2 = g.offset()
        return 'world.clone(%s, %s, %s)' % (t, o, o2), [
            ex(s, "clone ~ ~ ~ %s %s replace normal" % (
                " ".join(c), " ".join(c2)))]
    if k == 4:
        t, s = g.rot()
        x = r.choice("eg")
        return "world.rotate(%s, %s)" % (x, t), [
            ex(["as {%s}" % x, "at @s"] + s, "tp @s ~ ~ ~ ~ ~")]
    if k == 5:
        t, s = g.pos()
        x = r.choice("eg")
        return "world.tp(%s, %s)" % (x, t), [
            ex(s, "tp {%s} ~ ~ ~ false" % x)]
    # one position, used as it is and transformed, in any order
    t, s = g.pos()
    text = "const q%d = %s\n" % (r.randrange(10 ** 9), t)
    name = text.split()[1]
    out = []
    have = [(name, s)]
    for j in range(r.randrange(1, 4)):
        n, hs = r.choice(have)
        absp = t.startswith("AbsPos")
        m, sub = g.method(r.choice(["offset", "abs"]) if absp else None)
        if absp:
            break
        text += "const %s_%d = %s%s\n" % (name, j, n, m)
        have.append(("%s_%d" % (name, j), hs + sub))
    r.shuffle(have)
    for n, hs in have:
        text += 'world.setblock(%s, "a")\n' % n
        out.append(ex(hs, "setblock ~ ~ ~ a [] replace"))
    return text.rstrip("\n"), out


STEP_SEEDS = 12


def vc_steps(H):
    """Each constructor and each method, alone and after each other one:
    the position or rotation reached is the documented one, and the object
    the method was called on keeps its meaning."""
    b = H.choose("base", ["Pos(1, 2, 3)", "Pos(1.0, -2.5, 3)", "Pos(e)",
                          'Pos(e, "eyes")', 'Pos(f, "feet")',
                          "AbsPos(1, 2, 3.0)"])
    subs = {"Pos(1, 2, 3)": ["positioned 1.5 2 3.5"],
            "Pos(1.0, -2.5, 3)": ["positioned 1 -2.5 3.5"],
            "Pos(e)": ["at {e}", "anchored feet"],
            'Pos(e, "eyes")': ["at {e}", "anchored eyes"],
            'Pos(f, "feet")': ["at {f}", "anchored feet"],
            "AbsPos(1, 2, 3.0)": ["positioned 1.5 2 3"]}[b]
    m1 = H.choose("method", ["offset", "abs", "apply", "local", "align",
                             "dim"])
    m2 = H.choose("second", ["", "offset", "abs", "apply", "local", "align",
                             "dim"])
    k = H.choose("variant", list(range(STEP_SEEDS)))
    if b.startswith("AbsPos"):
        H.skip()
        return
    r = random.Random("%s/%s/%s/%d" % (b, m1, m2, k))
    g = Gen(r)
    t1, s1 = g.method(m1)
    t2, s2 = g.method(m2) if m2 else ("", [])
    text = 'const p0 = %s\nconst p1 = p0%s\nconst p2 = p1%s\n' % (
        b, t1, t2 or ".offset()")
    order = [0, 1, 2]
    r.shuffle(order)
    chains = [subs, subs + s1, subs + s1 + s2]
    want = []
    for j in order:
        text += 'world.summon("pig", p%d, rot=Rot(e).offset(1))\n' % j
        want.append(ex(chains[j] + ["rotated as {e}"],
                       "summon pig ~ ~ ~ ~1 ~ *"))
    o = Out(text, dict(optimizer=False))
    _same(H, "position", o, want)
    H.cover()


def vc_offsets(H):
    """Offset, Offset.local, AbsPos, Rot: constructors and methods."""
    kind = H.choose("kind", ["offset", "abspos", "rot"])
    k = H.choose("variant", list(range(400)))
    H.choose("part", [0])
    r = random.Random("%s/%d" % (kind, k))
    g = Gen(r)
    if kind == "rot":
        t, s = g.rot(3)
        text = "world.rotate(e, %s)\n" % t
        want = [ex(["as {e}", "at @s"] + s, "tp @s ~ ~ ~ ~ ~")]
        text += "const r0 = %s\nconst r1 = r0.abs(1, 2)\n" \
            "const r2 = r0.offset(3)\nworld.rotate(f, r0)\n" \
            "world.rotate(f, r1)\nworld.rotate(f, r2)\n" % t
        a = ["as {f}", "at @s"] + s
        want += [ex(a, "tp @s ~ ~ ~ ~ ~"), ex(a, "tp @s ~ ~ ~ 1 2"),
                 ex(a, "tp @s ~ ~ ~ ~3 ~")]
    else:
        t, c = g.offset(3)
        while kind == "abspos" and not t.startswith("AbsPos"):
            t, c = g.offset(3)
        text = 'const o0 = %s\n' % t
        a, want = "fill ~ ~ ~ %s a [] replace", []
        if not c[0].startswith("^"):
            text += "const o1 = o0.abs(y=5)\n"
            if kind != "abspos" and not t.startswith("AbsPos"):
                text += "const o2 = o0.offset(x=6)\n"
                c2 = ["~6", c[1], c[2]]
            else:
                text += "const o2 = o0.offset(x=6)\n"
                c2 = [fs(V(c[0]) + 6), c[1], c[2]]
            text += 'world.fill(Pos(e), o1, "a")\n' \
                'world.fill(Pos(e), o2, "a")\n'
            want = [ex(["at {e}"], a % " ".join([c[0], "5", c[2]])),
                    ex(["at {e}"], a % " ".join(c2))]
        text += 'world.fill(Pos(e), o0, "a")\n'
        want.append(ex(["at {e}"], a % " ".join(c)))
    o = Out(text, dict(optimizer=False))
    _same(H, "coordinates", o, want)
    H.cover()


# ------------------------------------------------------------- conditions
CONDS = [
    ("world.is_block(Pos(1, 2, 3), \"stone\")",
     ["positioned 1.5 2 3.5"], "~ ~ ~ stone"),
    ("world.is_block(Pos(e).offset(y=-1), world.Block(\"dirt\", "
     "{\"a\": True, \"b\": \"c\"}))",
     ["at {e}", "positioned ~ ~-1 ~"], '~ ~ ~ dirt ["a"=true,"b"="c"]'),
    ("world.is_block(Pos(f).local(Rot(1, 2), front=1), block=\"a\")",
     ["at {f}", "rotated 1 2", "positioned ^ ^ ^1"], "~ ~ ~ a"),
    ("world.is_same_area(Pos(1, 2, 3), Offset(1, 2, 3), AbsPos(4, 5, 6))",
     ["positioned 1.5 2 3.5"], "~ ~ ~ ~1 ~2 ~3 4.5 5 6.5 all"),
    ("world.is_same_area(Pos(e), Offset(1), Offset(z_abs=3), True)",
     ["at {e}"], "~ ~ ~ ~1 ~ ~ ~ ~ 3 masked"),
    ("world.is_same_area(Pos(e), Offset(1), Offset(2), ignore_air=False)",
     ["at {e}"], "~ ~ ~ ~1 ~ ~ ~2 ~ ~ all"),
]
USES = [
    ("if @A:\n    /say 1\nelse:\n    /say 2", "1 if a else 2"),
    ("if not @A:\n    /say 1", "1 if not a else None"),
    ("x := @A\nif x:\n    /say 1\nelse:\n    /say 2", "1 if a else 2"),
    ("x: bool\nx = not @A\nif x:\n    /say 1", "1 if not a else None"),
    ("if @A and @B:\n    /say 1\nelse:\n    /say 2", "1 if a and b else 2"),
    ("if @A or @B:\n    /say 1\nelse:\n    /say 2", "1 if a or b else 2"),
    ("if not @A or not @B:\n    /say 1\nelse:\n    /say 2",
     "1 if not a or not b else 2"),
    ("x := @A and not @B\nif x:\n    /say 1", "1 if a and not b else None"),
    ("x := not (@A or @B)\nif x:\n    /say 1",
     "1 if not (a or b) else None"),
    ("if @A == @B:\n    /say 1\nelse:\n    /say 2", "1 if a == b else 2"),
    ("x := @A != @B\nif x:\n    /say 1\nelse:\n    /say 2",
     "1 if a != b else 2"),
    ("def fn(x: bool, y: bool) -> bool:\n    result x and not y\n"
     "if fn(@A, @B):\n    /say 1\nelse:\n    /say 2",
     "1 if a and not b else 2"),
    ("i := int(@A)\nif i == 1:\n    /say 1\nelse:\n    /say 2",
     "1 if a else 2"),
    ("inline def fn(x) -> bool:\n    result not x\nif fn(@A):\n"
     "    /say 1\nelif @B:\n    /say 2\nelse:\n    /say 3",
     "1 if not a else 2 if b else 3"),
    ("i := 0\nwhile @A and i < 1:\n    i += 1\n    /say 1", "1 if a else None"),
    ("i := 0\nwhile i < 1 and not @B:\n    i += 1\n    /say 1",
     "1 if not b else None"),
]


def _conds(H, o, conds, vals):
    import itertools as it
    keys = []
    for _, subs, w in conds:
        env = Env()
        c = mc.parse(o.sub(ex(subs, "x")))
        for sub in c[1]:
            env = wenv.step(env, sub, o.sels)
        keys.append(wenv.block_key(w, env, o.sels))
    w = wenv.BlockWorld(o.files, dict(zip(keys, vals)), o.sels)
    w.ents = []
    for s in o.sels:
        ent = mc.Ent("pig")
        for k, v in mc.parse_selector(s)[1]:
            if k == "tag":
                ent.tags.add(v)
        w.ents.append(ent)
    w.run_function("main")
    return w


def vc_conditions(H):
    """is_block and is_same_area hold exactly when the game says so, for
    the stated place, wherever a bool can stand."""
    n = H.choose("cond", list(range(len(CONDS))))
    m = H.choose("cond2", [(n + 1) % 6, (n + 3) % 6])
    u, spec = H.choose("use", USES)
    opt = H.choose("optimizer", [False, True])
    A, B = CONDS[n], CONDS[m]
    text = u.replace("@A", A[0]).replace("@B", B[0]) + "\n"
    # no initialisation that sweeps the tags away
    o = Out(text, dict(optimizer=opt))
    H.prove("accepted", o.err is None, info="%s\n%s" % (o.err, text))
    if o.err is None:
        for a in (False, True):
            for b in (False, True):
                w = _conds(H, o, (A, B), (a, b))
                said = [t[0] for t in w.trace if t[0].startswith("say") and
                        "mark" not in t[0]]
                r = eval(spec, {"a": a, "b": b})
                H.prove("value %d%d" % (a, b), not w.problems and not w.leaks and
                        said == (
                    ["say %d" % r] if r else []),
                    info="%s\n%s %s\n%s" % (text, said, w.problems + w.leaks,
                                            o.files["main"]))
    H.cover()


def vc_reuse(H):
    """Items, blocks and positions are values: used twice, passed to
    functions and kept in lists they stay the same."""
    n = H.choose("program", list(range(len(REUSE))))
    opt = H.choose("optimizer", [False, True])
    text, want = REUSE[n]
    o = Out(text, dict(optimizer=opt))
    _same(H, "commands", o, want)
    H.cover()


REUSE = [
    ('const b = world.Block("a", {"x": 1})\nworld.setblock(Pos(1, 2, 3), b)\n'
     'world.setblock(Pos(1, 2, 3), "a")\nworld.setblock(Pos(1, 2, 3), b)\n',
     [P + 'setblock ~ ~ ~ a ["x"=1] replace', P + "setblock ~ ~ ~ a replace",
      P + 'setblock ~ ~ ~ a ["x"=1] replace']),
    ('const i = world.Item("a", 1)\nworld.give(p, i, 2)\nworld.give(p, i)\n'
     'world.give(p, "a")\n', None),
    ('for q in {Pos(1, 2, 3), Pos(1, 2, 3).offset(y=1)}:\n'
     '    world.setblock(q, "a")\n    world.setblock(q.offset(x=1), "b")\n',
     [P + "setblock ~ ~ ~ a replace", P + "setblock ~1 ~ ~ b replace",
      P + "setblock ~ ~1 ~ a replace", P + "setblock ~1 ~1 ~ b replace"]),
    ('inline def put(q: Pos, const b: Block):\n    pass\n'
     if False else
     'inline def put(const q, const b):\n    world.setblock(q, b)\n'
     '    world.setblock(q.abs(y=0), b)\nput(Pos(e), "a")\n'
     'put(Pos(1, 2, 3), world.Block("c", {"d": False}))\n',
     ["execute at {e} run setblock ~ ~ ~ a replace",
      "execute at {e} run setblock ~ 0 ~ a replace",
      P + 'setblock ~ ~ ~ c ["d"=false] replace',
      P + 'setblock ~ 0 ~ c ["d"=false] replace']),
    ('const m = {"k": Offset(1), "l": Offset(2)}\n'
     'world.fill(Pos(e), m["l"], "a")\nworld.fill(Pos(e), m["k"], "a")\n',
     ["execute at {e} run fill ~ ~ ~ ~2 ~ ~ a replace",
      "execute at {e} run fill ~ ~ ~ ~1 ~ ~ a replace"]),
    ('const o = AbsPos(1, 2, 3)\nworld.fill(o, o.offset(1, 1, 1), "a")\n'
     'world.fill(o.abs(y=9), o, "a")\n',
     [P + "fill ~ ~ ~ 2.5 3 4.5 a replace",
      "execute positioned 1.5 9 3.5 run fill ~ ~ ~ 1.5 2 3.5 a replace"]),
    ('const o = AbsPos(1, 2.5, -3)\nworld.setblock(Pos(o.x, o.y, o.z), "a")\n'
     'world.setblock(Pos(o.offset(x=1).x, o.y, 0), "a")\n',
     ["execute positioned 1.5 2.5 -2.5 run setblock ~ ~ ~ a replace",
      "execute positioned 2.5 2.5 0.5 run setblock ~ ~ ~ a replace"]),
    ('const r = Rot(1, 2)\nworld.rotate(e, r.offset(1))\nworld.rotate(e, r)\n',
     ["execute as {e} at @s run tp @s ~ ~ ~ 2 2",
      "execute as {e} at @s run tp @s ~ ~ ~ 1 2"]),
]
REUSE[1] = (REUSE[1][0], ["give {p+} a 2 1", "give {p+} a 1 1",
                          "give {p+} a 1 0"])
_sub0 = Out.sub


def _sub(self, text):
    if "{p+}" in text:
        t = [k for k, x in self.sels.items() if x == "p"][0]
        text = text.replace("{p+}", t[:-1] + ",type=player]")
    return _sub0(self, text)


Out.sub = _sub

vc_functions.shards = 6
vc_steps.shards = 6
vc_offsets.shards = 4
vc_conditions.shards = 4

CONTRACTS = [vc_functions, vc_arguments, vc_education, vc_steps, vc_offsets,
             vc_conditions, vc_reuse]
