"""Design models: exhaustive TLC checks of the specification within bounds,
and behaviours generated from the specification for replay into the crate."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import systems as S
from .run import SPEC, Job, ToolError, lines_to_blocks, shard, tlc

# name: (module, configuration, only in the thorough tier)
MODELS = {
    "InlineBuffer": ("MCInlineBuffer", "MCInlineBuffer", False),
    "InlineBuffer, no alloc": ("MCInlineBuffer", "MCInlineBufferNoAlloc", False),
    "InlineBuffer, two strings, no alloc": ("MCInlineBuffer", "MCInlineBufferTwoNoAlloc", False),
    "InlineBuffer, two strings": ("MCInlineBuffer", "MCInlineBufferTwo", True),
    "InlineBuffer, large": ("MCInlineBuffer", "MCInlineBufferLarge", True),
    "InlineBuffer, many": ("MCInlineBuffer", "MCInlineBufferMany", True),
    "Utf8": ("MCUtf8", "MCUtf8", False),
    "Utf8, large": ("MCUtf8", "MCUtf8Large", True),
    "Positional": ("MCPositional", "MCPositional", False),
    "Positional, large": ("MCPositionalLarge", "MCPositionalLarge", True),
    "Odometer": ("MCOdometer", "MCOdometer", False),
    "Odometer, large": ("MCOdometer", "MCOdometerLarge", True),
    "Additive": ("MCAdditive", "MCAdditive", False),
    "Additive, large": ("MCAdditive", "MCAdditiveLarge", True),
    "Hebrew": ("MCHebrew", "MCHebrew", False),
    "Hebrew, large": ("MCHebrew", "MCHebrewLarge", True),
    "Ethiopic": ("MCEthiopic", "MCEthiopic", False),
    "Ethiopic, large": ("MCEthiopic", "MCEthiopicLarge", True),
    "Chinese, digits": ("MCChinese", "MCChineseDigits", False),
    "Chinese, groups": ("MCChinese", "MCChineseGroups", False),
    "Chinese, wide": ("MCChinese", "MCChineseWide", False),
    "Chinese, digits, large": ("MCChinese", "MCChineseDigitsLarge", True),
    "Chinese, groups, large": ("MCChinese", "MCChineseGroupsLarge", True),
    "Chinese, wide, large": ("MCChinese", "MCChineseWideLarge", True),
    "Chinese, groups, full": ("MCChinese", "MCChineseGroupsFull", True),
    "Enumerated": ("MCEnum", "MCEnum", False),
    "Dispatch": ("MCDispatch", "MCDispatch", False),
    "Dispatch, large": ("MCDispatch", "MCDispatchLarge", True),
    "History": ("MCHistory", "MCHistory", False),
    "History, large": ("MCHistory", "MCHistoryLarge", True),
    "History, shared memory": ("MCHistory", "MCHistoryShared", False),
    "History, last answer kept": ("MCHistory", "MCHistoryLast", False),
}
# Models of ways the crate must not work: the named invariant has to fail.
WRONG = {"History, shared memory": "OneAnswer", "History, last answer kept": "OneAnswer"}
FAMILIES = {
    "C01": ("InlineBuffer", "Utf8"), "C02": ("InlineBuffer",), "C03": ("Utf8", "InlineBuffer"),
    "C04": ("Positional", "Odometer"), "C05": ("Positional", "Odometer"), "C06": ("Positional",),
    "C07": ("Positional",), "C08": ("Additive",), "C09": ("Additive",), "C10": ("Hebrew",), "C11": ("Ethiopic",),
    "C12": ("Chinese",), "C13": ("Chinese",), "C14": ("Enumerated",), "C15": ("Dispatch",),
    "C16": ("Positional", "Additive", "Ethiopic", "Hebrew"),
    "C17": ("Positional", "Additive", "Hebrew", "Ethiopic"),
    "C18": ("Positional", "Additive", "Hebrew", "Ethiopic", "Enumerated", "Dispatch"),
    "C19": ("Positional", "Additive", "Hebrew", "Enumerated"), "C20": ("Dispatch",), "C21": ("Odometer", "Positional"),
    "C22": ("History", "InlineBuffer, two strings, no alloc"),
}


# Proofs that the bounds of a design model do not matter, checked by tlapm:
# module, properties.
PROOFS = {
    "InlineProof": ("C01", "C02"),
    "PositionalProof": ("C04", "C05", "C07", "C16", "C17", "C19"),
    "AdditiveProof": ("C08",),
    "OdometerProof": ("C21",),
}


def prove(ctx, prop, cwd):
    """Have the proof system check the property's proofs (thorough tier)."""
    done = []
    for name in [n for n, props in PROOFS.items() if prop in props and ctx.deep]:
        d = tempfile.mkdtemp(prefix="proof", dir=cwd)
        shutil.copy(os.path.join(SPEC, "proofs", name + ".tla"), d)
        try:
            r = subprocess.run(["tlapm", "--cleanfp", "--stretch", "10", name + ".tla"], cwd=d, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            raise ToolError(f"tlapm ran out of time on {name}")
        m = re.search(r"All (\d+) obligations? proved", r.stdout + r.stderr)
        if r.returncode or not m:
            raise ToolError(f"proof {name} fails (exit {r.returncode}):\n{(r.stdout + r.stderr)[-2000:]}")
        done.append({"name": name, "obligations": int(m.group(1)), "proved": int(m.group(1))})
    return done


def scratch(cwd):
    """A directory with the specification in it."""
    d = tempfile.mkdtemp(prefix="spec", dir=cwd)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


def check(ctx, prop, cwd):
    """Check the property's design models; each is small enough to be
    exhausted."""
    d = scratch(cwd)
    names = [n for n, m in MODELS.items() if (n in FAMILIES[prop] or n.split(",")[0] in FAMILIES[prop]) and (ctx.deep or not m[2])]

    def one(name):
        module, cfg, large = MODELS[name]
        sub = tempfile.mkdtemp(dir=d)
        code, out, gen, dist = tlc(os.path.join(d, module + ".tla"), os.path.join(d, cfg + ".cfg"), sub, workers=8 if large else 4,
                                   timeout=800, heap="8g" if large else "3g")
        if name in WRONG:
            if f"Invariant {WRONG[name]} is violated" not in out:
                raise ToolError(f"design model {name} should break {WRONG[name]} (exit {code}):\n{out[-3000:]}")
            return {"name": name, "module": module, "config": cfg, "states": dist, "transitions": gen, "exhausted": False,
                    "refuted": WRONG[name]}
        if code != 0 or "No error has been found" not in out or not dist:
            raise ToolError(f"design model {name} fails (exit {code}):\n{out[-3000:]}")
        return {"name": name, "module": module, "config": cfg, "states": dist, "transitions": gen, "exhausted": True}

    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        return list(ex.map(one, names))


# --------------------------------------------------------------- generation
def generate(module, cfg, tag, cwd):
    """What a generating specification prints, in its own order."""
    d = scratch(cwd)
    code, out, _, _ = tlc(os.path.join(d, module + ".tla"), os.path.join(d, cfg + ".cfg"), d, workers=1, timeout=600)
    if code != 0:
        raise ToolError(f"{cfg} generates nothing (exit {code}):\n{out[-2000:]}")
    found = []
    for line in out.splitlines():
        if line.startswith(f'"{tag} '):
            found.append(json.loads(json.loads(line)[len(tag) + 1:]))
    shutil.rmtree(d, ignore_errors=True)
    if not found:
        raise ToolError(f"{cfg} generates nothing:\n{out[-2000:]}")
    return found


def number(limbs):
    n = 0
    for x in limbs:
        n = n * 10000 + x
    return n


# ---- strings
def session_lines(ops, slots):
    lines = [f"RESET {slots}"]
    for o in ops:
        z = f"Z {o['op']} {o['d']}"
        if o["op"] == "clone":
            z += f" {o['s']}"
        elif o["op"] in ("str", "strref", "own", "pstr", "char", "push", "front"):
            z += " " + (",".join(map(str, o["t"])) or "-")
        lines.append(z)
    return lines


def live_after(ops, slots):
    """The strings there may be something to look at in."""
    live = set()
    for o in ops:
        if o["op"] in ("drop", "into", "take"):
            live.discard(o["d"])
        elif o["op"] != "clone" or o["s"] in live:
            live.add(o["d"])
    return sorted(live)


def longest(sessions):
    """Sessions that are no beginning of another one."""
    seen = set()
    for s in sessions:
        seen.add(json.dumps(s[:-1]))
    return [s for s in sessions if json.dumps(s) not in seen]


def string_sessions(ctx, name, cwd, storage, look=False):
    jobs = []
    for alloc in (True, False):
        a = "Alloc" if alloc else "NoAlloc"
        blocks = []
        pair = f"MCSessionsTwo{a}" if ctx.deep or not alloc else "MCSessionsPairAlloc"
        for slots, cfg in ((1, f"MCSessions{a}"), (2, pair)):
            got = longest(generate("MCSessions", cfg, "SESSION", cwd))
            if slots == 2 and not ctx.deep:
                got = got[ctx.seed % 4::4]
            for ops in got:
                lines = session_lines(ops, slots)
                if look:
                    live = live_after(ops, slots)
                    lines += [f"K {x} {y}" for x in live for y in live] + [f"Q {x}" for x in live]
                    lines += [f"P {x} 32 < {w} {p}" for x in live for w, p in ((-1, -1), (64, 61))]
                blocks.append(lines)
        jobs += shard(f"{name}-{'a' if alloc else 'n'}", [], blocks, alloc=alloc, storage=storage)
    return jobs


# ---- collections
def fallback(rec):
    if rec["c"] == "none":
        return "none"
    if rec["c"] == "set":
        return {16: "hex", 26: "let"}[len(rec["syms"])]
    return {0x24B6: "fixa", 0x24D0: "fixz", 0x2080: "fixn", 0x2609: "sing", 124: "tally", 0x24EA: "zero"}[rec["base"]]


def term(rec):
    """The collection a term of the specification stands for; None if the
    specification leaves it open what it is (chains of fixed collections)."""
    c = rec["c"]
    if c == "set":
        return S.digit_set("".join(map(chr, rec["syms"])), rec["zero"])
    if c == "range":
        return S.user_range(rec["len"], rec["base"], rec["zero"], rec["zb"], rec["fixed"], fallback(rec["fb"]))
    a = term(rec["a"])
    if a is None:
        return None
    if c == "one":
        return S.one(a)
    if c == "restrict":
        return S.restrict(rec["k"], a)
    b = term(rec["b"])
    return None if b is None or a.fixed or b.fixed else S.chain(a, b)


def wants(prop, t):
    if prop == "C04":
        return not t.fixed and t.zero and t.zb
    if prop == "C05":
        return not t.fixed and not (t.zero and t.zb)
    if prop == "C06":
        return t.fixed
    return True


def term_systems(ctx, prop, cwd):
    large = ctx.deep and prop in ("C07", "C19")
    found = generate("EmitLarge" if large else "Emit", "EmitLarge" if large else "Emit", "TERM", cwd)
    terms = [t for t in map(term, found) if t is not None and wants(prop, t)]
    return [S.coll(t) for t in terms]


def dealt(name, systems, lines_of, parts, alloc=True):
    """Traces that each declare only their own systems."""
    jobs = []
    for i in range(parts):
        part = systems[i::parts]
        if part:
            jobs.append(Job(f"{name}-{i}", part, [x for k, s in enumerate(part) for x in lines_of(k + 1, s)], alloc=alloc))
    return jobs


def term_numbers(ctx):
    return list(range(0, ctx.pick(24, 40))) + [255, 256, 65535, 2**32 - 1, 2**128 - 1]


def term_formats(ctx, prop, cwd):
    ns = term_numbers(ctx)

    def lines(k, s):
        return [f"C {k}"] * (prop == "C07") + [f"F {k} {n}" for n in ns if s.short(n)]

    return dealt("model-terms", term_systems(ctx, prop, cwd), lines, ctx.pick(8, 32))


def term_answers(ctx, prop, cwd):
    """The same collections for the properties that compare answers."""
    cmd = {"C16": "U", "C19": "T"}[prop]
    ns = term_numbers(ctx)[::ctx.pick(2, 1)]
    out = []
    systems = term_systems(ctx, prop, cwd)
    for alloc in (True, False):
        out += dealt(f"model-terms-{'a' if alloc else 'n'}", systems,
                     lambda k, s: [f"{cmd} {k} {n}" for n in ns if not alloc or s.short(n)], ctx.pick(8, 32), alloc)
    return out


def term_runs(ctx, prop, cwd):
    def lines(k, s):
        t = s.term
        lo = 0 if t.zero or t.zb else 1
        return [f"O {k} u8 {lo} {ctx.pick(20, 60)}"]

    systems = [s for s in term_systems(ctx, prop, cwd) if not s.term.fixed and s.term.len and not (s.term.len == 1 and s.term.zero)]
    return dealt("model-runs", systems, lines, 8)


# ---- additive sets
def values(ctx, cwd):
    return generate("EmitAdditive", "EmitAdditiveLarge" if ctx.deep else "EmitAdditive", "VALUES", cwd)


def additive_acceptance(ctx, prop, cwd):
    lines = ["V " + (";".join(f"{97 + i}:{number(v) if isinstance(v, list) else v}" for i, v in enumerate(vs)) or "-") for vs in values(ctx, cwd)]
    return shard("model-sets", [], lines_to_blocks(lines))


def additive_sets(ctx, prop, cwd):
    sets = []
    for vs in values(ctx, cwd):
        vs = [number(v) if isinstance(v, list) else v for v in vs]
        if all(x > y for x, y in zip(vs, vs[1:])):
            sets.append(S.additive_set([("abcdef"[i], v) for i, v in enumerate(vs)]))
    ns = list(range(0, ctx.pick(26, 60))) + [255, 256]
    return dealt("model-sets", sets, lambda k, s: [f"F {k} {n}" for n in ns if s.short(n)], 8)


# ---- numbers grown by a model
def grown(ctx, module, quick, deep, cwd):
    ns = set()
    for cfg in quick + (deep if ctx.deep else []):
        ns |= {number(x) for x in generate(module, cfg, "NUMBER", cwd)}
    return sorted(ns)


def chinese_numbers(ctx, prop, cwd):
    ns = grown(ctx, "EmitChinese", ["EmitChineseDigits", "EmitChineseGroups", "EmitChineseWide"],
               ["EmitChineseDigitsLarge", "EmitChineseGroupsLarge", "EmitChineseWideLarge", "EmitChineseGroupsFull"], cwd)
    styles = [S.chinese(*c) for c in S.CHINESE]
    if prop == "C12":
        plan = {s.cmd: ns[(i + ctx.seed) % ctx.pick(8, 4)::ctx.pick(8, 4)] for i, s in enumerate(styles)}
    else:
        plan = {s.cmd: ns[(i + 3 + ctx.seed) % ctx.pick(16, 8)::ctx.pick(16, 8)] for i, s in enumerate(styles)}
    lines = [f"F {i + 1} {n}" for i, s in enumerate(styles) for n in plan[s.cmd]]
    return shard("model-numbers", styles, lines_to_blocks(lines))


def ethiopic_numbers(ctx, prop, cwd):
    ns = grown(ctx, "EmitEthiopic", ["EmitEthiopic"], ["EmitEthiopicLarge"], cwd)
    return shard("model-numbers", [S.ETHIOPIC], lines_to_blocks([f"F 1 {n}" for n in ns]))


def sessions(ctx, prop, cwd):
    if prop in ("C01", "C02", "C03"):
        return string_sessions(ctx, "model-sessions", cwd, prop == "C02", prop == "C03")
    if prop in ("C04", "C05", "C06", "C07"):
        return term_formats(ctx, prop, cwd)
    if prop in ("C16", "C19"):
        return term_answers(ctx, prop, cwd)
    return {"C21": term_runs, "C08": additive_sets, "C09": additive_acceptance, "C11": ethiopic_numbers,
            "C12": chinese_numbers, "C13": chinese_numbers}.get(prop, lambda *_: [])(ctx, prop, cwd)
