"""What each property's check asks the real crate."""
import random

from . import fresh
from . import numbers as N
from . import systems as S
from .run import Job, lines_to_blocks, shard


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.deep = tier == "thorough"

    def rng(self, salt):
        return random.Random(f"{self.seed}/{salt}")

    def pick(self, quick, deep):
        return deep if self.deep else quick


def sweep(cmd, systems, numbers_of):
    """Request lines `cmd s n` for all systems and their numbers."""
    out = []
    for i, s in enumerate(systems):
        out += [f"{cmd} {i + 1} {n}" for n in numbers_of(s)]
    if fresh.INTS:
        rng = random.Random(len(out))
        each = max(60, 40000 // max(1, len(systems)))
        for i, s in enumerate(systems):
            out += [f"{cmd} {i + 1} {n}" for n in sample(rng, new_numbers(s), each)]
    return out


def new_numbers(s, alloc=True):
    """Numbers aimed at constants that are new in the sources."""
    if not fresh.INTS:
        return []
    base = 10
    if s.kind == "coll":
        base = s.term.len if not s.term.fixed or s.term.fb is None else s.term.fb.len
    out = set(fresh.numbers(base))
    for v in getattr(s, "values", [400] if s.kind == "hebrew" else []):
        out |= {v * i + d for i in fresh.INTS for d in (-1, 0, 1)}
    return sorted(n for n in out if 0 <= n <= N.TOP and (s.short(n) or not alloc))


def formats(name, systems, numbers_of, alloc=True, cmd="F", also=0):
    """Traces of formatting every number with every system; `also`: one in so
    many requests goes to the build without allocation, too."""
    lines = sweep(cmd, systems, numbers_of)
    jobs = shard(name, systems, lines_to_blocks(lines), alloc=alloc)
    if also:
        some = random.Random(len(lines)).sample(lines, len(lines) // also)
        jobs += shard(name + "-n", systems, lines_to_blocks(some, 4), n=4, alloc=False)
    return jobs


def sample(rng, ns, k):
    ns = list(ns)
    return ns if len(ns) <= k else rng.sample(ns, k)


EDGES = N.edges()


def bijective_words(b, rng, k):
    return N.powers(b) + N.base_patterns(rng, k, b)


def term_numbers(term, rng, k, top=N.TOP):
    """Numbers aimed at a collection: around its length, its powers, the type
    limits, and at random, as far as its numerals stay short."""
    b = term.len
    ns = set(range(0, 25)) | set(N.around(b, 2 * b, 256, 65536, by=2))
    if term.fixed and term.fb is not None and term.fb.len:
        ns |= set(N.around(term.fb.len, by=2))
        b = term.fb.len
    ns |= set(sample(rng, N.powers(b), k // 3)) | set(N.base_patterns(rng, k // 3, b))
    ns |= set(N.log_uniform(rng, k // 3)) | set(N.around(*N.MAXES)) | set(N.shapes(rng, k // 6, b))
    lim = term.limit
    if lim is not None:
        ns = {n for n in ns if n <= lim} | set(range(0, min(lim, 60))) | {lim}
    return sorted(n for n in ns if 0 <= n <= top)


# ------------------------------------------------------------------ strings
CHARS = [c for c in "aZz09_~\u00df\u00e9\u07ff\u0800\u5b57\u1369\u0305\uffff\U00010000\U0001f600\U0010ffff\x00\x7f\x80"]
CHARS += fresh.CHARS * 3
BY_WIDTH = {1: "aQz0\x00\x7f", 2: "\u00e9\u00df\u0305\u07ff\x80", 3: "\u5b57\u1369\u0800\uffff\ud7ff\ue000",
            4: "\U0001f600\U00010000\U0010ffff"}


for _c in fresh.CHARS:
    BY_WIDTH[len(_c.encode())] += _c * 3


def width(c):
    return len(c.encode())


def random_text(rng, nbytes):
    """A text of exactly nbytes bytes."""
    out, left = [], nbytes
    while left:
        w = rng.choice([w for w in (1, 2, 3, 4) if w <= left])
        out.append(rng.choice(BY_WIDTH[w]))
        left -= w
    rng.shuffle(out)
    return "".join(out)


def random_session(rng, steps, alloc, slots=3, look=False):
    """A random walk over the operations, kept near the inline limit."""
    size = [None] * slots   # bytes, None when the slot is empty
    heap = [False] * slots
    lines = [f"RESET {slots}"]
    for _ in range(steps):
        d = rng.randrange(slots)
        live = size[d] is not None
        ops = ["new", "rev", "str", "char", "def"] if not live else (
            ["push"] * 4 + ["front"] * 4 + ["pstr"] * 3 + ["upper", "lower"])
        if live and rng.random() < .06:
            ops = ["drop", "new", "rev"]
        if alloc:
            if not live and rng.random() < .3:
                ops = ["own", "strref"]
            if any(x is not None for x in size) and rng.random() < .1:
                ops = ["clone"]
            if live and rng.random() < .08:
                ops = ["take", "into"]
        op = rng.choice(ops)
        z = f"Z {op} {d + 1}"
        if op in ("new", "rev", "def"):
            size[d], heap[d] = 0, False
        elif op in ("str", "strref", "own"):
            k = rng.choice([0, 1, 5, 30, 58, 59, 60, 61, 62] + ([63, 64, 70, 126, 127, 128, 130, 200, 255, 256, 260, 300] if alloc else []))
            t = random_text(rng, k)
            z += " " + S.arg(t)
            size[d], heap[d] = k, op == "own" or k > 62
        elif op == "char":
            c = rng.choice(CHARS)
            z += " " + S.arg(c)
            size[d], heap[d] = width(c), False
        elif op in ("push", "front"):
            c = rng.choice(BY_WIDTH[rng.choice([1, 2, 3, 4])])
            z += " " + S.arg(c)
            if alloc or size[d] + width(c) <= 62:
                size[d] += width(c)
                heap[d] |= size[d] > 62
        elif op == "pstr":
            room = 62 - size[d]
            k = rng.choice([0, 1, 2, 3, 7, 20, max(room - 1, 0), max(room, 0), max(room, 0) + 1, max(room, 0) + 2, 62,
                            63] + ([190, 193, 194, 200, 255, 256, 257] if rng.random() < .2 else []))
            t = random_text(rng, k)
            z += " " + S.arg(t)
            if alloc or size[d] + k <= 62:
                size[d] += k
                heap[d] |= size[d] > 62
        elif op == "clone":
            s = rng.choice([i for i in range(slots) if size[i] is not None])
            z += f" {s + 1}"
            size[d], heap[d] = size[s], heap[s]
        elif op == "take":
            if heap[d]:
                size[d], heap[d] = None, False
        elif op in ("into", "drop"):
            size[d], heap[d] = None, False
        lines.append(z)
        if size[d] is not None and size[d] > 400:
            lines.append(f"Z drop {d + 1}")
            size[d], heap[d] = None, False
        if look:
            on = [i for i in range(slots) if size[i] is not None]
            if on:
                a, b = rng.choice(on), rng.choice(on)
                lines.append(f"K {a + 1} {b + 1}")
                if rng.random() < .5:
                    f, al = rng.choice([(" ", "-"), (" ", "<"), (" ", "^"), (" ", ">"), ("*", "<"), ("*", "^"),
                                        ("*", ">"), ("\u5b57", "<"), ("\u5b57", "^"), ("\u5b57", ">")])
                    n = size[a]
                    w = rng.choice([-1, 0, 1, 5, n - 1, n, n + 1, n + 4, 70])
                    p = rng.choice([-1, -1, 0, 1, 2, 5, n // 2, n, n + 1])
                    flags = rng.choice(["", "", "", " +", " #", " 0", " +#0"])
                    lines.append(f"P {a + 1} {ord(f)} {al} {max(w, -1)} {max(p, -1)}{flags}")
                if rng.random() < .3:
                    lines.append(f"Q {b + 1}")
    return lines


def cover_sessions(alloc):
    """Every way to make a string of every inline length, followed by every
    kind of operation on it."""
    rng = random.Random(7)
    out = []
    ops = []
    for w in (1, 2, 3, 4):
        c = BY_WIDTH[w][0]
        ops += [f"push 1 {S.arg(c)}", f"front 1 {S.arg(c)}"]
    for n in range(0, 63):
        for make in ("new", "rev", "str"):
            lines = []
            for op in ops + [f"pstr 1 {S.arg(random_text(rng, k))}" for k in sorted({0, 1, 62 - n, 63 - n, 64 - n if n < 62 else 3})]:
                lines.append("RESET 1")
                t = random_text(rng, n)
                if make == "str":
                    lines.append(f"Z str 1 {S.arg(t)}")
                else:
                    lines += [f"Z {make} 1", f"Z pstr 1 {S.arg(t)}"]
                lines.append("Z " + op)
                lines.append(f"Z front 1 {S.arg('b')}")
                lines.append(f"Z push 1 {S.arg('c')}")
                if alloc:
                    lines.append("Z take 1")
            out.append(lines)
    return out


LONG = [511, 512, 513, 1023, 1025, 4096, 5000]


def long_sessions(rng, alloc, sizes, look=False):
    """Texts much longer than the buffer (with allocation), or of given
    lengths in bytes or in characters."""
    out = []
    for n in sizes:
        units = [None, "a", "\u00e9", "\u5b57", "\U0001f600"]
        for unit in units if n < 2000 else rng.sample(units, 1):
            t = random_text(rng, n) if unit is None else unit * n
            if not alloc and len(t.encode()) > 62:
                t = random_text(rng, rng.randrange(63))
            for make in rng.sample(["str", "new", "rev", "own", "front"] if alloc else ["str", "new", "rev", "front"], 2):
                lines = ["RESET 2"]
                if make in ("str", "own"):
                    lines.append(f"Z {make} 1 {S.arg(t)}")
                elif make == "front":
                    lines += [f"Z {rng.choice(['new', 'rev'])} 1", f"Z pstr 1 {S.arg(t[1:])}", f"Z front 1 {S.arg(t[:1] or 'a')}"]
                else:
                    k = rng.choice([0, 1, len(t) // 2, len(t)])
                    lines += [f"Z {make} 1", f"Z pstr 1 {S.arg(t[:k])}", f"Z pstr 1 {S.arg(t[k:])}"]
                if alloc:
                    lines.append("Z clone 2 1")
                for _ in range(4):
                    lines.append(rng.choice([f"Z push 1 {S.arg(rng.choice(CHARS))}", f"Z front 1 {S.arg(rng.choice(CHARS))}",
                                             f"Z pstr 1 {S.arg(random_text(rng, rng.randrange(5)))}", "Z upper 1"]))
                if look:
                    lines += ["Z str 2 " + S.arg(t)] if not alloc else []
                    lines += ["K 1 2", "K 2 1", "Q 1", f"P 1 42 ^ {len(t) + 3} -1", f"P 2 32 - -1 {max(len(t) - 1, 0)}"]
                if alloc:
                    lines.append("Z take 1")
                out.append(lines)
    return out


def string_jobs(ctx, name, storage, look=False):
    jobs = []
    for alloc in (True, False):
        rng = ctx.rng((name, alloc))
        blocks = [random_session(rng, ctx.pick(60, 80), alloc, look=look) for _ in range(ctx.pick(250, 4000))]
        if not look:
            blocks += cover_sessions(alloc)
        if alloc:
            blocks += long_sessions(rng, alloc, LONG, look)
        sizes = sorted({n for i in fresh.SIZES for n in (i - 1, i, i + 1)})
        blocks += long_sessions(rng, alloc, sizes, look) + long_sessions(rng, alloc, [n for n in sizes if n <= 62] * 3, look)
        jobs += shard(f"{name}-{'a' if alloc else 'n'}", [], blocks, alloc=alloc, storage=storage)
    return jobs


def c01(ctx):
    return string_jobs(ctx, "text", False)


def c02(ctx):
    jobs = string_jobs(ctx, "store", True) + [Job(f"capacity-{a}", [], ["CAP"], alloc=a) for a in (True, False)]
    # formatted nominals around the inline limit
    systems = [S.coll(S.builtin("Decimal")), S.coll(S.builtin("Thai")), S.coll(S.builtin("LetterLower")),
               S.coll(S.digit_set("01", True)), S.coll(S.digit_set("字書", True)), S.coll(S.digit_set("\U0001f600\U0001f601\U0001f602", False)),
               S.coll(S.user_range(1)), S.additive("RomanLower"), S.additive("HangeulFormal"),
               S.chinese(True, True, True, "myriad"), S.chinese(False, False, False, "long"), S.ETHIOPIC, S.HEBREW]
    for alloc in (True, False):
        rng = ctx.rng(("fmt", alloc))
        blocks = []
        for i, s in enumerate(systems):
            lines = []
            for n in sample(rng, new_numbers(s), 100) + sample(rng, [n for n in EDGES + N.log_uniform(rng, 200) + N.decimal_patterns(rng, 300) + list(range(0, 400, 3)) if s.short(n)], ctx.pick(150, 600)):
                ty = rng.choice(N.types_of(n))
                lines += ["RESET 1", f"Z fmt {i + 1} {ty} {n} 1"]
                if rng.random() < .3:
                    lines += ["Z? push 1 " + S.arg("a"), "Z? front 1 " + S.arg("\u00e9")]
            blocks.append(lines)
        jobs += shard(f"fmt-{'a' if alloc else 'n'}", systems, blocks, alloc=alloc, n=4)
    return jobs


def c03(ctx):
    jobs = string_jobs(ctx, "compare", False, look=True)
    for alloc in (True, False):
        # equal and nearly equal texts, made in different ways
        rng = ctx.rng(("pairs", alloc))
        blocks = []
        for _ in range(ctx.pick(1200, 12000)):
            n = rng.choice([0, 1, 2, 3, 10, 30, 59, 60, 61, 62] + ([63, 64, 80] if alloc else []) + [i for i in fresh.SIZES if alloc or i <= 62])
            t = random_text(rng, n)
            u = t
            k = rng.randrange(6)
            if k == 1 and t:
                u = t[:-1]
            elif k == 2 and t:
                i = rng.randrange(len(t))
                u = t[:i] + rng.choice(BY_WIDTH[width(t[i])]) + t[i + 1:]
            elif k == 3 and t:
                i = rng.randrange(len(t))
                u = t[i:] + t[:i]
            elif k == 4:
                u = t + "a" if alloc or n < 62 else t
            elif k == 5:
                u = t.upper() if len(t.upper().encode()) == n else t
            lines = ["RESET 2"]
            for d, x in ((1, t), (2, u)):
                ways = ["str", "push", "front"] + (["own", "strref", "clone"] if alloc else [])
                way = rng.choice(ways)
                if way in ("str", "own", "strref"):
                    lines.append(f"Z {way} {d} {S.arg(x)}")
                elif way == "clone":
                    lines += [f"Z str {d} {S.arg(x)}", f"Z clone {d} {d}"]
                else:
                    lines.append(f"Z {rng.choice(['new', 'rev', 'def'])} {d}")
                    if way == "push":
                        i = rng.randrange(len(x) + 1)
                        lines += [f"Z pstr {d} {S.arg(x[:i])}"] + [f"Z push {d} {S.arg(c)}" for c in x[i:]]
                    else:
                        lines += [f"Z front {d} {S.arg(c)}" for c in reversed(x)]
            lines += ["K 1 2", "K 2 1", "K 1 1", "Q 1", "Q 2"]
            blocks.append(lines)
        jobs += shard(f"pairs-{'a' if alloc else 'n'}", [], blocks, alloc=alloc, storage=False)
    return jobs


# --------------------------------------------------------- digit collections
def c04(ctx):
    rng = ctx.rng("c04")
    builtins = [S.coll(S.builtin(n)) for n in S.DECIMAL + list(S.ALIASES) + S.HEX]
    main = {"Decimal", "HexLower", "Thai"}
    shared = sample(rng, EDGES, 500)

    def numbers(s):
        name = s.rec["c"]["name"]
        b = 16 if name.startswith("Hex") else 10
        ns = set(range(0, 130)) | set(sample(rng, shared, 150)) | set(N.around(*N.MAXES)) | set(rng.sample(range(65536), 60))
        ns |= set(N.base_patterns(rng, 40, b)) | set(N.shapes(rng, 60, b)) | set(sample(rng, N.powers(b), 60))
        if name in main or ctx.deep:
            ns |= set(EDGES) | set(N.powers(b)) | set(range(0, ctx.pick(3000, 65536)))
            ns |= set(N.log_uniform(rng, 800))
        return sorted(ns)

    jobs = formats("builtin", builtins, numbers, also=8)
    sizes = [2, 3, 4, 5, 7, 8, 9, 10, 11, 13, 16, 20, 26, 36, 60, 62, 64, 100, 128, 200, 254, 255, 256, 257, 300, 1000]
    custom = [S.coll(S.digit_set("".join(chr(0x4E00 + i) for i in range(n)), True)) for n in sizes]
    custom += [S.coll(S.user_range(n, zero=True, zb=rng.random() < .5)) for n in (2, 3, 7, 12, 60, 250, 256, 300, 5000, 20000)]
    custom += [S.coll(S.user_range(n, 0x20000, zero=True)) for n in (65535, 65536, 65537, 70000)]
    custom += [S.coll(S.digit_set(S.random_syms(rng, rng.choice(sizes[:16])), True)) for _ in range(ctx.pick(15, 60))]
    custom += [S.coll(S.user_range(n, 0x4E00 if n < 20000 else 0x20000, zero=True)) for i in fresh.COUNTS for n in (i - 1, i, i + 1) if n > 1]
    jobs += formats("custom", custom, lambda s: term_numbers(s.term, rng, ctx.pick(150, 1500)), also=6)
    return jobs


def c05(ctx):
    rng = ctx.rng("c05")
    systems = []
    for n in S.ALPHA:
        systems += [S.coll(S.builtin(n)), S.coll(S.one(S.builtin(n)))]

    def numbers(s):
        b = s.term.len
        ns = set(range(0, 2 * b + 60)) | set(N.around(b * b + b, b**3 + b * b + b, by=2)) | set(N.powers(b)) | set(N.around(*N.MAXES, by=2))
        ns |= set(N.base_patterns(rng, 80, b)) | set(N.shapes(rng, 80, b)) | set(N.log_uniform(rng, 100)) | set(sample(rng, EDGES, 100))
        if ctx.deep:
            ns |= set(range(65536)) | set(EDGES) | set(N.log_uniform(rng, 2000))
        elif "Letter" in s.cmd:
            ns |= set(range(0, 2500))
        return sorted(ns)

    jobs = formats("builtin", systems, numbers, also=8)
    custom = []
    for n in (1, 2, 3, 4, 5, 9, 14, 26, 60, 64, 100, 200, 254, 255, 256, 257, 300, 1000):
        t = S.digit_set("".join(chr(0x4E00 + i) for i in range(n)), False)
        custom += [S.coll(t), S.coll(S.one(t))]
    for n in (1, 2, 6, 255, 256, 300, 5000, 20000):
        custom += [S.coll(S.user_range(n)), S.coll(S.user_range(n, zb=False)), S.coll(S.one(S.user_range(n)))]
    for n in (65535, 65536, 65537, 70000):
        custom += [S.coll(S.user_range(n, 0x20000)), S.coll(S.one(S.user_range(n, 0x20000)))]
    custom += [S.coll(S.user_range(n, 0x4E00 if n < 20000 else 0x20000, zero=False)) for i in fresh.COUNTS for n in (i - 1, i, i + 1) if n > 1]
    jobs += formats("custom", custom, lambda s: term_numbers(s.term, rng, ctx.pick(120, 1500)), also=6)
    return jobs


def c06(ctx):
    rng = ctx.rng("c06")
    systems = []
    for n in S.FIXED:
        t = S.builtin(n)
        systems += [S.coll(t), S.coll(S.one(t)), S.coll(S.one(S.one(t))), S.coll(S.restrict(5, t)),
                    S.coll(S.restrict(3, S.one(t))), S.coll(S.one(S.restrict(11, t))), S.coll(S.restrict(50, t)),
                    S.coll(S.restrict(1, t)), S.coll(S.restrict(0, t))]
    for n in (0, 1, 2, 3, 4, 5, 10, 20, 255, 256, 257, 300):
        for zero in (False, True):
            for zb in (False, True):
                for fb in S.FALLBACKS if n in (0, 1, 4, 20) else ["none", rng.choice(list(S.FALLBACKS))]:
                    t = S.user_range(n, zero=zero, zb=zb, fixed=True, fb=fb)
                    systems.append(S.coll(t))
                    k = rng.randrange(3)
                    systems.append(S.coll([S.one(t), S.restrict(rng.randrange(0, n + 3), t), S.one(S.restrict(rng.randrange(0, n + 2), t))][k]))

    def numbers(s):
        lim = s.term.limit
        ns = set(range(0, 40)) | set(N.around(s.term.len, 2 * s.term.len, 20, 12, 256, 257, 300, by=2)) | set(N.around(*N.MAXES))
        ns |= set(N.log_uniform(rng, ctx.pick(20, 300))) | set(N.aliases(rng, [0, 1, s.term.len // 2, s.term.len], 6))
        if "b " in s.cmd or ctx.deep:
            ns |= set(range(0, ctx.pick(600, 3000))) | set(EDGES)
        return sorted(n for n in ns if lim is None or n <= lim)

    for n in [65536, 70000] + [n for i in fresh.COUNTS for n in (i, i + 1)]:
        systems += [S.coll(S.user_range(n, 0x20000, zero=z, zb=zb, fixed=True, fb="hex")) for z, zb in ((True, True), (False, True), (False, False))]
    return formats("fixed", systems, numbers, also=8)


def about(systems):
    return [f"C {i + 1}" for i, s in enumerate(systems) if s.term.len <= 3000]


def c07(ctx):
    rng = ctx.rng("c07")
    B = S.builtin
    systems = [S.coll(t) for t in (
        S.chain(B("Decimal"), B("LetterLower")), S.chain(B("LetterUpper"), B("LetterLower")),
        S.chain(B("LetterUpper"), B("Decimal")), S.chain(S.one(B("LetterUpper")), B("LetterLower")),
        S.one(S.chain(B("LetterUpper"), B("LetterLower"))), S.chain(B("Decimal"), S.one(B("LetterLower"))),
        S.restrict(16, S.chain(B("Decimal"), B("LetterUpper"))), S.restrict(8, B("Decimal")), S.restrict(2, B("Thai")),
        S.restrict(36, S.chain(B("Decimal"), B("LetterUpper"))), S.restrict(37, S.chain(B("Decimal"), B("LetterUpper"))),
        S.restrict(1, B("Decimal")), S.restrict(0, B("Decimal")), S.restrict(1, B("LetterUpper")),
        S.restrict(0, B("LetterUpper")), S.one(B("Decimal")), S.one(S.one(B("GreekLower"))),
        S.one(S.restrict(0, B("GreekLower"))), S.one(S.restrict(1, B("GreekLower"))),
        S.restrict(2**64 - 1, B("Decimal")), S.restrict(100, S.one(B("LetterLower"))),
        S.chain(S.restrict(0, B("LetterUpper")), B("Decimal")), S.chain(S.restrict(0, B("Decimal")), B("LetterLower")),
        S.chain(S.restrict(3, B("Decimal")), S.restrict(2, B("LetterLower"))),
        S.chain(S.NONE, B("Decimal")), S.chain(B("Decimal"), S.NONE), S.NONE)]
    # every small nesting of small leaves
    leaves = [S.digit_set("", True), S.digit_set("", False), S.digit_set("x", True), S.digit_set("x", False), S.digit_set("01", True),
              S.digit_set("ab", False), S.user_range(3, 0x3B1, zero=False, zb=False), S.user_range(2, 0x3B1, zero=True)]
    unary = [lambda a: a, S.one] + [lambda a, k=k: S.restrict(k, a) for k in (0, 1, 2, 5)]
    small = [f(a) for f in unary for a in leaves]
    pairs = [S.chain(a, b) for a in small for b in leaves]
    nest = [f(p) for f in unary[1:] for p in sample(rng, pairs, ctx.pick(60, len(pairs)))]
    systems += [S.coll(t) for t in small + sample(rng, pairs, ctx.pick(150, len(pairs))) + nest]
    systems += [S.coll(S.random_term(rng, rng.choice([1, 2, 2, 3, 4, 5]))) for _ in range(ctx.pick(250, 2500))]
    for n in sorted({n for i in fresh.COUNTS for n in (i, i + 1)}):
        base = 0x4E00 if n < 20000 else 0x20000
        A = [S.user_range(n, base, zero=z) for z in (False, True)]
        systems += [S.coll(t) for a in A for t in (S.one(a), S.restrict(n - 1, a), S.restrict(n, S.user_range(n + 5, base)), S.chain(S.digit_set("xy", False), a), S.chain(a, S.digit_set("xy", False)))]

    def numbers(s):
        return term_numbers(s.term, rng, ctx.pick(18, 60))

    out = []
    # each trace declares only its own systems
    n = 8 if not ctx.deep else 32
    for i in range(n):
        part = systems[i::n]
        rest = [s for s in part if not (s.term.fixed and s.term.fb is not None and s.term.fb.len and False)]
        lines = sweep("F", rest, numbers)
        out.append(Job(f"terms-{i}", rest, about(rest) + lines))
        if i % 4 == ctx.seed % 4:
            out.append(Job(f"terms-n-{i}", rest, about(rest) + rng.sample(lines, len(lines) // 3), alloc=False))
    return out


# ----------------------------------------------------------------- additive
def random_additive(rng, sizes=S.ADDSET_SIZES, empty=True):
    n = rng.choice(sizes)
    kind = rng.randrange(5)
    vals = set()
    while len(vals) < n:
        vals.add(rng.choice([rng.randrange(0, 30), rng.randrange(0, 300), rng.randrange(250, 260), rng.getrandbits(rng.choice([4, 8, 9, 16, 17, 32, 64, 127])),
                             10**rng.randrange(0, 12), 2**rng.choice([7, 8, 16, 32, 64, 127])] + [rng.choice(fresh.INTS) + rng.randrange(2) for _ in fresh.INTS[:3]]))
    if kind == 0 and n:
        vals.discard(0)
        vals.add(1)
    if kind == 1 and n:
        vals |= {0}
    vals = sorted(vals, reverse=True)
    while len(vals) > n:
        vals.pop(rng.randrange(max(len(vals) - 2, 1)))
    if len(vals) != n:
        return random_additive(rng, sizes, empty)
    syms = [c if rng.random() < .7 else c + rng.choice(["\u0305", "x", "字"]) for c in S.random_syms(rng, n)] if n else []
    if n and rng.random() < .1:
        syms[rng.randrange(n)] = "xyz" * rng.randrange(1, 9)
    # a user's own choice; but not one repeated without end
    bounded = [i for i in range(1, n) if vals[i - 1] <= 300 * vals[i] or not vals[i]]
    if empty and bounded and rng.random() < .12:
        syms[rng.choice(bounded)] = ""
    return S.additive_set(list(zip(syms, vals)))


def additive_numbers(s, rng, k):
    vals = [v for v in s.values if v]
    ns = set(range(0, 30)) | set(N.around(*vals)) | set(N.around(*N.MAXES))
    for _ in range(k):
        n = 0
        for v in vals:
            n += v * rng.choice([0, 0, 1, 1, 2, 3])
        ns |= {n + rng.choice([-1, 0, 0, 0, 1]), rng.randrange(0, 400)}
    ns |= set(N.log_uniform(rng, k // 2)) | set(N.aliases(rng, sample(rng, vals, 3) or [0], k))
    return sorted(n for n in ns if 0 <= n <= N.TOP and s.short(n))


def c08(ctx):
    rng = ctx.rng("c08")
    builtins = [S.additive(n) for n in S.ADDITIVE]

    def numbers(s):
        ns = set(range(0, 300)) | {d * 10**k for k in range(7) for d in range(1, 10)}
        ns |= set(N.around(*N.MAXES[:3], *[10**k for k in range(8)], by=2)) | {n for n in EDGES if n < 3_000_000}
        ns |= set(range(10_000)) | {rng.randrange(10**rng.randrange(4, 9)) for _ in range(120)}
        ns |= {rng.randrange(1000) * 1000 + rng.choice([0, 1, 999, 4, 444]) for _ in range(60)}
        if ctx.deep:
            ns |= set(range(65536))
        return sorted(n for n in ns if s.short(n))

    jobs = formats("builtin", builtins, numbers)
    custom = [S.additive_set([]), S.additive_set([("z", 0)]), S.additive_set([("i", 1)]), S.additive_set([("v", 5), ("z", 0)]),
              S.additive_set([("b", 256), ("a", 1)]), S.additive_set([("h", 2**127), ("a", 1), ("z", 0)]),
              S.additive_set([("x", 10), ("v", 5)]), S.additive_set([("c", 300), ("b", 256), ("a", 100), ("n", 7)])]
    # without allocation large numbers are cheap to ask for
    large = sample(rng, EDGES, 300) + N.log_uniform(rng, 200) + N.aliases(rng, [0, 1, 4, 5, 9, 10, 40, 90, 100, 900, 1000, 4000, 10**6], 100)
    jobs += formats("builtin-n", builtins, lambda s: sorted(set(large) | {n for n in numbers(s) if n % 7 == 0}), alloc=False)
    custom += [random_additive(rng) for _ in range(ctx.pick(160, 1500))]
    parts = ctx.pick(8, 24)
    for i in range(parts):
        sub = custom[i::parts]
        lines = sweep("F", sub, lambda s: additive_numbers(s, rng, ctx.pick(20, 80)))
        jobs.append(Job(f"custom-{i}", sub, lines))
        if i % 4 == 0:
            jobs.append(Job(f"custom-n-{i}", sub, rng.sample(lines, len(lines) // 2) + sweep("F", sub, lambda s: large[:20]), alloc=False))
    return jobs


def c09(ctx):
    rng = ctx.rng("c09")
    lines = ["V -"]

    def ask(vals):
        lines.append("V " + (";".join(f"{97 + i % 26}:{v}" for i, v in enumerate(vals)) or "-"))

    # every sequence of up to four small values (quick), five (thorough)
    import itertools
    for n in range(1, ctx.pick(5, 6)):
        for vals in itertools.product(range(0, ctx.pick(4, 5)), repeat=n):
            ask(vals)
    for _ in range(ctx.pick(3000, 20000)):
        n = rng.choice(S.ADDSET_SIZES[1:])
        vals = sorted((rng.getrandbits(rng.choice([3, 8, 9, 32, 64, 65, 128])) for _ in range(n)), reverse=True)
        k = rng.randrange(6)
        if k == 0 and n > 1:
            i = rng.randrange(n - 1)
            vals[i + 1] = vals[i]
        elif k == 1 and n > 1:
            i = rng.randrange(n - 1)
            vals[i], vals[i + 1] = vals[i + 1], vals[i]
        elif k == 2:
            vals[-1] = 0
        elif k == 3 and n > 1:
            vals[rng.randrange(n)] = 0
        elif k == 4 and n > 1:
            i = rng.randrange(n - 1)
            vals[i + 1] = vals[i] + rng.choice([-1, 0, 1])
        ask([min(max(v, 0), N.TOP) for v in vals])
    for a in fresh.NUMBERS[:600]:
        for b in (a - 1, a, a + 1, a // 2):
            ask([min(max(v, 0), N.TOP) for v in (rng.choice([N.TOP, a + 5]), a, b)[rng.randrange(2):]])
    jobs = shard("sets", [], lines_to_blocks(lines))
    # zero symbols in accepted sets
    custom = []
    for _ in range(ctx.pick(120, 1000)):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        vals = sorted(rng.sample(range(1, 60), n - 1), reverse=True) + [0]
        custom.append(S.additive_set([(c, v) for c, v in zip("abcdefg", vals)]))
    for _ in range(ctx.pick(60, 400)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6])
        vals = sorted(rng.sample(range(1, 60), n), reverse=True)
        custom.append(S.additive_set([(c, v) for c, v in zip("abcdefg", vals)]))
    for i in range(8):
        sub = custom[i::8]
        jobs.append(Job(f"zero-{i}", sub, sweep("F", sub, lambda s: range(0, ctx.pick(80, 200)))))
    return jobs


# ------------------------------------------------------- Hebrew and Ethiopic
HEBREW_CASES = [*range(1, 20), *range(20, 100, 10), *range(100, 500, 100), 115, 116, 415, 416, 800, 815]


def c10(ctx):
    rng = ctx.rng("c10")
    ns = set(range(0, ctx.pick(9000, 65536))) | {n for n in EDGES if n < 152_000} | set(N.around(*N.MAXES[:2], by=20))
    ns |= {400 * k + r for k in range(0, 380, ctx.pick(19, 3)) for r in (0, 1, 14, 15, 16, 17, 100, 115, 116, 215, 216, 315, 316, 399)}
    ns |= {rng.randrange(65536, 152_000) for _ in range(ctx.pick(300, 3000))}
    jobs = formats("hebrew", [S.HEBREW], lambda s: sorted(n for n in ns if s.short(n)))
    # without allocation large numbers are cheap to ask for
    big = set(EDGES) | set(N.log_uniform(rng, 2000)) | set(range(0, 13000, 7)) | set(N.aliases(rng, HEBREW_CASES, 1000))
    return jobs + formats("hebrew-n", [S.HEBREW], lambda s: sorted(big), alloc=False)


def ethiopic_numbers(ctx, rng):
    groups = [0, 0, 0, 1, 1, 2, 9, 10, 11, 20, 21, 90, 99, 100 - 1]
    ns = set(range(0, ctx.pick(12000, 65536))) | set(EDGES)
    ns |= set(N.grouped(rng, ctx.pick(6000, 60000), groups, 2, 19))
    ns |= {a * 100**k + b for k in range(1, 19) for a in (1, 2, 10, 11, 100, 101) for b in (0, 1, 2, 10, 11, 99, 100, 101, 10000) if b < 100**k and a * 100**k + b <= N.TOP}
    for b in (10, 100, 10**4):
        ns |= set(N.shapes(rng, ctx.pick(600, 6000), b))
    return sorted(ns | set(N.log_uniform(rng, ctx.pick(1500, 20000))) | set(N.around(*N.MAXES, by=3)))


def c11(ctx):
    rng = ctx.rng("c11")
    ns = ethiopic_numbers(ctx, rng)
    return formats("ethiopic", [S.ETHIOPIC], lambda s: ns, also=4) + [
        Job(f"distinct-{i}", [S.ETHIOPIC], [f"D 1 u128 {i * 6000}-{i * 6000 + 5999}", "D 1 u128 " + " ".join(map(str, ns[i::2][:4000]))]) for i in range(2)]


# ------------------------------------------------------------------- Chinese
GROUPS = [0, 0, 0, 1, 2, 9, 10, 11, 12, 19, 20, 21, 90, 100, 101, 110, 111, 120, 200, 909, 990, 999, 1000, 1001, 1010, 1011, 1100, 1101, 1110, 1111,
          2000, 2003, 2030, 2300, 5005, 9000, 9009, 9090, 9900, 9999]
CORE = [0, 1, 5, 10, 12, 100, 105, 1000, 1001, 1010, 1100, 2034, 9999]


def chinese_numbers(ctx, rng, k):
    ns = set(N.grouped(rng, k, GROUPS, 4, 10)) | set(N.decimal_patterns(rng, k // 2)) | set(sample(rng, EDGES, k))
    # pairs of neighbouring and distant groups
    for _ in range(k):
        a, b, i, j = rng.choice(CORE), rng.choice(CORE), rng.randrange(0, 9), rng.randrange(0, 9)
        if i != j:
            ns.add(a * 10**(4 * i) + b * 10**(4 * j))
    for b in (10, 10**4):
        ns |= set(N.shapes(rng, k // 4, b))
    return sorted(n for n in ns | set(N.log_uniform(rng, k // 4)) if n <= N.TOP)


def option_orders():
    """Every order of up to three options, and some longer ones."""
    opts = ["financial", "short", "mid", "long"]
    seqs = [[]] + [[a] for a in opts] + [[a, b] for a in opts for b in opts] + [[a, b, c] for a in opts for b in opts for c in opts if len({a, b, c}) == 3]
    return [S.chinese_opts(t, f, q) for t in (False, True) for f in (False, True) for q in seqs + [["long", "financial", "mid", "financial"]]]


OPTION_NUMBERS = [0, 7, 10, 12, 110, 1010, 10**4 * 2 + 3, 10**5, 12 * 10**4, 3 * 10**6 + 40, 10**8, 15 * 10**8 + 10**4, 10**12 + 1, 10**14, 10**15, 10**16 + 3, 10**24, 10**32 + 10**8, 2**128 - 1]


def c12(ctx):
    rng = ctx.rng("c12")
    systems = [S.chinese(*c) for c in S.CHINESE]

    def numbers(s):
        trad, fin, formal, scale = s.style
        k = ctx.pick(170, 3000)
        ns = set(chinese_numbers(ctx, rng, k)) | set(range(0, 130)) | set(rng.sample(range(10000), 100))
        if scale == "short":
            ns |= {n % 10**15 for n in ns}
        if (trad, fin) == (False, False) and scale == "myriad":
            ns |= set(range(0, ctx.pick(10010, 65536))) | {a * 10000 + b for a in CORE for b in GROUPS}
        if ctx.deep:
            ns |= set(range(0, 10000)) | set(EDGES)
        return sorted(ns)

    return formats("chinese", systems, numbers, also=8) + formats("options", option_orders(), lambda s: OPTION_NUMBERS)


def c13(ctx):
    rng = ctx.rng("c13")
    systems = [S.chinese(*c) for c in S.CHINESE]

    def numbers(s):
        trad, fin, formal, scale = s.style
        exps = {"myriad": range(4, 40, 4), "mid": (4, 8, 16, 24, 32), "long": (4, 8, 16, 32), "short": range(4, 16)}[scale]
        ns = set()
        for e in exps:
            for a in (1, 2, 10, 11, 20, 105, 1000, 9999, 10**4, 10**4 + 1, 10**8, 12 * 10**7 + 5):
                ns |= {a * 10**e, a * 10**e + 1, a * 10**e + 10**(e - 1), a * 10**e + 10**(e - 4), a * 10**e + 10**(e - 2), a * 10**e - 1}
        ns |= set(N.around(*N.MAXES, by=2)) | set(N.grouped(rng, ctx.pick(60, 1500), GROUPS, 4, 10)) | set(N.log_uniform(rng, ctx.pick(40, 500)))
        if scale == "short":
            ns |= {n % 10**15 for n in ns} | set(N.around(10**15, 10**16, 10**14 * 9, by=3)) | {10**15 + 5 * 10**14}
        ns |= set(N.around(10_000, 65_535, by=40))
        if ctx.deep:
            ns |= set(EDGES)
        return sorted(n for n in ns if n <= N.TOP)

    return formats("scales", systems, numbers, also=8) + formats("options", option_orders(), lambda s: OPTION_NUMBERS)


# ------------------------------------------------------------------ the rest
def random_enum(rng, empty=True):
    n = rng.choice(S.ENUM_SIZES)
    syms = [c if rng.random() < .6 else c * rng.randrange(1, 4) for c in (S.random_syms(rng, n) if n else "")]
    if n and rng.random() < .2:
        syms[rng.randrange(n)] = "long" * rng.choice([15, 16, 30])
    if empty and n > 1 and rng.random() < .25:
        syms[rng.randrange(n)] = ""  # a user's own choice
    return S.enum_set(syms, rng.random() < .5)


def c14(ctx):
    rng = ctx.rng("c14")
    systems = [S.enum_builtin("CircledNumber"), S.enum_builtin("DoubleCircledNumber")]
    for n in S.ENUM_SIZES:
        for z in (False, True):
            systems.append(S.enum_set([chr(0x4E00 + i) for i in range(n)], z))
    systems += [random_enum(rng) for _ in range(ctx.pick(40, 400))]

    def numbers(s):
        n = getattr(s, "size", 50)
        ns = set(range(0, n + 5)) | set(N.around(*N.MAXES, 256, 65536, 2**32, 2**64, by=2)) | set(N.log_uniform(rng, 30))
        # numbers that look small when cut to fewer bits
        ns |= {2**k + d for k in (8, 16, 32, 64, 65, 100) for d in (0, 1, 2, 10, 50)}
        return sorted(n for n in ns if n <= N.TOP)

    return formats("enum", systems, numbers) + formats("enum-n", systems, lambda s: sample(rng, numbers(s), 60), alloc=False)


def mixed_systems(rng, k_terms, k_add, k_enum, empty=True):
    out = S.all_builtins()
    out += [S.coll(S.random_term(rng, rng.choice([0, 1, 2, 3]))) for _ in range(k_terms)]
    out += [S.coll(wide_term(rng)) for _ in range(k_terms // 6)]
    out += [random_additive(rng, empty=empty) for _ in range(k_add)]
    out += [random_enum(rng, empty) for _ in range(k_enum)]
    if empty:
        out += [S.enum_set(["", "x"], z) for z in (False, True)] + [S.additive_set([("b", 3), ("", 1), ("", 0)])]
    return out


def wide_term(rng):
    """A view of more digits than 16 bits count, or nearly."""
    n = rng.choice([60000, 65535, 65536, 65537, 70000] + fresh.COUNTS * 2)
    t = S.user_range(n, 0x20000, rng.random() < .5, rng.random() < .5, rng.random() < .3, rng.choice(list(S.FALLBACKS)))
    k = rng.randrange(5)
    if k == 0:
        return t
    if k == 1:
        return S.restrict(rng.choice([n - 1, n, n + 1, 65536, 300, n - 200]), t)
    if k == 2:
        return S.one(t)
    if k == 3:
        return S.one(S.restrict(n - rng.randrange(3), t))
    return S.chain(S.digit_set("xyz", False), t) if not t.fixed else t


SHAPE_BASES = {"chinese": [10, 10**4, 10**8], "ethiopic": [10, 100, 10**4], "coll": [10, 26, 2, 16]}


def general_numbers(s, rng, k, alloc=True):
    """A few numbers aimed at whatever the system is."""
    ns = set(range(0, 22)) | set(sample(rng, EDGES, k)) | set(N.log_uniform(rng, k // 2)) | set(N.around(*N.MAXES))
    small = [0, 1, 2, 9, 10]
    if s.kind == "coll":
        ns |= set(sample(rng, term_numbers(s.term, rng, 30), k))
        small = [0, 1, s.term.len, s.term.len - 1, 10]
    elif s.kind == "additive":
        small = sample(rng, getattr(s, "values", [1, 5, 10, 50, 100, 500, 1000]), 5) or [0]
        ns |= set(N.around(*getattr(s, "values", [1000, 4000, 9000, 10000])))
        ns |= {rng.randrange(10**rng.randrange(1, 6)) for _ in range(k)}
    elif s.kind == "chinese":
        ns |= set(N.grouped(rng, k, GROUPS, 4, 10)) | {10**15, 10**15 - 1}
    elif s.kind == "enum":
        ns |= set(N.around(getattr(s, "size", 50), by=3))
    elif s.kind == "ethiopic":
        ns |= set(N.grouped(rng, k, [0, 0, 1, 10, 11], 2, 19))
    elif s.kind == "hebrew":
        ns |= {rng.randrange(20000) for _ in range(k)} | {15, 16, 115, 416} | set(N.aliases(rng, HEBREW_CASES, k))
    ns |= set(N.shapes(rng, k // 3, rng.choice(SHAPE_BASES.get(s.kind, [10])))) | set(N.aliases(rng, [v for v in small if v >= 0], 4)) | set(sample(rng, new_numbers(s, alloc), 60))
    return sorted(n for n in ns if 0 <= n <= N.TOP and (not alloc or s.short(n)))


def parts_of(systems, n):
    return [systems[i::n] for i in range(n)]


def own_systems():
    return [S.own(100, "oob", "<", "!"), S.own(7, "nozero", "字", "~"), S.own(0, "oom", "", "?"), S.own(2**40, "oob", "n", "#")]


def c15(ctx):
    rng = ctx.rng("c15")
    jobs = []
    for alloc in (True, False):
        systems = mixed_systems(rng, ctx.pick(40, 300), ctx.pick(30, 200), ctx.pick(10, 60))
        systems += [S.own(100, "oob", "<", "!", True), S.own(7, "oom", "字", "~", True), S.own(1, "oob", "", "?", True), S.own(2**40, "oom", "n", "#", True)]
        for i, sub in enumerate(parts_of(systems, 8)):
            lines = []
            for k, s in enumerate(sub):
                for n in general_numbers(s, rng, ctx.pick(30, 200), alloc):
                    for ty in sample(rng, N.types_of(n), 2):
                        lines.append(f"I {k + 1} {ty} {n}")
            # systems with infallible forms of their own
            for k, s in enumerate(own_systems()):
                for n in general_numbers(s, rng, ctx.pick(20, 100), alloc):
                    lines.append(f"G {len(sub) + k + 1} {rng.choice(N.types_of(n))} {n}")
            for n in sample(rng, EDGES, ctx.pick(60, 600)):
                ty = rng.choice(N.types_of(n))
                lines += [f"M oob {ty} {n}", f"M oom {ty} {n}", f"M nozero {ty} {n}"]
            jobs.append(Job(f"inf-{'a' if alloc else 'n'}-{i}", sub + own_systems(), lines, alloc=alloc))
    return jobs


def c16(ctx):
    rng = ctx.rng("c16")
    jobs = []
    for alloc in (True, False):
        systems = mixed_systems(rng, ctx.pick(120, 900), ctx.pick(60, 400), ctx.pick(20, 100))
        for i, sub in enumerate(parts_of(systems, 8)):
            lines = []
            for k, s in enumerate(sub):
                ns = set(general_numbers(s, rng, ctx.pick(50, 300), alloc)) | {n for n in set(N.around(*N.MAXES, by=3)) | set(range(240, 262)) if not alloc or s.short(n)}
                if alloc and s.tags or ctx.deep:
                    ns |= {n for n in range(256) if s.short(n)} | {n for n in rng.sample(range(65536), ctx.pick(60, 3000)) if s.short(n)}
                lines += [f"U {k + 1} {n}" for n in sorted(ns)]
            jobs.append(Job(f"types-{'a' if alloc else 'n'}-{i}", sub, lines, alloc=alloc))
    lines = [f"N {ty} {n}" for n in EDGES + N.log_uniform(rng, 500) if n < 2**64 for ty in N.types_of(n)]
    jobs.append(Job("numbers", [], lines))
    return jobs


def confusable(s, rng, k):
    """Clusters of numbers whose numerals a slip could make equal."""
    out = set()
    base = general_numbers(s, rng, k)
    for n in base:
        out |= {n, n + 1, n * 10, n * 100, n * 10000, n + 10**rng.randrange(0, 20), n // 10, n // 100}
        d = str(n)
        i = rng.randrange(len(d) + 1)
        out.add(int(d[:i] + "0" + d[i:]))
        out.add(int(d[:i] + "0000" + d[i:]))
        out.add(int(d[::-1]))
    return sorted(n for n in out if n <= N.TOP and s.short(n))


def windows(s, rng, k, size):
    """Stretches of numbers next to each other, of all magnitudes."""
    out = set()
    for _ in range(k):
        bits = rng.randrange(10, 129) if s.limit is None else rng.randrange(10, max(11, s.limit.bit_length()))
        at = min(rng.getrandbits(bits), N.TOP - size)
        out |= {n for n in range(at, at + size) if s.short(n)}
    return out


def B_other():
    return S.user_range(4, 0x4E00, zero=False)


def c17(ctx):
    rng = ctx.rng("c17")
    systems = S.all_builtins()
    for t in [S.user_range(5, 0x3B1, zero=False, zb=zb, fixed=True, fb=fb) for zb in (False, True) for fb in ("fixz", "fixa", "cjk", "fixn")]:
        systems.append(S.coll(t))
    systems += [S.coll(t) for t in (S.digit_set("01", True), S.digit_set("ab", False), S.digit_set("x", False), S.chain(S.builtin("Decimal"), S.builtin("LetterLower")), S.user_range(256), S.user_range(300, zero=True))]
    # views and unions of user collections, and sets, all with single symbols
    # that differ
    A, B = S.user_range(3, 0x3B1, zero=True), S.user_range(4, 0x3B1, zero=False, zb=False)
    systems += [S.coll(t) for t in (S.one(S.user_range(255, 0x4E00)), S.restrict(2, A), S.restrict(3, B), S.one(S.restrict(9, S.user_range(12, 0x3B1))), S.chain(A, S.digit_set("xyz", False)), S.chain(S.digit_set("xyz", False), B),
                                    S.one(S.chain(S.digit_set("xy", False), S.digit_set("vw", True))), S.restrict(4, S.chain(A, B_other())), S.user_range(256, 0x4E00, zero=True), S.user_range(257, 0x4E00))]
    for n in (0, 1, 2, 7, 20):
        systems += [S.enum_set([chr(0x4E00 + i) for i in range(n)], z) for z in (False, True)]
    for _ in range(ctx.pick(12, 100)):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        vals = sorted(rng.sample(range(0, rng.choice([8, 40, 300])), n), reverse=True)
        systems.append(S.additive_set(list(zip("abcdef", vals))))
    jobs = []
    for i, sub in enumerate(parts_of(systems, 8)):
        lines = []
        for k, s in enumerate(sub):
            top = ctx.pick(9000 if s.kind == "hebrew" else 3500, 65535)
            if s.limit is not None:
                top = min(top, s.limit)
            # decimal scripts differ only in their digits
            if not ctx.deep and s.kind == "coll" and s.term.len == 10 and s.term.zero:
                top = 1200
            lines.append(f"D {k + 1} u128 0-{top} " + " ".join(str(n) for n in sorted({*confusable(s, rng, ctx.pick(40, 1000)), *windows(s, rng, ctx.pick(10, 100), ctx.pick(30, 100))}) if n > top))
            if fresh.INTS:
                lines.append(f"D {k + 1} u128 " + " ".join(map(str, sample(rng, new_numbers(s), 1500))))
            lines.append(f"D {k + 1} u8 0-{min(255, s.limit or 255)}")
            lines.append(f"D {k + 1} u16 " + " ".join(map(str, sorted(rng.sample(range(min(65535, s.limit or 65535)), ctx.pick(300, 3000)) if (s.limit or 65535) > 3000 else range(s.limit + 1)))))
        jobs.append(Job(f"distinct-{i}", sub, lines))
    return jobs


def c18(ctx):
    """Pairs of requests, one per build; merged by the runner."""
    rng = ctx.rng("c18")
    systems = mixed_systems(rng, ctx.pick(120, 900), ctx.pick(60, 400), ctx.pick(40, 200))
    # texts of just about 62 bytes
    for n, z in (("01", True), ("字書", True), ("\u00e9\u00e8", False), ("\U0001f600\U0001f601", True), ("ab", False)):
        systems.append(S.coll(S.digit_set(n, z)))
    systems += [S.coll(S.user_range(1)), S.coll(S.one(S.user_range(1, 0x41)))]
    systems += [S.enum_set(["a" * 61, "a" * 62, "a" * 63, "字" * 20 + "ab", "字" * 21], z) for z in (False, True)]
    systems += [S.additive_set([("a" * k, 5), ("b" * 31, 1), ("z" * m, 0)]) for k, m in ((61, 62), (62, 63), (31, 61), (1, 64))]
    jobs = []
    for i, sub in enumerate(parts_of(systems, 8)):
        lines = []
        for k, s in enumerate(sub):
            ns = set(general_numbers(s, rng, ctx.pick(50, 300), False)) | set(range(22, 64))
            if s.kind == "coll" and s.term.len > 1:
                for w in (1, 2, 3, 4):
                    ns |= set(N.around(s.term.len**(62 // w)))
            if s.kind == "hebrew":
                ns |= set(N.around(400 * 30, 400 * 31, 400 * 32, by=20))
            if s.kind == "additive":
                top = max(getattr(s, "values", [0]) + [S.ADDITIVE.get(s.rec.get("name"), 1)])
                ns |= {top * c + r for c in (5, 9, 10, 11, 14, 15, 19, 20, 21, 30, 31, 32, 61, 62, 63) for r in (0, 1, 9, 99)}
            for n in sorted(ns):
                if n > N.TOP:
                    continue
                ty = rng.choice(N.types_of(n))
                lines.append(f"H {k + 1} {ty} {n}" + ("" if s.short(n) else " long"))
        jobs.append(Job(f"builds-{i}", sub, lines, alloc=None))
    return jobs


def c19(ctx):
    rng = ctx.rng("c19")
    jobs = []
    for alloc in (True, False):
        systems = mixed_systems(rng, ctx.pick(150, 1200), ctx.pick(80, 600), ctx.pick(40, 200), empty=False)
        for n in (0, 1, 2, 255, 256, 257, 300, 20000):
            for zero in (False, True):
                for zb in (False, True):
                    t = S.user_range(n, zero=zero, zb=zb)
                    systems += [S.coll(t), S.coll(S.one(t)), S.coll(S.user_range(n, zero=zero, zb=zb, fixed=True, fb=rng.choice(list(S.FALLBACKS))))]
        # a zero symbol or enumerated symbol may be the empty text only if the
        # user says so, so user symbols here are never empty
        for i, sub in enumerate(parts_of(systems, 8)):
            jobs.append(Job(f"total-{'a' if alloc else 'n'}-{i}", sub, sweep("T", sub, lambda s: general_numbers(s, rng, ctx.pick(30, 200), alloc)), alloc=alloc))
    return jobs


def c20(ctx):
    rng = ctx.rng("c20")
    systems = mixed_systems(rng, ctx.pick(60, 400), ctx.pick(30, 200), ctx.pick(20, 100)) + own_systems() * 3
    jobs = []
    for i, sub in enumerate(parts_of(systems, 8)):
        lines = []
        for k, s in enumerate(sub):
            for n in general_numbers(s, rng, ctx.pick(30, 200)):
                lines.append(f"W {k + 1} {rng.choice(N.types_of(n))} {n}")
        jobs.append(Job(f"wrapped-{i}", sub, lines))
    return jobs


def c21(ctx):
    rng = ctx.rng("c21")
    B = S.builtin
    terms = [B(n) for n in S.DECIMAL + S.HEX + S.ALPHA] + [S.one(B(n)) for n in S.ALPHA]
    terms += [S.digit_set("01", True), S.digit_set("ab", False), S.digit_set("x", False), S.one(S.digit_set("abc", False)),
              S.chain(B("Decimal"), B("LetterLower")), S.restrict(7, B("Decimal")), S.user_range(256), S.user_range(257, zero=True),
              S.one(S.user_range(255)), S.user_range(300), S.user_range(12, zero=True), S.user_range(60), S.restrict(3, S.one(B("LetterUpper")))]
    terms += [S.digit_set(S.random_syms(rng, rng.choice([2, 3, 5, 8, 13, 36, 100])), rng.random() < .5) for _ in range(ctx.pick(10, 80))]
    systems = [S.coll(t) for t in terms]
    blocks = []
    for i, s in enumerate(systems):
        lo = 0 if s.term.zero or s.term.zb else 1
        top = ctx.pick(300 if s.term.len == 10 and i < len(S.DECIMAL) and i else 700, 20000)
        top = min(top, s.limit or top)
        lines = [f"O {i + 1} u128 {lo} {top}"]
        for p in sample(rng, [n for n in new_numbers(s) if n > lo + 2], 40):
            lines.append(f"O {i + 1} u128 {p - 2} {min(p + 3, N.TOP, N.TOP if s.limit is None else s.limit)}")
        if s.term.len >= 2:
            for p in sample(rng, N.powers(s.term.len, by=0), ctx.pick(25, 100)) + N.MAXES + N.log_uniform(rng, ctx.pick(6, 40)):
                a, b = max(p - 2, lo), min(p + 3, N.TOP)
                ty = rng.choice(N.types_of(b))
                b = min(b, N.TYPE_MAX[ty])
                if a < b:
                    lines.append(f"O {i + 1} {ty} {a} {b}")
            for ty in N.TYPES:
                m = N.TYPE_MAX[ty]
                lines.append(f"O {i + 1} {ty} {m - 4} {m}")
        blocks.append(lines)
    return shard("odometer", systems, blocks)


def c22(ctx):
    """The same requests in different orders and from several threads."""
    rng = ctx.rng("c22")
    jobs = []
    for alloc in (True, False):
        systems = mixed_systems(rng, ctx.pick(24, 160), ctx.pick(14, 100), ctx.pick(8, 50))
        systems = [s for s in systems if s.kind != "coll" or s.term.len <= 20000]
        rng.shuffle(systems)
        parts = parts_of(systems, max(8, len(systems) // 14))
        for i, sub in enumerate(parts):
            lines = []
            for block in range(ctx.pick(10, 30)):
                few = rng.sample(range(len(sub)), min(len(sub), rng.choice([1, 2, 6])))
                ns = []
                for _ in range(3):
                    n = rng.choice(general_numbers(sub[rng.choice(few)], rng, 20, alloc))
                    # numbers that a careless memory could take for each other
                    ns += [n, n + 1, n % 256, n % 65536, n % 2**32, n % 2**64, n + 2**rng.choice([8, 16, 32, 64]), n * 10, int(str(n)[::-1])]
                asks = set()
                for k in few:
                    for n in rng.sample(ns, min(len(ns), 18 // len(few) + 4)):
                        if n <= N.TOP and (not alloc or sub[k].short(n)):
                            asks |= {f"{rng.choice('ffx')}:{k + 1}:{ty}:{n}" for ty in sample(rng, N.types_of(n), 2)}
                asks = sample(rng, sorted(asks), 60)
                strings = [(rng.randrange(10**6), rng.choice([3, 10, 20, 30, 40])) for _ in range(6)]
                asks += [f"z:{a}:{b}" for a, b in strings]
                rng.shuffle(asks)
                lines.append(f"Y {ctx.pick(4, 8)} {rng.randrange(10**6)} " + " ".join(asks))
            often = [70000] * 2 + [300] * 20 + [x + 3 for x in fresh.INTS if 70000 < x < 3_000_000]
            for times in often:
                k = rng.randrange(len(sub))
                n = rng.choice(general_numbers(sub[k], rng, 10, alloc))
                if n > 2**16 or times > 1000:
                    n %= 1000
                if sub[k].short(n):
                    lines.append(f"L {k + 1} {rng.choice(N.types_of(n))} {n} {times}")
            # every system from several threads at once
            for k in range(len(sub)):
                ns = [n for n in general_numbers(sub[k], rng, 10, alloc) if not alloc or sub[k].short(n)]
                long = sorted(ns, key=lambda n: abs(n.bit_length() - 50))[:12]
                asks = [f"f:{k + 1}:{rng.choice(N.types_of(n))}:{n}" for n in rng.sample(long, min(3, len(long))) + rng.sample(ns, min(2, len(ns)))]
                lines.append(f"B 4 {ctx.pick(400, 4000)} " + " ".join(asks))
            a, b = rng.randrange(10**6), rng.randrange(10**6)
            lines.append(f"B 4 {ctx.pick(400, 4000)} z:{a}:20 z:{b}:30 z:{a + 1}:12 z:{b + 1}:40")
            rng.shuffle(lines)
            jobs.append(Job(f"history-{'a' if alloc else 'n'}-{i}", sub, lines, alloc=alloc))
    return jobs


CHECKS = {f"C{i:02d}": globals()[f"c{i:02d}"] for i in range(1, 23)}
