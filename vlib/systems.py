"""Nominal systems: how to ask the driver for one and how to tell the
specification about it."""
import random


class Sys:
    """A system: driver command, specification record, and which numbers its
    texts stay short for when memory is unlimited."""

    def __init__(self, cmd, rec, kind, limit=None, tags=()):
        self.cmd, self.rec, self.kind, self.limit, self.tags = cmd, rec, kind, limit, frozenset(tags)

    def short(self, n):
        """Is the text of n, if any, at most 400 symbols?"""
        return self.limit is None or n <= self.limit

    def __repr__(self):
        return self.cmd


def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out[::-1]


def cps(s):
    return [ord(c) for c in s]


def arg(s):
    return ",".join(str(ord(c)) for c in s) or "-"


# --------------------------------------------------------------- collections
DECIMAL = ("Decimal EasternArabic Persian Bengali Cambodian CjkDecimal Devanagari Gujarati Gurmukhi Kannada Lao "
           "Malayalam Mongolian Myanmar Oriya Tamil Telugu Thai Tibetan").split()
HEX = ["HexUpper", "HexLower"]
ALIASES = {"Urdu": "Persian", "Khmer": "Cambodian"}
ALPHA = ("LetterUpper LetterLower GreekUpper GreekLower Hiragana HiraganaIroha Katakana KatakanaIroha HangeulJamo "
         "HangeulSyllable").split()
FIXED = ["CjkHeavenlyStem", "CjkEarthlyBranch"]
ALPHA_LEN = {"LetterUpper": 26, "LetterLower": 26, "GreekUpper": 24, "GreekLower": 24, "Hiragana": 46,
             "HiraganaIroha": 47, "Katakana": 46, "KatakanaIroha": 47, "HangeulJamo": 14, "HangeulSyllable": 14}


class Term:
    """A digit collection: driver tokens, specification term, and a few facts
    (len, zero, zero-based, fixed, fallback) used to aim the numbers."""

    def __init__(self, tok, rec, n, zero, zb, fixed, fb=None):
        self.tok, self.rec, self.len, self.zero, self.zb, self.fixed, self.fb = tok, rec, n, zero, zb, fixed, fb

    @property
    def limit(self):
        if self.fixed:
            return self.fb.limit if self.fb is not None and self.fb.len else None
        return 380 if self.len == 1 and not self.zero else None


def builtin(name):
    rec = {"c": "builtin", "name": ALIASES.get(name, name)}
    tok = f"b {name}"
    if name in ALPHA:
        return Term(tok, rec, ALPHA_LEN[name], False, True, False)
    if name in FIXED:
        return Term(tok, rec, 10 if name == "CjkHeavenlyStem" else 12, False, False, True, builtin("CjkDecimal"))
    return Term(tok, rec, 16 if name in HEX else 10, True, True, False)


NONE = Term("NoFallback", {"c": "none"}, 0, False, True, False)
SET_SIZES = (list(range(0, 18)) + [20, 24, 26, 32, 36, 37, 46, 52, 60, 62, 64, 100, 128, 200, 254, 255, 256, 257, 300,
                                   1000])


def digit_set(syms, zero):
    return Term(f"set {int(zero)} {arg(syms)}", {"c": "set", "syms": cps(syms), "zero": zero}, len(syms), zero, True,
                False)


def _fix(base, n, zero, zb, fb):
    return Term(None, {"c": "range", "base": base, "len": n, "zero": zero, "zb": zb, "fixed": True, "fb": fb.rec}, n,
                zero, zb, True, fb)


FIXA = _fix(0x24B6, 20, False, False, builtin("Decimal"))
FIXZ = _fix(0x24D0, 12, False, True, FIXA)
FIXN = _fix(0x2080, 5, True, True, NONE)
SING = _fix(0x2609, 1, False, True, FIXN)
TALLY = Term(None, {"c": "range", "base": 124, "len": 1, "zero": False, "zb": False, "fixed": False, "fb": NONE.rec}, 1, False, False, False)
ZERO = Term(None, {"c": "range", "base": 0x24EA, "len": 1, "zero": True, "zb": True, "fixed": False, "fb": NONE.rec}, 1, True, True, False)
FALLBACKS = {"none": NONE, "cjk": builtin("CjkDecimal"), "hex": builtin("HexLower"), "let": builtin("LetterUpper"),
             "fixa": FIXA, "fixz": FIXZ, "fixn": FIXN, "sing": SING, "tally": TALLY, "zero": ZERO,
             "emp": Term(None, {"c": "restrict", "k": 0, "a": builtin("Decimal").rec}, 0, True, True, False)}


def user_range(n, base=0x4E00, zero=False, zb=True, fixed=False, fb="none"):
    f = FALLBACKS[fb]
    return Term(f"range {n} {base} {int(zero)} {int(zb)} {int(fixed)} {fb}",
                {"c": "range", "base": base, "len": n, "zero": zero, "zb": zb, "fixed": fixed, "fb": f.rec},
                n, zero, zb, fixed, f)


def one(a):
    return Term(f"one {a.tok}", {"c": "one", "a": a.rec}, a.len, a.zero, False, a.fixed, a.fb)


def restrict(k, a):
    k = max(k, 0)
    return Term(f"rest {k} {a.tok}", {"c": "restrict", "k": min(k, 2_000_000_000), "a": a.rec}, min(k, a.len), a.zero, a.zb, a.fixed, a.fb)


def chain(a, b):
    return Term(f"chain {a.tok} {b.tok}", {"c": "chain", "a": a.rec, "b": b.rec}, a.len + b.len, a.zero, a.zb, False)


def coll(term, tags=()):
    s = Sys("coll " + term.tok, {"k": "coll", "c": term.rec}, "coll", term.limit, tags)
    s.term = term
    return s


# ------------------------------------------------------------ other systems
ADDITIVE = {"RomanUpper": 1_000_000, "RomanLower": 1_000_000, "ArmenianUpper": 9000, "ArmenianLower": 9000,
            "Georgian": 10_000, "JapaneseFormal": 9000, "JapaneseInformal": 9000, "HangeulFormal": 9000,
            "HanjaInformal": 9000, "HanjaFormal": 9000}


def additive(name):
    return Sys("additive " + name, {"k": "additive", "name": name}, "additive", ADDITIVE[name] * 350, ("builtin",))


ADDSET_SIZES = list(range(0, 11)) + [12, 16, 20, 26, 40]


def greedy_count(values, n):
    c = 0
    for v in values:
        if v:
            c += n // v
            n %= v
    return c


def additive_set(symbols):
    """symbols: [(text, value)], values strictly descending."""
    cmd = "addset " + (";".join(f"{arg(s)}:{v}" for s, v in symbols) or "-")
    rec = {"k": "additive", "set": [{"s": cps(s), "v": limbs(v)} for s, v in symbols]}
    out = Sys(cmd, rec, "additive", None, ("custom",))
    values = [v for _, v in symbols]
    widest = max([len(s) for s, _ in symbols] + [1])
    out.short = lambda n: greedy_count(values, n) * widest <= 400
    out.values = values
    return out


def enum_builtin(name):
    return Sys("enum " + name, {"k": "enum", "name": name}, "enum", None, ("builtin",))


ENUM_SIZES = list(range(0, 13)) + [16, 20, 50, 51, 100, 255, 256, 257, 300]


def enum_set(syms, zero):
    s = Sys(f"enumset {int(zero)} " + (";".join(map(arg, syms)) or "-"),
            {"k": "enum", "syms": [cps(s) for s in syms], "zero": zero}, "enum", None, ("custom",))
    s.size = len(syms)
    return s


SCALES = ["myriad", "mid", "long", "short"]


def chinese_opts(trad, formal, opts):
    """The style after applying the options one after another."""
    s = Sys(f"chinese {int(trad)} {int(formal)} {','.join(opts) or '-'}",
            {"k": "chinese", "trad": trad, "formal": formal, "opts": list(opts)}, "chinese")
    scale = ([o for o in opts if o != "financial"] or ["myriad"])[-1]
    s.tags = frozenset({scale})
    s.style = (trad, "financial" in opts, formal, scale)
    return s


def chinese(trad, fin, formal, scale, last=None):
    """A style; last tells whether the characters are chosen after the scale."""
    if last is None:
        last = (trad + formal + SCALES.index(scale)) % 2 == 1
    a, b = ["financial"] * fin, [scale] * (scale != "myriad")
    return chinese_opts(trad, formal, b + a if last else a + b)


CHINESE = [(t, f, fo, sc) for sc in SCALES for t in (False, True) for f in (False, True) for fo in (False, True)]
HEBREW = Sys("hebrew", {"k": "hebrew"}, "hebrew", 400 * 380)
ETHIOPIC = Sys("ethiopic", {"k": "ethiopic"}, "ethiopic")


def own(bound, err, pre, inf, fails=False):
    return Sys(f"{'fails' if fails else 'own'} {bound} {err} {arg(pre)} {arg(inf)}",
               {"k": "own", "bound": limbs(bound), "err": err, "pre": cps(pre)}, "own")


def builtin_collections():
    names = DECIMAL + list(ALIASES) + HEX + ALPHA + FIXED
    return [coll(builtin(n), ("builtin",)) for n in names] + [coll(one(builtin(n)), ("builtin",)) for n in ALPHA + FIXED + ["Decimal", "HexUpper"]]


def all_builtins():
    return (builtin_collections() + [additive(n) for n in ADDITIVE] + [enum_builtin("CircledNumber"),
            enum_builtin("DoubleCircledNumber")] + [chinese(*c) for c in CHINESE] + [HEBREW, ETHIOPIC])


# ------------------------------------------------------- random collections
POOL = [chr(c) for r in ((0x21, 0x7E), (0xA1, 0x17F), (0x391, 0x3A1), (0x4E00, 0x4EFF), (0xAC00, 0xAC7F),
                         (0x1D400, 0x1D44F), (0x1F600, 0x1F640)) for c in range(r[0], r[1])]


def random_syms(rng, n):
    # distinct symbols, of one UTF-8 width or mixed
    pools = [POOL, [chr(c) for c in range(0x21, 0x7F)], [chr(c) for c in range(0xC0, 0x500)],
             [chr(c) for c in range(0x4E00, 0x5400)], [chr(c) for c in range(0x1F300, 0x1F800)]]
    p = rng.choice([q for q in pools if len(q) >= n])
    return "".join(rng.sample(p, n))


def random_leaf(rng):
    k = rng.randrange(10)
    if k < 2:
        return builtin(rng.choice(DECIMAL + HEX + ALPHA + FIXED + FIXED))
    if k < 5:
        return digit_set(random_syms(rng, rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 10, 13, 16, 26, 64, 100])),
                         rng.random() < .5)
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, 20, 35, 60, 255, 256, 257, 300])
    base = rng.choice([0x21, 0x3B1, 0x4E00, 0x1F300]) if n < 80 else 0x4E00
    zero = rng.random() < .4
    return user_range(n, base, zero, rng.random() < .5, rng.random() < .45, rng.choice(list(FALLBACKS)))


def random_term(rng, depth):
    if depth == 0 or rng.random() < .15:
        return random_leaf(rng)
    k = rng.randrange(3)
    if k == 0:
        return one(random_term(rng, depth - 1))
    if k == 1:
        a = random_term(rng, depth - 1)
        c = rng.choice([0, 1, 2, 3, max(a.len - 1, 0), a.len, a.len + 1, rng.randrange(0, a.len + 3), 2**64 - 1 if rng.random() < .3 else 300])
        return restrict(c, a)
    while True:
        a, b = random_term(rng, depth - 1), random_term(rng, depth - 1)
        # Chains of fixed collections are left unspecified.
        if not a.fixed and not b.fixed:
            return chain(a, b)
        if rng.random() < .05:
            return one(random_leaf(rng))
