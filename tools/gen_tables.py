#!/usr/bin/env python3
"""Writes spec/Tables.tla: the symbols of the built-in systems as code points.

The tables are derived from Unicode character names and from the tables of CSS
Counter Styles Level 3 / "Ready-made Counter Styles", not from the crate.
"""
import os
import unicodedata as u

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "spec", "Tables.tla")

L = u.lookup


def named(prefix, names):
    return [L(f"{prefix} {n}") for n in names]


def script(name):
    return [L(f"{name} DIGIT {d}") for d in
            "ZERO ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE".split()]


decimal = {
    "Decimal": [L(f"DIGIT {d}") for d in "ZERO ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE".split()],
    "EasternArabic": script("ARABIC-INDIC"), "Persian": script("EXTENDED ARABIC-INDIC"),
    "Bengali": script("BENGALI"), "Cambodian": script("KHMER"), "Devanagari": script("DEVANAGARI"),
    "Gujarati": script("GUJARATI"), "Gurmukhi": script("GURMUKHI"), "Kannada": script("KANNADA"),
    "Lao": script("LAO"), "Malayalam": script("MALAYALAM"), "Mongolian": script("MONGOLIAN"),
    "Myanmar": script("MYANMAR"), "Oriya": script("ORIYA"), "Tamil": script("TAMIL"),
    "Telugu": script("TELUGU"), "Thai": script("THAI"), "Tibetan": script("TIBETAN"),
    "CjkDecimal": list("〇一二三四五六七八九"),
}
for n, t in decimal.items():
    for i, c in enumerate(t):
        if n == "CjkDecimal":
            assert u.numeric(c) == i, (n, i)
        else:
            assert u.decimal(c) == i and ord(c) == ord(t[0]) + i, (n, i)
decimal["HexUpper"] = list("0123456789ABCDEF")
decimal["HexLower"] = list("0123456789abcdef")

greek = ("ALPHA BETA GAMMA DELTA EPSILON ZETA ETA THETA IOTA KAPPA LAMDA MU NU XI OMICRON PI RHO "
         "SIGMA TAU UPSILON PHI CHI PSI OMEGA").split()
aiueo = ("A I U E O KA KI KU KE KO SA SI SU SE SO TA TI TU TE TO NA NI NU NE NO HA HI HU HE HO "
         "MA MI MU ME MO YA YU YO RA RI RU RE RO WA WO N").split()
iroha = ("I RO HA NI HO HE TO TI RI NU RU WO WA KA YO TA RE SO TU NE NA RA MU U WI NO O KU YA MA "
         "KE HU KO E TE A SA KI YU ME MI SI WE HI MO SE SU").split()
assert len(greek) == 24 and len(aiueo) == 46 and len(iroha) == 47 and len(set(iroha)) == 47
jamo = "KIYEOK NIEUN TIKEUT RIEUL MIEUM PIEUP SIOS IEUNG CIEUC CHIEUCH KHIEUKH THIEUTH PHIEUPH HIEUH".split()
syll = "GA NA DA RA MA BA SA A JA CA KA TA PA HA".split()
alpha = {
    "LetterUpper": [chr(65 + i) for i in range(26)], "LetterLower": [chr(97 + i) for i in range(26)],
    "GreekUpper": named("GREEK CAPITAL LETTER", greek), "GreekLower": named("GREEK SMALL LETTER", greek),
    "Hiragana": named("HIRAGANA LETTER", aiueo), "Katakana": named("KATAKANA LETTER", aiueo),
    "HiraganaIroha": named("HIRAGANA LETTER", iroha), "KatakanaIroha": named("KATAKANA LETTER", iroha),
    "HangeulJamo": named("HANGUL LETTER", jamo), "HangeulSyllable": named("HANGUL SYLLABLE", syll),
}
fixed = {"CjkHeavenlyStem": list("甲乙丙丁戊己庚辛壬癸"), "CjkEarthlyBranch": list("子丑寅卯辰巳午未申酉戌亥")}

OV = "\u0305"


def roman(letters):
    i, v, x, l, c, d, m = letters
    small = [(m, 1000), (c + m, 900), (d, 500), (c + d, 400), (c, 100), (x + c, 90), (l, 50), (x + l, 40),
             (x, 10), (i + x, 9), (v, 5), (i + v, 4), (i, 1)]
    over = [("".join(ch + OV for ch in s), 1000 * w) for s, w in small if 4 <= w]
    return over + small


def by_rank(ones, tens, hundreds, thousands):
    out = []
    for rank, t in ((1000, thousands), (100, hundreds), (10, tens), (1, ones)):
        out += [(t[k], (k + 1) * rank) for k in range(len(t) - 1, -1, -1)]
    return out


def sino(digits, ten, hundred, thousand, drop_one, zero):
    def rank(word):
        return [(("" if drop_one and k == 0 else d) + word) for k, d in enumerate(digits)]
    return by_rank(list(digits), rank(ten), rank(hundred), rank(thousand)) + [(zero, 0)]


arm_u = [chr(0x531 + k) for k in range(36)]
arm_l = [chr(0x561 + k) for k in range(36)]
for k, c in enumerate(arm_u):
    assert u.name(c).startswith("ARMENIAN CAPITAL LETTER") and c.lower() == arm_l[k]
geo = named("GEORGIAN LETTER", "AN BAN GAN DON EN VIN ZEN HE TAN".split()), \
    named("GEORGIAN LETTER", "IN KAN LAS MAN NAR HIE ON PAR ZHAR".split()), \
    named("GEORGIAN LETTER", "RAE SAN TAR WE PHAR KHAR GHAN QAR SHIN".split()), \
    named("GEORGIAN LETTER", "CHIN CAN JIL CIL CHAR XAN HAR JHAN HAE".split())
additive = {
    "RomanUpper": roman("IVXLCDM") + [("N", 0)],
    "RomanLower": roman("ivxlcdm") + [("n", 0)],
    "ArmenianUpper": by_rank(arm_u[0:9], arm_u[9:18], arm_u[18:27], arm_u[27:36]),
    "ArmenianLower": by_rank(arm_l[0:9], arm_l[9:18], arm_l[18:27], arm_l[27:36]),
    "Georgian": [(L("GEORGIAN LETTER HOE"), 10000)] + by_rank(*geo),
    "JapaneseFormal": sino("壱弐参四伍六七八九", "拾", "百", "阡", False, "零"),
    "JapaneseInformal": sino("一二三四五六七八九", "十", "百", "千", True, "〇"),
    "HangeulFormal": sino("일이삼사오육칠팔구", "십", "백", "천", False, "영"),
    "HanjaInformal": sino("一二三四五六七八九", "十", "百", "千", True, "零"),
    "HanjaFormal": sino("壹貳參四五六七八九", "拾", "百", "仟", False, "零"),
}
circled = [c for c in map(chr, list(range(0x2460, 0x2474)) + list(range(0x3251, 0x3260)) + list(range(0x32B1, 0x32C0)))]
enumerated = {
    "CircledNumber": ("⓪" and ["\u24EA"] + circled, True),
    "DoubleCircledNumber": ([chr(0x24F5 + k) for k in range(10)], False),
}
for k, c in enumerate(enumerated["CircledNumber"][0]):
    assert u.numeric(c) == k, k
for k, c in enumerate(enumerated["DoubleCircledNumber"][0]):
    assert u.name(c).startswith("DOUBLE CIRCLED") and u.numeric(c) == k + 1


def seq(s):
    return "<<" + ", ".join("%d" % ord(c) for c in s) + ">>"


def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return "<<" + ", ".join(map(str, reversed(out))) + ">>"


def cases(rows, default=None):
    return "\n      [] ".join(rows)


with open(OUT, "w", encoding="utf-8") as f:
    w = f.write
    w("------------------------------- MODULE Tables -------------------------------\n")
    w("(* Generated by tools/gen_tables.py from Unicode names and the CSS counter  *)\n")
    w("(* style tables.  Symbols of the built-in systems as code points.           *)\n")
    w("EXTENDS Integers, Sequences\n\n")

    def table(kind, d, render):
        w("%sNames == {%s}\n" % (kind, ", ".join('"%s"' % k for k in d)))
        for k, v in d.items():
            w("T_%s == %s\n" % (k, render(v)))
        w("%sTable(name) ==\n    CASE %s\n\n" % (kind, "\n      [] ".join('name = "%s" -> T_%s' % (k, k) for k in d)))
    w("(* Digits in order of value. *)\n")
    table("Decimal", decimal, seq)
    w("(* Letters in alphabetical order. *)\n")
    table("Alpha", alpha, seq)
    w("(* One symbol per number from 1. *)\n")
    table("Fixed", fixed, seq)
    w("(* Symbols with their values (BigNat), descending. *)\n")
    table("Additive", additive, lambda v: "<<\n    " + ",\n    ".join(
        "[s |-> %s, v |-> %s]" % (seq(s), limbs(n)) for s, n in v) + ">>")
    w("(* Symbol texts in ascending order. *)\n")
    table("Enumerated", {k: v[0] for k, v in enumerated.items()},
          lambda v: "<<" + ", ".join(seq(s) for s in v) + ">>")
    w('EnumeratedZero(name) == name = "CircledNumber"\n')
    w("=============================================================================\n")
