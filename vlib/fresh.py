"""Constants in the crate's sources that were not there when these checks were
written.  They decide nothing; like a fuzzer's dictionary they only make
sure that numbers, lengths and characters the code now treats in a special way
are among those that are asked for.  On the unchanged tree there are none."""
import collections
import json
import os
import re

from . import numbers as N
from . import run

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")
SUFFIX = r"_?(?:u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)?"


def integer(s):
    s = re.sub(r"_?[ui](8|16|32|64|128|size)$", "", s.replace("_", ""))
    try:
        return int(s, 0) if s[:2].lower() in ("0x", "0b", "0o") else int(s)
    except ValueError:
        return None


def unescape(s):
    s = re.sub(r"\\u\{([0-9A-Fa-f_]+)\}", lambda m: chr(min(int(m.group(1).replace("_", ""), 16), 0x10FFFF)), s)
    return re.sub(r"\\x([0-7][0-9A-Fa-f])", lambda m: chr(int(m.group(1), 16)), s)


def literals(source):
    """The integers and the characters a source text mentions."""
    source = re.sub(r"(?m)^\s*//.*$|\s//\s.*$", "", source)
    ints, chars = collections.Counter(), collections.Counter()

    def text(m):
        for c in unescape(m.group(0)[1:-1]):
            if not 0xD800 <= ord(c) <= 0xDFFF:
                chars[c] += 1
        return " "

    source = re.sub(r'"(?:[^"\\]|\\.)*"', text, source)
    source = re.sub(r"'(?:\\u\{[0-9A-Fa-f_]+\}|\\x[0-7][0-9A-Fa-f]|\\.|[^'\\])'", text, source)
    for m in re.finditer(r"\b([ui])(8|16|32|64|128|size)::(MAX|BITS)\b", source):
        bits = 64 if m.group(2) == "size" else int(m.group(2))
        ints[bits if m.group(3) == "BITS" else 2**(bits - (m.group(1) == "i")) - 1] += 1
    num = r"(?:0x[0-9A-Fa-f_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)" + SUFFIX
    for m in re.finditer(rf"(?<![\w.])({num})\b(?:\s*\.\s*pow\(\s*({num})\s*\)|\s*<<\s*({num})\b)?", source):
        a, p, s = (integer(x) if x else None for x in m.groups())
        if a is None:
            continue
        ints[a] += 1
        if p is not None and p < 200:
            ints[p] += 1
            ints[a**p] += 1
        if s is not None and s < 128:
            ints[s] += 1
            ints[a << s] += 1
    return ints, chars


def all_literals():
    ints, chars = collections.Counter(), collections.Counter()
    for d, _, fs in sorted(os.walk(os.path.join(run.REPO, "src"))):
        for f in sorted(fs):
            if f.endswith(".rs"):
                with open(os.path.join(d, f), encoding="utf-8", errors="replace") as fh:
                    i, c = literals(fh.read())
                ints += i
                chars += c
    return ints, chars


def changed():
    try:
        with open(BASE) as f:
            base = json.load(f)
        ints, chars = all_literals()
    except (OSError, ValueError):
        return [], []
    new_i = ints - collections.Counter({int(k): v for k, v in base["ints"].items()})
    new_c = chars - collections.Counter(base["chars"])
    return sorted(i for i in new_i if i <= N.TOP)[:40], sorted(new_c)[:40]


INTS, CHARS = changed()
if os.environ.get("VERIF_FRESH"):
    # for trying the checks out: as if these constants were new
    INTS, CHARS = sorted(int(x) for x in os.environ["VERIF_FRESH"].split(",")), ["\u0305", "x"]
# lengths of texts and sizes of sets
SIZES = [i for i in INTS if 0 < i <= 5000][:12]
COUNTS = [i for i in INTS if 0 < i <= 80000][:12]


def around_all():
    out = set(N.around(*INTS, by=2))
    for i in INTS:
        out |= {i * k + d for k in (2, 3, 10, 100, 256) for d in (-1, 0, 1)} | {N.TOP - i, i * i, i * i - 1, i * i + 1}
        out |= {2**w + i + d for w in (8, 16, 32, 64) for d in (-1, 0, 1)}
        if i < 129:
            out |= set(N.around(2**i, 10**min(i, 38)))
    for i in INTS[:12]:
        out |= {i * j + d for j in INTS[:12] for d in (0, 1)} | {i + j for j in INTS[:12]}
    return N.clip(out)


NUMBERS = around_all() if INTS else []


def numbers(base=10):
    """Numbers aimed at the new constants, for a system counting in `base`."""
    out = set(NUMBERS)
    for i in INTS:
        if base >= 2 and i < 140:
            for e in (i - 2, i - 1, i, i + 1):
                if e >= 0:
                    out |= {base**e - 1, base**e, base**e + 1, 2 * base**e, base**e + base**max(e - 1, 0), base**e * (base - 1),
                            sum(base**x for x in range(e + 1))}
        if base >= 2:
            out |= {i * base**e + r for e in (1, 2, 5, 9) for r in (0, 1, i % base)}
    return N.clip(out)
