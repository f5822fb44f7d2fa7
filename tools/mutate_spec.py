#!/usr/bin/env python3
"""mutate_spec.py [MODULE ...]: are the design models able to fail?

Changes one token of a module of the specification at a time, in a scratch
copy, and runs the design models that use the module.  Prints the mutants that
all of them accept; those are to be explained (equivalent, or a weakened law)
or call for a further law."""
import concurrent.futures as cf
import os
import random
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import models, run  # noqa: E402

USES = {
    "InlineBuffer": ["InlineBuffer", "InlineBuffer, no alloc", "InlineBuffer, two strings, no alloc"],
    "NominalStr": ["InlineBuffer", "InlineBuffer, no alloc", "InlineBuffer, two strings, no alloc"],
    "Utf8": ["Utf8"], "Text": ["Utf8"],
    "Positional": ["Positional"], "Collections": ["Positional", "Odometer"], "Odometer": ["Odometer"], "Terms": ["Positional"],
    "AdditiveMachine": ["Additive"], "Additive": ["Additive"],
    "HebrewMachine": ["Hebrew"], "Hebrew": ["Hebrew"],
    "EthiopicMachine": ["Ethiopic"], "Ethiopic": ["Ethiopic"],
    "ChineseMachine": ["Chinese, digits", "Chinese, groups", "Chinese, wide"],
    "Chinese": ["Chinese, digits", "Chinese, groups", "Chinese, wide"],
    "EnumMachine": ["Enumerated"], "Enumerated": ["Enumerated"], "Dispatch": ["Dispatch"],
}
SWAPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" <= ", [" < ", " >= "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]),
         (r" = ", [" # "]), (r" # ", [" = "]), (r" \\div ", [" % "]), (r" % ", [" \\div "]), (r"\bTRUE\b", ["FALSE"]), (r"\bFALSE\b", ["TRUE"]),
         (r" /\\ ", [" \\/ "]), (r" \\/ ", [" /\\ "]), (r"~", [""]), (r"(?<![\w\"])0(?![\w\"])", ["1"]), (r"(?<![\w\"])1(?![\w\"])", ["0", "2"]),
         (r"\\cup", ["\\cap"]), (r"\bHead\b", ["Last0"]), (r" \\o ", [None])]


def mutants(text):
    clean = re.sub(r"\(\*.*?\*\)", lambda m: " " * len(m.group(0)), text, flags=re.S)
    clean = re.sub(r"\\\*.*", lambda m: " " * len(m.group(0)), clean)
    out = []
    for pat, news in SWAPS:
        for m in re.finditer(pat, clean):
            before = clean[clean.rfind("\n", 0, m.start()) + 1:m.start()]
            if before.lstrip().startswith(("EXTENDS", "MODULE", "----", "VARIABLE", "CONSTANT")):
                continue
            for new in news:
                if new in (None, "Last0"):
                    continue
                out.append((m.start(), m.group(0), new))
    return out


def attempt(module, at, old, new, names):
    d = tempfile.mkdtemp(prefix="mutant-")
    try:
        for f in os.listdir(run.SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(run.SPEC, f), d)
        p = os.path.join(d, module + ".tla")
        s = open(p).read()
        open(p, "w").write(s[:at] + new + s[at + len(old):])
        for name in names:
            mod, cfg, _ = models.MODELS[name]
            sub = tempfile.mkdtemp(dir=d)
            run.SPEC_SAVED = d
            cmd = run.java(["-workers", "1", "-config", os.path.join(d, cfg + ".cfg"), os.path.join(d, mod + ".tla")], sub, 0, "2g")
            cmd = [c.replace(f"-DTLA-Library={run.SPEC}", f"-DTLA-Library={d}") for c in cmd]
            import subprocess
            try:
                r = subprocess.run(cmd, cwd=sub, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return "timeout"
            if r.returncode or "No error has been found" not in r.stdout:
                m = re.search(r"Error: (.*)", r.stdout)
                return (m.group(1) if m else f"exit {r.returncode}")[:80]
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    limit = int(os.environ.get("LIMIT", "60"))
    for module in sys.argv[1:] or USES:
        text = open(os.path.join(run.SPEC, module + ".tla")).read()
        ms = mutants(text)
        if len(ms) > limit:
            ms = random.Random(module).sample(ms, limit)
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "7"))) as ex:
            got = list(ex.map(lambda m: attempt(module, *m, USES[module]), ms))
        lost = [m for m, g in zip(ms, got) if g is None]
        print(f"{module}: {len(ms)} mutants, {len(ms) - len(lost)} refused", flush=True)
        for at, old, new in sorted(lost):
            line = text.count("\n", 0, at) + 1
            print(f"  {module}.tla:{line}: {old.strip()} -> {new.strip() or '(nothing)'}: {text.splitlines()[line - 1].strip()[:110]}", flush=True)


main()
