#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("TLA+ specification checked with TLC: trace validation of recorded public-API runs, replay of the behaviours TLC "
        "generates from the specification, exhaustive bounded design models; thorough: also TLAPS proofs where listed in the "
        "evidence, falsified traces, a 32-bit and a release build")
NOTE = ("Every recorded answer of the real crate is checked by TLC to be a step of the TLA+ specification; the "
        "specification itself is checked exhaustively within small bounds by the design models named in the evidence. "
        "Assumes the driver reports answers faithfully and that inputs not run behave like those that were; ")
DETAIL = {
    "C01": "random and exhaustive-length operation histories on nominal strings, with and without alloc.",
    "C02": "the same histories, judged for storage, refusal and hand-over, plus formatted strings around 62 bytes.",
    "C03": "all comparison traits, Display parameters and conversions on strings built in different ways.",
    "C04": "all built-in and many custom digit sets, dense small ranges, powers and type limits, every holding type.",
    "C05": "all alphabetic systems and custom ones of every critical size, dense small ranges, word-length boundaries.",
    "C06": "all built-in fixed collections and a grid of custom ones with every fallback, around their last digit.",
    "C07": "nestings of combinators over small and large leaves, exhaustively for small ones and at random.",
    "C08": "every built-in additive system densely over its range, values of the published tables.",
    "C09": "random and edge-case additive sets, symbol orders accepted and refused.",
    "C10": "Hebrew over dense ranges and thousands boundaries.",
    "C11": "Ethiopic over dense ranges and combinations of groups up to u128.",
    "C12": "all 32 Chinese configurations over combinations of digit groups.",
    "C13": "all scales around every rank word and limit.",
    "C14": "built-in and custom enumerations at every size class, numbers that alias after truncation.",
    "C15": "every error kind and type; every public way to an infallible text.",
    "C16": "every system from every type that holds the number.",
    "C17": "pairwise distinctness of thousands of numerals per system.",
    "C18": "the two builds of the crate against each other.",
    "C19": "every system at edges and at random; panics, hangs and runaway memory are answers never allowed.",
    "C20": "every wrapper of every system against the system itself.",
    "C22": "the same requests listed, shuffled and from four or eight threads at once, repeated up to 70,000 times; threads' own schedules.",
    "C21": "runs of consecutive numbers against the odometer's successor.",
}


def main():
    checks = []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH,
                       "level": "model_checking", "level_note": NOTE + "covered: " + DETAIL[i]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks: the public API exposes everything the specification speaks of."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
