"""Is the binding tight?  Takes recorded answers of each kind, falsifies them
one field at a time, and has TLC judge each: it must refuse them all."""
import concurrent.futures as cf
import copy
import json
import os
import shutil
import tempfile

from .run import SPEC, SHARDS, Job, ToolError, judge, merge, write_trace

# event: the fields that are answers
ANSWERS = {"f": ("o",), "u": ("o",), "i": ("a", "x", "y"), "m": ("x", "y"), "n": ("zero", "usize"), "cap": ("n",),
           "w": ("a", "b", "x", "y"), "g": ("a", "b", "x", "y"), "h": ("b", "bi"), "t": ("o", "x"), "c": ("len", "empty", "zero", "digits"),
           "v": ("r",), "d": ("t",), "k": ("x", "y", "z"), "p": ("x",), "q": ("x",), "o": ("o",), "z": ("reply", "see"), "told": ("o",), "l": ("o",)}
KINDS = {"F": "f", "U": "u", "I": "i", "W": "w", "G": "g", "H": "h", "T": "t", "C": "c", "V": "v", "D": "d", "K": "k", "P": "p",
         "Q": "q", "O": "o", "Z": "z", "Y": "told", "L": "l"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if not x:
            yield path, x
        for i in sorted({0, len(x) // 2, len(x) - 1}) if x else ():
            yield from leaves(x[i], path + (i,))
    else:
        yield path, x


def put(e, path, v):
    e = copy.deepcopy(e)
    at = e
    for k in path[:-1]:
        at = at[k]
    at[path[-1]] = v
    return e


def at(e, path):
    for k in path:
        e = e[k]
    return e


def falsified(e, storage):
    """Versions of an event with one answer changed."""
    kind = e["e"]
    if kind == "u":
        # only agreement is judged: a second, different answer
        o = e["o"][0]
        other = {"r": "ok", "t": [120]} if o["r"] != "ok" else {"r": "ok", "t": o["t"] + [120]}
        yield "one type answers differently", put(e, ("o",), [o, other])
        if o["r"] in ("oob", "oom"):
            yield "another number in the error", put(e, ("o", 0, "p"), o["p"] + [1])
        return
    if kind == "told":
        # the last answer of a history is one that was given before
        yield "another answer than before", put(e, ("o", "t"), e["o"]["t"] + [120])
        yield "another kind of answer", put(e, ("o", "r"), "nozero" if e["o"]["r"] != "nozero" else "ok")
        yield "not what was asked", put(e, ("q",), e["q"] % 2 + 1)
        yield "nobody's answer", put(e, ("k",), 99)
        return
    if kind == "l":
        yield "a second answer", put(e, ("o",), e["o"] + [{"r": "ok", "t": [120], "p": []}])
        return
    if kind == "d":
        if len(e["t"]) > 1:
            yield "two numerals are the same", put(e, ("t", 0), e["t"][-1])
        return
    if kind == "t":
        for f in ("o", "x"):
            if e[f]:
                yield f"{f}: a panic", put(e, (f, 0), {"r": "panic"})
                yield f"{f}: nothing written", put(e, (f, 0), {"r": "ok", "t": []})
        if e["o"] and e["o"][0]["r"] == "ok":
            yield "a foreign symbol", put(e, ("o", 0, "t"), e["o"][0]["t"] + [1])
        return
    for f in ANSWERS[kind]:
        seen = set()
        for path, v in leaves(e[f], (f,)):
            shape = tuple(k for k in path)
            if shape in seen or (path[-1] == "heap" and not storage):
                continue
            seen.add(shape)
            name = ".".join(map(str, path))
            if kind == "c" and f == "zero" and e["len"] == 0:
                continue  # left open
            if kind == "o" and e["first"] and path[-1] != "r":
                continue
            if isinstance(v, bool):
                yield f"{name} inverted", put(e, path, not v)
            elif isinstance(v, int):
                yield f"{name} off by one", put(e, path, v + 1)
            elif isinstance(v, str):
                yield f"{name} another answer", put(e, path, "oob" if v != "oob" else "nozero")
            elif v == [] and path[-1] in ("t", "digits"):
                yield f"{name} no longer empty", put(e, path, [120])
            if path[-1] == 0 and isinstance(v, int) and path[-2] in ("t", "p", "digits"):
                shorter = at(e, path[:-1])[:-1]
                yield f"{name} shortened", put(e, path[:-1], shorter)


def samples(jobs):
    """For each kind of request and build, the least that records one."""
    picked = {}
    for job in jobs:
        start = 0
        for i, line in enumerate(job.lines):
            if line.startswith("RESET"):
                start = i
            kind = line[0]
            if line.split()[0] in ("M", "N", "CAP"):
                kind = {"M": "m", "N": "n", "CAP": "cap"}[line.split()[0]]
            elif kind in KINDS:
                kind = KINDS[kind]
            else:
                continue
            key = (kind, job.alloc)
            stateful = kind in ("z", "k", "p", "q")
            # an event deep inside its history says more
            if key not in picked or (len(picked[key]) < 3 and (not stateful or i - start > 6)):
                lines = job.lines[start:i + 1] if stateful else [line]
                picked.setdefault(key, []).append(Job("sample", job.systems, lines, job.alloc, job.storage))
    return picked


def check(jobs, exes, cwd):
    work = tempfile.mkdtemp(prefix="refuse", dir=cwd)
    todo = []
    for (kind, _), found in samples(jobs).items():
        for n, job in enumerate(found):
            path = os.path.join(work, f"{kind}{n}-{job.alloc}.ndjson")
            if job.alloc is None:
                write_trace(job, exes[True], path + "a", True)
                write_trace(job, exes[False], path + "b", False)
                merge(path + "a", path + "b", path)
            else:
                write_trace(job, exes[job.alloc], path, job.alloc)
            lines = open(path).read().splitlines()
            e = json.loads(lines[-1])
            if e["e"] != kind:
                continue
            todo.append((kind, "as recorded", lines, False))
            for what, bad in falsified(e, job.storage):
                todo.append((kind, what, lines[:-1] + [json.dumps(bad)], True))
            if kind in ("z", "o") and len(lines) > 4:
                gone = lines[:-2] + lines[-1:]
                if lines[-2] != lines[-1] and '"see":' in lines[-2] and json.loads(lines[-2]).get("see") != e.get("see"):
                    todo.append((kind, "an event is missing", gone, None))

    def one(item):
        kind, what, lines, falsified_ = item
        d = tempfile.mkdtemp(dir=work)
        for f in ("Trace.tla", "Trace.cfg"):
            shutil.copy(os.path.join(SPEC, f), d)
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        _, _, _, bad = judge(path, d)
        shutil.rmtree(d, ignore_errors=True)
        if falsified_ is True and not bad:
            raise ToolError(f"a falsified {kind} event is accepted ({what}): {lines[-1][:600]}")
        if falsified_ is False and bad:
            return None  # a violation; reported by the traces themselves
        return (kind, falsified_, bad)

    with cf.ThreadPoolExecutor(max_workers=SHARDS) as ex:
        done = list(ex.map(one, todo))
    shutil.rmtree(work, ignore_errors=True)
    kinds = sorted({k for k, f, b in filter(None, done) if f})
    return {"falsified_events_refused": sum(1 for x in filter(None, done) if x[1] and x[2]), "event_kinds": kinds}
