"""Building the driver, recording traces from the real crate, and having TLC
judge them."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ building
def source_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "driver", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "driver", "Cargo.toml")]
    files += [os.path.join(REPO, f) for f in ("build.rs",) if os.path.exists(os.path.join(REPO, f))]
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read() + b"\0")
    return h.hexdigest()[:20]


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    return e


def build(alloc, release=False):
    """The driver linked with /repo as it is now.  Each state of the sources
    gets a target directory of its own, so nothing stale can be used.  A
    release build has no overflow checks and is optimised."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        tag = source_hash()
        target = os.path.join(BUILD, f"{tag}-{'alloc' if alloc else 'noalloc'}{'-release' if release else ''}")
        exe = os.path.join(target, "release" if release else "debug", "nominals-driver")
        if os.path.exists(os.path.join(target, "done")):
            return exe
        olds = sorted((os.path.getmtime(p), p) for p in (os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != "cache")
                      if os.path.isdir(p))
        for _, p in olds[:-5]:
            shutil.rmtree(p, ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", target]
        if not alloc:
            cmd.append("--no-default-features")
        if release:
            cmd.append("--release")
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "driver"), env=env(), capture_output=True, text=True,
                           timeout=600)
        if r.returncode:
            raise ToolError("driver does not build:\n" + r.stderr[-4000:])
        open(os.path.join(target, "done"), "w").close()
        return exe


# ---------------------------------------------------------------------- TLC
def java(args, cwd, timeout, heap="3g", extra=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=cwd)
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss64m", f"-Xmx{heap}", *extra,
           f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC", "-metadir", meta, *args]
    return cmd


def tlc(module, cfg, cwd, workers=1, timeout=800, envs=None, heap="3g", extra=(), jvm=()):
    cmd = java(["-workers", str(workers), "-config", cfg, *extra, module], cwd, timeout, heap, jvm)
    e = dict(os.environ)
    e.update(envs or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC ran out of time on {module}")
    out = r.stdout + r.stderr
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return r.returncode, out, gen, dist


def record(exe, lines, path, timeout=600):
    """Run request lines through the driver; the events go to `path`."""
    cmd, e = ([exe], None) if isinstance(exe, str) else (exe.cmd, exe.env)
    with open(path, "ab") as f:
        r = subprocess.run(cmd, input="\n".join(lines).encode() + b"\n", stdout=f, stderr=subprocess.PIPE,
                           timeout=timeout, env=e)
    return r.returncode, r.stderr.decode(errors="replace")


def header(systems, alloc, storage=True):
    return json.dumps({"e": "header", "alloc": alloc, "storage": storage,
                       "sys": [s.rec for s in systems]}, ensure_ascii=True, separators=(",", ":"))


class Job:
    """One trace: requests to one build of the driver, all with the same
    systems."""

    def __init__(self, name, systems, lines, alloc=True, storage=True):
        self.name, self.systems, self.lines, self.alloc, self.storage = (
            name, systems, lines, alloc, storage)


def shard(name, systems, blocks, n=None, **kw):
    """Deal blocks (lists of request lines) over n traces, evenly by size."""
    n = n or SHARDS
    bins = [[0, []] for _ in range(n)]
    for b in sorted(blocks, key=len, reverse=True):
        t = min(bins, key=lambda x: x[0])
        t[0] += len(b)
        t[1] += b
    return [Job(f"{name}-{i}", systems, b[1], **kw) for i, b in enumerate(bins) if b[1]]


def lines_to_blocks(lines, n=None):
    n = n or SHARDS * 4
    return [b for b in (lines[i::n] for i in range(n)) if b]


class Rejected:
    """An event the specification does not allow."""

    def __init__(self, job, line, event, explanation, trace):
        self.job, self.line, self.explanation, self.trace = job, line, explanation, trace
        self.event = json.loads(event)
        asked = ["S " + s.cmd for s in job.systems] + job.lines
        i = self.event.get("i", 0)
        self.request = asked[i - 1] if 0 < i <= len(asked) else "?"
        # what a replay needs: the systems, and for string events everything
        # since the last reset
        start = i - 1
        if self.request[:1] in "ZKPQ":
            while start > 0 and not asked[start].startswith("RESET"):
                start -= 1
        self.requests = asked[max(start, len(job.systems)):i] if i > len(job.systems) else []


def judge(path, cwd):
    """Have TLC decide whether the trace is a behaviour of the specification:
    (events, states, transitions, None or (line number, explanation))."""
    code, out, gen, dist = tlc("Trace.tla", "Trace.cfg", cwd, envs={"TRACE": path})
    with open(path, "rb") as f:
        total = sum(1 for _ in f)
    m = re.search(r'<<"REJECTED", (\d+)>>(.*?)(?:Error:|Warning:|Finished|\d+ states generated)', out, re.S)
    if m:
        return total - 1, dist, gen - 1, (int(m.group(1)), m.group(2).strip()[:3000])
    # The last line reached, when TLC could make no sense of the event there:
    # an answer unlike any the specification speaks of.
    at = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
    if code == 75 and at and 2 <= at[-1] <= total:
        return total - 1, dist, gen - 1, (at[-1], "not an answer the specification knows: " + re.sub(r"\s+", " ", out[out.find("Error:"):])[:600])
    if code != 0:
        raise ToolError(f"TLC failed (exit {code}) on {path}:\n{out[-3000:]}")
    if dist != total - 1 and dist != total:
        raise ToolError(f"TLC checked {dist} states of a trace of {total} lines")
    return total - 1, dist, gen - 1, None


def write_trace(job, exe, path, alloc):
    with open(path, "w") as f:
        f.write(header(job.systems, alloc, job.storage) + "\n")
    code, err = record(exe, ["S " + s.cmd for s in job.systems] + job.lines, path)
    if code != 0:
        # The process died: an answer the specification never allows.
        with open(path, "a") as f:
            f.write(json.dumps({"e": "died", "code": code, "err": err[-300:]}) + "\n")


def merge(a, b, path):
    """The answers of the two builds to the same requests, side by side.
    Events that are no answers go through as they are."""
    with open(a) as f, open(b) as g, open(path, "w") as out:
        out.write(f.readline())
        g.readline()
        left, right = f.read().splitlines(), g.read().splitlines()
        for x, y in zip(left, right):
            p, q = json.loads(x), json.loads(y)
            if p["e"] != "h" or q["e"] != "h":
                out.write((x if p["e"] != "h" else y) + "\n")
                return
            out.write(json.dumps({"i": p["i"], "e": "h", "s": p["s"], "n": p["n"], "a": p["a"], "ai": p["b"],
                                  "b": q["a"], "bi": q["b"]}, separators=(",", ":")) + "\n")
        if len(left) != len(right):
            out.write(json.dumps({"e": "unanswered"}) + "\n")


def run_job(job, exes, cwd):
    d = os.path.join(cwd, job.name)
    os.makedirs(d)
    for f in ("Trace.tla", "Trace.cfg"):
        shutil.copy(os.path.join(SPEC, f), d)
    path = os.path.join(d, "trace.ndjson")
    if job.alloc is None:
        pa, pb = os.path.join(d, "with.ndjson"), os.path.join(d, "without.ndjson")
        write_trace(job, exes[True], pa, True)
        write_trace(job, exes[False], pb, False)
        merge(pa, pb, path)
    else:
        write_trace(job, exes[job.alloc], path, job.alloc)
    events, states, trans, bad = judge(path, d)
    rej = None
    with open(path) as f:
        lines = f.read().splitlines()
    if bad:
        rej = Rejected(job, bad[0], lines[bad[0] - 1], bad[1], lines)
    some = lines[1 + (len(lines) * 5) // 7 % max(1, len(lines) - 1)] if len(lines) > 1 else ""
    shutil.rmtree(d, ignore_errors=True)
    return Result(job, events, states, trans, rej, some)


class Result:
    def __init__(self, job, events, states, transitions, rejected, sample):
        self.job, self.events, self.states, self.transitions, self.rejected, self.sample = (
            job, events, states, transitions, rejected, sample)


def run_jobs(jobs, exes, cwd):
    with cf.ThreadPoolExecutor(max_workers=SHARDS) as ex:
        return [f.result() for f in [ex.submit(run_job, j, exes, cwd) for j in jobs]]
