"""The same requests on a platform whose usize has 32 bits: the driver,
interpreted by Miri for i686, answers a sample of each property's requests;
the answers are judged by the same specification.  Numbers of 2^32 and more do
not fit a usize there, so code that goes through usize takes other paths.

Miri also stops at undefined behaviour of the unsafe code it comes across,
which shows as a run that died."""
import os
import subprocess

from . import run

TARGET = "i686-unknown-linux-gnu"
WIDE = 2**32


def env():
    e = run.env()
    e.update(RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", XDG_CACHE_HOME=os.path.join(run.BUILD, "cache"),
             MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
    return e


class Interpreter:
    """Stands for the driver's executable."""

    def __init__(self, alloc):
        target = os.path.join(run.BUILD, f"{run.source_hash()}-narrow-{'alloc' if alloc else 'noalloc'}")
        self.cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--locked", "--target", TARGET, "--target-dir", target,
                    "--manifest-path", os.path.join(run.VERIF, "driver", "Cargo.toml")]
        if not alloc:
            self.cmd.append("--no-default-features")
        self.env = env()
        r = subprocess.run(self.cmd, env=self.env, input=b"", capture_output=True, timeout=600)
        if r.returncode:
            raise run.ToolError("driver does not run under Miri:\n" + r.stderr.decode(errors="replace")[-3000:])


def cost(line):
    """Roughly, how many numerals a request makes."""
    t = line.split()
    if t[0] in ("F", "U"):
        return 6
    if t[0] in ("T", "I", "G"):
        return 12
    if t[0] == "W":
        return 20
    if t[0] == "Y":
        return (len(t) - 3) * (2 + int(t[1])) * 2 + 60 * int(t[1])
    if t[0] == "B":
        return (len(t) - 3) * int(t[1]) * int(t[2]) * 2 + 60 * int(t[1])
    if t[0] == "L":
        return 2 * int(t[4])
    if t[0] == "O":
        return int(t[4]) - int(t[3]) + 1
    if t[0] in "ZKPQ":
        return 4 + len(line) // 40 + (20 if t[0] in "KPQ" else 0)
    return 2


def fits(line):
    t = line.split()
    if "usize" in t:
        at = t.index("usize")
        if any(x.isdigit() and int(x) >= WIDE for x in t[at + 1:]):
            return False
    # what a number says of itself as a usize, when it is not one
    return not (t[0] == "N" and int(t[2]) >= WIDE)


def shorten(line, rng):
    t = line.split()
    if t[0] == "Y":
        return " ".join([t[0], "2", t[2], *t[3:23]])
    if t[0] == "B":
        return " ".join([t[0], "2", "6", *t[3:]])
    if t[0] == "L":
        return " ".join([*t[:4], str(min(int(t[4]), 40))])
    if t[0] == "D":
        ns = []
        for p in t[3:]:
            a, _, b = p.partition("-")
            ns += range(int(a), int(b or a) + 1)
        return " ".join(t[:3] + [str(n) for n in sorted(rng.sample(ns, min(len(ns), 60)))])
    if t[0] == "O" and int(t[4]) - int(t[3]) > 12:
        a = rng.randrange(int(t[3]), int(t[4]) - 10)
        return " ".join(t[:3] + [str(a), str(a + 10)])
    return line


def sample(job, rng, budget, systems=24):
    """A part of a job, with few of its systems, that costs about `budget`."""
    n = len(job.systems)
    small = [i for i in range(n) if job.systems[i].kind != "coll" or job.systems[i].term.len <= 600]
    keep = sorted(rng.sample(small, min(systems, len(small))))
    index = {i + 1: k + 1 for k, i in enumerate(keep)}
    blocks, plain = [], []
    for line in job.lines:
        if line[0] == "R":
            blocks.append([line])
        elif line[0] in "ZKPQ" and line[:2] != "Z ":
            blocks[-1].append(line)
        elif line[:2] == "Z ":
            t = line.split()
            if t[1] == "fmt":
                if int(t[2]) not in index or not fits(line):
                    blocks[-1].append(None)
                    continue
                t[2] = str(index[int(t[2])])
                line = " ".join(t)
            blocks[-1].append(line)
        else:
            t = line.split()
            if t[0] in ("Y", "B"):
                asks = []
                for a in t[3:]:
                    f = a.split(":")
                    if f[0] != "z":
                        if int(f[1]) not in index or not fits(a.replace(":", " ")):
                            continue
                        f[1] = str(index[int(f[1])])
                    asks.append(":".join(f))
                line = " ".join(t[:3] + asks)
            elif t[0] in ("F", "U", "T", "I", "W", "G", "H", "C", "D", "O", "L"):
                if int(t[1]) not in index or not fits(line) or (t[0] == "H" and "long" in t):
                    continue
                t[1] = str(index[int(t[1])])
                line = " ".join(t)
            elif not fits(line):
                continue
            plain.append([line])
    blocks = [b for b in blocks if None not in b and max(map(len, b)) < 1000] + plain
    rng.shuffle(blocks)
    out, spent = [], 0
    for b in blocks:
        b = [shorten(x, rng) for x in b]
        c = sum((cost(x) if x[0] != "D" else len(x.split())) for x in b)
        if spent + c > budget:
            if spent > budget * .8:
                break
            continue
        spent += c
        out += b
    return run.Job(f"{job.name}-narrow", [job.systems[i] for i in keep], out, alloc=job.alloc, storage=job.storage)


def jobs(ctx, given, budget):
    """One sampled job per shard, taken from those given."""
    rng = ctx.rng("narrow")
    given = [j for j in given if j.lines]
    some = rng.sample(given, min(run.SHARDS, len(given)))
    out = [sample(j, rng, budget // (2 if j.alloc is None else 1)) for j in some]
    return [j for j in out if j.lines]


def check(ctx, given, cwd, budget=4500):
    picked = jobs(ctx, given, budget)
    needed = {x for j in picked for x in ((True, False) if j.alloc is None else (j.alloc,))}
    exes = {x: Interpreter(x) for x in needed}
    return run.run_jobs(picked, exes, cwd)
