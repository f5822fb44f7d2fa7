"""Numbers worth asking for."""
MAXES = [2**8 - 1, 2**16 - 1, 2**32 - 1, 2**64 - 1, 2**128 - 1]
TOP = 2**128 - 1
TYPES = ["u8", "u16", "u32", "u64", "u128", "usize"]
TYPE_MAX = {"u8": MAXES[0], "u16": MAXES[1], "u32": MAXES[2], "u64": MAXES[3], "u128": MAXES[4], "usize": MAXES[3]}


def types_of(n):
    return [t for t in TYPES if n <= TYPE_MAX[t]]


def clip(ns):
    return sorted({n for n in ns if 0 <= n <= TOP})


def around(*ns, by=1):
    return clip(n + d for n in ns for d in range(-by, by + 1))


def edges():
    """Type limits and powers of two and ten."""
    out = set(range(0, 40)) | set(around(*MAXES, by=2))
    for k in range(39):
        out |= set(around(10**k, by=1)) | {d * 10**k for d in range(1, 10)}
        out |= {10**k * 11, 10**k * 15, 10**k * 16, 10**k * 10 + 1}
    for k in range(129):
        out |= set(around(2**k, by=1))
    return clip(out)


def powers(b, by=1):
    """Where numerals over b digits change length or carry, in both the
    ordinary and the zeroless numbering."""
    out = set()
    if b < 2:
        return clip(range(0, 70))
    p, s = 1, 0
    while p <= TOP:
        s += p
        out |= set(around(p, s, s - 1, s + p, by=by))
        out |= set(around(p * (b - 1), p * b - p // b if b else 0, by=1))
        p *= b
    return clip(out)


def aliases(rng, values, k):
    """Large numbers that look like one of `values` when cut to fewer bits."""
    out = set()
    for v in values:
        out |= {2**w + v for w in (8, 16, 32, 64)}
    values = list(values)
    for _ in range(k):
        w = rng.choice([8, 16, 32, 64])
        out.add((rng.getrandbits(rng.randrange(1, 129 - w)) << w) + rng.choice(values))
    return clip(out)


def log_uniform(rng, k, bits=128):
    return [rng.getrandbits(rng.randrange(1, bits + 1)) for _ in range(k)]


def decimal_patterns(rng, k, digits=39):
    """Numbers whose decimal digits are mostly zeros and ones, in runs."""
    out = []
    while len(out) < k:
        n, s = rng.randrange(1, digits + 1), ""
        while len(s) < n:
            s += rng.choice("0000001111225678999") * rng.choice([1, 1, 1, 2, 3, 4, 4, 5, 8])
        v = int(s[:n])
        if v <= TOP:
            out.append(v)
    return out


def grouped(rng, k, values, size, groups):
    """Numbers made of up to `groups` groups of `size` decimal digits, each
    with a value from `values`."""
    out = []
    while len(out) < k:
        v = 0
        for _ in range(rng.randrange(1, groups + 1)):
            v = v * 10**size + rng.choice(values)
        if v <= TOP:
            out.append(v)
    return out


def base_patterns(rng, k, b):
    """Numbers whose base-b digits are extreme: 0, 1, b-1."""
    out = []
    if b < 2:
        return [rng.randrange(0, 380) for _ in range(k)]
    while len(out) < k:
        v = 0
        while rng.random() < .97 and v * b + b - 1 <= TOP:
            v = v * b + rng.choice([0, 0, 1, b - 1, b - 1, b - 2, rng.randrange(b)])
        out.append(v)
    return out


def shapes(rng, k, b):
    """Numbers whose base-b digits have some regularity."""
    out = []
    if b < 2:
        return []
    top = 1
    while b**(top + 1) <= TOP:
        top += 1

    def value(ds):
        v = 0
        for d in ds:
            v = v * b + d
        return v

    while len(out) < k:
        n = rng.randrange(2, top + 1) if top > 2 else 2
        kind = rng.randrange(10)
        d, e = rng.randrange(b), rng.randrange(b)
        half = [rng.choice([0, 1, d, e, rng.randrange(b)]) for _ in range((n + 1) // 2)]
        if kind == 0:
            v = value([d] * n)
        elif kind == 1:
            v = value([d, e] * (n // 2) + [d] * (n % 2))
        elif kind == 2:
            v = value(half + half[::-1][n % 2:])
        elif kind == 3:
            v = value(half * 2)
        elif kind == 4:
            v = value([(d + i * (1 if e % 2 else -1)) % b for i in range(n)])
        elif kind == 5:
            v = value([d] * (n - n // 2) + [e] * (n // 2))
        elif kind == 6:
            v = value([d] + [0] * (n - 2) + [e])
        elif kind == 7:
            v = rng.getrandbits(rng.randrange(2, 65))**2
        elif kind == 8:
            i = rng.randrange(n)
            v = value([d] * i + [e] + [d] * (n - i - 1))
        else:
            v = rng.getrandbits(rng.randrange(1, 33)) * b**rng.randrange(0, n)
        if v <= TOP:
            out.append(v)
    return out
