"""C08: buffered objects reach the file on time, in bounded containers (conservation: in = in file + held back)."""

from .. import blf, gen, model as m
from ..iofiles import RecFile

PROP = "C08"
LEVEL = "exploration"
RULE = ("After every write the file's contents so far are parsed independently: bytes of accepted objects minus object "
        "bytes in complete containers = bytes held back, compared with the buffer size; every container's payload is "
        "compared with the buffer size. Distinct = different (encodings, level, buffer size); non-trivial = at least "
        "one container was emitted before closing.")
ASSUMPTIONS = ["the file is what was passed to its write(); an operating system's or io module's own buffers are below it"]
REQUIRED = {"writes_monitored": 3000, "containers_before_close": 1000, "objects_larger_than_buffer": 50, "max_most_containers": 60_000, "default_buffers": 10}


def monitor(ctx, rng, items, level, bs, rejects=False, every=1):
    f = RecFile()
    w = gen.writer_cls()(f, level, bs)
    encs = []
    total = 0
    worst = 0
    emitted = 0
    for k, it in enumerate(items):
        if rejects and rng.random() < 0.3:
            extra = gen.try_reject(ctx, w, rng)
            if extra:
                encs.append(extra.raw)
                total += len(extra.raw)
        w.write(it.build())
        encs.append(it.raw)
        total += len(it.raw)
        if len(it.raw) > bs:
            ctx.count("objects_larger_than_buffer")
        if (k + 1) % every and k + 1 != len(items):
            continue
        raw = f.content()
        try:
            cs = blf.parse_containers(raw)
            payload = b"".join(c.payload for c in cs)
            ends, part = blf.locate(payload, encs, partial=True)
        except blf.Malformed as ex:
            ctx.fail(f"after write {k} (level {level}, buffer size {bs}): {ex}", file=raw)
        infile = sum(len(e) for e in encs[:len(ends)]) + part
        held = total - infile
        worst = max(worst, held)
        ctx.check(held < bs, f"after write {k}: {held} bytes of objects held back with a buffer of {bs} "
                  f"(level {level}, sizes {[len(e) for e in encs][-6:]})")
        for j, c in enumerate(cs[emitted:], emitted):
            n = len(c.payload)
            ctx.check(n == bs, f"container {j} emitted before close carries {n} bytes, buffer size is {bs} (level {level})")
        emitted = len(cs)
        ctx.count("writes_monitored")
    w.close()
    try:
        cs = blf.parse_containers(f.content())
        blf.locate(b"".join(c.payload for c in cs), encs)
    except blf.Malformed as ex:
        ctx.fail(f"after close (level {level}, buffer size {bs}): {ex}", file=f.content())
    for j, c in enumerate(cs):
        ctx.check(len(c.payload) <= bs, f"container {j} carries {len(c.payload)} bytes, buffer size is {bs}")
    ctx.count("containers_before_close", emitted)
    ctx.count("containers_at_close", len(cs) - emitted)
    ctx.eval((tuple(encs), int(level), bs), emitted > 0)
    ctx.maxi("held_back", worst)
    ctx.sample(lambda: {"level": int(level), "buffer_size": bs, "object_sizes": [len(e) for e in encs][:40],
                        "most_held_back": worst, "containers": len(cs)})


def sweep(ctx, rng, index):
    """Every buffer size around small objects."""
    spec = m.SPECS[index % len(m.SPECS)]
    items = [gen.Item(spec, spec.gen(rng, 10)) for _ in range(5)]
    n = len(items[0].raw)
    for bs in [1, 2, 7, 8, 9, n - 8, n - 1, n, n + 1, n + 7, n + 8, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 8, 3 * n, 4 * n + 9]:
        if bs > 0:
            monitor(ctx, rng, items, gen.gen_level(rng), bs)


def random(ctx, rng, index):
    items = gen.seq(rng, rng.choice((1, 2, 5, 10, 20)), rng.choice((0, 20, 100, 300)))
    bs = rng.choice((rng.randint(1, 64), rng.randint(64, 1000), rng.randint(100, 400)))
    monitor(ctx, rng, items, rng.randint(0, 9), bs)


def large(ctx, rng, index):
    """Objects many times the buffer, among small ones, at default and small buffers."""
    bs = rng.choice((128 * 1024, 4096, 1000, 333, 65536))
    items = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.6:
            items.append(gen.big_item(rng, int(bs * rng.choice((0.5, 0.99, 1, 1.01, 1.5, 2, 3, 5.5, 10)))))
        else:
            items.append(gen.item(rng, 30))
    monitor(ctx, rng, items, gen.gen_level(rng), bs)


def rejects(ctx, rng, index):
    items = gen.seq(rng, rng.randint(1, 12), 60)
    monitor(ctx, rng, items, rng.randint(0, 9), rng.randint(1, 300), rejects=True)


def long_logs(ctx, rng, index):
    """Thousands of objects at realistic buffer sizes: nothing piles up."""
    pool = gen.seq(rng, 20, 60)
    items = [rng.choice(pool) for _ in range(3000)]
    monitor(ctx, rng, items, gen.gen_level(rng), rng.choice((4096, 20000, 128 * 1024)), every=150)


DEFAULT = 128 * 1024


def defaults(ctx, rng, index):
    """A writer made without a buffer size buffers the documented 128 KiB."""
    f = RecFile()
    w = gen.writer_cls()(f) if index % 2 else gen.writer_cls()(f, compression_level=index // 2 % 10)
    size = rng.choice((700, 5000, 40_000, 300_000))
    pool = [gen.big_item(rng, rng.randint(size // 2, size)) for _ in range(4)] + [gen.item(rng, 50)]
    encs = []
    total = 0
    while total < DEFAULT * (2 + index % 3):
        it = rng.choice(pool)
        w.write(it.build())
        encs.append(it.raw)
        total += len(it.raw)
    for final in (False, True):
        if final:
            w.close()
        try:
            cs = blf.parse_containers(f.content())
            ends, part = blf.locate(b"".join(c.payload for c in cs), encs, partial=not final)
        except blf.Malformed as ex:
            ctx.fail(f"writer with the default buffer: {ex}")
        for j, c in enumerate(cs):
            n = len(c.payload)
            ctx.check(n == DEFAULT or (final and n < DEFAULT and j == len(cs) - 1),
                      f"container {j} of a writer with the default buffer (128 KiB) carries {n} bytes{' after close' if final else ''}")
        held = total - sum(len(e) for e in encs[:len(ends)]) - part
        ctx.check(held < DEFAULT, f"{held} bytes held back with the default buffer (128 KiB)")
    ctx.count("default_buffers")
    ctx.eval((tuple(encs[:50]), len(encs), "default"))


def many_containers(ctx, rng, index):
    """Tens of thousands of containers in one log: the last is made like the first."""
    n = (20_000, 70_000)[index % 2] if not ctx.thorough else (70_000, 140_000)[index % 2]
    bs = rng.randint(1, 90)
    level = rng.choice((0, 0, 1))
    pool = gen.seq(rng, 12, 20)
    f = RecFile(max_ops=60 * n + 100_000)
    w = gen.writer_cls()(f, level, bs)
    pos = 144  # file parsed up to here
    tail = b""  # contained bytes not matched yet
    pending = []  # encodings not completely in the file yet
    ncont = k = 0

    def scan(final=False):
        nonlocal pos, tail, pending, ncont
        try:
            cs = blf.parse_containers(bytes(144 + pos % 8) + f.since(pos))
            for j, c in enumerate(cs):
                got = len(c.payload)
                ctx.check(got == bs or (final and got < bs and j == len(cs) - 1),
                          f"container {ncont + j} of the log carries {got} bytes, buffer size is {bs} (level {level})")
            ncont += len(cs)
            if cs:
                pos += cs[-1].end - 144 - pos % 8
            tail += b"".join(c.payload for c in cs)
            ends, part = blf.locate(tail, pending, partial=not final)
        except blf.Malformed as ex:
            ctx.fail(f"after {k} objects and {ncont} containers (level {level}, buffer size {bs}): {ex}")
        if ends:
            tail, pending = tail[ends[-1]:], pending[len(ends):]
        return sum(len(e) for e in pending) - part

    while ncont < n:
        for _ in range(300):
            it = pool[k % len(pool)]
            k += 1
            w.write(it.build())
            pending.append(it.raw)
        held = scan()
        ctx.check(held < bs, f"after {k} objects and {ncont} containers {held} bytes are held back with a buffer of {bs} (level {level})")
        ctx.count("writes_monitored")
    w.close()
    scan(True)
    ctx.count("containers_before_close", ncont)
    ctx.maxi("most_containers", ncont)
    ctx.eval((k, ncont, bs, level))


def families(tier):
    t = tier == "thorough"
    return [
        ("sweep", len(m.SPECS) * (60 if t else 4), sweep),
        ("defaults", 400 if t else 40, defaults),
        ("large", 600 if t else 40, large),
        ("many_containers", 12 if t else 3, many_containers),
        ("long_logs", 80 if t else 6, long_logs),
        ("rejects", 30000 if t else 800, rejects),
        ("random", 80000 if t else 3000, random),
    ]
