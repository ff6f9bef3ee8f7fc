"""C05: every file the writer produces is structurally valid BLF (strict independent parser)."""

from .. import blf, gen, model as m

PROP = "C05"
LEVEL = "exploration"
RULE = ("A case writes a generated object sequence and runs the strict independent format checker over the finished "
        "file: file header, container alignment, filler, declared method and sizes, deflate streams, object stream. "
        "Distinct = different (encodings, level, buffer size); non-trivial = at least one container.")
ASSUMPTIONS = ["strict format rules as in vf/blf.py (from Vector's published layout)"]
REQUIRED = {"containers_checked": 3000, "stored_containers": 200, "deflated_containers": 200, "aligned_objects": 3000}


def verify(ctx, raw, items, level, bs, rejected=0):
    try:
        h = blf.parse_header(raw)
        cs = blf.parse_containers(raw)
        ends, _ = blf.locate(b"".join(c.payload for c in cs), [i.raw for i in items])
    except blf.Malformed as ex:
        ctx.fail(f"level {level}, buffer size {bs}: {ex}", file=raw, level=int(level), buffer_size=bs)
    ctx.check(h["signature"] == b"LOGG" and h["statistics_size"] == 144, f"file header starts with {raw[:8]!r}")
    if bs % 8 == 0:
        # containers end on the alignment, so alignment holds over the whole object stream
        for k, (it, end) in enumerate(zip(items, ends)):
            start = end - len(it.raw)
            ctx.check(start % 8 == 0, f"object {k} ({it.name}) starts at offset {start} of the object stream, not at a multiple of 8 "
                      f"(level {level}, buffer size {bs})", file=raw)
        ctx.count("aligned_objects", len(items))
    ctx.count("containers_checked", len(cs))
    for c in cs:
        ctx.count("deflated_containers" if c.method == 2 else "stored_containers")
    ctx.eval((tuple(i.raw for i in items), int(level), bs), bool(cs))
    ctx.sample(lambda: {"level": int(level), "buffer_size": bs, "containers": [repr(c) for c in cs[:10]],
                        "objects": [i.name for i in items[:30]]})
    return cs


def sweep(ctx, rng, index):
    items = gen.fixed_items(index % 3)
    level, bs = index % 10, index + 1
    verify(ctx, gen.write_log(items, level, bs).content(), items, level, bs)


def random(ctx, rng, index):
    items = gen.seq(rng, rng.choice((0, 1, 2, 3, 5, 8, 20, 40)), rng.choice((0, 8, 64, 300, 2000)))
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    if index % 3 == 0:
        bs = (bs + 7) & ~7
    verify(ctx, gen.write_log(items, level, bs).content(), items, level, bs)


def big(ctx, rng, index):
    items = [gen.item(rng, 10), gen.big_item(rng, rng.choice((65536, 131072, 200_000, 1_000_000, 131_071))), gen.item(rng, 10)]
    level, bs = index % 10, rng.choice((128 * 1024, 4096, 777, 1 << 20))
    verify(ctx, gen.write_log(items, level, bs).content(), items, level, bs)


def incompressible(ctx, rng, index):
    """Payloads that deflate badly, very well, and not at all; all sizes around alignment."""
    n = index % 64
    num = rng.choice(m.UNSUPPORTED)
    body = (rng.randbytes(n), bytes(n), b"LOBJ" * 16)[index % 3][:n]
    items = [gen.RawItem(num, m.raw_object(num, body)) for _ in range(rng.randint(1, 4))]
    for level in (0, 1, 6, 9, rng.randint(2, 8)):
        for bs in (len(items[0].raw), rng.randint(1, 64), 1000):
            verify(ctx, gen.write_log(items, level, bs).content(), items, level, bs)


def files(ctx, rng, index):
    """Real files, also replacing a longer earlier log."""
    items = gen.seq(rng, rng.randint(0, 20), 200)
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    path = ctx.path()
    if index % 2:
        with open(path, "wb") as f:
            f.write(rng.randbytes(rng.randint(1, 60000)))
    w = gen.writer_cls()(path, level, bs)
    for it in items:
        w.write(it.build())
    w.close()
    with open(path, "rb") as f:
        raw = f.read()
    verify(ctx, raw, items, level, bs)
    ctx.count("real_files")


def with_rejects(ctx, rng, index):
    """Rejected objects in between leave the structure valid."""
    items = gen.seq(rng, rng.randint(1, 12), 80)
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    from ..iofiles import RecFile
    f = RecFile()
    w = gen.writer_cls()(f, level, bs)
    accepted = []
    for it in items:
        if rng.random() < 0.5:
            extra = gen.try_reject(ctx, w, rng)
            if extra:
                accepted.append(extra)
        w.write(it.build())
        accepted.append(it)
    items = accepted
    w.close()
    verify(ctx, f.content(), items, level, bs)


def many(ctx, rng, index):
    pool = gen.seq(rng, 40, 30)
    items = [rng.choice(pool) for _ in range(20000 if index == 0 else 3000)]
    level, bs = gen.gen_level(rng), rng.choice((128 * 1024, 500, 3000))
    verify(ctx, gen.write_log(items, level, bs).content(), items, level, bs)


def huge(ctx, rng, index):
    """Containers of many megabytes."""
    n = ((5 << 20) + 3, (17 << 20) + 1, 1 << 24, (66 << 20) + 5, (130 << 20) - 16)[index % 5]
    size = rng.choice((n, n // 2 + 1, n // 3))
    num = rng.choice(m.UNSUPPORTED)
    body = (rng.randbytes(1 << 16) * (size // (1 << 16) + 1))[:size]
    items = [gen.item(rng, 10)] + [gen.RawItem(num, m.raw_object(num, body))] * (n // size) + [gen.item(rng, 10)]
    level, bs = (0, 1)[index % 2], rng.choice((n + 1000, 1 << 30, n - 5, n // 2))
    verify(ctx, gen.write_log(items, level, bs).content(), items, level, bs)
    ctx.count("containers_of_megabytes")


def families(tier):
    t = tier == "thorough"
    return [
        ("sweep", 1200 if t else 240, sweep),
        ("incompressible", 4000 if t else 300, incompressible),
        ("big", 200 if t else 20, big),
        ("files", 4000 if t else 200, files),
        ("with_rejects", 6000 if t else 300, with_rejects),
        ("many", 30 if t else 4, many),
        ("huge", 20 if t else 4, huge),
        ("random", 100_000 if t else 4000, random),
    ]
