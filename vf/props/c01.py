"""C01: a written log reads back exactly (write/read round trip, model of every object as oracle)."""

from .. import gen, model as m
from ..gen import vb

PROP = "C01"
LEVEL = "exploration"
RULE = ("A case writes a generated object sequence with the real BlfWriter (level, buffer size, objects chosen at "
        "random or swept) and reads it with the real BlfReader; every delivered object is compared field by field "
        "with the independent model of the object that was written. Distinct = different (encodings, level, buffer "
        "size); non-trivial = at least one object was written.")
ASSUMPTIONS = ["objects are built from the value space of the layout model in vf/model.py (no NaN floats)",
               "in-memory and real files; no faults of the file itself (see C14)"]
REQUIRED = {"objects_compared": 2000, "containers_spanned_logs": 20}


def roundtrip(ctx, items, level, bs, file=None):
    f = gen.write_log(items, level, bs, file)
    raw = f.content()
    objs = gen.read_log(raw)
    bad = gen.check_items(items, objs)
    ctx.no(bad, f"level {int(level)}, buffer size {bs}", items=[i.describe() for i in items[:50]], level=int(level),
           buffer_size=bs)
    for k, (it, o) in enumerate(zip(items, objs)):
        p = o.pack()
        ctx.check(p == it.raw, f"object {k} ({it.name}) re-encodes differently after reading", obj=it.describe())
    ctx.count("objects_compared", len(objs))
    if sum(len(i.raw) for i in items) > bs:
        ctx.count("containers_spanned_logs")
    ctx.eval((tuple(i.raw for i in items), int(level), bs), bool(items))
    ctx.count(f"level_{int(level)}")
    ctx.sample(lambda: {"level": int(level), "buffer_size": bs, "objects": [i.name for i in items][:40]})
    return raw, objs


def sweep(ctx, rng, index):
    """Fixed sequence, every buffer size from 1, levels in turn."""
    items = gen.fixed_items(index % 3)
    roundtrip(ctx, items, index % 10, index + 1)


def small_sweep(ctx, rng, index):
    """Short sequences with each buffer size around the object sizes."""
    spec = m.SPECS[index % len(m.SPECS)]
    its = [gen.Item(spec, spec.gen(rng, 12)) for _ in range(3)]
    total = sum(len(i.raw) + 7 for i in its)
    first = len(its[0].raw)
    for bs in sorted({first + d for d in range(-9, 10)} | {total + d for d in range(-3, 4)} | {2 * first, 2 * first + 1}):
        if bs >= 1:
            roundtrip(ctx, its, rng.randint(0, 9), bs)


def random(ctx, rng, index):
    n = rng.choice((0, 1, 1, 2, 3, 5, 8, 20, 40))
    items = gen.seq(rng, n, rng.choice((0, 8, 64, 300, 2000)))
    level = rng.randint(0, 9)
    C = vb("constants").Compression
    if level in (0, 1, 6, 9) and rng.random() < 0.5:
        level = C(level)
    roundtrip(ctx, items, level, gen.gen_buffer_size(rng))


def every_type(ctx, rng, index):
    """Every class and every type number, alone and repeated."""
    nums = list(m.SPEC_BY_TYPE) + m.UNSUPPORTED + [129, 255, 256, 65535, 65546, 1 << 31, (1 << 32) - 1, 10 << 16 | 10]
    num = nums[index % len(nums)]
    items = []
    for _ in range(rng.choice((1, 2, 4))):
        if num in m.SPEC_BY_TYPE:
            spec = m.SPEC_BY_TYPE[num]
            v = spec.gen(rng, 80)
            v["header.base.object_type"] = num
            items.append(gen.Item(spec, v))
        else:
            items.append(gen.raw_item(rng, 80, num))
    roundtrip(ctx, items, rng.randint(0, 9), gen.gen_buffer_size(rng))


def many(ctx, rng, index):
    """Tens of thousands of objects (counts beyond 16 bits, hundreds of containers)."""
    pool = [gen.raw_item(rng, 8) if k % 5 == 0 else gen.item(rng, 8, "std") for k in range(50)]
    n = 70_000 if index == 0 else rng.randint(3000, 12000)
    objs = [p.build() for p in pool]
    order = [rng.randrange(50) for _ in range(n)]
    level = (1, 0, 6, 9, 3)[index % 5]
    bs = 128 * 1024 if index % 2 == 0 else rng.randint(500, 5000)
    f = gen.write_log([pool[k] for k in order], level, bs, objs=[objs[k] for k in order])
    got = 0
    reader = gen.reader_cls()(__import__("io").BytesIO(f.content()))
    for o in reader:
        if got >= n:
            ctx.fail("more objects delivered than written")
        p = pool[order[got]]
        if o.pack() != p.raw:
            ctx.fail(f"object {got} ({p.name}) differs")
        if got % 37 == 0:
            ctx.no(p.check(o), f"object {got}")
        got += 1
    ctx.check(got == n, f"{got} of {n} objects read back")
    ctx.count("objects_compared", n)
    ctx.maxi("objects_in_a_log", n)
    ctx.eval(("many", n, level, bs))


def big(ctx, rng, index):
    """Objects larger than the buffer, than 64 KiB and than a megabyte, between small ones."""
    sizes = [(200_000, 1_000), (131_072, 131_072), (131_072 - 8, 16), (1_500_000,), (70_000, 70_000, 70_000),
             (65_535,), (65_536,), (65_537,), (131_071,), (131_073,), (262_144,), (3_000_000, 5)][index % 12]
    items = []
    for s in sizes:
        items.append(gen.item(rng, 16))
        items.append(gen.big_item(rng, s))
    items.append(gen.item(rng, 16))
    roundtrip(ctx, items, index % 10, rng.choice((128 * 1024, 4096, 65536, 1 << 20, 999, 128 * 1024)))
    ctx.maxi("object_size", max(len(i.raw) for i in items))


def huge(ctx, rng, index):
    """Containers and objects of tens of megabytes."""
    mib, bs, count = ((1, 1 << 25, 22), (17, 128 * 1024, 1), (9, 1 << 24, 4), (34, 1 << 26, 1), (1, 10_000_019, 25),
                      (20, 1 << 20, 2))[index % 6]
    items = []
    blob = gen._blob(rng, mib << 20)
    for k in range(count):
        items += [gen.item(rng, 16), gen.RawItem(85, m.raw_object(85, blob))]
    items.append(gen.item(rng, 16))
    level = (1, 0, 6, 0, 1, 1)[index % 6]
    f = gen.write_log(items, level, bs)
    objs = gen.read_log(f.content())
    ctx.no(gen.check_items(items, objs), f"{count} objects of {mib} MiB, level {level}, buffer size {bs}")
    ctx.count("objects_compared", len(objs))
    ctx.maxi("object_size", mib << 20)
    ctx.maxi("buffer_size", bs)
    ctx.eval(("huge", index, level))


def lookalike(ctx, rng, index):
    """Payloads full of object signatures, headers and whole objects."""
    items = []
    for _ in range(rng.randint(2, 6)):
        inner = b"".join(i.raw for i in gen.seq(rng, rng.randint(1, 3), 40))
        cut = rng.randint(0, 5)
        spec = rng.choice([m.SPEC_BY_NAME[x] for x in ("EnvironmentVariable", "SystemVariable", "FunctionBus",
                                                        "EthernetFrameEx", "FlexrayVFrReceiveMsgEx")])
        v = spec.gen(rng, 4)
        v["@" + spec.var.parts[-1]] = inner[cut:]
        spec.resize(v)
        items.append(gen.Item(spec, v))
        if rng.random() < 0.4:
            items.append(gen.RawItem(200, m.raw_object(200, inner[cut:])))
    roundtrip(ctx, items, rng.randint(0, 9), rng.choice((1, 3, 16, 17, 50, 200, 1000, 131072)))
    ctx.count("lookalike_logs")


def files(ctx, rng, index):
    """The same over real files, opened by path."""
    items = gen.seq(rng, rng.randint(0, 30), 300)
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    path = ctx.path()
    with gen.writer_cls()(path, level, bs) as w:
        for it in items:
            w.write(it.build())
    with gen.reader_cls()(path) as r:
        objs = list(r)
    ctx.no(gen.check_items(items, objs), f"level {level}, buffer size {bs}")
    ctx.count("objects_compared", len(objs))
    ctx.count("real_files")
    ctx.eval((tuple(i.raw for i in items), level, bs), bool(items))


def defaults(ctx, rng, index):
    """Keyword and default arguments."""
    import io

    items = gen.seq(rng, rng.randint(1, 10), 200)
    from ..iofiles import RecFile
    f = RecFile()
    kw = [{}, {"compression_level": 9}, {"buffer_size": 77}, {"compression_level": 4, "buffer_size": 300}][index % 4]
    w = gen.writer_cls()(f, **kw)
    for it in items:
        w.write(it.build())
    w.close()
    objs = list(gen.reader_cls()(io.BytesIO(f.content())))
    ctx.no(gen.check_items(items, objs), f"arguments {kw}")
    ctx.count("objects_compared", len(objs))
    ctx.eval((tuple(i.raw for i in items), tuple(kw.items())))


def families(tier):
    t = tier == "thorough"
    nums = len(m.SPEC_BY_TYPE) + len(m.UNSUPPORTED) + 8
    return [
        ("sweep", 1200 if t else 240, sweep),
        ("small_sweep", len(m.SPECS) * (30 if t else 3), small_sweep),
        ("every_type", nums * (20 if t else 2), every_type),
        ("huge", 24 if t else 6, huge),
        ("big", 120 if t else 24, big),
        ("many", 20 if t else 4, many),
        ("random", 60000 if t else 3000, random),
        ("lookalike", 6000 if t else 400, lookalike),
        ("files", 4000 if t else 200, files),
        ("defaults", 800 if t else 40, defaults),
    ]
