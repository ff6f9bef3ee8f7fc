"""C10: every object type is recognised; unsupported ones pass through intact."""

import io

from .. import blf, gen, model as m
from ..iofiles import RecFile

PROP = "C10"
LEVEL = "exploration"
RULE = ("A case stores objects of chosen type numbers in a file built independently, reads them with the real reader, "
        "checks class, type, size and bytes, copies them into a new log with the real writer and checks the copy's "
        "object stream byte for byte. Distinct = different (type number, bytes); non-trivial = all.")
ASSUMPTIONS = ["log containers (type 10) are packaging, not objects"]
REQUIRED = {"types_supported": 28, "types_unsupported": 100, "types_unknown": 100, "objects_copied": 1000, "large_objects": 50}


def put(ctx, rng, items, level):
    size = sum(len(i.raw) for i in items)
    # few containers for large objects: each one costs a copy of what is incomplete
    cuts = [rng.randint(0, size) for _ in range(rng.randint(0, 6))] if size > 60000 else None
    raw, _ = gen.package(rng, items, level=level, filler=rng.random() < 0.3, cuts=cuts)
    return raw


def check(ctx, rng, items):
    raw = put(ctx, rng, items, rng.choice((0, 6)))
    objs = list(gen.reader_cls()(io.BytesIO(raw)))
    ctx.no(gen.check_items(items, objs), "", file=raw)
    # copy to another log
    f = RecFile()
    level, bs = rng.randint(0, 9), max(gen.gen_buffer_size(rng), sum(len(i.raw) for i in items) // 200)
    with gen.writer_cls()(f, level, bs) as w:
        for o in objs:
            w.write(o)
    copy = f.content()
    try:
        blf.locate(b"".join(c.payload for c in blf.parse_containers(copy)), [i.raw for i in items])
    except blf.Malformed as ex:
        ctx.fail(f"copied log: {ex}", file=raw)
    objs2 = list(gen.reader_cls()(io.BytesIO(copy)))
    ctx.no(gen.check_items(items, objs2), "copied log", file=raw)
    for it in items:
        num = it.num if isinstance(it, gen.RawItem) else it.v["header.base.object_type"]
        ctx.eval((num, it.raw))
    ctx.count("objects_copied", len(objs2))


def small_types(ctx, rng, index):
    """All type numbers 0..255 with bodies of several lengths."""
    num = index % 256
    if num == m.CONTAINER_TYPE:
        num = 256 + index
    if num in m.SPEC_BY_TYPE:
        spec = m.SPEC_BY_TYPE[num]
        items = []
        for _ in range(4):
            v = spec.gen(rng, 60)
            v["header.base.object_type"] = num
            items.append(gen.Item(spec, v))
        ctx.count("types_supported")
    else:
        items = [gen.RawItem(num, m.raw_object(num, m.gen_bytes(rng, n), rng.choice((16, 32, 40, 24, 0)), rng.choice((1, 2, 3))))
                 for n in (0, 1, rng.randint(0, 40), rng.randint(0, 400))]
        ctx.count("types_unsupported" if num in m.TYPE_NAMES else "types_unknown")
    check(ctx, rng, items)
    ctx.sample(lambda: {"type": num, "objects": [i.describe() for i in items[:2]]})


def wide_types(ctx, rng, index):
    """Type numbers over the whole 32-bit range, including those equal to known ones in their low bytes."""
    known = list(m.TYPE_NAMES)
    nums = [rng.choice(known) + (1 << rng.choice((8, 16, 24, 31))), m.gen_int(rng, 32), (1 << 32) - 1 - rng.choice(known),
            rng.choice(known) << rng.choice((8, 16, 24)), 10 + (1 << rng.choice((8, 16, 24)))]
    items = []
    for n in nums:
        n &= 0xFFFFFFFF
        if n in m.SPEC_BY_TYPE or n == 10:
            continue
        items.append(gen.raw_item(rng, 100, n))
        ctx.count("types_unknown" if n not in m.TYPE_NAMES else "types_unsupported")
    check(ctx, rng, items)


def mixed(ctx, rng, index):
    items = gen.seq(rng, rng.randint(1, 20), 150, raw_share=0.5)
    check(ctx, rng, items)


def large(ctx, rng, index):
    """Objects of unsupported types around and above powers of two, any header version and size."""
    top = 18 if index % 8 else 22
    items = []
    for hv in (0, 1, 2, rng.choice((3, 0xFFFF))):
        n = (1 << rng.randint(6, top)) + rng.choice((-17, -16, -1, 0, 1, 15, 16, rng.randint(-40, 40)))
        num = rng.choice(m.UNSUPPORTED) if rng.random() < 0.7 else rng.choice((0, 129, 255, 256, 1 << 16, m.gen_int(rng, 32)))
        if num in m.SPEC_BY_TYPE or num == 10:
            num = 52
        block = m.gen_bytes(rng, rng.randint(1, 4000)).replace(b"LOBJ", b"lobj") or b"x"
        body = bytearray((block * (n // len(block) + 1))[:max(0, n - 16)])
        body[-3:] = b"end"[:len(body[-3:])]
        hs = rng.choice((16, 32, 40, 0, m.gen_int(rng, 16)))
        items.append(gen.RawItem(num, m.raw_object(num, bytes(body), hs, hv)))
        ctx.count("types_unsupported" if num in m.TYPE_NAMES else "types_unknown")
        if n > 65536:
            ctx.count("large_objects")
    check(ctx, rng, items)


def like_supported(ctx, rng, index):
    """Unsupported types carrying the exact body of supported ones, and the other way around in size."""
    spec = m.SPECS[index % len(m.SPECS)]
    body = spec.encode(spec.gen(rng, 40))[16:]
    items = []
    for num in rng.sample(m.UNSUPPORTED, 6) + [spec.types[0] + 1000, spec.types[0] | 0x10000]:
        items.append(gen.RawItem(num, m.raw_object(num, body)))
        ctx.count("types_unsupported" if num in m.TYPE_NAMES else "types_unknown")
    check(ctx, rng, items)


def direct(ctx, rng, index):
    """NotImplementedObject built directly from bytes and from a header."""
    it = gen.raw_item(rng, 3000)
    g = gen.vb("general")
    o = g.NotImplementedObject.unpack(it.raw)
    ctx.no(it.check(o))
    ctx.check(o.pack() == it.raw, "NotImplementedObject.pack() differs from the bytes it was made of", obj=it.describe())
    ctx.eval((it.num, it.raw))


def sample_copies(ctx, rng, index):
    """The sample objects of all kinds shipped with the repository, copied through reader and writer."""
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "corpus")
    names = sorted(n for n in os.listdir(d) if n.endswith(".lobj") and n != "LOG_CONTAINER.lobj")
    rng.shuffle(names)
    raws = []
    for n in names:
        with open(os.path.join(d, n), "rb") as f:
            raws.append(f.read())
    raw = gen.head(rng, 6) + blf.container(b"".join(r + bytes(-len(r) % 4) for r in raws), deflate=True)
    objs = list(gen.reader_cls()(io.BytesIO(raw)))
    ctx.check(len(objs) == len(raws), f"{len(objs)} of {len(raws)} sample objects delivered")
    f = RecFile()
    with gen.writer_cls()(f, rng.randint(0, 9), gen.gen_buffer_size(rng)) as w:
        for o in objs:
            w.write(o)
    try:
        blf.locate(b"".join(c.payload for c in blf.parse_containers(f.content())), raws)
    except blf.Malformed as ex:
        ctx.fail(f"copy of the sample objects: {ex}", names=names)
    ctx.count("objects_copied", len(raws))
    ctx.eval(tuple(names))


def families(tier):
    t = tier == "thorough"
    return [
        ("small_types", 256 * (40 if t else 3), small_types),
        ("wide_types", 20000 if t else 700, wide_types),
        ("large", 3000 if t else 150, large),
        ("like_supported", len(m.SPECS) * (60 if t else 4), like_supported),
        ("direct", 60000 if t else 3000, direct),
        ("sample_copies", 400 if t else 24, sample_copies),
        ("mixed", 30000 if t else 1000, mixed),
    ]
