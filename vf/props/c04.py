"""C04: the reader finds every object however the file packages them."""

import io

from .. import blf, gen, model as m
from ..iofiles import RecFile

PROP = "C04"
LEVEL = "exploration"
RULE = ("A case packages a known object sequence with the independent file builder (cuts, filler, containers stored or "
        "deflated, objects outside containers, file compression level) and compares what the real reader delivers: "
        "same objects, same order, each once. Distinct = different files; non-trivial = the file has at least two "
        "parts or filler.")
ASSUMPTIONS = ["filler never forms an object signature; containers declare their method and uncompressed size, or are "
               "written as vblf <= 0.3.1 did (header size 32, flags 2, deflated if the file's level is above 0)"]
REQUIRED = {"objects_delivered": 5000, "cuts_inside_header": 50, "files_with_filler": 50, "stored_containers": 50,
            "deflated_containers": 50, "outside_objects": 20,
            "files_with_long_filler": 500, "longer_objects": 300, "outside_amid": 500}


def read(ctx, raw, items, what, key=None, **details):
    f = RecFile(raw, max_ops=2000 + 8 * len(raw))
    try:
        objs = list(gen.reader_cls()(f))
    except Exception as ex:
        ctx.fail(f"{what}: reading raised {type(ex).__name__}: {ex}", file=raw, **details)
    bad = gen.check_items(items, objs)
    ctx.no(bad, what, file=raw, **details)
    ctx.count("objects_delivered", len(objs))
    ctx.eval(hash(raw) if key is None else key)


def put(ctx, payload, deflate, **kw):
    ctx.count("deflated_containers" if deflate else "stored_containers")
    if "header_size" not in kw:
        kw = {**gen.reserved(ctx.rng), **kw}
        if deflate:
            kw.setdefault("style", blf.random_style(ctx.rng))
    return blf.container(payload, deflate=deflate, **kw)


def stream_of(items, pad=True):
    out = bytearray()
    bounds = []
    for it in items:
        bounds.append((len(out), len(out) + len(it.raw)))
        out += it.raw
        if pad:
            out += bytes(-len(it.raw) % 4)
    return bytes(out), bounds


def one_cut(ctx, rng, index):
    """The stream of a few objects cut into two containers at every position."""
    items = [gen.raw_item(rng, 9) if rng.random() < 0.4 else gen.item(rng, 12) for _ in range(3)]
    stream, bounds = stream_of(items, index % 2 == 0)
    mode = index % 4
    for cut in range(len(stream) + 1):
        d1, d2 = [(False, False), (True, True), (False, True), (True, False)][mode]
        level = rng.choice((0, 1, 6, 9))
        raw = gen.head(rng, level=level) + put(ctx, stream[:cut], d1) + put(ctx, stream[cut:], d2)
        read(ctx, raw, items, f"cut at {cut} of {len(stream)}", cut=cut, objects=bounds)
        if any(a < cut < a + 16 for a, _ in bounds):
            ctx.count("cuts_inside_header")
    ctx.sample(lambda: {"stream": stream, "cuts": "all", "objects": bounds})


def many_cuts(ctx, rng, index):
    """Objects spread over 3 to dozens of containers, including containers of one byte and empty ones."""
    items = gen.seq(rng, rng.randint(1, 6), rng.choice((0, 20, 200)))
    stream, _ = stream_of(items, rng.random() < 0.5)
    n = len(stream)
    style = index % 4
    if style == 0:
        step = rng.randint(1, 40)
        pts = list(range(step, n, step))
    elif style == 1:
        pts = sorted(rng.randint(0, n) for _ in range(rng.randint(2, 30)))  # repeated cuts: empty containers
    elif style == 2:
        pts = list(range(1, min(n, 200)))
    else:
        pts = sorted({rng.randint(0, n) for _ in range(2)})
    level = rng.choice((0, 6))
    raw = bytearray(gen.head(rng, level=level))
    for a, b in zip([0] + pts, pts + [n]):
        raw += put(ctx, stream[a:b], rng.random() < 0.5)
        if rng.random() < 0.5:
            raw += bytes(-len(raw) % rng.choice((4, 8)))
    read(ctx, bytes(raw), items, f"{len(pts) + 1} containers", cuts=pts)
    ctx.maxi("containers", len(pts) + 1)


def filler(ctx, rng, index):
    """Filler of every length 0..40 between objects, between containers, before the first and after the last."""
    items = gen.seq(rng, rng.randint(1, 4), 40)
    for n in range(0, 41):
        stream = b"".join(gen.gen_filler(rng, n) + i.raw for i in items) + gen.gen_filler(rng, n)
        mode = rng.randrange(4)
        raw = bytearray(gen.head(rng, level=rng.choice((0, 6))))
        if mode == 0:  # objects outside containers
            raw += stream
        elif mode == 1:  # one container
            raw += gen.gen_filler(rng, n) + put(ctx, stream, rng.random() < 0.5) + gen.gen_filler(rng, n)
        else:  # cut anywhere, filler between containers
            k = rng.randint(0, len(stream))
            raw += gen.gen_filler(rng, n) + put(ctx, stream[:k], rng.random() < 0.5) + gen.gen_filler(rng, n)
            raw += put(ctx, stream[k:], rng.random() < 0.5) + gen.gen_filler(rng, n)
        read(ctx, bytes(raw), items, f"filler of {n}, mode {mode}")
        ctx.count("files_with_filler")


def long_filler(ctx, rng, index):
    """Filler from dozens to tens of thousands of bytes, its length swept around the block sizes a search may use."""
    items = gen.seq(rng, 3, 30)
    if index % 4 < 3:
        base = (64, 128, 256, 512, 1024, 2048, 4096, 8192)[index // 4 % 8]
        lengths = [max(1, base * rng.randint(1, 3) - rng.choice((0, 4, 16, 20, 32, 36)) + d) for d in range(-6, 7)]
        lengths += [rng.randint(41, 600) for _ in range(10)]
    else:
        lengths = [rng.choice((16384, 32768, 65536, 131072)) + rng.randint(-40, 8)]
    for n in lengths:
        parts = [gen.gen_filler(rng, n) + i.raw for i in items]
        mode = rng.randrange(3) if n < 5000 else 1
        raw = bytearray(gen.head(rng, level=rng.choice((0, 6))))
        if mode == 0:
            raw += b"".join(parts) + gen.gen_filler(rng, n)
        elif mode == 1:
            stream = b"".join(parts)
            raw += put(ctx, stream, rng.random() < 0.5) + gen.gen_filler(rng, n)
        else:  # a container of its own for each object, filler in front of it
            for i in items:
                raw += gen.gen_filler(rng, n) + put(ctx, i.raw, rng.random() < 0.5)
        read(ctx, bytes(raw), items, f"filler of {n} bytes, mode {mode}")
        ctx.count("files_with_long_filler")


class Longer:
    """An object that a later revision of the format made longer: the known fields are where they were."""

    def __init__(self, rng, spec):
        self.spec, self.name = spec, spec.cls_name
        v = spec.gen(rng, 20)
        if spec.trailing:
            v["@pad"] = 0
            spec.resize(v)
        self.v = v
        raw = bytearray(spec.encode(v))
        raw += rng.randbytes(rng.choice((1, 4, 8, 12, 24, 40, 100))).replace(b"L", b"l")
        raw[8:12] = m.enc("u32", len(raw))
        self.raw = bytes(raw)
        self.exp = spec.expected(v)
        self.exp["header.base.object_size"] = len(raw)

    def check(self, obj):
        if type(obj) is not self.spec.cls:
            return [f"expected a {self.name}, got {type(obj).__name__}"]
        return m.compare(self.spec, obj, self.exp)

    def describe(self):
        return {"class": self.name, "bytes": self.raw.hex()}


GROWABLE = [s for s in m.SPECS if s.var is None]


def longer_objects(ctx, rng, index):
    """Objects longer than the known layout, as later format revisions write them, between others."""
    items = []
    for _ in range(rng.randint(1, 5)):
        items.append(Longer(rng, rng.choice(GROWABLE)) if rng.random() < 0.7 else gen.item(rng, 20))
    raw, desc = gen.package(rng, items)
    read(ctx, raw, items, f"longer objects, parts {desc['parts'][:20]}")
    ctx.count("longer_objects", sum(isinstance(i, Longer) for i in items))


def huge(ctx, rng, index):
    """Containers and objects of tens of megabytes."""
    n = ((17 << 20) + 5, 33 << 20)[index % 2]
    big = gen.RawItem(85, m.raw_object(85, bytes(n)))
    a, b = gen.item(rng, 10), gen.item(rng, 10)
    stream, _ = stream_of([a, big, b])
    deflate = index // 2 % 2 == 1
    pts = ((), (n // 2,), tuple(range(1 << 20, n, 1 << 20)))[index % 3]
    raw = bytearray(gen.head(rng, level=1 if deflate else 0))
    for x, y in zip((0, *pts), (*pts, len(stream))):
        raw += blf.container(stream[x:y], deflate=deflate, zlevel=1)
        raw += bytes(-len(raw) % 8)
    objs = list(gen.reader_cls()(io.BytesIO(bytes(raw))))
    ctx.no(gen.check_items([a, big, b], objs), f"object of {n} bytes in {len(pts) + 1} containers")
    ctx.maxi("object_mib", n >> 20)
    ctx.eval(("huge", index, n))


def matrix(ctx, rng, index):
    """File compression level x container method x header as written by different producers."""
    items = gen.seq(rng, rng.randint(1, 6), 100)
    stream, _ = stream_of(items)
    level = index % 10
    parts = []
    raw = bytearray(blf.file_header(level=level, app=rng.choice((0, 1, 2, 5, 7, 200)), api=rng.choice((4070100, 0x3E4630)),
                                    start=(0,) * 8, last=(0,) * 8) if index % 3 == 0 else gen.head(rng, level=level))
    pts = sorted(rng.randint(0, len(stream)) for _ in range(rng.randint(0, 5)))
    kinds = [("stored",), ("deflated",), ("legacy",), ("stored", "deflated"), ("stored", "deflated", "legacy")][(index // 10) % 5]
    for a, b in zip([0] + pts, pts + [len(stream)]):
        k = rng.choice(kinds)
        parts.append((k, b - a))
        if k == "legacy":
            raw += put(ctx, stream[a:b], level > 0, zlevel=level or 1, header_size=32, method=2, usize=0)
        else:
            raw += put(ctx, stream[a:b], k == "deflated", zlevel=rng.randint(0, 9))
        raw += bytes(-len(raw) % rng.choice((1, 4, 8)))
    read(ctx, bytes(raw), items, f"file level {level}, containers {parts}")
    ctx.count("matrix_files")


def outside(ctx, rng, index):
    """Objects outside of containers, before, between and after them."""
    items = gen.seq(rng, rng.randint(1, 12), 100)
    raw = bytearray(gen.head(rng, level=rng.choice((0, 1, 6))))
    run = []
    shape = []

    def flush():
        if run:
            stream, _ = stream_of(run, rng.random() < 0.5)
            k = rng.choice((0, len(stream), rng.randint(0, len(stream))))
            for part in (stream[:k], stream[k:]):
                if part:
                    raw.extend(put(ctx, part, rng.random() < 0.5))
            shape.append(len(run))
            run.clear()

    for it in items:
        if rng.random() < 0.5:
            flush()
            raw += it.raw + bytes(-len(it.raw) % 4)
            shape.append("object")
            ctx.count("outside_objects")
        else:
            run.append(it)
    flush()
    read(ctx, bytes(raw), items, f"layout {shape}")


def outside_amid(ctx, rng, index):
    """Objects outside of containers between two containers that share a cut object.

    Where the cut object itself belongs relative to the outer one is left open; everything else has one place."""
    seen = set()

    def fresh(make):
        while True:
            it = make()
            if it.raw not in seen:
                seen.add(it.raw)
                return it

    cap = rng.choice((12, 60, 300))
    inner = [fresh(lambda: gen.raw_item(rng, cap) if rng.random() < 0.2 else gen.item(rng, cap))
             for _ in range(rng.randint(1, 8))]
    stream, bounds = stream_of(inner, rng.random() < 0.7)
    n = len(stream)
    pts = sorted(rng.randint(0, n) for _ in range(rng.randint(1, 6)))
    if rng.random() < 0.4:  # cuts inside the header of an object
        a, _ = rng.choice(bounds)
        pts = sorted({*pts, a + rng.randint(1, 15)} if a + 15 <= n else pts)
    raw = bytearray(gen.head(rng, level=rng.choice((0, 6))))
    outer = []  # (item, position in the stream it stands at)
    for a, b in zip([0, *pts], [*pts, n]):
        raw += put(ctx, stream[a:b], rng.random() < 0.5)
        if rng.random() < 0.3:
            raw += gen.gen_filler(rng)
        if b < n:
            for _ in range(rng.choice((0, 1, 1, 2))):
                it = fresh(lambda: gen.raw_item(rng, cap) if rng.random() < 0.2 else gen.item(rng, cap))
                outer.append((it, b))
                raw += it.raw
                if rng.random() < 0.3:
                    raw += gen.gen_filler(rng)
    f = RecFile(bytes(raw), max_ops=2000 + 8 * len(raw))
    info = {"file": bytes(raw), "cuts": pts, "objects": bounds, "outer": [p for _, p in outer]}
    try:
        objs = list(gen.reader_cls()(f))
    except Exception as ex:
        ctx.fail(f"objects amid containers: reading raised {type(ex).__name__}: {ex}", **info)
    i = o = 0
    for k, obj in enumerate(objs):
        if o < len(outer) and not outer[o][0].check(obj):
            p = outer[o][1]
            late = [x for x in bounds[i:] if x[1] <= p]
            early = [x for x in bounds[:i] if x[0] >= p]
            ctx.check(not late and not early, f"object {k}, stored outside of containers at stream position {p}, is "
                      f"delivered {'before' if late else 'after'} the contained objects {late or early}", **info)
            o += 1
        elif i < len(inner) and not inner[i].check(obj):
            i += 1
        else:
            want = [x.name for x in (*(inner[i:i + 1]), *(x for x, _ in outer[o:o + 1]))]
            ctx.fail(f"object {k} is a {type(obj).__name__}, expected one of {want}: "
                     f"{inner[i].check(obj)[:2] if i < len(inner) else ''}", **info)
    ctx.check(i == len(inner) and o == len(outer), f"{len(objs)} objects delivered: {i} of {len(inner)} contained ones, "
              f"{o} of {len(outer)} outside", **info)
    ctx.count("outside_amid", len(outer))
    ctx.count("objects_delivered", len(objs))
    ctx.eval(hash(bytes(raw)))


def random(ctx, rng, index):
    items = gen.seq(rng, rng.choice((1, 2, 4, 8, 20)), rng.choice((0, 16, 300, 2000)))
    raw, desc = gen.package(rng, items)
    read(ctx, raw, items, f"file level {desc['level']}, parts {desc['parts'][:20]}")
    ctx.maxi("containers", len(desc["parts"]))
    ctx.sample(lambda: {"parts": desc["parts"][:20], "level": desc["level"], "objects": [i.name for i in items]})


def large(ctx, rng, index):
    """Thousands of containers; objects of hundreds of kilobytes over many containers."""
    if index % 2 == 0:
        pool = gen.seq(rng, 30, 30)
        items = [rng.choice(pool) for _ in range(4000)]
        step = rng.choice((16, 50, 100))
    else:
        items = []
        for s in (70_000, 300_000, 1_200_000)[: 1 + index % 3]:
            items += [gen.item(rng, 10), gen.big_item(rng, s), gen.item(rng, 10)]
        step = rng.choice((1000, 4096, 65536, 131072))
    stream, _ = stream_of(items)
    deflate = rng.random() < 0.5
    raw = bytearray(gen.head(rng, level=6 if deflate else 0))
    n = 0
    for a in range(0, len(stream), step):
        raw += blf.container(stream[a:a + step], deflate=deflate, zlevel=1)
        raw += bytes(-len(raw) % 4)
        n += 1
    ctx.count("deflated_containers" if deflate else "stored_containers", n)
    ctx.maxi("containers", n)
    objs = list(gen.reader_cls()(io.BytesIO(bytes(raw))))
    ctx.check(len(objs) == len(items), f"{len(objs)} of {len(items)} objects from {n} containers")
    for k, (it, o) in enumerate(zip(items, objs)):
        ctx.check(o.pack() == it.raw, f"object {k} ({it.name}) differs ({n} containers of {step})")
    ctx.no(gen.check_items(items[:40] + items[-40:], objs[:40] + objs[-40:]))
    ctx.count("objects_delivered", len(objs))
    ctx.eval((len(items), step, deflate, index))


def mixed_levels(ctx, rng, index):
    """The same objects under all packagings deliver the same: pairs of packagings compared."""
    items = gen.seq(rng, rng.randint(2, 8), 120)
    for _ in range(4):
        raw, desc = gen.package(rng, items, filler=rng.random() < 0.5, outside=rng.random() < 0.5)
        read(ctx, raw, items, f"parts {desc['parts'][:20]}")


def families(tier):
    t = tier == "thorough"
    return [
        ("one_cut", 800 if t else 40, one_cut),
        ("huge", 24 if t else 6, huge),
        ("filler", 1500 if t else 80, filler),
        ("long_filler", 6000 if t else 300, long_filler),
        ("longer_objects", 20000 if t else 800, longer_objects),
        ("matrix", 20000 if t else 800, matrix),
        ("outside", 20000 if t else 600, outside),
        ("outside_amid", 20000 if t else 1000, outside_amid),
        ("many_cuts", 20000 if t else 800, many_cuts),
        ("large", 60 if t else 8, large),
        ("mixed_levels", 6000 if t else 200, mixed_levels),
        ("random", 60000 if t else 2500, random),
    ]
