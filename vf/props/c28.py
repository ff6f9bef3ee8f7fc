"""C28: copied, filtered and merged logs carry the same objects byte for byte."""

import io
import os

from .. import blf, gen, model as m
from ..iofiles import RecFile

PROP = "C28"
LEVEL = "exploration"
RULE = ("A case builds one or more source files independently (or by the real writer, or cut off), lets real readers and a real writer copy them "
        "object by object - whole, filtered, repeated, merged from several readers at once, over several generations, with the reader "
        "ahead of or together with the writer - and compares the object bytes stored in the result, found by an independent "
        "parser, with those stored in the sources. Distinct = different results; non-trivial = at least one object copied.")
ASSUMPTIONS = ["objects in the sources are well-formed; filler between objects is not part of a copy"]
REQUIRED = {"objects_copied": 20000, "generations": 500, "merged": 400, "filtered": 300, "streamed": 500, "recovered": 100, "through_paths": 100,
            "supported": 5000, "unsupported": 1000}


def encodings(ctx, log, items, what, **info):
    """The result holds exactly the items' bytes."""
    raws = [i.raw for i in items]
    try:
        cs = blf.parse_containers(log)
        blf.locate(b"".join(c.payload for c in cs), raws)
    except blf.Malformed as ex:
        ctx.fail(f"{what}: {ex}", result=log, **info)
    head = blf.parse_header(log)
    ctx.check(blf.u(log, 32, 4) == len(raws), f"{what}: the header counts {blf.u(log, 32, 4)} objects, {len(raws)} were copied", header=log[:144])
    ctx.check(blf.u(log, 24, 8) == 144 + sum(map(len, raws)),
              f"{what}: the header states {blf.u(log, 24, 8)} uncompressed bytes, it has {144 + sum(map(len, raws))}", header=log[:144])
    ctx.count("objects_copied", len(raws))
    ctx.count("supported", sum(isinstance(i, gen.Item) for i in items))
    ctx.count("unsupported", sum(not isinstance(i, gen.Item) for i in items))
    ctx.eval(hash(tuple(raws)), bool(raws))
    return head


def source(ctx, rng, n=None, cap=None):
    items = gen.seq(rng, rng.randint(0, 12) if n is None else n, rng.choice((0, 16, 60, 300)) if cap is None else cap)
    if rng.random() < 0.12:
        k = rng.choice((500, 700, 1500, 5000))
        for i in range(len(items)):
            if rng.random() < 0.4:
                items[i] = items[i - 1] if i and rng.random() < 0.4 else gen.big_item(rng, k + rng.randint(-20, 20))
    if rng.random() < 0.3:
        raw = gen.write_log(items, rng.randrange(10), gen.gen_buffer_size(rng)).content()
    else:
        raw, _ = gen.package(rng, items)
    return items, raw


def target(rng):
    f = RecFile(max_ops=3_000_000)
    return f, gen.writer_cls()(f, rng.randrange(10), gen.gen_buffer_size(rng))


def generations(ctx, rng, index):
    """A copy of a copy of a copy, under other levels and buffer sizes each time; a copied copy reads like the source."""
    items, raw = source(ctx, rng)
    first = raw
    for k in range(rng.randint(1, 4)):
        f, w = target(rng)
        with w, gen.reader_cls()(io.BytesIO(raw)) as r:
            if rng.random() < 0.5:
                for o in r:
                    w.write(o)
            else:
                while (o := r.read_object()) is not None:
                    w.write(o)
        raw = f.content()
        encodings(ctx, raw, items, f"copy of generation {k + 1}", source=first)
        ctx.count("generations")
    ctx.no(gen.check_items(items, gen.read_log(raw)), "last copy read back", source=first, copy=raw)
    ctx.sample(lambda: {"source": first, "objects": [i.name for i in items]})


def merge(ctx, rng, index):
    """Several sources read in turns into one log, or one source divided over several logs."""
    if index % 2 == 0:
        srcs = [source(ctx, rng) for _ in range(rng.randint(2, 5))]
        readers = [gen.reader_cls()(io.BytesIO(raw)) for _, raw in srcs]
        left = [list(items) for items, _ in srcs]
        f, w = target(rng)
        want = []
        live = list(range(len(srcs)))
        while live:
            k = rng.choice(live)
            for _ in range(rng.choice((1, 1, 2, 5))):
                o = readers[k].read_object()
                if o is None:
                    live.remove(k)
                    ctx.check(not left[k], f"source {k} ended with {len(left[k])} objects to come", source=srcs[k][1])
                    break
                ctx.check(bool(left[k]), f"source {k} delivers more objects than it has", source=srcs[k][1])
                want.append(left[k].pop(0))
                w.write(o)
        w.close()
        encodings(ctx, f.content(), want, f"{len(srcs)} logs merged", sources=[raw for _, raw in srcs])
    else:
        items, raw = source(ctx, rng, rng.randint(1, 20))
        outs = [target(rng) for _ in range(rng.randint(2, 4))]
        want = [[] for _ in outs]
        for it, o in zip(items, gen.reader_cls()(io.BytesIO(raw)), strict=True):
            k = rng.randrange(len(outs))
            outs[k][1].write(o)
            want[k].append(it)
            if rng.random() < 0.2:  # to another one as well
                k = rng.randrange(len(outs))
                outs[k][1].write(o)
                want[k].append(it)
        for (f, w), x in zip(outs, want):
            w.close()
            encodings(ctx, f.content(), x, f"a log divided over {len(outs)}", source=raw)
    ctx.count("merged")


def filtered(ctx, rng, index):
    """Only some types, or every n-th, or reversed, sorted by time stamp, repeated: objects kept in a list first."""
    items, raw = source(ctx, rng, rng.randint(0, 15))
    objs = list(gen.reader_cls()(io.BytesIO(raw)))
    ctx.check(len(objs) == len(items), f"{len(objs)} of {len(items)} objects read", source=raw)
    order = list(range(len(items)))
    mode = index % 5
    if mode == 0:
        keep = {o.header.base.object_type for o in objs if rng.random() < 0.5}
        order = [k for k in order if objs[k].header.base.object_type in keep]
    elif mode == 1:
        order = order[::rng.randint(1, 4)]
    elif mode == 2:
        order.reverse()
    elif mode == 3:
        order.sort(key=lambda k: getattr(objs[k].header, "object_time_stamp", 0))
    else:
        order = [rng.choice(order) for _ in range(rng.randint(0, 20))] if order else []
    f, w = target(rng)
    with w:
        for k in order:
            w.write(objs[k])
    encodings(ctx, f.content(), [items[k] for k in order], ("types", "every n-th", "reversed", "sorted", "any order")[mode], source=raw, order=order)
    ctx.count("filtered")


def streamed(ctx, rng, index):
    """The reader stays some objects ahead of the writer; pipelines of writers and readers on files still being written."""
    items, raw = source(ctx, rng, rng.randint(1, 25))
    f, w = target(rng)
    ahead = rng.choice((0, 1, 3, 10))
    queue = []
    for o in gen.reader_cls()(io.BytesIO(raw)):
        queue.append(o)
        while len(queue) > ahead:
            w.write(queue.pop(0))
    for o in queue:
        w.write(o)
    del queue
    w.close()
    encodings(ctx, f.content(), items, f"copied {ahead} objects behind the reader", source=raw)
    ctx.count("streamed")


def recovered(ctx, rng, index):
    """A log cut off anywhere is recovered by copying what can be read."""
    items = gen.seq(rng, rng.randint(2, 15), 100)
    raw = gen.write_log(items, rng.choice((0, 6)), rng.choice((1, 40, 100, 300, 1000))).content()
    cut = rng.randint(144, len(raw))
    n = blf.expected_from(raw[:cut], [i.raw for i in items])
    f, w = target(rng)
    with w:
        for o in gen.reader_cls()(io.BytesIO(raw[:cut])):
            w.write(o)
    encodings(ctx, f.content(), items[:n], f"recovered from {cut} of {len(raw)} bytes", source=raw, cut=cut)
    ctx.count("recovered")


def paths(ctx, rng, index):
    """From file to file by path; appending by copying into a new log that then replaces the old one."""
    items, raw = source(ctx, rng)
    d = ctx.newdir()
    a, b = os.path.join(d, "a.blf"), os.path.join(d, "b.blf")
    with open(a, "wb") as f:
        f.write(raw)
    for _ in range(rng.randint(1, 3)):
        more = gen.seq(rng, rng.randint(0, 3), 60)
        with gen.reader_cls()(a) as r, gen.writer_cls()(b, rng.randrange(10), gen.gen_buffer_size(rng)) as w:
            for o in r:
                w.write(o)
            for it in more:
                w.write(it.build())
        items += more
        os.replace(b, a)
        with open(a, "rb") as f:
            log = f.read()
        encodings(ctx, log, items, "copied and continued by path", source=raw)
        ctx.count("through_paths")


def large(ctx, rng, index):
    """Thousands of objects and objects of hundreds of kilobytes."""
    if index % 2:
        pool = gen.seq(rng, 60, 60)
        items = [rng.choice(pool) for _ in range(5000)]
    else:
        items = gen.enlarge(rng, gen.seq(rng, 12, 60), 6)
    n = sum(len(i.raw) for i in items)
    stream_cuts = sorted(rng.randint(0, n) for _ in range(rng.randint(0, 30)))
    raw, _ = gen.package(rng, items, filler=False, outside=False, cuts=stream_cuts)
    f = RecFile(max_ops=3_000_000)
    w = gen.writer_cls()(f, rng.choice((0, 1, 6)), rng.choice((1000, 20_000, 131072)) if index % 2 else rng.choice((20_000, 131072, 1 << 20)))
    with w:
        for o in gen.reader_cls()(io.BytesIO(raw)):
            w.write(o)
    encodings(ctx, f.content(), items, f"{len(items)} objects, {n} bytes")


def families(tier):
    t = tier == "thorough"
    return [
        ("large", 300 if t else 12, large),
        ("paths", 6000 if t else 150, paths),
        ("recovered", 20000 if t else 500, recovered),
        ("streamed", 20000 if t else 1000, streamed),
        ("filtered", 30000 if t else 1500, filtered),
        ("merge", 30000 if t else 1200, merge),
        ("generations", 40000 if t else 1500, generations),
    ]
