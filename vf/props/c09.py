"""C09: a rejected object leaves no trace in the log."""

import io

from .. import blf, gen, model as m
from ..iofiles import RecFile

PROP = "C09"
LEVEL = "fault_enumeration"
RULE = ("A case interleaves accepted objects with objects whose encoding fails or has the wrong size (17 kinds of "
        "rejection) and checks after each that write raised, and at the end that reader and independent parser find "
        "exactly the accepted objects and a header that counts only them. Distinct = different (accepted encodings, "
        "rejection kinds and positions, level, buffer size); non-trivial = at least one object was rejected.")
ASSUMPTIONS = ["an unusual object that the writer accepts is fine if its encoding has the declared size"]
REQUIRED = {"rejected": 3000, "fickle_rejected": 1000, "fickle_accepted": 500, **{"rejected_" + k: 20 for k in gen.REJECTS if k not in ("text_longer", "size_fixed", "bytes_type")}}


def run(ctx, rng, plan, level, bs, key=None):
    """plan: list of items and rejection kinds."""
    f = RecFile()
    w = gen.writer_cls()(f, level, bs)
    accepted = []
    trail = []
    nrej = 0
    for p in plan:
        if isinstance(p, str):
            before = f.content()
            extra = gen.try_reject(ctx, w, rng, p)
            if extra is not None:
                accepted.append(extra)
                trail.append("accepted:" + p)
            else:
                nrej += 1
                trail.append(p)
                ctx.check(f.content()[144:].startswith(before[144:]),
                          f"rejected object ({p}) changed what was already in the file")
        else:
            try:
                w.write(p.build())
            except Exception as ex:
                ctx.fail(f"write of a valid {p.name} after {trail[-4:]} raised {type(ex).__name__}: {ex}", trail=trail)
            accepted.append(p)
            trail.append(p.name)
    w.close()
    raw = f.content()
    what = f"after {trail[:12]} (level {level}, buffer {bs})"
    try:
        cs = blf.parse_containers(raw)
        blf.locate(b"".join(c.payload for c in cs), [a.raw for a in accepted])
    except blf.Malformed as ex:
        ctx.fail(f"{what}: {ex}", file=raw, trail=trail)
    h = blf.parse_header(raw)
    ctx.check(h["object_count"] == len(accepted), f"{what}: header counts {h['object_count']} objects, "
              f"{len(accepted)} were accepted", trail=trail)
    usize = 144 + sum(len(a.raw) for a in accepted)
    ctx.check(h["uncompressed_file_size"] == usize, f"{what}: header states {h['uncompressed_file_size']} uncompressed "
              f"bytes, accepted objects make {usize}", trail=trail)
    ctx.check(h["file_size"] == len(raw), f"{what}: header states {h['file_size']} bytes, file has {len(raw)}")
    objs = list(gen.reader_cls()(io.BytesIO(raw)))
    ctx.check(len(objs) == len(accepted), f"{what}: {len(objs)} objects read, {len(accepted)} accepted", trail=trail)
    for k, (a, o) in enumerate(zip(accepted, objs)):
        if hasattr(a, "check"):
            ctx.no(a.check(o), f"{what}: object {k}", trail=trail)
            ctx.check(o.pack() == a.raw, f"{what}: object {k} re-encodes differently", trail=trail)
    ctx.count("accepted", len(accepted))
    ctx.eval((tuple(a.raw for a in accepted), tuple(trail), level, bs), nrej > 0)
    ctx.sample(lambda: {"history": trail[:40], "level": level, "buffer_size": bs})


def each_kind(ctx, rng, index):
    """Each rejection first, between and last, alone and repeated."""
    kind = gen.REJECTS[index % len(gen.REJECTS)]
    its = gen.seq(rng, 3, rng.choice((0, 30)))
    for plan in ([kind], [kind] + its, its + [kind], its[:1] + [kind] + its[1:], [kind, kind] + its[:1] + [kind, kind, kind]):
        run(ctx, rng, plan, gen.gen_level(rng), rng.choice((1, 8, 50, 100, 131072)))


def random(ctx, rng, index):
    plan = []
    p = rng.choice((0.1, 0.3, 0.6))
    for it in gen.seq(rng, rng.choice((1, 3, 8, 20)), rng.choice((0, 30, 200))):
        while rng.random() < p:
            plan.append(rng.choice(gen.REJECTS))
        plan.append(it)
    while rng.random() < p:
        plan.append(rng.choice(gen.REJECTS))
    run(ctx, rng, plan, rng.randint(0, 9), gen.gen_buffer_size(rng))


def large(ctx, rng, index):
    """Objects larger than the buffer between rejected ones."""
    plan = []
    for _ in range(rng.randint(1, 6)):
        while rng.random() < 0.4:
            plan.append(rng.choice(gen.REJECTS))
        plan.append(gen.big_item(rng, rng.choice((3000, 4096, 20_000, 65_536, 140_000))) if rng.random() < 0.6 else gen.item(rng))
    plan.append(rng.choice(gen.REJECTS))
    run(ctx, rng, plan, rng.randint(0, 9), rng.choice((2000, 4096, 65536, 131072, 1 << 20)))


def mismatch_sizes(ctx, rng, index):
    """Raw objects with every declared size near and far from the real one."""
    n = 16 + index % 40
    f = RecFile()
    w = gen.writer_cls()(f, index % 10, rng.choice((1, 20, 1000)))
    g = gen.vb("general")
    raw = m.raw_object(200, rng.randbytes(n - 16))
    good = 0
    for size in list(range(0, n + 20)) + [1 << 16, (1 << 16) + n, (1 << 32) - 1, 1 << 31, n + 256, n + (1 << 24), n * 2]:
        o = g.NotImplementedObject.unpack(raw)
        o.header.base.object_size = size
        try:
            w.write(o)
            ctx.check(size == n, f"object of {n} bytes declaring {size} was accepted")
            good += 1
        except ValueError:
            ctx.check(size != n, f"object of {n} bytes declaring {size} was rejected")
            ctx.count("rejected")
            ctx.count("rejected_size_raw")
        except Exception as ex:
            ctx.fail(f"object of {n} bytes declaring {size} raised {type(ex).__name__}: {ex} instead of ValueError")
    w.close()
    objs = gen.read_log(f.content())
    ctx.check(len(objs) == good == 1 and objs[0].pack() == raw, f"log holds {len(objs)} objects, 1 was accepted")
    ctx.eval(("sizes", n, raw))


def fickle_object(rng):
    """An object of a user's class whose encoding differs from call to call; returns (object, encodings handed out)."""
    n = rng.choice((16, 20, 40, 100, 3000))
    size = n
    first = rng.choice(("good", "good", "short", "long", "raise", "other"))
    plan = [first] + [rng.choice(("good", "other", "short", "long", "raise", "empty", "interrupt")) for _ in range(4)]
    given = []

    def pack():
        kind = plan[min(len(given), len(plan) - 1)]
        if kind == "raise":
            given.append(None)
            raise gen.PackError("not this time")
        if kind == "interrupt":
            given.append(None)
            raise KeyboardInterrupt
        k = {"good": n, "other": n, "short": n - rng.randint(1, 8), "long": n + rng.randint(1, 40), "empty": 0}[kind]
        given.append(m.raw_object(200, rng.randbytes(max(0, k - 16)), size=size)[:k])
        return given[-1]

    return gen.own_object(pack, size), given, size, plan


def fickle(ctx, rng, index):
    """Encodings that differ from call to call: either write raises and leaves no trace, or one checked encoding is stored."""
    f = RecFile()
    level, bs = rng.randint(0, 9), rng.choice((1, 40, 100, 131072))
    w = gen.writer_cls()(f, level, bs)
    stored = []  # alternatives for each accepted object
    trail = []
    for it in gen.seq(rng, rng.randint(1, 5), 30):
        w.write(it.build())
        stored.append([it.raw])
        trail.append(it.name)
        o, given, size, plan = fickle_object(rng)
        try:
            w.write(o)
        except (ValueError, gen.PackError, KeyboardInterrupt):
            ctx.count("fickle_rejected")
            trail.append("rejected " + "/".join(plan[:len(given)]))
            continue
        stored.append([g for g in given if g is not None and len(g) == size])
        trail.append("accepted " + "/".join(plan[:len(given)]))
        ctx.count("fickle_accepted")
    w.close()
    raw = f.content()
    what = f"after {trail} (level {level}, buffer {bs})"
    try:
        stream = b"".join(c.payload for c in blf.parse_containers(raw))
    except blf.Malformed as ex:
        ctx.fail(f"{what}: {ex}", file=raw)
    h = blf.parse_header(raw)
    ctx.check(h["object_count"] == len(stored), f"{what}: header counts {h['object_count']} objects, {len(stored)} were accepted")
    encs = []
    pos = 0
    for k, alts in enumerate(stored):
        while stream[pos:pos + 1] == b"\0":
            pos += 1
        hit = next((a for a in alts if stream.startswith(a, pos)), None)
        if hit is None:
            ctx.fail(f"{what}: the log does not hold a checked encoding of object {k} at {pos}: {stream[pos:pos + 24].hex()}", file=raw)
        encs.append(hit)
        pos += len(hit)
    try:
        blf.locate(stream, encs)
    except blf.Malformed as ex:
        ctx.fail(f"{what}: {ex}", file=raw)
    usize = 144 + sum(map(len, encs))
    ctx.check(h["uncompressed_file_size"] == usize, f"{what}: header states {h['uncompressed_file_size']} uncompressed bytes, accepted objects make {usize}")
    objs = list(gen.reader_cls()(io.BytesIO(raw)))
    ctx.check([o.pack() for o in objs] == encs, f"{what}: {len(objs)} objects read, {len(encs)} accepted")
    ctx.eval((raw,), True)


def families(tier):
    t = tier == "thorough"
    return [
        ("each_kind", len(gen.REJECTS) * (200 if t else 12), each_kind),
        ("mismatch_sizes", 2000 if t else 80, mismatch_sizes),
        ("large", 4000 if t else 160, large),
        ("fickle", 30000 if t else 1200, fickle),
        ("random", 60000 if t else 2500, random),
    ]
