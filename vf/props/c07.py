"""C07: a crash or truncation leaves a readable prefix of the log."""

import os
import sys

from .. import blf, gen, idle, model as m
from ..iofiles import RecFile, apply_ops

PROP = "C07"
LEVEL = "fault_enumeration"
RULE = ("A case writes a log through a recording file, then enumerates crash states: every truncation length of the "
        "finished file, the file after every recorded operation, and after a torn part of every write. Each state is "
        "read with the real reader and compared with the objects lying completely in the complete containers present, "
        "found by the independent parser. Distinct = different file states; non-trivial = state other than the "
        "finished log.")
ASSUMPTIONS = ["a crash leaves a prefix of the bytes the writer passed to its file, in order, the last write possibly torn"]
REQUIRED = {"truncations": 5000, "op_crash_states": 300, "torn_states": 500, "refused_short": 100, "cut_in_container": 500,
            "cut_in_object": 100, "killed_processes": 4, "torn_headers": 200, "torn_large_writes": 20}


def read_state(ctx, raw, items, encs, what):
    """Read a crash state and compare with the expected prefix."""
    f = RecFile(raw, max_ops=2000 + 8 * len(raw))
    key = hash(raw)
    if len(raw) < 144:
        try:
            gen.reader_cls()(f)
        except ValueError:
            ctx.count("refused_short")
            ctx.eval(key)
            return 0
        except Exception as ex:
            ctx.fail(f"{what}: file of {len(raw)} bytes raised {type(ex).__name__} instead of ValueError", file=raw)
        ctx.fail(f"{what}: file of only {len(raw)} bytes was not refused", file=raw)
    n = blf.expected_from(raw, encs)
    try:
        r = gen.reader_cls()(f)
        objs = []
        for o in r:
            objs.append(o)
        again = r.read_object()
    except Exception as ex:
        ctx.fail(f"{what}: reading {len(raw)} bytes raised {type(ex).__name__}: {ex} (expected {n} objects)", file=raw)
    ctx.check(again is None, f"{what}: an object after the end", file=raw)
    ctx.check(len(objs) == n, f"{what}: {len(objs)} objects delivered, {n} lie completely in the containers present",
              file=raw)
    return n, objs, key


def check_state(ctx, raw, items, encs, what, deep=True):
    r = read_state(ctx, raw, items, encs, what)
    if r == 0:
        return 0
    n, objs, key = r
    for k, o in enumerate(objs):
        if o.pack() != encs[k]:
            ctx.fail(f"{what}: object {k} differs from the one written", file=raw)
    if deep:
        ctx.no(gen.check_items(items[:n], objs), what, file=raw)
    ctx.eval(key)
    return n


def small_log(rng, index):
    items = gen.seq(rng, rng.choice((0, 1, 2, 4, 6)), rng.choice((0, 10, 40)))
    level = (0, 6, 1, 9, rng.randint(0, 9))[index % 5]
    bs = rng.choice((1, 7, 16, 33, 60, 100, 200, 1000, 131072))
    if sum(len(i.raw) for i in items) // bs > 60:
        bs = 60
    return items, level, bs


def truncate(ctx, rng, index):
    """Every truncation length of a finished log."""
    items, level, bs = small_log(rng, index)
    encs = [i.raw for i in items]
    raw = gen.write_log(items, level, bs).content()
    cs = blf.parse_containers(raw)
    for t in range(len(raw), -1, -1):
        check_state(ctx, raw[:t], items, encs, f"cut at {t} of {len(raw)} (level {level}, buffer {bs})", deep=t % 7 == 0)
    ctx.count("truncations", len(raw) + 1)
    ctx.count("cut_in_container", sum(c.end - c.off - 1 for c in cs))
    ends, pos = blf.locate(b"".join(c.payload for c in cs), encs)[0], 0
    cum = 0
    for c in cs:
        cum += len(c.payload)
        if cum not in ends:
            ctx.count("cut_in_object")
    ctx.sample(lambda: {"file_bytes": len(raw), "level": level, "buffer_size": bs, "containers": [repr(c) for c in cs],
                        "states": "every truncation length"})


def crash(ctx, rng, index):
    """The file after every operation of the writer, and with the next write torn at several points."""
    items, level, bs = small_log(rng, index)
    encs = [i.raw for i in items]
    f = RecFile(keep_data=True)
    gen.write_log(items, level, bs, f)
    ops = f.ops
    seen = set()
    for k in range(len(ops) + 1):
        raw = apply_ops(ops, k)
        if hash(raw) not in seen:
            seen.add(hash(raw))
            check_state(ctx, raw, items, encs, f"crash after operation {k} of {len(ops)} (level {level}, buffer {bs})",
                        deep=False)
        ctx.count("op_crash_states")
        if k < len(ops) and ops[k][0] == "write":
            n = len(ops[k][2])
            pts = range(1, n) if n <= 40 or k in (0, len(ops) - 1) else sorted({1, 15, 16, 17, 31, 32, 33, n // 2, n - 1}
                                                                              | {rng.randrange(1, n) for _ in range(6)})
            for t in pts:
                if 0 < t < n:
                    check_state(ctx, apply_ops(ops, k, t), items, encs,
                                f"operation {k} of {len(ops)} torn after {t} of {n} bytes (level {level}, buffer {bs})",
                                deep=False)
                    ctx.count("torn_states")


def crash_large(ctx, rng, index):
    """Containers larger than any internal buffer: crash states after every operation, writes torn at and around powers of two."""
    bs = rng.choice((70_000, 131_072, 131_072, 262_144, 1 << 20))
    items = [gen.item(rng, 20)]
    for _ in range(rng.randint(1, 3)):
        items += [gen.big_item(rng, rng.choice((70_000, 140_000, 300_000, 600_000))), gen.item(rng, 20)]
    encs = [i.raw for i in items]
    level = (0, 1, 6, 0, 9)[index % 5]
    f = RecFile(keep_data=True)
    gen.write_log(items, level, bs, f)
    ops = f.ops
    for k in range(len(ops) + 1):
        check_state(ctx, apply_ops(ops, k), items, encs, f"crash after operation {k} of {len(ops)} (level {level}, buffer {bs})",
                    deep=False)
        ctx.count("op_crash_states")
        if k < len(ops) and ops[k][0] == "write":
            n = len(ops[k][2])
            pts = {1, 16, 17, 32, 33, n // 2, n - 1, n - 17} | {p + d for p in (4096, 8192, 65_536, 131_072) for d in (-1, 0, 1, 32)}
            pts = sorted(p for p in pts | {rng.randrange(1, max(2, n)) for _ in range(2)} if 0 < p < n)
            for t in pts if len(pts) < 8 else rng.sample(pts, 8):
                check_state(ctx, apply_ops(ops, k, t), items, encs,
                            f"operation {k} of {len(ops)} torn after {t} of {n} bytes (level {level}, buffer {bs})", deep=False)
                ctx.count("torn_states")
                if n > 65_536:
                    ctx.count("torn_large_writes")


def while_logging(ctx, rng, index):
    """What a second reader sees between two writes of a log in progress."""
    items = gen.seq(rng, rng.randint(1, 15), 80)
    encs = [i.raw for i in items]
    level, bs = rng.randint(0, 9), gen.gen_buffer_size(rng)
    f = RecFile()
    w = gen.writer_cls()(f, level, bs)
    least = 0
    for k, it in enumerate(items):
        w.write(it.build())
        n = check_state(ctx, f.content(), items, encs, f"after write {k} (level {level}, buffer {bs})", deep=False)
        ctx.check(n >= least, "fewer objects readable than before")
        least = n
        ctx.count("live_states")
    w.close()
    check_state(ctx, f.content(), items, encs, "after close")


CHILD = r'''
import os, sys
sys.path[:0] = [os.environ.get("VF_SRC", "/repo/src"), sys.argv[1]]
from random import Random
from vf import gen
path, seed, n, level, bs, stop = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
items = gen.seq(Random(seed), n, 200)
w = gen.writer_cls()(path, level, bs)
for k, it in enumerate(items):
    if k == stop:
        os._exit(9)
    w.write(it.build())
os._exit(9)
'''


def killed(ctx, rng, index):
    """A process that dies while logging to a real file."""
    from random import Random

    path = ctx.path()
    n, level, bs = rng.randint(20, 200), gen.gen_level(rng), rng.choice((100, 3000, 20000))
    seed = f"killed/{ctx.seed}/{index}"
    stop = rng.randint(0, n)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = idle.run([sys.executable, "-c", CHILD, here, path, seed, str(n), str(level), str(bs), str(stop)], "a process that logs")
    if p.returncode != 9:
        ctx.fail(f"logging process ended with {p.returncode} instead of dying: {p.stderr.decode()[-800:]}")
    items = gen.seq(Random(seed), n, 200)
    with open(path, "rb") as f:
        raw = f.read()
    k = check_state(ctx, raw, items, [i.raw for i in items], f"process killed before write {stop} of {n}")
    ctx.count("killed_processes")
    ctx.count("objects_after_kill", k)


def header_torn(ctx, rng, index):
    """A crash while the final header of a log of many objects is written: any part of it may be there."""
    n = (256, 300, 511, 600, 65_536, 70_000)[index % 6]
    if n > 1000 and not ctx.thorough and index >= 6:
        n = 1000
    it = gen.raw_item(rng, 8)
    items = [it] * n
    encs = [it.raw] * n
    f = RecFile(keep_data=True, max_ops=3_000_000)
    gen.write_log(items, gen.gen_level(rng), 1 << 16, f)
    ops = f.ops
    last = max(k for k, o in enumerate(ops) if o[0] == "write")
    size = len(ops[last][2])
    if n > 1000:
        pts = sorted({25, 33, 34, 41, 42, 43, 44} | {rng.randrange(1, size) for _ in range(2)})
    else:
        pts = range(1, size)
    for t in pts:
        if 0 < t < size:
            check_state(ctx, apply_ops(ops, last, t), items[:5], encs, f"final header of a log of {n} objects torn after {t} bytes",
                        deep=False)
            ctx.count("torn_states")
            ctx.count("torn_headers")


def big(ctx, rng, index):
    """Large objects and containers, random cuts and cuts around every boundary."""
    items = [gen.item(rng, 20), gen.big_item(rng, rng.choice((30_000, 140_000, 300_000))), gen.item(rng, 20),
             gen.big_item(rng, 9000), gen.item(rng, 20)]
    encs = [i.raw for i in items]
    level, bs = gen.gen_level(rng), rng.choice((4096, 20000, 128 * 1024))
    raw = gen.write_log(items, level, bs).content()
    cuts = {rng.randrange(144, len(raw) + 1) for _ in range(10)}
    cs = blf.parse_containers(raw)
    for c in cs if len(cs) < 12 else rng.sample(cs, 12):
        cuts |= {c.off - 1, c.off, c.off + 1, c.off + 15, c.off + 16, c.off + 17, c.off + 31, c.off + 32, c.off + 33, c.end - 1,
                 c.end, c.end + 1}
    for t in sorted(cuts):
        if 144 <= t <= len(raw):
            check_state(ctx, raw[:t], items, encs, f"cut at {t} of {len(raw)} (level {level}, buffer {bs})", deep=False)
            ctx.count("truncations")


def families(tier):
    t = tier == "thorough"
    return [
        ("killed", 100 if t else 10, killed),
        ("header_torn", 60 if t else 8, header_torn),
        ("truncate", 2500 if t else 90, truncate),
        ("crash", 3000 if t else 120, crash),
        ("while_logging", 5000 if t else 250, while_logging),
        ("crash_large", 300 if t else 24, crash_large),
        ("big", 250 if t else 16, big),
    ]
