"""C17: damage does not affect what precedes it, and reading always ends."""

import struct

from .. import blf, gen, model as m
from ..engine import COV
from ..iofiles import RecFile

PROP = "C17"
LEVEL = "fault_enumeration"
RULE = ("A case builds a log with known containers (by the real writer or the independent builder), damages it after "
        "the file header (one byte at every offset, header fields set to hostile numbers, blocks overwritten, inserted, "
        "removed, swapped) and reads it under a budget of file operations, executed lines and deliveries. Monitored: the "
        "objects guaranteed to precede the damage come first and equal; reading ends normally or by an Exception. "
        "Distinct = different damaged files; non-trivial = at least one object is guaranteed or the damage made "
        "reading end early.")
ASSUMPTIONS = ["a damaged file is at most some hundred kilobytes long; damage does not create adversarially nested containers"]
REQUIRED = {"large_logs": 50, "damaged_files": 20000, "guaranteed_objects": 20000, 
            "budgeted_reads": 1000, "same_length_in_stored": 2000}


class Log:
    """bytes, file end of the data of each object, stored payload spans with the objects in them."""

    def __init__(self, raw, items, ends, spans):
        self.raw, self.items, self.ends, self.spans = raw, items, ends, spans

    def safe(self, d, same_length=False):
        """Objects guaranteed when the first damaged byte is at file offset d."""
        k = 0
        while k < len(self.ends) and self.ends[k] <= d:
            k += 1
        if same_length:
            for a, b, pos in self.spans:  # stored payload of the file at a..b holds the stream from pos on
                if a <= d < b:
                    s = pos + d - a
                    while k < len(self.send) and self.send[k] <= s:
                        k += 1
        return k


def from_containers(raw, items, cs):
    """cs: (file end, payload, stored payload's file offset or None) in file order."""
    send, pos = [], 0
    stream = b"".join(c[1] for c in cs)
    for it in items:
        while stream[pos:pos + len(it.raw)] != it.raw:  # zero filler
            pos += 1
            assert pos < len(stream)
        pos += len(it.raw)
        send.append(pos)
    ends, spans = [], []
    tot, k = 0, 0
    for end, payload, off in cs:
        if off is not None:
            spans.append((off, off + len(payload), tot))
        tot += len(payload)
        while k < len(send) and send[k] <= tot:
            ends.append(end)
            k += 1
    log = Log(raw, items, ends, spans)
    log.send = send
    return log


def written(rng, items, level, bs):
    raw = gen.write_log(items, level, bs).content()
    cs = [(c.end, c.payload, c.off + 32 if c.method == 0 else None) for c in blf.parse_containers(raw)]
    return from_containers(raw, items, cs)


def built(rng, items):
    """Containers by the independent builder: stored or deflated, odd filler, any cuts."""
    stream = b"".join(i.raw + bytes(rng.choice((0, -len(i.raw) % 4, -len(i.raw) % 8))) for i in items)
    pts = sorted(rng.randint(0, len(stream)) for _ in range(rng.choice((0, 1, 3, 8))))
    raw = bytearray(gen.head(rng, level=rng.choice((0, 6)), count=len(items)))
    cs = []
    for a, b in zip([0] + pts, pts + [len(stream)]):
        deflate = rng.random() < 0.5
        off = len(raw) + 32
        raw += blf.container(stream[a:b], deflate=deflate, zlevel=rng.randint(0, 9))
        cs.append((len(raw), stream[a:b], None if deflate else off))
        raw += bytes(rng.choice((0, -len(raw) % 4, -len(raw) % 8)))
    return from_containers(bytes(raw), items, cs)


def bare(rng, items):
    """Objects outside of containers."""
    raw = bytearray(gen.head(rng, level=rng.choice((0, 6))))
    ends = []
    for it in items:
        raw += it.raw
        ends.append(len(raw))
        raw += bytes(-len(raw) % 4)
    log = Log(bytes(raw), items, ends, [])
    log.send = []
    return log


def make(rng, n, cap):
    items = gen.seq(rng, n, cap)
    r = rng.random()
    if r < 0.5:
        return written(rng, items, gen.gen_level(rng), rng.choice((20, 60, 150, 400, 2000, 100_000)))
    if r < 0.9:
        return built(rng, items)
    return bare(rng, items)


def read(ctx, log, raw, safe, what, budget=False):
    f = RecFile(raw, max_ops=5000 + 16 * len(raw))
    got = []
    size = len(raw) + sum(len(i.raw) for i in log.items)
    limit = 1000 + 4 * size
    how = "end"
    if budget:
        COV.start_budget(100_000 + 200 * size)
    try:
        try:
            r = gen.reader_cls()(f)
            for o in r:
                got.append(o)
                if len(got) > limit:
                    ctx.fail(f"{what}: more than {limit} objects delivered from {len(raw)} bytes", file=raw)
        finally:
            if budget:
                COV.stop_budget()
    except Exception as ex:
        if type(ex).__name__ == "Violation":
            raise
        how = type(ex).__name__
    if len(got) < safe:
        ctx.fail(f"{what}: {len(got)} objects delivered, then {how}; {safe} of {len(log.items)} precede the damage", file=raw)
    ctx.no(gen.check_items(log.items[:safe], got[:safe]), what, file=raw)
    ctx.count("damaged_files")
    ctx.count("guaranteed_objects", safe)
    ctx.count("ended_normally" if how == "end" else "ended_by_exception")
    if how != "end":
        ctx.count("exc_" + how)
    if budget:
        ctx.count("budgeted_reads")
    ctx.eval(hash(raw), safe > 0 or how != "end")
    return how


def each_byte(ctx, rng, index):
    """Every byte after the file header is changed, removed, doubled."""
    log = make(rng, rng.randint(1, 4), rng.choice((0, 8, 30)))
    raw = log.raw
    n = len(raw)
    if n > 1500:
        raise_skip()
    for d in range(144, n):
        x = raw[d] ^ rng.choice((1, 0x80, 0xFF, rng.randint(1, 255)))
        read(ctx, log, raw[:d] + bytes([x]) + raw[d + 1:], log.safe(d, True), f"byte {d} of {n} changed from {raw[d]} to {x}",
             rng.random() < 0.1)
        if any(a <= d < b for a, b, _ in log.spans):
            ctx.count("same_length_in_stored")
        read(ctx, log, raw[:d] + raw[d + 1:], log.safe(d), f"byte {d} of {n} removed", rng.random() < 0.1)
        ins = bytes([rng.choice((0, raw[d], 0x4C, rng.randrange(256)))])
        read(ctx, log, raw[:d] + ins + raw[d:], log.safe(d), f"byte {ins.hex()} inserted at {d} of {n}", rng.random() < 0.1)
    ctx.sample(lambda: {"file": raw[:400], "objects": [i.name for i in log.items], "container_ends": sorted(set(log.ends))})


def large(ctx, rng, index):
    """Damage in and behind objects and containers of some hundred KiB."""
    items = gen.enlarge(rng, gen.seq(rng, rng.randint(1, 6), 60), 4)
    log = built(rng, items) if index % 2 else written(rng, items, gen.gen_level(rng), rng.choice((4000, 20_000, 65536, 131072, 1 << 20)))
    raw = log.raw
    n = len(raw)
    at = [p for p in sorted(set(log.ends)) if p < n] + [p + rng.randint(0, 40) for p in log.ends if p + 40 < n]
    for k in range(14):
        d = rng.choice(at) if at and rng.random() < 0.5 else n - 1 - rng.randrange(40) if rng.random() < 0.3 else rng.randint(144, n - 1)
        if k % 3 == 0:
            x = raw[d] ^ rng.randint(1, 255)
            read(ctx, log, raw[:d] + bytes([x]) + raw[d + 1:], log.safe(d, True), f"large objects, byte {d} of {n} changed to {x}", k == 0)
        elif k % 3 == 1:
            c = rng.choice((1, 1, 4, 100, 70_000))
            read(ctx, log, raw[:d] + raw[d + c:], log.safe(d), f"large objects, {c} bytes at {d} of {n} removed", k == 1)
        else:
            ins = rng.randbytes(rng.choice((1, 1, 4, 100)))
            read(ctx, log, raw[:d] + ins + raw[d:], log.safe(d), f"large objects, {len(ins)} bytes inserted at {d} of {n}", k == 2)
    ctx.count("large_logs")


def raise_skip():
    from ..engine import Skip
    raise Skip()


HOSTILE = (0, 1, 4, 15, 16, 17, 31, 32, 33, 144, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0,
           0xFFFFFFFF)


def find_objects(raw):
    out, i = [], 144
    while (i := raw.find(m.SIG, i)) >= 0:
        out.append(i)
        i += 1
    return out


def fields(ctx, rng, index):
    """Sizes, types and methods in container and object headers set to hostile numbers."""
    log = make(rng, rng.randint(1, 6), rng.choice((0, 30, 100)))
    raw = log.raw
    at = find_objects(raw)
    for _ in range(60):
        p = rng.choice(at)
        off, size = rng.choice(((4, 2), (6, 2), (8, 4), (8, 4), (8, 4), (12, 4), (12, 4), (16, 4), (16, 2), (24, 4), (24, 8),
                                (32, 2), (32, 4), (36, 4), (40, 4)))
        if p + off + size > len(raw):
            continue
        old = blf.u(raw, p + off, size)
        new = rng.choice(HOSTILE + (old + 1, old - 1, old + 8, old * 2, old // 2, len(raw), len(raw) - p, rng.getrandbits(32), 10, 10))
        new &= (1 << 8 * size) - 1
        if new == old:
            continue
        b = bytearray(raw)
        b[p + off:p + off + size] = m.enc(f"u{8 * size}", new)
        d = next(i for i in range(len(raw)) if b[i] != raw[i])
        read(ctx, log, bytes(b), log.safe(d, True), f"{size} bytes at {p}+{off} set from {old} to {new}", rng.random() < 0.1)
        if any(a <= d < e for a, e, _ in log.spans):
            ctx.count("same_length_in_stored")
        ctx.count("hostile_fields")


def blocks(ctx, rng, index):
    """Blocks overwritten, inserted, removed, moved; several at once."""
    log = make(rng, rng.choice((1, 4, 10, 25)), rng.choice((8, 60, 400)))
    raw = log.raw
    n = len(raw)
    if n <= 145:
        return
    for _ in range(12):
        b = bytearray(raw)
        first, same = n, True
        did = []
        for _ in range(rng.choice((1, 1, 1, 2, 4))):
            kind = rng.randrange(8)
            d = rng.randint(144, max(144, len(b) - 1))
            k = min(rng.choice((1, 2, 4, 8, 16, 40, 200, 2000)), max(1, len(b) - d))
            junk = rng.choice((rng.randbytes(k), bytes(k), b"\xff" * k, (m.SIG * k)[:k], raw[144:144 + k].ljust(k, b"\0")))
            if kind <= 2:
                b[d:d + k] = junk[:len(b) - d]
            elif kind == 3:
                del b[d:d + k]
                same = False
            elif kind == 4:
                b[d:d] = junk
                same = False
            elif kind == 5:  # a piece of the file copied elsewhere
                s = rng.randint(144, len(b))
                b[d:d] = b[s:s + k]
                same = False
            elif kind == 6:  # a whole container or object again
                ats = find_objects(bytes(b)) or [144]
                s, e = sorted((rng.choice(ats), rng.choice(ats)))
                b[d:d] = b[s:e]
                same = False
            else:
                b[d:] = b""
                same = False
            first = min(first, d)
            did.append((kind, d, k))
        if same:
            first = next((i for i in range(n) if b[i] != raw[i]), n)
        read(ctx, log, bytes(b), log.safe(first, same), f"damage {did} of {n} bytes", rng.random() < 0.1)
        if same and any(a <= first < e for a, e, _ in log.spans):
            ctx.count("same_length_in_stored")


def appended(ctx, rng, index):
    """Anything appended to a log: all its objects are delivered."""
    log = make(rng, rng.randint(0, 6), 60)
    other = make(rng, 2, 30).raw
    for junk in (rng.randbytes(rng.randint(1, 100)), bytes(rng.randint(1, 40)), m.SIG, m.SIG * 3, b"LOB", other, other[144:], other[:144],
                 log.raw, m.SIG + bytes(28), m.SIG + b"\xff" * 40, blf.container(rng.randbytes(50), deflate=False),
                 blf.container(b"", deflate=True), blf.container(m.SIG * 5, deflate=True)):
        read(ctx, log, log.raw + junk, len(log.items), f"{len(junk)} bytes appended ({junk[:40].hex()})", rng.random() < 0.2)
        ctx.count("appended")


def nested(ctx, rng, index):
    """Damage that turns objects into containers and containers into objects; containers in containers."""
    log = make(rng, rng.randint(2, 8), 60)
    raw = bytearray(log.raw)
    at = find_objects(bytes(raw))
    first = len(raw)
    for _ in range(rng.randint(1, 3)):
        p = rng.choice(at)
        if p + 16 > len(raw):
            continue
        raw[p + 12:p + 16] = m.enc("u32", rng.choice((10, 10, 10, 1, 5, 86, 100, 0, 200)))
        if rng.random() < 0.5 and p + 20 <= len(raw):
            raw[p + 16:p + 20] = m.enc("u32", rng.choice((0, 1, 2, 3)))
        first = min(first, p + 12)
    if rng.random() < 0.3:
        inner = bytes(raw[144:])
        for _ in range(rng.randint(1, 6)):
            inner = blf.container(inner, deflate=rng.random() < 0.5)
        first = 144
        raw[144:] = inner
    d = next((i for i in range(min(len(raw), len(log.raw))) if raw[i] != log.raw[i]), len(raw))
    read(ctx, log, bytes(raw), log.safe(d, len(raw) == len(log.raw)), "types of objects changed", True)


def on_disk(ctx, rng, index):
    """The same with real files opened by path."""
    log = make(rng, rng.randint(1, 10), 200)
    raw = log.raw
    for _ in range(4):
        b = bytearray(raw)
        d = rng.randint(144, len(b)) if len(b) > 144 else 144
        b[d:d + rng.choice((0, 1, 4))] = rng.randbytes(rng.choice((1, 4, 30)))
        path = ctx.path()
        with open(path, "wb") as f:
            f.write(b)
        got, how = [], "end"
        with gen.reader_cls()(path) as r:
            try:
                for o in r:
                    got.append(o)
                    if len(got) > 100_000:
                        ctx.fail("delivers without end", file=bytes(b))
            except Exception as ex:
                if type(ex).__name__ == "Violation":
                    raise
                how = type(ex).__name__
        safe = log.safe(d)
        ctx.check(len(got) >= safe, f"file on disk damaged at {d}: {len(got)} objects, then {how}; {safe} precede the damage", file=bytes(b))
        ctx.no(gen.check_items(log.items[:safe], got[:safe]), f"file on disk damaged at {d}", file=bytes(b))
        ctx.count("damaged_files")
        ctx.count("guaranteed_objects", safe)
        ctx.eval(hash(bytes(b)), safe > 0 or how != "end")


def longer(ctx, rng, index):
    """Large logs of many containers damaged near the end."""
    pool = gen.seq(rng, 20, 60)
    items = [rng.choice(pool) for _ in range(600)]
    log = written(rng, items, rng.choice((0, 6)), rng.choice((100, 1000, 8000)))
    for _ in range(4):
        b = bytearray(log.raw)
        d = rng.randint(len(b) // 2, len(b) - 1)
        k = rng.choice((1, 4, 100))
        b[d:d + k] = rng.randbytes(k)[:len(b) - d]
        d = next((i for i in range(len(b)) if b[i] != log.raw[i]), len(b))
        read(ctx, log, bytes(b), log.safe(d, True), f"{k} bytes at {d} of {len(b)} overwritten")


def families(tier):
    t = tier == "thorough"
    return [
        ("each_byte", 1600 if t else 60, each_byte),
        ("large", 3000 if t else 150, large),
        ("fields", 10000 if t else 250, fields),
        ("appended", 6000 if t else 150, appended),
        ("nested", 60000 if t else 2000, nested),
        ("on_disk", 6000 if t else 150, on_disk),
        ("longer", 400 if t else 16, longer),
        ("blocks", 60000 if t else 1500, blocks),
    ]
