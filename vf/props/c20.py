"""C20: the file header record is decoded and encoded exactly."""

import io

from .. import blf, gen, model as m
from ..gen import vb
from ..iofiles import RecFile
from .c03 import diff, snap

PROP = "C20"
LEVEL = "exploration"
RULE = ("A case generates or sweeps the 144 bytes of a file header, decodes them by FileStatistics and by opening a file "
        "with BlfReader, compares every field with the little-endian value at its place in the layout, encodes it again "
        "and compares bytes; single fields are changed with all other bytes watched. Distinct = different header bytes; "
        "non-trivial = not the default header.")
ASSUMPTIONS = ["files opened start with the signature LOGG; any other 140 bytes are allowed"]
REQUIRED = {"decoded": 20000, "reencoded": 10000, "through_reader": 3000, "app_ids": 256, "levels": 256,
            "changed_fields": 2000}

FIELDS = [("signature", 0, "b4"), ("statistics_size", 4, "u32"), ("api_number", 8, "u32"), ("application_id", 12, "u8"),
          ("compression_level", 13, "u8"), ("application_major", 14, "u8"), ("application_minor", 15, "u8"),
          ("file_size", 16, "u64"), ("uncompressed_file_size", 24, "u64"), ("object_count", 32, "u32"),
          ("application_build", 36, "u32"), ("restore_points_offset", 72, "u64"), ("reserved", 80, "b64")]
SYS = ["year", "month", "day_of_week", "day", "hour", "minute", "second", "milliseconds"]
for _t, _o in (("measurement_start_time", 40), ("last_object_time", 56)):
    FIELDS += [(f"{_t}.{s}", _o + 2 * i, "u16") for i, s in enumerate(SYS)]
WIDTH = {"b4": 4, "b64": 64, "u8": 1, "u16": 2, "u32": 4, "u64": 8}
APPS = {0: "UNKNOWN", 1: "CANALYZER", 2: "CANOE", 3: "CANSTRESS", 4: "CANLOG", 5: "CANAPE", 6: "CANCASEXLLOG", 7: "VLCONFIG",
        200: "PORSCHELOGGER"}
LEVELS = {0: "NONE", 1: "SPEED", 6: "DEFAULT", 9: "MAX"}
assert sum(WIDTH[k] for _, _, k in FIELDS) == 144


def differences(s, raw):
    bad = []
    for path, off, kind in FIELDS:
        got = m.get(s, path)
        part = raw[off:off + WIDTH[kind]]
        if kind[0] == "b":
            if not isinstance(got, bytes) or got != part:
                bad.append(f"{path} is {got!r:.100}, stored {part.hex()}")
            continue
        exp = int.from_bytes(part, "little")
        if path == "application_id":
            if getattr(got, "name", None) != APPS.get(exp, "UNKNOWN") or int(got) != (exp if exp in APPS else 0):
                bad.append(f"application_id {exp} reads as {got!r}")
            continue
        if not isinstance(got, int) or isinstance(got, bool) or int(got) != exp:
            bad.append(f"{path} is {got!r}, stored {exp}")
        elif path == "compression_level" and exp in LEVELS and getattr(got, "name", None) != LEVELS[exp]:
            bad.append(f"compression_level {exp} reads as {got!r}")
    return bad


def verify(ctx, raw, reader=False, sig=True):
    cls = vb("general").FileStatistics
    s = cls.unpack(raw)
    ctx.check(type(s) is cls, f"decodes to a {type(s).__name__}")
    ctx.no(differences(s, raw), "", header=raw)
    ctx.count("decoded")
    if raw[12] in APPS:
        before = snap(s)
        p = s.pack()
        ctx.check(isinstance(p, (bytes, bytearray)) and p == raw,
                  lambda: f"re-encoding gives {len(p)} bytes, differing at {diff(p, raw)}", header=raw, got=p)
        ctx.check(s.pack() == raw and snap(s) == before, "encoding changes the header record", header=raw)
        ctx.check(cls.unpack(bytes(p)) == s, "decoding again gives another record", header=raw)
        ctx.count("reencoded")
    else:
        p = s.pack()
        ctx.check(p[:12] + p[13:] == raw[:12] + raw[13:], "re-encoding changes other bytes than the application id", header=raw, got=p)
    if reader:
        r = gen.reader_cls()(RecFile(raw, max_ops=1000))
        ctx.no(differences(r.file_statistics, raw), "BlfReader.file_statistics", header=raw)
        ctx.check(r.file_statistics == s, "BlfReader.file_statistics differs from the decoded header", header=raw)
        ctx.check(r.read_object() is None, "an object was read from a lone file header", header=raw)
        ctx.count("through_reader")
    ctx.eval(raw)
    return s


def header(rng, known=True):
    raw = bytearray(rng.randbytes(144)) if rng.random() < 0.5 else bytearray(144)
    for path, off, kind in FIELDS:
        if rng.random() < 0.6:
            if kind[0] == "b":
                raw[off:off + WIDTH[kind]] = m.gen_bytes(rng, WIDTH[kind])
            else:
                raw[off:off + WIDTH[kind]] = m.enc(kind, m.gen_int(rng, 8 * WIDTH[kind]))
    raw[:4] = b"LOGG"
    if rng.random() < (0.8 if known else 0):
        raw[12] = rng.choice(list(APPS))
    return raw


def random(ctx, rng, index):
    for _ in range(10):
        verify(ctx, bytes(header(rng)), rng.random() < 0.3)
    ctx.sample(lambda: {"header": bytes(header(rng))})


def numbers(ctx, rng, index):
    """All 256 application ids and compression levels; through the reader too, with objects behind the header."""
    raw = header(rng)
    for x in range(256):
        raw[12] = x
        verify(ctx, bytes(raw), True)
        ctx.count("app_ids")
    raw[12] = rng.choice(list(APPS))
    for x in range(256):
        raw[13] = x
        verify(ctx, bytes(raw), True)
        ctx.count("levels")
    # the header's contents do not disturb reading
    it = gen.item(rng, 40)
    body = blf.container(it.raw, deflate=rng.random() < 0.5)
    for x in (0, 1, 6, 9, rng.randrange(10)):
        raw[13] = x
        r = gen.reader_cls()(io.BytesIO(bytes(raw) + body))
        ctx.no(differences(r.file_statistics, bytes(raw)), "file_statistics with objects behind", header=bytes(raw))
        ctx.no(gen.check_items([it], list(r)), "object behind the header", header=bytes(raw))
        ctx.no(differences(r.file_statistics, bytes(raw)), "file_statistics after reading", header=bytes(raw))


def sweep(ctx, rng, index):
    """Each field through its values in place: decoding shows it, encoding writes only its bytes."""
    path, off, kind = FIELDS[index % len(FIELDS)]
    cls = vb("general").FileStatistics
    raw = bytearray(header(rng))
    raw[12] = rng.choice(list(APPS))
    s = cls.unpack(bytes(raw))
    parent = m.get(s, path.rpartition(".")[0]) if "." in path else s
    name = path.rpartition(".")[2]
    w = WIDTH[kind]
    if kind[0] == "b":
        vals = [m.gen_bytes(rng, w) for _ in range(40)] + [bytes(w), b"\xff" * w] + [bytes(i) + b"\1" + bytes(w - i - 1) for i in range(w)]
    elif path == "application_id":
        vals = list(APPS)
    elif w == 1:
        vals = range(256)
    else:
        vals = sorted(set(m.PATTERNS[8 * w])) + [rng.getrandbits(8 * w) for _ in range(100)]
    for x in vals:
        part = x if kind[0] == "b" else m.enc(kind, x)
        raw[off:off + w] = part
        y = x
        if path == "application_id":
            y = m._const("AppId")(x)
        elif path == "compression_level" and x in LEVELS and rng.random() < 0.5:
            y = m._const("Compression")(x)
        setattr(parent, name, y)
        p = s.pack()
        ctx.check(p == raw, lambda: f"{path} = {x!r}: encoding differs from the layout at {diff(p, raw)}", header=bytes(raw), got=p)
        if path == "signature":
            ctx.no(differences(cls.unpack(bytes(raw)), bytes(raw)), path, header=bytes(raw))
            ctx.eval(bytes(raw))
        else:
            verify(ctx, bytes(raw), rng.random() < 0.1 and raw[:4] == b"LOGG")
        ctx.count("changed_fields")


def built(ctx, rng, index):
    """Records built from field values."""
    g = vb("general")
    raw = bytes(header(rng))
    raw = raw[:12] + bytes([rng.choice(list(APPS))]) + raw[13:]
    kw = {}
    for path, off, kind in FIELDS:
        part = raw[off:off + WIDTH[kind]]
        if "." not in path:
            kw[path] = part if kind[0] == "b" else int.from_bytes(part, "little")
    kw["application_id"] = m._const("AppId")(kw["application_id"])
    for t, off in (("measurement_start_time", 40), ("last_object_time", 56)):
        kw[t] = g.SystemTime(*[blf.u(raw, off + 2 * i, 2) for i in range(8)])
    s = g.FileStatistics(**kw)
    p = s.pack()
    ctx.check(p == raw, lambda: f"built record encodes differently at {diff(p, raw)}", header=raw, got=p)
    ctx.check(g.FileStatistics.unpack(raw) == s, "decoded record differs from the built one", header=raw)
    ctx.count("reencoded")
    ctx.eval(raw)


def bits(ctx, rng, index):
    """Every bit of the header on its own."""
    base = bytearray(header(rng))
    base[12] = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 200))
    for b in range(32, 144 * 8):
        if 96 <= b < 104:
            continue
        raw = bytearray(base)
        raw[b // 8] ^= 1 << b % 8
        verify(ctx, bytes(raw), b % 16 == 0)


def written(ctx, rng, index):
    """Headers of logs by the real writer decode to what is stored, and re-encode to it."""
    items = gen.seq(rng, rng.randint(0, 4), 30)
    raw = gen.write_log(items, rng.randrange(10), 1000).content()
    verify(ctx, raw[:144], True)


def families(tier):
    t = tier == "thorough"
    return [
        ("numbers", 400 if t else 8, numbers),
        ("sweep", len(FIELDS) * (200 if t else 6), sweep),
        ("bits", 300 if t else 8, bits),
        ("written", 6000 if t else 160, written),
        ("built", 60000 if t else 2000, built),
        ("random", 60000 if t else 2500, random),
    ]
