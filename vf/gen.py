"""Object and log generators; every item knows its exact encoding and how to check a decoded object."""

from __future__ import annotations

import importlib
import io

from . import blf
from . import model as m
from .model import SPECS, SPEC_BY_TYPE, TYPE_NAMES, UNSUPPORTED


def vb(name):
    return importlib.import_module("vblf." + name)


def reader_cls():
    return vb("reader").BlfReader


def writer_cls():
    return vb("writer").BlfWriter


class Item:
    """A supported object with known field values."""

    __slots__ = ("spec", "v", "raw")

    def __init__(self, spec, v):
        self.spec, self.v = spec, v
        self.raw = spec.encode(v)

    @property
    def name(self):
        return self.spec.cls_name

    def build(self):
        return self.spec.build(self.v)

    def check(self, obj):
        """Differences between a decoded object and this item."""
        if type(obj) is not self.spec.cls:
            return [f"expected a {self.spec.cls_name}, got {type(obj).__name__}"]
        return self.spec.compare(obj, self.v)

    def describe(self):
        return {"class": self.name, "type": self.v["header.base.object_type"], "bytes": self.raw[:400].hex()}


class RawItem:
    """An object of an unsupported or unknown type."""

    __slots__ = ("num", "raw")

    def __init__(self, num, raw):
        self.num, self.raw = num, raw

    @property
    def name(self):
        return f"type{self.num}"

    def build(self):
        return vb("general").NotImplementedObject.unpack(self.raw)

    def check(self, obj):
        cls = vb("general").NotImplementedObject
        if not isinstance(obj, cls):
            return [f"expected a NotImplementedObject for type {self.num}, got {type(obj).__name__}"]
        bad = []
        if not isinstance(obj.buffer, (bytes, bytearray)) or bytes(obj.buffer) != self.raw:
            bad.append(f"buffer is {bytes(obj.buffer)[:40].hex()}.., stored {self.raw[:40].hex()}..")
        base = obj.header.base
        if base.object_size != len(self.raw):
            bad.append(f"object_size {base.object_size}, stored {len(self.raw)}")
        if base.object_type.name != TYPE_NAMES.get(self.num, "UNKNOWN"):
            bad.append(f"object_type {base.object_type!r} for stored {self.num}")
        if base.signature != m.SIG or base.header_size != blf.u(self.raw, 4, 2) \
                or base.header_version != blf.u(self.raw, 6, 2):
            bad.append(f"base header {base!r} for {self.raw[:16].hex()}")
        return bad

    def describe(self):
        return {"type": self.num, "bytes": self.raw[:400].hex()}


def raw_item(rng, cap=300, num=None):
    if num is None:
        r = rng.random()
        if r < 0.6:
            num = rng.choice(UNSUPPORTED)
        elif r < 0.8:
            num = rng.randint(129, 1000)
        else:
            num = m.gen_int(rng, 32)
        if num in SPEC_BY_TYPE or num == m.CONTAINER_TYPE:
            num = 0xFFFFFFFF - num
    n = m.gen_len(rng, cap) if rng.random() < 0.8 else rng.randint(0, 20)
    hs = 32 if rng.random() < 0.7 else m.gen_int(rng, 16)
    hv = 1 if rng.random() < 0.7 else m.gen_int(rng, 16)
    return RawItem(num, m.raw_object(num, m.gen_bytes(rng, n), hs, hv))


def item(rng, cap=300, headers="any", specs=SPECS):
    spec = rng.choice(specs)
    return Item(spec, spec.gen(rng, cap, headers))


def seq(rng, n, cap=300, raw_share=0.2, headers="any"):
    """n items, all kinds of shapes."""
    r = rng.random()
    if r < 0.15:  # homogeneous
        spec = rng.choice(SPECS)
        out = [Item(spec, spec.gen(rng, cap, headers)) for _ in range(n)]
    else:
        out = [raw_item(rng, cap) if rng.random() < raw_share else item(rng, cap, headers) for _ in range(n)]
    if rng.random() < 0.15:  # the same once more
        for k in range(1, n):
            if rng.random() < 0.5:
                out[k] = out[k - 1]
    return out


# sizes at which an implementation may change its ways
LARGE = (1024, 2048, 4096, 8192, 10_000, 16384, 32768, 65536, 100_000, 131072, 200_000)


def big_item(rng, size):
    """An item whose encoding has about `size` bytes."""
    kind = rng.randrange(5)
    if kind == 0:
        return _raw_big(rng, max(16, size))
    name = ("EnvironmentVariable", "SystemVariable", "FunctionBus", "AppText")[kind - 1]
    spec = m.SPEC_BY_NAME[name]
    v = spec.gen(rng, 8, "std")
    v["@pad"] = 0
    body = max(0, size - spec.fixed - (8 if name != "AppText" else 0))
    if name == "AppText":
        v["@text"] = (m.gen_text(rng, min(body, 4096)) * (body // 4096 + 1))[:body]
        v["@term"] = True
    else:
        v["@data"] = _blob(rng, body)
    spec.resize(v)
    return Item(spec, v)


def enlarge(rng, items, most=3):
    """Replace a few of the items by large ones."""
    for _ in range(rng.randint(1, most)):
        if items:
            k = rng.randrange(len(items))
            items[k] = big_item(rng, max(16, rng.choice(LARGE) + rng.randint(-40, 40)))
            if k + 1 < len(items) and rng.random() < 0.3:  # the same once more
                items[k + 1] = items[k]
    return items


def _blob(rng, n):
    r = rng.random()
    if r < 0.4:
        return rng.randbytes(n)
    if r < 0.6:
        return bytes(n)
    chunk = m.gen_bytes(rng, 5000) or b"x"
    return (chunk * (n // len(chunk) + 1))[:n]


def _raw_big(rng, size):
    num = rng.choice(UNSUPPORTED)
    return RawItem(num, m.raw_object(num, _blob(rng, size - 16)))


def fixed_items(seed):
    """A deterministic sequence containing every supported class once, small objects, and two raw ones."""
    from random import Random

    rng = Random(f"fixed/{seed}")
    out = [Item(s, s.gen(rng, 24, "std")) for s in SPECS]
    out.append(raw_item(rng, 24))
    out.append(raw_item(rng, 0))
    rng.shuffle(out)
    return out


# --------------------------------------------------------------------------- logs

def write_log(items, level=0, buffer_size=128 * 1024, file=None, objs=None):
    from .iofiles import RecFile

    f = RecFile(max_ops=200_000 + 200 * sum(len(i.raw) for i in items)) if file is None else file
    w = writer_cls()(f, level, buffer_size)
    for k, it in enumerate(items):
        w.write(it.build() if objs is None else objs[k])
    w.close()
    return f


def read_log(data, file=None):
    f = io.BytesIO(data) if file is None else file
    return list(reader_cls()(f))


def check_items(items, objs, where=""):
    """First differences between expected items and delivered objects."""
    bad = []
    for k, (it, o) in enumerate(zip(items, objs)):
        d = it.check(o)
        if d:
            bad.append(f"{where}object {k} ({it.name}): {'; '.join(d[:3])}")
            if len(bad) >= 3:
                break
    if len(objs) != len(items):
        bad.append(f"{where}{len(objs)} objects delivered, {len(items)} expected")
    return bad


def gen_level(rng):
    """A compression level of a writer: often none, else any."""
    return 0 if rng.random() < 0.4 else rng.randint(1, 9)


def gen_buffer_size(rng):
    r = rng.random()
    if r < 0.35:
        return rng.randint(1, 100)
    if r < 0.75:
        return rng.randint(100, 2000)
    if r < 0.9:
        return rng.randint(2000, 40000)
    return rng.choice((1, 8, 16, 48, 64, 128, 256, 4096, 65536, 128 * 1024, 1 << 20))


def reserved(rng):
    """Contents of the bytes of a container header that mean nothing."""
    if rng.random() < 0.7:
        return {}
    return {"client": m.gen_int(rng, 16), "version": m.gen_int(rng, 16)}


COUNTS = (0, 1, 2, 10, 100, 999, 1000, 4096, 65535, 65536, 100_001, 1 << 20, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1)
SIZES = (0, 1, 143, 144, 145, 160, 200, 300, 1000, 65536, 1 << 20, 16 << 20, (1 << 31) - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 63, (1 << 64) - 1)


def any_header(rng, *, level=0, count=None, fsize=None, usize=None):
    """A file header with any contents: none of them but the level bears on how the rest is read."""
    def pick(true, some, bits):
        r = rng.random()
        return true if r < 0.3 and true is not None else rng.choice(some) if r < 0.8 else m.gen_int(rng, bits)

    def when():
        r = rng.random()
        return (0,) * 8 if r < 0.2 else tuple(m.gen_int(rng, 16) for _ in range(8)) if r < 0.5 else blf.TIME0

    return blf.file_header(
        level=level, app=rng.choice((0, 1, 2, 5, 6, 7, 8, 9, 77, 255)), major=rng.randrange(256), minor=rng.randrange(256),
        count=pick(count, COUNTS, 32), fsize=pick(fsize, SIZES, 64), usize=pick(usize, SIZES, 64),
        build=pick(0, COUNTS, 32), start=when(), last=when(), restore=pick(0, SIZES, 64),
        reserved=bytes(64) if rng.random() < 0.5 else rng.randbytes(64),
        api=rng.choice((4070100, 0x3E4630, 0, 1, 3080200, (1 << 32) - 1)))


def head(rng, level=0, count=None):
    """The header of a file some other program wrote."""
    return blf.file_header(level=level, count=count or 0) if rng.random() < 0.5 else any_header(rng, level=level, count=count)


def package(rng, items, *, level=None, filler=True, outside=True, cuts=None, style=None):
    """A valid BLF file with randomly chosen packaging.  Returns (bytes, description)."""
    if level is None:
        level = rng.choice((0, 0, 1, 6, 9, 3))
    # stream pieces: either top-level objects or runs of contained stream bytes
    fill_p = rng.choice((0, 0.3, 1)) if filler else 0
    out = bytearray(head(rng, level, len(items)))
    desc = {"level": level, "parts": []}
    run = bytearray()

    def flush():
        nonlocal run
        if not run:
            return
        stream, run = bytes(run), bytearray()
        mode = rng.choice(("one", "few", "few", "many", "tiny")) if cuts is None else "fixed"
        n = len(stream)
        if mode == "fixed":
            pts = [c for c in cuts if 0 <= c <= n]
        elif mode == "one":
            pts = []
        elif mode == "few":
            pts = [rng.randint(0, n) for _ in range(rng.randint(1, 6))]
        elif mode == "many":
            pts = [rng.randint(0, n) for _ in range(rng.randint(5, max(6, n // 20)))]
        else:
            step = rng.choice((1, 2, 3, 5, 7, 16)) if n < 3000 else rng.choice((16, 64, 100))
            pts = list(range(step, n, step))
        pts = [0] + sorted(pts) + [n]
        for a, b in zip(pts, pts[1:]):
            put(stream[a:b])

    def put(payload):
        st = style or rng.choice(("std", "std", "std", "legacy"))
        if st == "legacy":  # as written by vblf <= 0.3.1 and described by other readers' sources
            c = blf.container(payload, deflate=level > 0, zlevel=level or 1, header_size=32, method=2, usize=0)
        else:
            deflate = rng.random() < 0.6 if style is None else style == "deflated"
            c = blf.container(payload, deflate=deflate, zlevel=rng.randint(0, 9), style=blf.random_style(rng),
                              header_version=1 if rng.random() < 0.8 else rng.randint(0, 5), **reserved(rng))
        out.extend(c)
        desc["parts"].append((st, len(payload)))
        if fill_p and rng.random() < fill_p:
            out.extend(gen_filler(rng))
        elif len(out) % 4 and rng.random() < 0.5:
            out.extend(bytes(len(c) % 4))

    for it in items:
        if outside and rng.random() < 0.15:
            flush()
            out.extend(it.raw)
            desc["parts"].append(("object", len(it.raw)))
            if fill_p and rng.random() < fill_p:
                out.extend(gen_filler(rng))
            continue
        run.extend(it.raw)
        if fill_p and rng.random() < fill_p:
            run.extend(gen_filler(rng))
        else:
            run.extend(bytes(-len(it.raw) % 4))
    flush()
    if rng.random() < 0.5:  # truthful sizes
        out[16:24] = m.enc("u64", len(out))
        out[24:32] = m.enc("u64", 144 + sum(len(i.raw) for i in items))
    else:
        out[:144] = any_header(rng, level=level, count=len(items), fsize=len(out), usize=144 + sum(len(i.raw) for i in items))
    return bytes(out), desc


def gen_filler(rng, n=None):
    """Filler bytes that do not form an object signature, alone or with what follows them."""
    if n is None:
        n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 40, 40, 144))
    while True:
        r = rng.random()
        if r < 0.4:
            f = bytes(n)
        elif r < 0.7:
            f = rng.randbytes(n)
        elif r < 0.8:
            f = (b"LOB" * n)[:n]
        elif r < 0.85:  # the signature of a file is none of an object
            f = (b"LOGG" * n)[:n] if n < 24 or rng.random() < 0.5 else (blf.file_header(level=rng.randrange(10)) * (n // 144 + 1))[:n]
        else:
            f = b"".join(rng.choice((b"L", b"O", b"B", b"LO", b"LOB", b"J", b"\0", b"LL", b"LOL")) for _ in range(n))[:n]
        if (f + m.SIG).find(m.SIG) == len(f):
            return f


# --------------------------------------------------------------------------- objects the writer must reject

class PackError(Exception):
    """Raised by a user's own object class."""


def own_object(pack, size, num=200):
    """An object of a user-defined class with the given pack() behaviour."""
    g = vb("general")

    class OwnObject(g.ObjectWithHeader):
        def pack(self):
            return pack()

    base = g.ObjectHeaderBase(m.SIG, 32, 1, size, vb("constants").ObjType.from_int(num))
    return OwnObject(g.ObjectHeader(base, vb("constants").ObjFlags(2), 0, 0, 0))


def _raiser(exc):
    def pack():
        raise exc
    return pack


FIXED = [s for s in SPECS if s.var is None or s.cls_name == "CanDriverErrorExt"]
TEXTS = [s for s in SPECS if s.var and any(k == "text" for _, _, k in getattr(s.var, "p", []))] + [m.SPEC_BY_NAME["AppText"]]
REJECTS = ("size_raw", "size_fixed", "size_own_short", "size_own_long", "size_own_empty", "range", "range_header",
           "bytes_type", "unicode", "own_error", "own_interrupt", "none", "partial", "text_longer", "own_lookup", "surrogate",
           "size_large")


def reject(rng, kind=None):
    """(kind, object, exception type that write must raise); size mismatches raise ValueError."""
    kind = kind or rng.choice(REJECTS)
    if kind == "size_raw":
        o = raw_item(rng, 60).build()
        d = rng.choice((-1, 1, 8, -16, 1000, 1 << 20))
        o.header.base.object_size = max(0, o.header.base.object_size + d)
        return kind, o, ValueError
    if kind == "size_large":
        o = _raw_big(rng, rng.choice((255, 256, 4096, 65535, 65536, 65537, rng.randint(1000, 90_000)))).build()
        d = rng.choice((-1, 1, 256, -256, 4096, 1 << 16, -1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 31, -10_000_000))
        o.header.base.object_size = max(0, o.header.base.object_size + d)
        return kind, o, ValueError
    if kind == "size_fixed":
        spec = rng.choice([s for s in FIXED if not s.trailing])
        o = spec.build(spec.gen(rng, 20))
        # smaller sizes may be found out by the encoder itself, larger ones by the writer
        o.header.base.object_size += rng.choice((1, 4, 8, 100))
        return kind, o, Exception
    if kind.startswith("size_own"):
        n = rng.randint(17, 200)
        raw = m.raw_object(200, rng.randbytes(n - 16))
        k = {"size_own_short": n + rng.choice((1, 3, 8, 500)), "size_own_long": n - rng.choice((1, 7, 16, 17)),
             "size_own_empty": n}[kind]
        if kind == "size_own_empty":
            raw = b""
        return kind, own_object(lambda: raw, max(0, k)), ValueError
    if kind == "range":
        spec = rng.choice(SPECS)
        v = spec.gen(rng, 20)
        o = spec.build(v)
        fs = [f for f in m.free_fields(spec) if f.kind[0] == "u" and not f.enum and "." not in f.path
              and not f.path.endswith("]")]
        if not fs:
            return reject(rng, "own_error")
        f = rng.choice(fs)
        setattr(o, f.path, rng.choice((-1, 1 << (f.size * 8), 1 << 70)))
        return kind, o, Exception
    if kind == "range_header":
        it = item(rng, 20)
        o = it.build()
        if rng.random() < 0.5:
            o.header.object_time_stamp = rng.choice((-1, 1 << 64))
        else:
            o.header.base.header_version = 1 << 16
        return kind, o, Exception
    if kind == "bytes_type":
        spec = m.SPEC_BY_NAME[rng.choice(("CanMessage", "CanMessage2", "CanFdMessage", "LinMessage"))]
        o = spec.build(spec.gen(rng, 8))
        o.data = rng.choice((None, "text", 5))
        return kind, o, Exception
    if kind in ("unicode", "text_longer"):
        spec = rng.choice(TEXTS)
        v = spec.gen(rng, 30)
        o = spec.build(v)
        attr = rng.choice([a for a, _, k in spec.var.p if k == "text"]) if hasattr(spec.var, "p") else "text"
        old = getattr(o, attr)
        if kind == "unicode":
            k = rng.randrange(len(old)) if old and rng.random() < 0.8 else rng.randint(0, len(old))
            odd = rng.choice(("中", "\u2192", "\x81", "\x9d", "\U0001f600", "\ud800", "\udc80", "\udcff", "\u0100", "\u0301"))
            setattr(o, attr, old[:k] + odd + old[k + 1:])
        else:
            setattr(o, attr, old + "xyz")
        return kind, o, Exception
    if kind == "surrogate":  # in texts of any other encoding
        spec = m.SPEC_BY_NAME["DiagRequestInterpretation"]
        o = spec.build(spec.gen(rng, 30))
        attr = rng.choice(("ecu_qualifier", "variant_qualifier", "service_qualifier"))
        old = getattr(o, attr)
        ks = [k for k, c in enumerate(old) if ord(c) < 128]
        k = rng.choice(ks) if ks else 0
        setattr(o, attr, old[:k] + rng.choice(("\ud800", "\udc80", "\udcff", "\udfff")) + old[k + 1:])
        return kind, o, Exception
    if kind == "partial":  # encoding starts, then fails
        spec = m.SPEC_BY_NAME["LinMessage2"]
        o = spec.build(spec.gen(rng, 8))
        o.lin_timestamp_event.databyte_timestamps = (1, 2)
        return kind, o, Exception
    if kind == "own_error":
        return kind, own_object(_raiser(PackError("cannot encode")), rng.randint(16, 100)), PackError
    if kind == "own_lookup":
        return kind, own_object(_raiser(rng.choice((KeyError("x"), IndexError(), MemoryError(), AssertionError(),
                                                    StopIteration(), TypeError(), OSError("pack")))), rng.randint(16, 100)), Exception
    if kind == "own_interrupt":
        return kind, own_object(_raiser(KeyboardInterrupt()), rng.randint(16, 100)), KeyboardInterrupt
    if kind == "none":
        return kind, rng.choice((None, b"LOBJ", object(), 5)), Exception
    raise AssertionError(kind)


class AsWritten:
    """Bytes of an object the writer accepted although its values are unusual."""

    def __init__(self, raw):
        self.raw = raw
        self.name = "accepted"

    def describe(self):
        return {"bytes": self.raw[:400].hex()}


def try_reject(ctx, w, rng, kind=None):
    """Write an object that cannot be encoded.  Returns None if it was rejected, else what the log must now hold."""
    kind, o, exc = reject(rng, kind)
    try:
        w.write(o)
    except exc:
        ctx.count("rejected")
        ctx.count("rejected_" + kind)
        return None
    except BaseException as ex:
        ctx.fail(f"rejected object ({kind}) raised {type(ex).__name__}: {ex}, expected {exc.__name__}")
    # not rejected: only acceptable if its encoding is what its header declares after all
    if kind not in ("text_longer", "size_fixed", "bytes_type"):
        ctx.fail(f"object that cannot be encoded correctly ({kind}) was accepted")
    raw = o.pack()
    ctx.check(len(raw) == o.header.base.object_size,
              f"object ({kind}) accepted although it encodes to {len(raw)} bytes and declares {o.header.base.object_size}")
    return AsWritten(raw)
