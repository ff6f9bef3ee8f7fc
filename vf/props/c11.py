"""C11: headers and sub-records are read and written only at their offset (canary buffers)."""

from .. import gen, model as m
from ..gen import vb
from ..model import Field, enc

PROP = "C11"
LEVEL = "exploration"
RULE = ("A record is decoded at, and encoded into, a buffer of random canary bytes at every offset; decoded values are "
        "compared with the independent layout, and after encoding every byte of the buffer is compared. Distinct = "
        "different (record class, bytes, offset); non-trivial = offset above 0.")
ASSUMPTIONS = ["what of a record that does not fit is written before the error is open"]
REQUIRED = {"offsets_decoded": 3000, "offsets_encoded": 3000, "records": 8, "refused_offsets": 500}


class Rec:
    def __init__(self, name, module, entries, build):
        self.name, self.module = name, module
        self.fields, self.size = m.layout(entries)
        self.build = build

    @property
    def cls(self):
        return getattr(vb(self.module), self.name)


def strip(entries, prefix):
    return [(e[0][len(prefix):],) + tuple(e[1:]) for e in entries]


_HB = strip(m.HDR_OBJ[:5], "header.base.")
_OH = strip(m.HDR_OBJ, "header.")
_VH = strip(m.HDR_VAR, "header.")
_ST = [(n, "u16") for n in ("year", "month", "day_of_week", "day", "hour", "minute", "second", "milliseconds")]
_BUS = [("sof", "u64"), ("event_baudrate", "u32"), ("channel", "u16"), ("reserved", "b2")]


def _pre(entries, p):
    return [(p + e[0],) + tuple(e[1:]) for e in entries]


_SYN = _pre(_BUS, "lin_bus_event.") + [("synch_break_length", "u64"), ("synch_del_length", "u64")]
_DES = _pre(_SYN, "lin_synch_field_event.") + [("supplier_id", "u16"), ("message_id", "u16"), ("nad", "u8"), ("id", "u8"),
                                               ("dlc", "u8"), ("checksum_model", "u8")]
_DAT = _pre(_DES, "lin_msg_descr_event.") + [(f"databyte_timestamps[{i}]", "u64") for i in range(9)]


def _build_base(r, e):
    num = e["object_type"]
    return r.cls(e["signature"], e["header_size"], e["header_version"], e["object_size"], vb("constants").ObjType(num))


def _build_hdr(kind):
    def build(r, e):
        return m.build_header(kind, e, "")
    return build


def _build_st(r, e):
    return r.cls(**e)


def _build_lin(r, e):
    kw, subs = {}, {}
    for p, val in e.items():
        head, _, rest = p.partition(".")
        if rest:
            subs.setdefault(head, {})[rest] = val
        else:
            kw[p] = val
    for head, sub in subs.items():
        kw[head] = _build_lin(BY_ATTR[head], sub)
    ts = {p: v for p, v in kw.items() if p.startswith("databyte_timestamps[")}
    if ts:
        for p in ts:
            del kw[p]
        kw["databyte_timestamps"] = tuple(ts[f"databyte_timestamps[{i}]"] for i in range(9))
    return r.cls(**kw)


RECS = [
    Rec("ObjectHeaderBase", "general", _HB, _build_base),
    Rec("ObjectHeader", "general", _OH, _build_hdr("obj")),
    Rec("VarObjectHeader", "general", _VH, _build_hdr("var")),
    Rec("SystemTime", "general", _ST, _build_st),
    Rec("LinBusEvent", "lin", _BUS, _build_lin),
    Rec("LinSynchFieldEvent", "lin", _SYN, _build_lin),
    Rec("LinMessageDescriptor", "lin", _DES, _build_lin),
    Rec("LinDatabyteTimestampEvent", "lin", _DAT, _build_lin),
]
BY_ATTR = {"lin_bus_event": RECS[4], "lin_synch_field_event": RECS[5], "lin_msg_descr_event": RECS[6]}


def gen_values(rng, r):
    e = {}
    for f in r.fields:
        e[f.path] = m.gen_value(rng, f)
        if f.leaf == "object_type":
            e[f.path] = rng.choice(list(m.TYPE_NAMES))
    return e


def raw_of(r, e):
    return b"".join(enc(f.kind, e[f.path]) for f in r.fields)


def get(obj, path):
    for p in path.split("."):
        if p.endswith("]"):
            name, _, i = p[:-1].partition("[")
            obj = getattr(obj, name)[int(i)]
        else:
            obj = getattr(obj, p)
    return obj


def differences(r, obj, e):
    bad = []
    for f in r.fields:
        try:
            got = get(obj, f.path)
        except (AttributeError, TypeError, LookupError) as ex:
            bad.append(f"{f.path}: {ex}")
            continue
        exp = e[f.path]
        if f.leaf == "object_type":
            want = m.TYPE_NAMES.get(exp, "UNKNOWN")
            if getattr(got, "name", None) != want:
                bad.append(f"{f.path}: {got!r}, stored {exp}")
        elif f.enum and not isinstance(got, m._const(f.enum)):
            bad.append(f"{f.path}: {got!r} is no {f.enum}, stored {exp}")
        elif not m.same(exp, got, f):
            bad.append(f"{f.path}: {got!r}, stored {exp!r}")
    return bad


def decode(ctx, r, buf, off, e, default=False):
    o = r.cls.unpack_from(buf) if default else r.cls.unpack_from(buf, off)
    bad = differences(r, o, e)
    if bad:
        ctx.no(bad, f"{r.name}.unpack_from at offset {off} of {len(buf)} bytes", buffer=bytes(buf), offset=off)
    ctx.count("offsets_decoded")
    return o


def encode(ctx, rng, r, obj, raw, off, tail):
    n = off + len(raw) + tail
    r_ = rng.random()
    canary = bytearray(rng.randbytes(n) if r_ < 0.6 else bytes(n) if r_ < 0.8 else b"\xff" * n if r_ < 0.9 else
                       (raw * (n // len(raw) + 1))[:n])
    want = bytearray(canary)
    want[off:off + len(raw)] = raw
    obj.pack_into(canary, off)
    if canary != want:
        i = next((i for i in range(min(len(canary), len(want))) if canary[i] != want[i]), -1)
        ctx.fail(f"{r.name}.pack_into at offset {off}: " + (
            f"buffer length changed from {len(want)} to {len(canary)}" if len(canary) != len(want) else
            f"byte {i} is {canary[i]:#x}, must be {want[i]:#x} (record covers {off}..{off + len(raw) - 1})"),
            record=raw, offset=off)
    ctx.count("offsets_encoded")


def offsets(ctx, rng, index):
    """All offsets 0..80 (and some far ones) for one record."""
    r = RECS[index % len(RECS)]
    e = gen_values(rng, r)
    raw = raw_of(r, e)
    obj = r.build(r, e)
    ctx.no(differences(r, obj, e), "harness")
    for off in list(range(81)) + [255, 256, 1000, 65536]:
        for tail in (0, rng.randint(1, 40)):
            buf = rng.randbytes(off) + raw + rng.randbytes(tail)
            o = decode(ctx, r, buf if rng.random() < 0.7 else bytearray(buf), off, e)
            encode(ctx, rng, r, o, raw, off, tail)
        encode(ctx, rng, r, obj, raw, off, rng.randint(0, 20))
        ctx.eval((r.name, raw, off), off > 0)
    decode(ctx, r, raw + rng.randbytes(9), 0, e, default=True)
    if index < len(RECS):
        ctx.count("records")
    ctx.sample(lambda: {"record": r.name, "bytes": raw, "offsets": "0..80, 255, 256, 1000, 65536"})


def views(ctx, rng, index):
    """Parts of larger buffers seen through memoryviews, and offsets counted from the end as struct does."""
    r = RECS[index % len(RECS)]
    e = gen_values(rng, r)
    raw = raw_of(r, e)
    obj = r.build(r, e)
    for _ in range(10):
        lead, off, tail, rest = (rng.randint(0, 40) for _ in range(4))
        tail += 1
        whole_ = bytearray(rng.randbytes(lead + off) + raw + rng.randbytes(tail + rest))
        view = memoryview(whole_)[lead:lead + off + len(raw) + tail]
        decode(ctx, r, view, off, e)
        decode(ctx, r, view.toreadonly(), off, e)
        decode(ctx, r, bytes(view), off - len(view), e)
        want = bytearray(whole_)
        whole_[lead + off:lead + off + len(raw)] = bytes(len(raw))
        obj.pack_into(view, off)
        ctx.check(whole_ == want, f"{r.name}.pack_into at {off} of a part of a buffer changed other bytes", record=raw)
        whole_[lead + off:lead + off + len(raw)] = b"\xff" * len(raw)
        obj.pack_into(view, off - len(view))
        ctx.check(whole_ == want, f"{r.name}.pack_into at {off - len(view)} (from the end) changed other bytes", record=raw)
        ctx.count("offsets_encoded", 2)
        ctx.eval((r.name, raw, lead, off), off > 0)
    # a record that does not fit into the buffer is refused, and the buffer keeps its length
    for short in sorted({1, len(raw) - 1, len(raw), rng.randint(1, len(raw))}):
        off = rng.randint(0, 30)
        buf = bytearray(rng.randbytes(off + len(raw) - short))
        was = bytes(buf)
        for what, call in (("pack_into", lambda: obj.pack_into(buf, off)), ("unpack_from", lambda: r.cls.unpack_from(bytes(buf), off))):
            try:
                call()
            except Exception:
                ctx.count("refused_offsets")
            else:
                ctx.fail(f"{r.name}.{what} at {off} of {len(buf)} bytes, which have no room for {len(raw)}, did not raise")
        ctx.check(len(buf) == len(was) and buf[:off] == was[:off],
                  f"{r.name}.pack_into at {off} of {len(was)} bytes, which have no room for it, made them {len(buf)}")


def whole(ctx, rng, index):
    """Whole-buffer forms agree with the offset forms."""
    r = RECS[index % len(RECS)]
    e = gen_values(rng, r)
    raw = raw_of(r, e)
    obj = r.build(r, e)
    if hasattr(r.cls, "unpack"):
        o = r.cls.unpack(raw)
        ctx.no(differences(r, o, e), f"{r.name}.unpack", buffer=raw)
        o2 = r.cls.unpack_from(raw, 0)
        ctx.check(o == o2, f"{r.name}: unpack and unpack_from disagree", buffer=raw)
        ctx.count("whole_decoded")
    if hasattr(r.cls, "pack"):
        p = obj.pack()
        ctx.check(bytes(p) == raw, f"{r.name}.pack() gives {bytes(p).hex()}, layout is {raw.hex()}")
        ctx.count("whole_encoded")
    decode(ctx, r, raw, 0, e, default=True)
    encode(ctx, rng, r, obj, raw, 0, 0)
    if hasattr(r.cls, "SIZE"):
        ctx.check(r.cls.SIZE == len(raw), f"{r.name}.SIZE is {r.cls.SIZE}, record has {len(raw)} bytes")
    ctx.eval((r.name, raw, 0), False)


def adjacent(ctx, rng, index):
    """Several records packed into one buffer next to each other, in any order."""
    k = rng.randint(2, 6)
    recs = [rng.choice(RECS) for _ in range(k)]
    vals = [gen_values(rng, r) for r in recs]
    pos, off = [], rng.randint(0, 9)
    for r in recs:
        pos.append(off)
        off += r.size + rng.choice((0, 0, 1, 3))
    buf = bytearray(rng.randbytes(off + 5))
    want = bytearray(buf)
    order = list(range(k))
    rng.shuffle(order)
    for i in order:
        raw = raw_of(recs[i], vals[i])
        want[pos[i]:pos[i] + len(raw)] = raw
        recs[i].build(recs[i], vals[i]).pack_into(buf, pos[i])
        ctx.check(buf == want, f"{recs[i].name}.pack_into at {pos[i]} changed other bytes", before=bytes(want))
        ctx.count("offsets_encoded")
    for i in order:
        decode(ctx, recs[i], bytes(buf), pos[i], vals[i])
    ctx.eval((tuple(r.name for r in recs), bytes(want)))


def sweep(ctx, rng, index):
    """Each field of each record through its bit patterns, at changing offsets."""
    allf = [(r, f) for r in RECS for f in r.fields]
    r, f = allf[index % len(allf)]
    e = gen_values(rng, r)
    if f.kind[0] == "b":
        vals = [rng.randbytes(f.size) for _ in range(30)]
    elif f.leaf == "object_type":
        vals = list(m.TYPE_NAMES)
    elif f.size == 1 or f.size == 2 and ctx.thorough:
        vals = range(1 << (8 * f.size))
    else:
        vals = m.PATTERNS[8 * f.size]
    for x in vals:
        e[f.path] = x
        raw = raw_of(r, e)
        off = rng.randint(0, 40)
        buf = rng.randbytes(off) + raw + rng.randbytes(3)
        o = decode(ctx, r, buf, off, e)
        encode(ctx, rng, r, o, raw, off, 3)
        ctx.eval((r.name, raw, off), off > 0)


def families(tier):
    t = tier == "thorough"
    nf = sum(len(r.fields) for r in RECS)
    return [
        ("offsets", len(RECS) * (1500 if t else 30), offsets),
        ("sweep", nf * (6 if t else 2), sweep),
        ("whole", len(RECS) * (6000 if t else 300), whole),
        ("views", len(RECS) * (3000 if t else 60), views),
        ("adjacent", 60000 if t else 2500, adjacent),
    ]
