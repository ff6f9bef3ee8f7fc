"""C03: encoding is exact, lossless, repeatable and does not change the object."""

import copy
import dataclasses

from .. import gen, model as m
from .c02 import all_fields, var_parts

PROP = "C03"
LEVEL = "exploration"
RULE = ("A case encodes real objects (built from values, or decoded from bytes) and compares the result with the "
        "independent layout model; a deep snapshot of the object is compared before and after encoding, and one field "
        "at a time is changed with all other bytes watched. Distinct = different encodings; non-trivial = not all "
        "variable fields zero.")
ASSUMPTIONS = ["value space of vf/model.py; header object_size kept equal to the encoded size (other values: C09)"]
REQUIRED = {"huge_parts": 30, "encoded": 10000, "fields_changed": 300, "snapshots": 3000, "absent_parts": 200, "one_side": 300}
# "annotated" is not required: objects need not take further attributes


def snap(o, depth=0):
    """Structural snapshot of public state, types included."""
    if hasattr(o, "__dataclass_fields__"):
        return (type(o).__name__, tuple((x.name, snap(getattr(o, x.name), depth + 1)) for x in dataclasses.fields(o)))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x, depth + 1) for x in o))
    if isinstance(o, bytearray):
        return ("bytearray", bytes(o))
    if isinstance(o, float):
        return ("float", m.enc("f64", o))
    return (type(o).__name__, o)


def encode(ctx, spec, v, obj, raw, what):
    before = snap(obj)
    p = obj.pack()
    ctx.check(bytes(p) == raw, lambda: f"{spec.cls_name} ({what}) encodes to {len(p)} bytes differing from its layout "
              f"({len(raw)} bytes) at {diff(p, raw)}", expected=raw, got=bytes(p))
    ctx.check(len(p) == obj.header.base.object_size, f"{spec.cls_name}: {len(p)} bytes for object_size "
              f"{obj.header.base.object_size}", expected=raw)
    p2 = obj.pack()
    ctx.check(p2 == p, f"{spec.cls_name} ({what}): second encoding differs at {diff(p2, p)}", expected=raw)
    ctx.check(snap(obj) == before, f"{spec.cls_name} ({what}) is changed by encoding", expected=raw)
    ctx.count("encoded")
    ctx.count("snapshots")
    ctx.eval((spec.cls_name, raw), any(raw[16:]))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"byte {i} ({a[i:i + 8].hex()} / {b[i:i + 8].hex()})"
    return f"length {len(a)} / {len(b)}"


def random(ctx, rng, index):
    spec = m.SPECS[index % len(m.SPECS)]
    v = spec.gen(rng, rng.choice((0, 8, 64, 300, 3000)), rng.choice(("std", "any")))
    raw = spec.encode(v)
    encode(ctx, spec, v, spec.build(v), raw, "built")
    obj = spec.cls.unpack(raw)
    encode(ctx, spec, v, obj, raw, "decoded")
    if index % 7 == 0:
        encode(ctx, spec, v, copy.deepcopy(obj), raw, "copied")
        encode(ctx, spec, v, spec.cls.unpack(obj.pack()), raw, "decoded again")
    ctx.sample(lambda: {"class": spec.cls_name, "bytes": raw[:200]})


def set_path(obj, path, value):
    parts = path.split(".")
    for p in parts[:-1]:
        obj = getattr(obj, p)
    last = parts[-1]
    if last.endswith("]"):
        name, _, i = last[:-1].partition("[")
        seq = list(getattr(obj, name))
        seq[int(i)] = value
        old = getattr(obj, name)
        setattr(obj, name, type(old)(seq))
    else:
        setattr(obj, last, value)


def field_values(ctx, rng, f):
    bits = f.size * 8
    if f.enum in m.ENUMS:
        return list(m.ENUMS[f.enum])
    if f.kind == "f64":
        return [m.gen_float(rng) for _ in range(60)]
    if f.kind[0] == "b":
        out = [rng.randbytes(f.size) for _ in range(30)]
        for i in range(f.size):
            out += [bytes(i) + bytes([x]) + bytes(f.size - i - 1) for x in (1, 0xFF)]
        return out + [bytes(f.size), b"\xff" * f.size]
    if bits == 8:
        vals = range(256)
    elif bits == 16 and ctx.thorough:
        vals = range(65536)
    else:
        vals = m.PATTERNS[bits] + [rng.getrandbits(bits) for _ in range(40)]
    if f.kind[0] == "i":
        return [x - (1 << bits) if x >> (bits - 1) else x for x in vals]
    return list(vals)


def change_field(ctx, rng, index):
    """One field takes many values in place; all other bytes must stay."""
    fields = all_fields()
    spec, f = fields[index % len(fields)]
    v = spec.gen(rng, 12, "std")
    raw = bytearray(spec.encode(v))
    obj = spec.build(v) if index % 2 else spec.cls.unpack(bytes(raw))
    vals = field_values(ctx, rng, f)
    for x in vals:
        set_path(obj, f.path, m.typed(f.enum, x) if f.enum else x)
        raw[f.off:f.off + f.size] = m.enc(f.kind, x)
        p = obj.pack()
        if p != raw:
            ctx.fail(f"{spec.cls_name}.{f.path} = {x!r}: encoding differs from the layout at {diff(p, raw)} "
                     f"(field at {f.off}, {f.size} bytes)", expected=bytes(raw), got=bytes(p))
        ctx.eval((spec.cls_name, bytes(raw)))
    # and by name of an enumeration given as plain number
    if f.enum:
        for x in vals[:20]:
            set_path(obj, f.path, x)
            raw[f.off:f.off + f.size] = m.enc(f.kind, x)
            ctx.check(obj.pack() == raw, f"{spec.cls_name}.{f.path} = plain {x}: encoding differs", expected=bytes(raw))
    ctx.count("encoded", len(vals))
    ctx.count("fields_changed")


HUGE = len([x for x in m.SPECS if x.var and x.cls_name not in ("CanFdMessage64", "CanFdErrorFrame64", "EthernetFrameEx", "FlexrayVFrReceiveMsgEx")
            for _ in x.var.parts])


def huge(ctx, rng, index):
    """Variable parts of up to some MiB, around powers of two, one or all of an object's."""
    spec, part = [x for x in var_parts() if x[0].cls_name not in
                  ("CanFdMessage64", "CanFdErrorFrame64", "EthernetFrameEx", "FlexrayVFrReceiveMsgEx")][index % HUGE]
    v = spec.gen(rng, 20, "std")
    for p in spec.var.parts if rng.random() < 0.3 else (part,):
        n = (1 << rng.randint(12, 21 if index % 9 else 23)) + rng.choice((0, -1, 1, rng.randint(-70, 70), rng.randint(0, 1 << 12)))
        if isinstance(v["@" + p], str):
            kind = next((k for a, _, k in getattr(spec.var, "p", []) if a == p), None)
            v["@" + p] = (m.gen_text(rng, 997, kind == "utf8") * (n // 997 + 1))[:n]
        else:
            v["@" + p] = (rng.randbytes(4093) * (n // 4093 + 1))[:n]
    spec.resize(v)
    raw = spec.encode(v)
    encode(ctx, spec, v, spec.build(v), raw, "built")
    encode(ctx, spec, v, spec.cls.unpack(raw), raw, "decoded")
    ctx.count("huge_parts")


def lengths(ctx, rng, index):
    spec, part = var_parts()[index % len(var_parts())]
    hi = {"CanFdMessage64": 183, "CanFdErrorFrame64": 150}.get(spec.cls_name, 300)
    pts = list(range(hi + 1)) if ctx.thorough else sorted(set(list(range(0, 70)) + rng.sample(range(70, hi + 1), 40) + [hi]))
    if hi == 300:
        pts += [1000, 4096, 65000]
    v = spec.gen(rng, 20, "std")
    kind = next((k for a, _, k in getattr(spec.var, "p", []) if a == part), None)
    old = v["@" + part]
    for n in pts:
        if isinstance(old, str):
            v["@" + part] = m.gen_text(rng, n, kind == "utf8") if n < 5000 else "ab€" * (n // 3)
        else:
            v["@" + part] = m.gen_bytes(rng, n)
        spec.resize(v)
        raw = spec.encode(v)
        encode(ctx, spec, v, spec.build(v), raw, f"{part} of {n}")
        encode(ctx, spec, v, spec.cls.unpack(raw), raw, f"decoded, {part} of {n}")
    ctx.count("length_sweeps")


def change_part(ctx, rng, index):
    """A text or data part is replaced by another of the same encoded length: only its bytes change."""
    spec, part = var_parts()[index % len(var_parts())]
    v = spec.gen(rng, 60, "std")
    obj = spec.cls.unpack(spec.encode(v)) if rng.random() < 0.5 else spec.build(v)
    kind = next((k for a, _, k in getattr(spec.var, "p", []) if a == part), None)
    for _ in range(5):
        old = v["@" + part]
        if isinstance(old, str):
            n = len(old.encode("utf-8" if kind == "utf8" else "cp1252"))
            new = "".join(chr(rng.randint(33, 126)) for _ in range(n)) if kind == "utf8" else m.gen_text(rng, n)
            if spec.cls_name == "AppText" and not v["@term"] and new.endswith("\0"):
                new = new[:-1] + "y"
        else:
            new = m.gen_bytes(rng, len(old))
        v["@" + part] = new
        spec.resize(v)
        setattr(obj, part, new)
        p, raw = obj.pack(), spec.encode(v)
        ctx.check(p == raw, f"{spec.cls_name}.{part} replaced: encoding differs at {diff(p, raw)}", expected=raw, got=p)
        ctx.eval((spec.cls_name, raw))
    ctx.count("parts_changed")
    ctx.count("encoded", 5)


def history(ctx, rng, index):
    """Encoding does not depend on what was encoded before."""
    its = [gen.item(rng, 60) for _ in range(8)]
    objs = [i.build() if rng.random() < 0.5 else i.spec.cls.unpack(i.raw) for i in its]
    for _ in range(40):
        k = rng.randrange(8)
        ctx.check(objs[k].pack() == its[k].raw, f"{its[k].name} encodes differently after others were encoded",
                  expected=its[k].raw)
        ctx.count("encoded")
    ctx.eval(tuple(i.raw for i in its))


def parts_of(o):
    """The object and all records in it."""
    out = [o]
    for x in dataclasses.fields(o):
        y = getattr(o, x.name)
        if dataclasses.is_dataclass(y):
            out += parts_of(y)
    return out


def annotate(rng, o):
    """The same values, but attributes set in another order and notes attached.  False if that is not possible."""
    done = False
    for p in parts_of(o):
        if not hasattr(p, "__dict__"):
            continue
        done = True
        if rng.random() < 0.6:
            names = [x.name for x in dataclasses.fields(p)]
            rng.shuffle(names)
            for n in names[:rng.randint(1, len(names))]:
                value = getattr(p, n)
                delattr(p, n)
                setattr(p, n, value)
        if rng.random() < 0.5:
            p.note = rng.choice((7, "text", None, b"x"))
    return done


def annotated(ctx, rng, index):
    """Encodings depend on the values of the fields alone."""
    spec = m.SPECS[index % len(m.SPECS)]
    v = spec.gen(rng, 40)
    raw = spec.encode(v)
    o = spec.build(v) if index % 2 else spec.cls.unpack(raw)
    if not annotate(rng, o):
        return
    p = o.pack()
    ctx.check(p == raw, lambda: f"{spec.cls_name} with attributes set in another order or added encodes differently at "
              f"{diff(p, raw)}", expected=raw, got=bytes(p))
    fs = gen.vb("general").FileStatistics
    head = rng.randbytes(144)
    head = b"LOGG" + head[4:12] + bytes([5, 6]) + head[14:]
    s = fs.unpack(head)
    if annotate(rng, s):
        ctx.check(s.pack() == head, f"file header with attributes set in another order or added encodes differently at "
                  f"{diff(s.pack(), head)}", expected=head)
    ctx.count("annotated")
    ctx.count("encoded")
    ctx.eval((spec.cls_name, "annotated", raw))


def absent(ctx, rng, index):
    """Attributes of optional parts the object does not have according to its size and offsets, whatever their values, leave
    no trace; they are no reason to fail either."""
    name, other = (("CanFdMessage64", None), ("CanFdErrorFrame64", None), ("LinMessage2", 1), ("LinMessage2", 2))[index % 4]
    spec = m.SPEC_BY_NAME[name]
    for _ in range(60):
        v = spec.gen(rng, 64, rng.choice(("std", "any")))
        if v.get("@ext", "none") != "ext" if other is None else v["@ver"] == other:
            break
    else:
        ctx.fail(f"harness: no {name} without optional part")
    raw = spec.encode(v)
    o = spec.build(v) if rng.random() < 0.5 else spec.cls.unpack(raw)
    attrs = (["btr_ext_arb", "btr_ext_data"] if other is None else
             (["resp_baudrate"] if other == 1 else []) + ["exact_header_baudrate", "early_stopbit_offset", "early_stopbit_offset_response"])
    for a in rng.sample(attrs, rng.randint(1, len(attrs))):
        setattr(o, a, rng.choice((1, 0xFF, 0xFFFFFFFF, rng.getrandbits(32))) if a != "exact_header_baudrate" else rng.choice((1.0, -2.5e300)))
        p = o.pack()
        ctx.check(p == raw, lambda: f"{name} without optional part ({v.get('@ext') or v.get('@ver')}): encodes differently at "
                  f"{diff(p, raw)} after {a} was set", expected=raw, got=bytes(p))
    ctx.count("absent_parts")
    ctx.count("encoded")
    ctx.eval((name, "absent", raw, tuple(attrs)))


def one_side(ctx, rng, index):
    """A text or data part is changed without its length field, or the length field without the part: the other fields' bytes
    stay, if the object can be encoded at all."""
    spec, part = var_parts()[index % len(var_parts())]
    v = spec.gen(rng, rng.choice((0, 0, 5, 30)), "std")
    if rng.random() < 0.5:
        for a in [k for k in v if k.startswith("@") and isinstance(v[k], (str, bytes))]:
            v[a] = v[a][:0]
    v["@pad"] = 0
    spec.resize(v)
    raw = spec.encode(v)
    o = spec.build(v) if rng.random() < 0.5 else spec.cls.unpack(raw)
    before = raw[:spec.fixed]
    for _ in range(4):
        old = getattr(o, part)
        new = old[:0] if rng.random() < 0.2 else old + old[:0].__class__(b"x" * 3 if isinstance(old, (bytes, bytearray)) else "xyz")
        setattr(o, part, new)
        try:
            p = o.pack()
        except Exception:
            ctx.count("not_encodable")
            continue
        k = min(len(p), spec.fixed)
        ctx.check(p[:k] == before[:k], lambda: f"{spec.cls_name}: changing {part} to {new!r:.60} changed other bytes at "
                  f"{diff(p[:k], before[:k])}", expected=raw, got=bytes(p))
        ctx.check(bytes(o.pack()) == bytes(p), f"{spec.cls_name}: second encoding differs after {part} was changed")
        ctx.count("encoded")
        ctx.count("one_side")
    ctx.eval((spec.cls_name, part, "one side", raw))


def families(tier):
    t = tier == "thorough"
    return [
        ("annotated", len(m.SPECS) * (600 if t else 25), annotated),
        ("absent", 8000 if t else 300, absent),
        ("one_side", len(var_parts()) * (600 if t else 30), one_side),
        ("change_field", len(all_fields()) * (3 if t else 1), change_field),
        ("huge", HUGE * (60 if t else 5), huge),
        ("lengths", len(var_parts()) * (6 if t else 1), lengths),
        ("change_part", len(var_parts()) * (300 if t else 12), change_part),
        ("history", 2000 if t else 60, history),
        ("random", 400_000 if t else 20_000, random),
    ]
