"""Independent reference model of the BLF object layouts.

Nothing here uses vblf's struct formats: every layout is written down as a
sequence of little-endian fields, encoded with int.to_bytes.  vblf classes are
looked up by their public names only, to build objects and to compare fields.
"""

from __future__ import annotations

import importlib
import struct as _struct  # only for IEEE-754 doubles

SIG = b"LOBJ"
HEADER = 32  # object header incl. base header
BASE = 16

TYPE_NAMES = {
    0: "UNKNOWN", 1: "CAN_MESSAGE", 2: "CAN_ERROR", 3: "CAN_OVERLOAD", 4: "CAN_STATISTIC", 5: "APP_TRIGGER",
    6: "ENV_INTEGER", 7: "ENV_DOUBLE", 8: "ENV_STRING", 9: "ENV_DATA", 10: "LOG_CONTAINER", 11: "LIN_MESSAGE",
    12: "LIN_CRC_ERROR", 13: "LIN_DLC_INFO", 14: "LIN_RCV_ERROR", 15: "LIN_SND_ERROR", 16: "LIN_SLV_TIMEOUT",
    17: "LIN_SCHED_MODCH", 18: "LIN_SYN_ERROR", 19: "LIN_BAUDRATE", 20: "LIN_SLEEP", 21: "LIN_WAKEUP",
    22: "MOST_SPY", 23: "MOST_CTRL", 24: "MOST_LIGHTLOCK", 25: "MOST_STATISTIC", 26: "reserved_1",
    27: "reserved_2", 28: "reserved_3", 29: "FLEXRAY_DATA", 30: "FLEXRAY_SYNC", 31: "CAN_DRIVER_ERROR",
    32: "MOST_PKT", 33: "MOST_PKT2", 34: "MOST_HWMODE", 35: "MOST_REG", 36: "MOST_GENREG", 37: "MOST_NETSTATE",
    38: "MOST_DATALOST", 39: "MOST_TRIGGER", 40: "FLEXRAY_CYCLE", 41: "FLEXRAY_MESSAGE", 42: "LIN_CHECKSUM_INFO",
    43: "LIN_SPIKE_EVENT", 44: "CAN_DRIVER_SYNC", 45: "FLEXRAY_STATUS", 46: "GPS_EVENT", 47: "FR_ERROR",
    48: "FR_STATUS", 49: "FR_STARTCYCLE", 50: "FR_RCVMESSAGE", 51: "REALTIMECLOCK", 52: "AVAILABLE2",
    53: "AVAILABLE3", 54: "LIN_STATISTIC", 55: "J1708_MESSAGE", 56: "J1708_VIRTUAL_MSG", 57: "LIN_MESSAGE2",
    58: "LIN_SND_ERROR2", 59: "LIN_SYN_ERROR2", 60: "LIN_CRC_ERROR2", 61: "LIN_RCV_ERROR2", 62: "LIN_WAKEUP2",
    63: "LIN_SPIKE_EVENT2", 64: "LIN_LONG_DOM_SIG", 65: "APP_TEXT", 66: "FR_RCVMESSAGE_EX",
    67: "MOST_STATISTICEX", 68: "MOST_TXLIGHT", 69: "MOST_ALLOCTAB", 70: "MOST_STRESS", 71: "ETHERNET_FRAME",
    72: "SYS_VARIABLE", 73: "CAN_ERROR_EXT", 74: "CAN_DRIVER_ERROR_EXT", 75: "LIN_LONG_DOM_SIG2",
    76: "MOST_150_MESSAGE", 77: "MOST_150_PKT", 78: "MOST_ETHERNET_PKT", 79: "MOST_150_MESSAGE_FRAGMENT",
    80: "MOST_150_PKT_FRAGMENT", 81: "MOST_ETHERNET_PKT_FRAGMENT", 82: "MOST_SYSTEM_EVENT",
    83: "MOST_150_ALLOCTAB", 84: "MOST_50_MESSAGE", 85: "MOST_50_PKT", 86: "CAN_MESSAGE2",
    87: "LIN_UNEXPECTED_WAKEUP", 88: "LIN_SHORT_OR_SLOW_RESPONSE", 89: "LIN_DISTURBANCE_EVENT",
    90: "SERIAL_EVENT", 91: "OVERRUN_ERROR", 92: "EVENT_COMMENT", 93: "WLAN_FRAME", 94: "WLAN_STATISTIC",
    95: "MOST_ECL", 96: "GLOBAL_MARKER", 97: "AFDX_FRAME", 98: "AFDX_STATISTIC", 99: "KLINE_STATUSEVENT",
    100: "CAN_FD_MESSAGE", 101: "CAN_FD_MESSAGE_64", 102: "ETHERNET_RX_ERROR", 103: "ETHERNET_STATUS",
    104: "CAN_FD_ERROR_64", 105: "LIN_SHORT_OR_SLOW_RESPONSE2", 106: "AFDX_STATUS", 107: "AFDX_BUS_STATISTIC",
    108: "reserved_4", 109: "AFDX_ERROR_EVENT", 110: "A429_ERROR", 111: "A429_STATUS",
    112: "A429_BUS_STATISTIC", 113: "A429_MESSAGE", 114: "ETHERNET_STATISTIC", 115: "reserved_5",
    116: "reserved_6", 117: "reserved_7", 118: "TEST_STRUCTURE", 119: "DIAG_REQUEST_INTERPRETATION",
    120: "ETHERNET_FRAME_EX", 121: "ETHERNET_FRAME_FORWARDED", 122: "ETHERNET_ERROR_EX",
    123: "ETHERNET_ERROR_FORWARDED", 124: "FUNCTION_BUS", 125: "DATA_LOST_BEGIN", 126: "DATA_LOST_END",
    127: "WATER_MARK_EVENT", 128: "TRIGGER_CONDITION",
}

ENUMS = {
    "AppTextSource": {0: "MEASUREMENTCOMMENT", 1: "DBCHANNELINFO", 2: "METADATA", 3: "ATTACHMENT", 4: "TRACELINE"},
    "SysVarType": {1: "DOUBLE", 2: "LONG", 3: "STRING", 4: "DOUBLEARRAY", 5: "LONGARRAY", 6: "LONGLONG", 7: "BYTEARRAY"},
    "BusType": {1: "CAN", 5: "LIN", 6: "MOST", 7: "FLEXRAY", 9: "J1708", 10: "ETHERNET", 13: "WLAN", 14: "AFDX"},
    "FunctionBusType": {0: "UNDEFINED", 1: "SIGNAL", 2: "SERVICE_FUNCTION", 3: "STATE"},
    "TriggerConditionStatus": {0: "UNKNOWN", 1: "START", 2: "STOP", 3: "STARTSTOP"},
}
FLAGS = {"ObjFlags", "TriggerFlag", "CanFdFlags", "CanFdMessageFlags"}
FLAG_BITS = {
    "ObjFlags": {"TIME_TEN_MICS": 1, "TIME_ONE_NANS": 2},
    "TriggerFlag": {"LOGGING_START": 1, "LOGGING_STOP": 2},
    "CanFdMessageFlags": {"EDL": 1, "BRS": 2, "ESI": 4},
    "CanFdFlags": {
        "NERR": 0x4, "HIGH_VOLTAGE_WAKE_UP": 0x8, "REMOTE_FRAME": 0x10, "TX_ACKNOWLEDGE": 0x40, "TX_REQUEST": 0x80,
        "SRR": 0x200, "R0": 0x400, "R1": 0x800, "FDF": 0x1000, "BRS": 0x2000, "ESI": 0x4000,
        "FRAME_PART_OF_BURST": 0x20000, "SINGLE_SHOT_MODE_NOT_TRANSMITTED": 0x40000, "SINGLE_SHOT_MODE_REASON": 0x80000,
    },
}
APP_IDS = {0: "UNKNOWN", 1: "CANALYZER", 2: "CANOE", 3: "CANSTRESS", 4: "CANLOG", 5: "CANAPE", 6: "CANCASEXLLOG",
           7: "VLCONFIG", 200: "PORSCHELOGGER"}
COMPRESSION = {0: "NONE", 1: "SPEED", 6: "DEFAULT", 9: "MAX"}

# all bytes that cp1252 defines
CP1252 = "".join(bytes([b]).decode("cp1252") for b in range(256) if b not in (0x81, 0x8D, 0x8F, 0x90, 0x9D))
UTF8_POOL = "".join(chr(c) for c in range(128)) + "äöüß€éñ中文字日本語Ωπ🚗🔧𝄞\u0081\u07ff\u0800\uffff\U0010ffff"


class Field:
    """One fixed-size field: attribute path, kind, offset in the object."""

    __slots__ = ("path", "kind", "size", "off", "enum", "leaf")

    def __init__(self, path, kind, off, enum=None):
        self.path, self.kind, self.off, self.enum = path, kind, off, enum
        self.size = kind_size(kind)
        self.leaf = path.rpartition(".")[2]

    @property
    def is_int(self):
        return self.kind[0] in "ui"


def kind_size(kind):
    if kind[0] in "ui":
        return int(kind[1:]) // 8
    if kind == "f64":
        return 8
    return int(kind[1:])  # bN


def enc(kind, v):
    if kind[0] == "u":
        return int(v).to_bytes(int(kind[1:]) // 8, "little")
    if kind[0] == "i":
        return int(v).to_bytes(int(kind[1:]) // 8, "little", signed=True)
    if kind == "f64":
        return _struct.pack("<d", v)
    assert len(v) == int(kind[1:]), (kind, v)
    return bytes(v)


def dec(kind, raw):
    if kind[0] == "u":
        return int.from_bytes(raw, "little")
    if kind[0] == "i":
        return int.from_bytes(raw, "little", signed=True)
    if kind == "f64":
        return _struct.unpack("<d", raw)[0]
    return bytes(raw)


# --------------------------------------------------------------------------- value generation

def _patterns(bits):
    top = (1 << bits) - 1
    s = {0, 1, 2, 3, top, top - 1, top >> 1, (top >> 1) + 1}
    for i in range(bits):
        s |= {1 << i, (1 << i) - 1, top ^ (1 << i)}
    nb = bits // 8
    s.add(int.from_bytes(bytes(range(1, nb + 1)), "little"))
    s.add(int.from_bytes(bytes(0x81 + i for i in range(nb)), "little"))
    s.add(int.from_bytes(bytes([0xAA] * nb), "little"))
    s.add(int.from_bytes((b"LOBJ" * 2)[:nb], "little"))
    s.add(int.from_bytes((b"LOGG" * 2)[:nb], "little"))
    return sorted(s)


PATTERNS = {b: _patterns(b) for b in (8, 16, 32, 64)}


def gen_int(rng, bits):
    r = rng.random()
    if r < 0.45:
        return rng.getrandbits(bits)
    if r < 0.75:
        return rng.choice(PATTERNS[bits])
    return rng.getrandbits(rng.randint(1, bits))


def gen_value(rng, f):
    k = f.kind
    if f.enum in ENUMS:
        return rng.choice(list(ENUMS[f.enum]))
    if k[0] == "u":
        return gen_int(rng, int(k[1:]))
    if k[0] == "i":
        b = int(k[1:])
        v = gen_int(rng, b)
        return v - (1 << b) if v >> (b - 1) else v
    if k == "f64":
        return gen_float(rng)
    return gen_bytes(rng, int(k[1:]))


def gen_float(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 5.0, 19200.0, 0.1, 1e308, -1e308, 5e-324, 2.2250738585072014e-308,
                           float("inf"), float("-inf"), 2.0**53, 2.0**53 + 2, 1 / 3])
    if r < 0.6:
        return rng.uniform(-1e6, 1e6)
    while True:
        v = _struct.unpack("<d", rng.getrandbits(64).to_bytes(8, "little"))[0]
        if v == v:
            return v


def gen_bytes(rng, n):
    if n == 0:
        return b""
    r = rng.random()
    if r < 0.55:
        return rng.randbytes(n)
    if r < 0.62:
        return bytes(n)
    if r < 0.68:
        return b"\xff" * n
    if r < 0.76:
        return bytes((i + 1) & 255 for i in range(n))
    if r < 0.84:  # payload that looks like an object signature / header
        k = rng.randint(0, 7)
        return (b"LOBJLOBJ"[k:] + (SIG + b"\x20\x00\x01\x00\x30\x00\x00\x00\x01\x00\x00\x00") * (n // 16 + 1))[:n]
    if r < 0.9:  # trailing zeros
        k = rng.randint(0, n)
        return rng.randbytes(k) + bytes(n - k)
    if r < 0.95:  # leading zeros
        k = rng.randint(0, n)
        return bytes(k) + rng.randbytes(n - k)
    b = bytearray(n)
    b[rng.randrange(n)] = rng.randint(1, 255)
    return bytes(b)


LENGTHS = [0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257]


def gen_len(rng, cap=300):
    r = rng.random()
    if r < 0.6:
        return min(cap, rng.choice(LENGTHS))
    return rng.randint(0, cap)


def gen_text(rng, n, utf8=False):
    """Text whose encoding has about n bytes (exactly n for cp1252)."""
    r = rng.random()
    if utf8:
        if r < 0.3:
            return "".join(chr(rng.randint(32, 126)) for _ in range(n))
        return "".join(rng.choice(UTF8_POOL) for _ in range(max(0, n // rng.choice((1, 2, 3)))))
    if r < 0.2:
        return "".join(chr(rng.randint(32, 126)) for _ in range(n))
    if r < 0.3:
        return ("LOBJ" * (n // 4 + 1))[:n]
    if r < 0.4:
        s = "".join(rng.choice(CP1252) for _ in range(n))
        k = rng.randint(0, n)
        return s[:k] + "\0" * (n - k)
    if r < 0.45:
        s = "".join(rng.choice(" \t\n\rabc") for _ in range(n))
        return s
    return "".join(rng.choice(CP1252) for _ in range(n))


# --------------------------------------------------------------------------- type specifications

HDR_OBJ = [("header.base.signature", "b4"), ("header.base.header_size", "u16"), ("header.base.header_version", "u16"),
           ("header.base.object_size", "u32"), ("header.base.object_type", "u32"),
           ("header.object_flags", "u32", "ObjFlags"), ("header.client_index", "u16"),
           ("header.object_version", "u16"), ("header.object_time_stamp", "u64")]
HDR_VAR = [x if x[0] != "header.client_index" else ("header.object_static_size", "u16") for x in HDR_OBJ]


def layout(entries, off=0):
    out = []
    for e in entries:
        f = Field(e[0], e[1], off, e[2] if len(e) > 2 else None)
        out.append(f)
        off += f.size
    return out, off


class Spec:
    """One object class.  `var` describes the variable part (see subclasses of Var)."""

    def __init__(self, cls, module, types, body, var=None, hdr="obj", trailing=False):
        self.cls_name, self.module, self.types, self.hdr = cls, module, types, hdr
        self.fields, self.fixed = layout((HDR_OBJ if hdr == "obj" else HDR_VAR) + body)
        self.by_path = {f.path: f for f in self.fields}
        self.var = var
        self.trailing = trailing  # extra zero bytes after the content survive decode/encode

    @property
    def cls(self):
        return getattr(importlib.import_module(self.module), self.cls_name)

    def __repr__(self):
        return f"<{self.cls_name}>"

    # -- values
    def gen(self, rng, cap=300, headers="std"):
        v = {}
        for f in self.fields:
            v[f.path] = gen_value(rng, f)
        v["header.base.signature"] = SIG
        v["header.base.header_size"] = 32
        v["header.base.header_version"] = 1 if self.hdr == "obj" else 3
        if headers == "any":
            v["header.base.header_version"] = gen_int(rng, 16)
            if rng.random() < 0.3:
                v["header.base.header_size"] = gen_int(rng, 16)
        elif rng.random() < 0.5:
            v["header.object_flags"] = rng.choice((1, 2))
        v["header.base.object_type"] = rng.choice(self.types)
        if self.var:
            self.var.gen(rng, v, cap)
        content = self.fixed + (self.var.size(v) if self.var else 0)
        v["@pad"] = rng.choice((1, 2, 3, 4, 5, 7, 8, 13)) if self.trailing and rng.random() < 0.2 else 0
        v["header.base.object_size"] = content + v["@pad"]
        if self.var:
            self.var.finish(rng, v)
        return v

    def resize(self, v):
        """Recompute derived sizes after a caller changed a variable part."""
        v["header.base.object_size"] = self.fixed + (self.var.size(v) if self.var else 0) + v.get("@pad", 0)
        if self.var:
            self.var.finish(None, v)

    def encode(self, v):
        out = bytearray()
        for f in self.fields:
            out += enc(f.kind, v[f.path])
        assert len(out) == self.fixed
        if self.var:
            out += self.var.encode(v)
        out += bytes(v["@pad"])
        assert len(out) == v["header.base.object_size"], (self, len(out), v)
        return bytes(out)

    def expected(self, v):
        """attribute path -> expected value (variable part included)."""
        e = {f.path: v[f.path] for f in self.fields}
        if self.var:
            self.var.expected(v, e)
        return e

    # -- real objects
    def build(self, v):
        e = self.expected(v)
        return build_obj(self, e)

    def compare(self, obj, v):
        return compare(self, obj, self.expected(v))


def _const(name):
    return getattr(importlib.import_module("vblf.constants"), name)


def typed(name, value):
    """Real enumeration member / flag value."""
    return _const(name)(value)


def build_header(kind, e, prefix="header."):
    g = importlib.import_module("vblf.general")
    b = prefix + "base."
    num = e[b + "object_type"]
    base = g.ObjectHeaderBase(
        signature=e[b + "signature"], header_size=e[b + "header_size"], header_version=e[b + "header_version"],
        object_size=e[b + "object_size"], object_type=_const("ObjType")(num) if num in TYPE_NAMES else num)
    third = "client_index" if kind == "obj" else "object_static_size"
    cls = g.ObjectHeader if kind == "obj" else g.VarObjectHeader
    return cls(base=base, object_flags=typed("ObjFlags", e[prefix + "object_flags"]),
               object_version=e[prefix + "object_version"], object_time_stamp=e[prefix + "object_time_stamp"],
               **{third: e[prefix + third]})


LIN_CHAIN = ["lin_timestamp_event", "lin_msg_descr_event", "lin_synch_field_event", "lin_bus_event"]
LIN_CLASSES = ["LinDatabyteTimestampEvent", "LinMessageDescriptor", "LinSynchFieldEvent", "LinBusEvent"]


def build_lin_event(e):
    lin = importlib.import_module("vblf.lin")
    inner = None
    for depth in range(3, -1, -1):
        prefix = ".".join(LIN_CHAIN[: depth + 1]) + "."
        kw = {p[len(prefix):]: val for p, val in e.items() if p.startswith(prefix) and "." not in p[len(prefix):]}
        if inner is not None:
            kw[LIN_CHAIN[depth + 1]] = inner
        inner = getattr(lin, LIN_CLASSES[depth])(**kw)
    return inner


def build_obj(spec, e):
    kw = {}
    for path, val in e.items():
        if "." in path:
            continue
        f = spec.by_path.get(path)
        if f is not None and f.enum:
            val = typed(f.enum, val)
        kw[path] = val
    kw["header"] = build_header(spec.hdr, e)
    if spec.cls_name == "LinMessage2":
        kw["lin_timestamp_event"] = build_lin_event(e)
    if "reserved3" in kw and isinstance(kw["reserved3"], tuple):
        kw["reserved3"] = list(kw["reserved3"])
    return spec.cls(**kw)


def same(exp, got, f=None):
    if isinstance(exp, float):
        return isinstance(got, (float, int)) and _struct.pack("<d", exp) == _struct.pack("<d", got)
    if isinstance(exp, bool) or isinstance(exp, int):
        if not isinstance(got, int) or isinstance(got, bool):
            return False
        if int(got) != exp:
            return False
        if f is not None and f.enum in ENUMS:
            return getattr(got, "name", None) == ENUMS[f.enum][exp]
        return True
    if isinstance(exp, bytes):
        return isinstance(got, bytes) and got == exp
    if isinstance(exp, str):
        return isinstance(got, str) and got == exp
    if isinstance(exp, tuple):
        return isinstance(got, (tuple, list)) and len(got) == len(exp) and all(same(a, b) for a, b in zip(exp, got))
    raise AssertionError(exp)


def get(obj, path):
    for p in path.split("."):
        obj = getattr(obj, p)
    return obj


def compare(spec, obj, e):
    """List of 'path: expected x, got y' for all differing attributes."""
    bad = []
    for path, exp in e.items():
        f = spec.by_path.get(path)
        try:
            got = get(obj, path)
        except AttributeError as ex:
            bad.append(f"{path}: {ex}")
            continue
        if path == "header.base.object_type":
            want = TYPE_NAMES.get(exp, "UNKNOWN")
            if getattr(got, "name", None) != want or (exp in TYPE_NAMES and int(got) != exp):
                bad.append(f"{path}: expected {want}({exp}), got {got!r}")
            continue
        if not same(exp, got, f):
            bad.append(f"{path}: expected {exp!r:.200}, got {got!r:.200}")
        elif f is not None and f.enum in FLAG_BITS:
            for name, bit in FLAG_BITS[f.enum].items():
                member = getattr(type(got), name, None)
                if member is None or bool(exp & bit) != (member in got):
                    bad.append(f"{path}: flag {name} wrong for stored {exp:#x}: {got!r}")
    return bad


# --------------------------------------------------------------------------- variable parts

class Var:
    derived = ()  # field paths that follow from the variable part (not freely settable)
    parts = ()  # attributes of the variable part

    def gen(self, rng, v, cap):
        raise NotImplementedError

    def size(self, v):
        raise NotImplementedError

    def encode(self, v):
        raise NotImplementedError

    def expected(self, v, e):
        raise NotImplementedError

    def finish(self, rng, v):
        pass


class Texts(Var):
    """Sequence of length-prefixed parts: (attribute, length attribute, 'text'|'utf8'|'data')."""

    def __init__(self, *parts):
        self.p = parts
        self.derived = tuple(x[1] for x in parts)
        self.parts = tuple(x[0] for x in parts)

    def raw(self, v, attr, kind):
        x = v["@" + attr]
        return x if kind == "data" else x.encode("utf-8" if kind == "utf8" else "cp1252")

    def gen(self, rng, v, cap):
        for attr, _len, kind in self.p:
            n = gen_len(rng, cap)
            v["@" + attr] = gen_bytes(rng, n) if kind == "data" else gen_text(rng, n, kind == "utf8")
        self.lens(v)

    def lens(self, v):
        for attr, ln, kind in self.p:
            v[ln] = len(self.raw(v, attr, kind))

    def finish(self, rng, v):
        self.lens(v)

    def size(self, v):
        self.lens(v)
        return sum(len(self.raw(v, a, k)) for a, _, k in self.p)

    def encode(self, v):
        return b"".join(self.raw(v, a, k) for a, _, k in self.p)

    def expected(self, v, e):
        for attr, ln, _k in self.p:
            e[attr] = v["@" + attr]
            e[ln] = v[ln]


class AppTextVar(Var):
    """Text with an optional terminator that counts as part of the text length."""

    derived = ("text_length",)
    parts = ("text",)

    def gen(self, rng, v, cap):
        n = gen_len(rng, cap)
        v["@text"] = gen_text(rng, n)
        v["@term"] = rng.random() < 0.75
        self.fix(v)

    def fix(self, v):
        if not v["@term"] and v["@text"].endswith("\0"):
            v["@text"] = v["@text"][:-1] + "x"
        v["text_length"] = len(v["@text"]) + (1 if v["@term"] else 0)

    def finish(self, rng, v):
        self.fix(v)

    def size(self, v):
        self.fix(v)
        return v["text_length"]

    def encode(self, v):
        return v["@text"].encode("cp1252") + (b"\0" if v["@term"] else b"")

    def expected(self, v, e):
        e["text"] = v["@text"]
        e["text_length"] = v["text_length"]


class Payload(Var):
    """Data whose length field may exceed what the object holds (truncated frame)."""

    def __init__(self, attr, length_field):
        self.attr, self.ln, self.parts, self.derived = attr, length_field, (attr,), (length_field,)
        self.bits = None

    def gen(self, rng, v, cap):
        n = gen_len(rng, min(cap, 65000))
        v["@" + self.attr] = gen_bytes(rng, n)
        v["@more"] = rng.choice((1, 2, 100)) if rng.random() < 0.15 else 0

    def size(self, v):
        return len(v["@" + self.attr])

    def finish(self, rng, v):
        if v["@more"] and v["@pad"]:
            v["@more"] = 0
        v[self.ln] = len(v["@" + self.attr]) + v["@more"]

    def encode(self, v):
        return v["@" + self.attr]

    def expected(self, v, e):
        e[self.attr] = v["@" + self.attr]
        e[self.ln] = v[self.ln]


class Fd64Var(Var):
    """CAN FD 64: data up to the extension offset or the end, optional 8-byte extension."""

    derived = ("ext_data_offset",)
    parts = ("data",)

    def gen(self, rng, v, cap):
        n = rng.choice((0, 1, 7, 8, 12, 16, 20, 24, 32, 48, 63, 64, 64, 65)) if rng.random() < 0.8 else gen_len(rng, cap)
        v["@ext"] = rng.choice(("none", "none", "ext", "ext", "ext", "offset-only"))
        if v["@ext"] != "none":
            n = min(n, 255 - 72)  # the offset is one byte
        v["@data"] = gen_bytes(rng, min(n, cap))
        v["@btr"] = (gen_int(rng, 32), gen_int(rng, 32))

    def size(self, v):
        return len(v["@data"]) + (8 if v["@ext"] == "ext" else 0)

    def finish(self, rng, v):
        if v["@ext"] != "ext" and v["@pad"]:
            # trailing zeros would be data here
            v["header.base.object_size"] -= v["@pad"]
            v["@pad"] = 0
        v["ext_data_offset"] = 0 if v["@ext"] == "none" else 72 + len(v["@data"])

    def encode(self, v):
        ext = enc("u32", v["@btr"][0]) + enc("u32", v["@btr"][1]) if v["@ext"] == "ext" else b""
        return v["@data"] + ext

    def expected(self, v, e):
        e["data"] = v["@data"]
        e["ext_data_offset"] = v["ext_data_offset"]
        e["btr_ext_arb"], e["btr_ext_data"] = v["@btr"] if v["@ext"] == "ext" else (0, 0)


class FdErr64Var(Var):
    """CAN FD error 64: valid_data_bytes of data, optional gap, optional 8-byte extension (offset is u8)."""

    derived = ("ext_data_offset", "valid_data_bytes")
    parts = ("data",)

    def gen(self, rng, v, cap):
        n = rng.choice((0, 1, 7, 8, 12, 16, 20, 24, 32, 48, 63, 64)) if rng.random() < 0.8 else rng.randint(0, 150)
        v["@data"] = gen_bytes(rng, min(n, cap))
        v["@ext"] = rng.choice(("none", "none", "ext", "ext", "ext", "offset-only"))
        v["@gap"] = rng.choice((0, 0, 0, 1, 4, 8))
        v["@btr"] = (gen_int(rng, 32), gen_int(rng, 32))

    def size(self, v):
        n = len(v["@data"])
        if v["@ext"] == "none":
            return n
        return n + v["@gap"] + (8 if v["@ext"] == "ext" else 0)

    def finish(self, rng, v):
        if v["@ext"] == "offset-only" and v["@pad"]:
            v["header.base.object_size"] -= v["@pad"]
            v["@pad"] = 0
        v["valid_data_bytes"] = len(v["@data"])
        v["ext_data_offset"] = 0 if v["@ext"] == "none" else 76 + len(v["@data"]) + v["@gap"]

    def encode(self, v):
        if v["@ext"] == "none":
            return v["@data"]
        ext = enc("u32", v["@btr"][0]) + enc("u32", v["@btr"][1]) if v["@ext"] == "ext" else b""
        return v["@data"] + bytes(v["@gap"]) + ext

    def expected(self, v, e):
        e["data"] = v["@data"]
        e["valid_data_bytes"] = v["valid_data_bytes"]
        e["ext_data_offset"] = v["ext_data_offset"]
        e["btr_ext_arb"], e["btr_ext_data"] = v["@btr"] if v["@ext"] == "ext" else (0, 0)


class Lin2Var(Var):
    """LIN message 2: versions 1, 2 and 3 of the structure, told apart by the object size."""

    parts = ()

    def gen(self, rng, v, cap):
        v["@ver"] = rng.choice((1, 2, 3, 3))
        v["@resp"] = gen_int(rng, 32)
        v["@exact"] = gen_float(rng)
        v["@early"] = (gen_int(rng, 32), gen_int(rng, 32))

    def size(self, v):
        return {1: 0, 2: 4, 3: 20}[v["@ver"]]

    def finish(self, rng, v):
        # bytes beyond a version's size must not look like the next version's fields
        if v["@ver"] == 1 and v["@pad"] >= 4 or v["@ver"] == 2 and v["@pad"] >= 16:
            v["header.base.object_size"] -= v["@pad"]
            v["@pad"] = 0

    def encode(self, v):
        out = b""
        if v["@ver"] >= 2:
            out += enc("u32", v["@resp"])
        if v["@ver"] >= 3:
            out += enc("f64", v["@exact"]) + enc("u32", v["@early"][0]) + enc("u32", v["@early"][1])
        return out

    def expected(self, v, e):
        e["resp_baudrate"] = v["@resp"] if v["@ver"] >= 2 else 0
        e["exact_header_baudrate"] = v["@exact"] if v["@ver"] >= 3 else 0.0
        e["early_stopbit_offset"], e["early_stopbit_offset_response"] = v["@early"] if v["@ver"] >= 3 else (0, 0)
        e["lin_timestamp_event.databyte_timestamps"] = tuple(
            e.pop(f"lin_timestamp_event.databyte_timestamps[{i}]") for i in range(9))


class Res3Var(Var):
    """CanDriverErrorExt.reserved3: four numbers held as a list."""

    parts = ()

    def gen(self, rng, v, cap):
        pass

    def size(self, v):
        return 0

    def encode(self, v):
        return b""

    def expected(self, v, e):
        e["reserved3"] = tuple(e.pop(f"reserved3[{i}]") for i in range(4))


def u(bits, *names):
    return [(n, f"u{bits}") for n in names]


_te = "lin_timestamp_event"
_md = _te + ".lin_msg_descr_event"
_sf = _md + ".lin_synch_field_event"
_be = _sf + ".lin_bus_event"

CAN = "vblf.can"
GEN = "vblf.general"

SPECS = [
    Spec("CanMessage", CAN, [1], u(16, "channel") + u(8, "flags", "dlc") + u(32, "frame_id") + [("data", "b8")]),
    Spec("CanMessage2", CAN, [86], u(16, "channel") + u(8, "flags", "dlc") + u(32, "frame_id") + [("data", "b8")]
         + u(32, "frame_length") + u(8, "bit_count", "reserved1") + u(16, "reserved2")),
    Spec("CanFdMessage", CAN, [100], u(16, "channel") + u(8, "flags", "dlc") + u(32, "frame_id", "frame_length")
         + u(8, "arb_bit_count") + [("canfd_flags", "u8", "CanFdMessageFlags")] + u(8, "valid_data_bytes", "reserved1")
         + u(32, "reserved2") + [("data", "b64")] + u(32, "reserved3")),
    Spec("CanFdMessage64", CAN, [101], u(8, "channel", "dlc", "valid_data_bytes", "tx_count")
         + u(32, "frame_id", "frame_length") + [("flags", "u32", "CanFdFlags")]
         + u(32, "btr_cfg_arb", "btr_cfg_data", "time_offset_brs_ns", "time_offset_crc_del_ns") + u(16, "bit_count")
         + u(8, "dir", "ext_data_offset") + u(32, "crc"), Fd64Var(), trailing=True),
    Spec("CanDriverStatistic", CAN, [4], u(16, "channel", "bus_load") + u(
        32, "standard_data_frames", "extended_data_frames", "standard_remote_frames", "extended_remote_frames",
        "error_frames", "overload_frames", "reserved")),
    Spec("CanDriverError", CAN, [31], u(16, "channel") + u(8, "tx_errors", "rx_errors") + u(32, "error_code")),
    Spec("CanDriverErrorExt", CAN, [74], u(16, "channel") + u(8, "tx_errors", "rx_errors") + u(32, "error_code", "flags")
         + u(8, "state", "reserved1") + u(16, "reserved2") + u(32, *[f"reserved3[{i}]" for i in range(4)]), Res3Var()),
    Spec("CanErrorFrame", CAN, [2], u(16, "channel", "length") + u(32, "reserved")),
    Spec("CanErrorFrameExt", CAN, [73], u(16, "channel", "length") + u(32, "flags")
         + u(8, "ecc", "position", "dlc", "reserved1") + u(32, "frame_length_in_ns", "frame_id")
         + u(16, "flags_ext", "reserved2") + [("data", "b8")]),
    Spec("CanFdErrorFrame64", CAN, [104], u(8, "channel", "dlc", "valid_data_bytes", "ecc")
         + u(16, "flags", "error_code_ext", "ext_flags") + u(8, "ext_data_offset", "reserved1")
         + u(32, "frame_id", "frame_length", "btr_cfg_arb", "btr_cfg_data", "time_offset_brs_ns",
             "time_offset_crc_del_ns", "crc") + u(16, "error_position", "reserved2"), FdErr64Var(), trailing=True),
    Spec("CanDriverHwSync", CAN, [44], u(16, "channel") + u(8, "flags", "reserved1") + u(32, "reserved2")),
    Spec("CanOverloadFrame", CAN, [3], u(16, "channel", "reserved1") + u(32, "reserved2")),
    Spec("LinMessage", "vblf.lin", [11], u(16, "channel") + u(8, "id", "dlc") + [("data", "b8")]
         + u(8, "fsm_id", "fsm_state", "header_time", "full_time") + u(16, "crc") + u(8, "dir") + [("reserved", "b5")]),
    Spec("LinMessage2", "vblf.lin", [57], u(64, _be + ".sof") + u(32, _be + ".event_baudrate") + u(16, _be + ".channel")
         + [(_be + ".reserved", "b2")] + u(64, _sf + ".synch_break_length", _sf + ".synch_del_length")
         + u(16, _md + ".supplier_id", _md + ".message_id")
         + u(8, _md + ".nad", _md + ".id", _md + ".dlc", _md + ".checksum_model")
         + u(64, *[f"{_te}.databyte_timestamps[{i}]" for i in range(9)])
         + [("data", "b8")] + u(16, "crc")
         + u(8, "direction", "simulated", "is_etf", "etf_assoc_index", "etf_assoc_etf_id", "fsm_id", "fsm_state")
         + [("reserved", "b3")], Lin2Var(), trailing=True),
    Spec("EthernetFrameEx", "vblf.ethernet", [120], u(16, "struct_length", "flags", "channel", "hardware_channel")
         + u(64, "frame_duration") + u(32, "frame_checksum") + u(16, "dir", "frame_length")
         + u(32, "frame_handle", "reserved"), Payload("frame_data", "frame_length"), trailing=True),
    Spec("EthernetStatistic", "vblf.ethernet", [114], u(16, "channel", "reserved_1") + u(32, "reserved_2")
         + u(64, "rcv_ok_hw", "xmit_ok_hw", "rcv_error_hw", "xmit_error_hw", "rcv_bytes_hw", "xmit_bytes_hw",
             "rcv_no_buffer_hw") + [("sqi", "i16")] + u(16, "hardware_channel") + u(32, "reserved_3"), trailing=True),
    Spec("FlexrayVFrReceiveMsgEx", "vblf.flexray", [66],
         u(16, "channel", "version", "channel_mask", "dir_flags") + u(32, "client_index", "cluster_no")
         + u(16, "frame_id", "header_crc1", "header_crc2", "byte_count", "data_count", "cycle")
         + u(32, "tag", "data", "frame_flags", "app_parameter", "frame_crc", "frame_length_ns")
         + u(16, "frame_id1", "pdu_offset", "blf_log_mask") + [("reserved", "b26")],
         Payload("data_bytes", "data_count"), trailing=True),
    Spec("AppText", GEN, [65], [("source", "u32", "AppTextSource")] + u(32, "reserved1", "text_length", "reserved2"),
         AppTextVar(), trailing=True),
    Spec("AppTrigger", GEN, [5], u(64, "pre_trigger_time", "post_trigger_time") + u(16, "channel")
         + [("flags", "u16", "TriggerFlag")] + u(32, "app_specific")),
    Spec("EnvironmentVariable", GEN, [6, 7, 8, 9], u(32, "name_length", "data_length") + u(64, "reserved"),
         Texts(("name", "name_length", "text"), ("data", "data_length", "data")), trailing=True),
    Spec("SystemVariable", GEN, [72], [("type", "u32", "SysVarType")] + u(32, "representation") + u(64, "reserved1")
         + u(32, "name_length", "data_length") + u(64, "reserved2"),
         Texts(("name", "name_length", "text"), ("data", "data_length", "data")), trailing=True),
    Spec("RealTimeClock", GEN, [51], u(64, "time", "logging_offset")),
    Spec("DriverOverrun", GEN, [91], [("bus_type", "u32", "BusType")] + u(16, "channel", "reserved")),
    Spec("EventComment", GEN, [92], u(32, "commented_event_type", "text_length") + u(64, "reserved"),
         Texts(("text", "text_length", "text")), trailing=True),
    Spec("GlobalMarker", GEN, [96], u(32, "commented_event_type", "foreground_color", "background_color")
         + u(8, "is_relocatable", "reserved1") + u(16, "reserved2")
         + u(32, "group_name_length", "marker_name_length", "description_length", "reserved3") + u(64, "reserved4"),
         Texts(("group_name", "group_name_length", "text"), ("marker_name", "marker_name_length", "text"),
               ("description", "description_length", "text"))),
    Spec("FunctionBus", GEN, [124], [("object_type", "u32", "FunctionBusType")] + u(32, "ve_type", "name_length", "data_length"),
         Texts(("name", "name_length", "text"), ("data", "data_length", "data")), hdr="var"),
    Spec("TriggerCondition", GEN, [128], [("state", "u32", "TriggerConditionStatus")]
         + u(32, "trigger_block_name_length", "trigger_condition_length"),
         Texts(("trigger_block_name", "trigger_block_name_length", "text"),
               ("trigger_condition", "trigger_condition_length", "text")), hdr="var"),
    Spec("DiagRequestInterpretation", "vblf.tp_diag", [119], u(
        32, "diag_description_handle", "diag_variant_handle", "diag_service_handle", "ecu_qualifier_length",
        "variant_qualifier_length", "service_qualifier_length"),
        Texts(("ecu_qualifier", "ecu_qualifier_length", "utf8"), ("variant_qualifier", "variant_qualifier_length", "utf8"),
              ("service_qualifier", "service_qualifier_length", "utf8")), trailing=True),
]
SPEC_BY_NAME = {s.cls_name: s for s in SPECS}
SPEC_BY_TYPE = {t: s for s in SPECS for t in s.types}
CONTAINER_TYPE = 10
UNSUPPORTED = [t for t in TYPE_NAMES if t not in SPEC_BY_TYPE and t != CONTAINER_TYPE]


def free_fields(spec):
    """Fixed fields that can take any value without changing the object's shape."""
    drv = set(spec.var.derived) if spec.var else set()
    return [f for f in spec.fields
            if f.path not in drv and f.path not in ("header.base.signature", "header.base.object_size",
                                                    "header.base.object_type")]


def raw_object(num, body, header_size=32, header_version=1, size=None):
    """Bytes of an arbitrary object: 16-byte base header and body."""
    n = BASE + len(body) if size is None else size
    return SIG + enc("u16", header_size) + enc("u16", header_version) + enc("u32", n) + enc("u32", num) + body
