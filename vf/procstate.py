"""Process-wide state that code can change, beyond the obvious settings.  Also executed in fresh interpreters."""

import asyncio
import atexit
import codecs
import collections
import copyreg
import dataclasses
import datetime
import enum
import faulthandler
import gc
import io
import json
import linecache
import logging
import os
import pathlib
import pickle
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings
import weakref
import zlib

MODULES = (asyncio, atexit, codecs, collections, copyreg, dataclasses, datetime, enum, gc, io, json, logging, os, os.path, pathlib,
           pickle, signal, struct, sys, tempfile, threading, time, warnings, weakref, zlib)
CLASSES = (enum.Enum, enum.IntEnum, enum.IntFlag, enum.Flag, enum.EnumMeta, logging.Logger, logging.Handler, threading.Thread,
           pathlib.Path, pathlib.PurePath, pickle._Pickler, io.IOBase, json.JSONEncoder, collections.Counter, tempfile.TemporaryDirectory)
FUNCTIONS = (type(len), type(lambda: 0), type, type(os.fspath), classmethod, staticmethod, property)


# what cannot be asked for is recorded when it is set
CALLS = []


def record(modules, name):
    real = getattr(modules[0], name)

    def recorder(*args, **kw):
        CALLS.append((name, repr(args[:1])))
        return real(*args, **kw)

    for mod in modules:
        setattr(mod, name, recorder)


for _name in ("register", "register_error", "unregister"):
    record((sys.modules["_codecs"], codecs), _name)


def loggers():
    out = {"raise": logging.raiseExceptions, "class": repr(logging.getLoggerClass()), "factory": repr(logging.getLogRecordFactory()),
           "names": logging.getLevelName(10) + logging.getLevelName(30), "captured": repr(warnings.showwarning)}
    for name, lg in [("", logging.getLogger())] + sorted(logging.root.manager.loggerDict.items()):
        if isinstance(lg, logging.PlaceHolder):
            continue
        handlers = [h for h in lg.handlers if not (name.split(".")[0] == "vblf" and type(h) is logging.NullHandler)]
        st = (lg.level, lg.propagate, lg.disabled, [repr(h) for h in handlers], [repr(f) for f in lg.filters])
        if name == "" or st != (0, True, False, [], []):
            out[name] = st
    return out


def wakeup():
    if threading.current_thread() is not threading.main_thread():
        return None
    fd = signal.set_wakeup_fd(-1)
    if fd != -1:
        signal.set_wakeup_fd(fd)
    return fd


def state():
    s = {
        "traceback limit": getattr(sys, "tracebacklimit", None),
        "exit handlers": (atexit._ncallbacks(), len(threading._threading_atexits)),
        "pickling": sorted(map(repr, copyreg.dispatch_table)),
        "loggers": loggers(),
        "thread stack size": threading.stack_size(),
        "memory tracing": tracemalloc.is_tracing(),
        "fault handler": faulthandler.is_enabled(),
        "socket timeout": socket.getdefaulttimeout(),
        "bytecode": (sys.dont_write_bytecode, sys.pycache_prefix),
        "coroutines": (sys.get_coroutine_origin_tracking_depth(), sys.get_asyncgen_hooks(), repr(asyncio.get_event_loop_policy().__class__)
                       if sys.version_info < (3, 14) else None),
        "dlopen flags": sys.getdlopenflags(),
        "arguments": (list(sys.argv), list(sys.warnoptions), getattr(sys, "ps1", None)),
        "thread hooks": (repr(threading.gettrace()), repr(threading.getprofile())),
        "collector callbacks": (len(gc.callbacks), gc.get_freeze_count()),
        "timers": [signal.getitimer(t) for t in (signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "wakeup descriptor": wakeup(),
        "temporary directory": (tempfile.tempdir, tempfile.template),
        "warning defaults": (warnings.defaultaction, repr(warnings.formatwarning), repr(getattr(warnings, "_showwarnmsg_impl", None))),
        "codecs registered": list(CALLS),
        "codec error handlers": [repr(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "surrogateescape", "surrogatepass")],
        "line cache": len([k for k in linecache.cache if "vblf" in k]),
        "stream settings": [(f.encoding, f.errors, f.line_buffering, f.write_through) for f in (sys.stdout, sys.stderr) if hasattr(f, "encoding")],
    }
    for mod in MODULES:
        s[f"functions of {mod.__name__}"] = {k: id(v) for k, v in vars(mod).items() if isinstance(v, FUNCTIONS)
                                             and not k.startswith("__") and k not in ("_", "last_type")}
    for cls in CLASSES:
        s[f"attributes of {cls.__name__}"] = {k: id(v) for k, v in vars(cls).items() if isinstance(v, FUNCTIONS)}
    return s
