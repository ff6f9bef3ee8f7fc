"""C26: results do not depend on the environment the library runs in."""

import json
import os
import shutil
import subprocess
import sys
import zipfile

from .. import idle
from ..engine import SRC, VERIF

PROP = "C26"
LEVEL = "exploration"
RULE = ("A case runs one script of library use (encode, decode, write, read, reject, refuse, convert times; every step also "
        "compared with the layout model) in a fresh interpreter under one environment and compares all observations with those "
        "of the plain interpreter. Distinct = different (environment, script); non-trivial = all.")
ASSUMPTIONS = ["CPython 3.12 on Linux, little-endian", "the script's own code does not depend on the environment"]
REQUIRED = {"interpreters": 60, "observations": 20_000, "environments": 25, "recorded_lookups": 10}

# name -> (interpreter options, environment changes, mode of vf.envrun)
ENVS = {
    "plain": ([], {}, "plain"),
    "hash seed 1": ([], {"PYTHONHASHSEED": "1"}, "plain"),
    "hash seed 4711": ([], {"PYTHONHASHSEED": "4711"}, "plain"),
    "random hash seed": ([], {"PYTHONHASHSEED": "random"}, "plain"),
    "-O": (["-O"], {}, "plain"),
    "-OO": (["-OO"], {}, "plain"),
    "C locale": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"}, "locale"),
    "C.utf8 locale": ([], {"LC_ALL": "C.utf8"}, "locale"),
    "unknown locale": (["-X", "utf8=0"], {"LANG": "xx_YY.ISO-8859-9"}, "plain"),
    "utf-8 mode": (["-X", "utf8=1"], {"LC_ALL": "C"}, "plain"),
    "latin-1 streams": ([], {"PYTHONIOENCODING": "latin-1"}, "plain"),
    "TZ half an hour": ([], {"TZ": "America/St_Johns"}, "plain"),
    "TZ Kathmandu": ([], {"TZ": "<+0545>-5:45"}, "plain"),
    "TZ with daylight saving": ([], {"TZ": "CET-1CEST,M3.5.0,M10.5.0/3"}, "plain"),
    "TZ far west": ([], {"TZ": "<-12>12"}, "plain"),
    "TZ unknown": ([], {"TZ": "Nowhere/Land"}, "plain"),
    "TZ changed at run time": ([], {}, "clock"),
    "development mode, warnings are errors": (["-X", "dev", "-W", "error", "-X", "warn_default_encoding", "-b", "-b"], {}, "plain"),
    "debugging allocator": ([], {"PYTHONMALLOC": "debug"}, "plain"),
    "plain malloc with poison": ([], {"PYTHONMALLOC": "malloc", "MALLOC_PERTURB_": "165"}, "plain"),
    "isolated": (["-I"], {}, "plain"),
    "empty environment": ([], None, "plain"),
    "tracemalloc": (["-X", "tracemalloc=10"], {}, "plain"),
    "int digits": (["-X", "int_max_str_digits=640"], {}, "plain"),
    "other thread": ([], {}, "thread"),
    "forked child": ([], {}, "fork"),
    "asyncio": ([], {}, "asyncio"),
    "at exit": ([], {}, "atexit"),
    "frequent garbage collection": ([], {}, "gc"),
    "no garbage collection": ([], {}, "nogc"),
    "traced": ([], {}, "trace"),
    "low recursion limit": ([], {}, "recursion"),
    "decimal context": ([], {}, "decimal"),
    "standard streams closed": ([], {}, "lowfds"),
    "unbuffered": (["-u"], {}, "plain"),
    "from a zip archive": ([], {}, "zip"),
    "other directory": ([], {}, "cwd"),
    "removed directory": ([], {}, "nocwd"),
    "one processor": ([], {}, "onecpu"),
    "few descriptors": ([], {}, "fewfds"),
    "strict umask": ([], {}, "umask"),
    "interrupted by signals": ([], {}, "signals"),
    "deep in the stack": ([], {}, "deep"),
    "called by a generator": ([], {}, "generator"),
    "little memory": ([], {}, "memory"),
    "debug logging": ([], {}, "logging"),
    "variables of other programs": ([], {"DEBUG": "1", "VERBOSE": "1", "CI": "true", "SOURCE_DATE_EPOCH": "0", "NO_COLOR": "1",
                                         "ZLIB_LEVEL": "0", "TERM": "dumb", "LANGUAGE": "de", "USER": "nobody",
                                         "VBLF_DEBUG": "1", "PYTHONUNBUFFERED": "1", "PYTHONFAULTHANDLER": "1"}, "plain"),
    "read-only home": ([], {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"}, "plain"),
}
_plain = {}


def run(ctx, name, seed, env=None):
    opts, change, mode = env or ENVS[name]
    d = ctx.newdir()
    out = os.path.join(d, "out.json")
    tmp = os.path.join(d, "t")
    os.mkdir(tmp)
    src = SRC
    if mode == "zip":
        src = os.path.join(d, "vblf.zip")
        with zipfile.ZipFile(src, "w") as z:
            for n in sorted(os.listdir(os.path.join(SRC, "vblf"))):
                if n.endswith((".py", ".typed")):
                    z.write(os.path.join(SRC, "vblf", n), "vblf/" + n)
    if change is None:
        env = {}
    else:
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
        env.update({"PYTHONHASHSEED": "0", "TZ": "UTC", "LC_ALL": "C.utf8"})
        if "LANG" in change:
            del env["LC_ALL"]
        env.update(change)
    boot = ("import sys; sys.dont_write_bytecode = True; sys.path[:0] = [%r, %r]; sys.argv[1:] = %r; "
            "import vf.envrun as e; e.main(int(sys.argv[1]), *sys.argv[2:])" %
            (src, VERIF, [str(seed), tmp, out, mode]))
    what = f"environment '{name}', script {seed}"
    p = idle.run([sys.executable, *opts, "-c", boot], what, cwd="/" if mode == "cwd" else tmp, env=env,
                 stdin=subprocess.DEVNULL)
    if not os.path.exists(out):
        ctx.fail(f"{what}: the interpreter failed ({p.returncode}): {p.stderr[-1500:].decode('utf-8', 'replace')}")
    with open(out, encoding="utf-8") as f:
        r = json.load(f)
    ctx.check(not r["failed"], f"{what}: {' '.join(r['failed'])[-1500:]}")
    ctx.check(p.returncode == 0, f"{what}: exit status {p.returncode}: {p.stderr[-500:]!r}")
    ctx.check(not p.stdout and not p.stderr, f"{what}: output {p.stdout[-300:]!r} {p.stderr[-1500:]!r}")
    shutil.rmtree(d)
    ctx.count("interpreters")
    if mode == "record":
        return r["lines"], r["read"]
    return r["lines"]


def environments(ctx, rng, index):
    names = list(ENVS)
    name = names[1 + index % (len(names) - 1)]
    seed = ctx.seed * 1000 + index // (len(names) - 1)
    if seed not in _plain:
        _plain.clear()
        _plain[seed] = run(ctx, "plain", seed)
    ref = _plain[seed]
    got = run(ctx, name, seed)
    for a, b in zip(ref, got):
        ctx.check(a == b, f"environment '{name}', script {seed}: observed {b}, plain interpreter {a}")
    ctx.check(len(ref) == len(got), f"environment '{name}', script {seed}: {len(got)} observations, {len(ref)} plain")
    ctx.count("observations", len(got))
    if index < len(names) - 1:
        ctx.count("environments")
    ctx.eval((name, seed))
    ctx.sample(lambda: {"environment": name, "observations": len(got)})


VALUES = ("1", "0", "9", "", "true", "1000000000", "-1", "text", "latin-1", "/nonexistent")
_read = []


def variables(ctx, rng, index):
    """Environment variables the library looks up, if any, are given values: nothing changes."""
    seed = ctx.seed * 1000 + 500 + index // len(VALUES)
    if not _read or _read[0] != seed:
        _read[:] = [seed, *run(ctx, "recorded", seed, ([], {}, "record"))]
    _, ref, keys = _read
    ctx.count("recorded_lookups")
    value = VALUES[index % len(VALUES)]
    if keys:
        got = run(ctx, f"variables {keys} set to {value!r}", seed, ([], dict.fromkeys(keys, value), "plain"))
        for a, b in zip(ref, got):
            ctx.check(a == b, f"environment variables {keys} set to {value!r}, script {seed}: observed {b}, without {a}")
        ctx.check(len(ref) == len(got), f"environment variables {keys} set to {value!r}: {len(got)} observations of {len(ref)}")
        ctx.count("observations", len(got))
    ctx.eval(("variables", value if keys else "", seed))


def families(tier):
    t = tier == "thorough"
    return [("variables", len(VALUES) * (6 if t else 1), variables),
            ("environments", (len(ENVS) - 1) * (60 if t else 2), environments)]
