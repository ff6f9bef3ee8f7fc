"""Writes MANIFEST.json from the table below and the property modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Holds on the executions of this run only, see the evidence file for what was observed. Trusts CPython, "
         "zlib and the harness's own layout model and parser (vf/model.py, vf/blf.py).")
T = {
    "C01": ("round-trip workload with a reference-model oracle over the real writer and reader", "exploration"),
    "C02": ("decoder monitored against an independent layout model over swept and random encodings", "exploration"),
    "C03": ("encoder monitored against an independent layout model, with before/after state snapshots", "exploration"),
    "C04": ("reader driven with independently packaged files, order and exactly-once oracle", "exploration"),
    "C05": ("offline strict-format checker over every file the writer produced", "exploration"),
    "C06": ("trace oracle: file header compared with the recorded history of the writer's calls and clock", "exploration"),
    "C07": ("crash-state enumeration from the recorded write log and every truncation point, prefix oracle", "fault_enumeration"),
    "C08": ("online conservation monitor after every write (in = in file + held back)", "exploration"),
    "C09": ("fault injection into objects' encoding, exactly-once oracle over the finished log", "fault_enumeration"),
    "C10": ("dispatch and pass-through oracle over all type numbers", "exploration"),
    "C11": ("canary-buffer monitor over every offset", "exploration"),
    "C12": ("calendar reference oracle over swept and random date-times", "exploration"),
    "C13": ("life-cycle monitor: file handles, file contents and exceptions at the API boundary", "exploration"),
    "C14": ("I/O fault injection at every file operation, exactly-once oracle over the finished log", "fault_enumeration"),
    "C15": ("random access schedules and file kinds, exactly-once history oracle", "exploration"),
    "C16": ("interleaved and multi-threaded histories compared with solo runs", "exploration"),
    "C17": ("corruption injection with prefix oracle and step-bounded termination monitor", "fault_enumeration"),
    "C18": ("factory results compared with the layout model, and through writer and reader", "exploration"),
    "C19": ("aliasing monitor: state snapshots around write and read, mutation after write", "exploration"),
    "C20": ("header codec monitored against an independent layout", "exploration"),
    "C22": ("online append-only monitor over every file operation, weak references and traced memory", "exploration"),
    "C23": ("equality, copy and pickle oracle over swept objects with state snapshots", "exploration"),
    "C24": ("growth-rate monitor: executed lines, file traffic and processor time at two sizes", "exploration"),
    "C25": ("audit-hook monitor of every effect outside the given file, settings and directories compared", "exploration"),
    "C26": ("differential monitor: one script in fresh interpreters under many environments, layout-model oracle", "exploration"),
    "C27": ("names and numbers of stored bytes and decoded values compared with the format's table", "exploration"),
    "C28": ("end-to-end copy pipelines of real readers and writers, byte-exact oracle over the resulting files", "exploration"),
    "C21": ("read-progress monitor: file positions and live objects at each delivery", "exploration"),
}
props = [json.loads(x) for x in open(f"{HERE}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{HERE}/vf/props/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + T[i][0],
                       "level": T[i][1], "level_note": TRUST})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor sits at the public API and at the file boundary."},
          open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
