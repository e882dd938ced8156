"""Source of MANIFEST.json (run: python tools/mkmanifest.py > MANIFEST.json)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from awsim import checks  # noqa: E402

NA = {
    "C17": "a relation between constant tables that involves no time, I/O, concurrency, fault or history: deterministic "
           "simulation has nothing to schedule or inject, and one evaluation of the tables settles it (the tables are "
           "exercised as data by C07 and C12)",
    "C18": "a pure function of the option, the variable and the default with no concurrency, time, I/O or fault "
           "involved; simulated commands use options and variables, but no schedule or fault can change this choice",
    "C19": "algebra of a pure function over a small enumeration; no schedule, fault, clock or storage can influence it",
}

NOTE = ("Seeded sampling of {what}: a violation is a real execution of the unmodified package on a simulated host and "
        "replays exactly; silence covers the cases that were run. Trusts the in-memory kernel model, the stubs listed in "
        "the evidence and {oracle}.")
WHAT = {
    "C01": ("wheels, options and fault points, with the wheel directory compared after every operation", "a fault-free run of the same command as the reference"),
    "C02": ("wheels, hosts and fault points, with the disk compared after every operation", "the initial disk as the reference"),
    "C03": ("wheels and fault points", "a fault-free run of the same command as the reference"),
    "C04": ("published wheels under disturbance", "the oracle's own reading of the archive"),
    "C05": ("published wheels under disturbance", "the oracle's own ELF reader and archive comparison"),
    "C06": ("hosts, dependency graphs and options", "the reference model of the loader's search"),
    "C07": ("wheels, policies and hosts", "the reference model of the policies (over a copy of the policy tables)"),
    "C08": ("environments of the same repair", "byte comparison"),
    "C09": ("batches and command histories in one process", "separate processes as the reference"),
    "C10": ("interleavings of two to four processes, with kills and faults", "each process alone as the reference"),
    "C11": ("failure and interrupt points", "directory listings before and after"),
    "C12": ("wheels, hosts and fault points", "the reference model of the verdict"),
    "C13": ("hosts, links and loader configurations", "the reference model of the loader's search"),
    "C14": ("crash and retry histories", "a fault-free first run as the reference"),
    "C15": ("call histories with failing helper runs", "a small model of the queue and the oracle's own ELF reader"),
    "C16": ("hosts, package tables and failing queries", "the host's package table as the reference"),
}

checks_ = []
for cid, c in checks.ALL.items():
    checks_.append({
        "property": cid,
        "quick_cmd": f"python3 run.py check {cid} --tier quick",
        "thorough_cmd": f"python3 run.py check {cid} --tier thorough",
        "technique": c.technique,
        "level": c.level,
        "level_note": NOTE.format(what=WHAT[cid][0], oracle=WHAT[cid][1]),
    })
print(json.dumps({
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator replaces os, io, subprocess, time, tempfile and "
                                         "random functions from outside while a simulated process runs", "source_commits": []},
    "checks": checks_,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "python3 run.py replay FILE runs a recorded violation again; python3 run.py selftest checks that equal seeds give equal traces.",
}, indent=1))
