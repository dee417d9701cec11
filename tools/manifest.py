"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import importlib.util, json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
TECH = {
    "C25": "runtime comparison of ASan/UBSan-instrumented C++ against Python on generated approximators",
    "C26": "runtime comparison of ASan/UBSan-instrumented C++ against Python on generated systems and histories",
    "C27": "runtime comparison of ASan/UBSan-instrumented C++ against Python on generated DMPs and rollouts",
    "C28": "allocation monitor (hooked malloc/free) armed around the real-time calls",
    "C29": "AddressSanitizer, LeakSanitizer, UndefinedBehaviourSanitizer under generated operation histories",
    "C30": "ASan/UBSan-instrumented C++ trajectories monitored against Python and boundary conditions",
    "C21": "trace specification over the event log of hooked optimization runs",
    "C23": "fault injection (restart between steps, interruption of writes) with an online reference model",
    "C22": "online reference model over tell/ask histories with reopening",
}
NOTE = {}
checks, na = [], []
for l in open(V / "properties.jsonl"):
    p = json.loads(l)["id"]
    if (V / "checks" / f"{p}.py").exists():
        checks.append({
            "property": p,
            "quick_cmd": f"python3 /verif/run_check.py {p} --tier quick",
            "thorough_cmd": f"python3 /verif/run_check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "runtime monitoring: " + TECH.get(p, "oracles observing generated and hostile workloads on the real code"),
            "level": "exploration",
            "level_note": "Held on every generated execution observed; no claim beyond them. Trusts numpy/scipy, the oracles in /verif and the assumptions listed in the evidence file.",
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: monitors attach from outside (subclasses, wrappers, sanitizer builds of /repo/src). Known findings: known_findings.json."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
