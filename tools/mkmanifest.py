"""Writes MANIFEST.json from the checks present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("online reference monitor over random operation histories and bulk sweeps", ""),
 "C02": ("algebraic reference monitor (jump vs. affine powers) over random and boundary n", ""),
 "C03": ("round-trip monitor over random histories and states", ""),
 "C04": ("reference monitor of bounded draws over edge and random bounds", ""),
 "C05": ("trace monitor against an independent MT19937", ""),
 "C06": ("trace monitor against an independent SFMT19937, both builds", ""),
 "C07": ("trace monitor against an independent TinyMT32", ""),
 "C08": ("trace monitor against independent xorshift/xoroshiro recurrences", ""),
 "C09": ("differential monitor: event logs of both modes compared offline", ""),
 "C10": ("isolation monitor: interleavings and threads against solo replays, digests of shared state", ""),
 "C11": ("shadow-window monitor over random operation histories", ""),
 "C12": ("reference monitor (hashlib SHA-1) over random profiles and histories", ""),
 "C13": ("reference monitor over edge and random values, shipped name table", ""),
 "C14": ("reference monitor of derived attributes over structured and random PIDs", ""),
 "C15": ("offline replay of the call order against recorded searches, metamorphic splitting", ""),
 "C16": ("exhaustive sweep of the 65536 draws under a table monitor", ""),
 "C17": ("monitor comparing every loaded record with an independent JSON reading", ""),
 "C18": ("monitor comparing every decoded record with an independent reader; slot-choice oracle", ""),
 "C19": ("round-trip monitor over generated schemas and buffer layouts", ""),
 "C20": ("monitor comparing every row and field with raw bytes at independent offsets", ""),
 "C21": ("fault injection on the cache (truncation, crash, garbage, races) under a result-digest monitor", ""),
 "C22": ("bounds-checked build, guard pages, canaries and poisoned allocations under stress workloads", ""),
 "C24": ("differential monitor: one caller source compiled and interpreted, against integer models", ""),
 "C25": ("layout monitor: random record classes read and written by compiled and interpreted code, against their bytes", ""),
 "C26": ("differential monitor: result logs of one program under two numpy releases, and reference monitors under the newer one", ""),
 "C27": ("differential monitor: result logs of one program in a plain process and in processes with other locales, flags, threads, forks, settings and target processors", ""),
 "C23": ("configuration monitor: fresh interpreters under every mode setting", ""),
}
NOTE = {
 "C21": "Decides every enumerated cache state (every truncation point of the file sampled densely in quick, all of them in thorough) in both modes; assumes the cache is a file this package wrote, possibly damaged.",
}
DEFAULT = ("Decides what the monitor observed: the workload's inputs, histories and modes listed in "
           "the evidence; no claim beyond them. Trusts the independent models in /verif/lib.")


def main():
    checks = []
    for pid, (tech, _) in sorted(T.items()):
        if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            continue
        level = "fault_enumeration" if pid == "C21" else "exploration"
        checks.append({
            "property": pid, "quick_cmd": f"python3 run.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {pid} thorough",
            "evidence_file": f"evidence/{pid}.json", "technique": "runtime monitoring: " + tech,
            "level": level, "level_note": NOTE.get(pid, DEFAULT)})
    have = {c["property"] for c in checks}
    na = [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in have]
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: monitors observe the public API and the public state of the objects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
