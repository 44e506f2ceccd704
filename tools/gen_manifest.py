"""Writes /verif/MANIFEST.json from the property modules that exist."""
import importlib.util, json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
NA = {
    "C20": "classification of a region is a pure function of its arguments: no schedule, clock, I/O, fault or history can influence it",
    "C21": "the generating functions are a pure function of three numbers; nothing for a simulator to schedule or fail",
    "C22": "pure single-threaded arithmetic on its arguments; no nondeterminism to put behind a seam",
    "C23": "pure single-threaded arithmetic on its arguments; no nondeterminism to put behind a seam",
    "C24": "an expectation over noise of a pure formula; the only randomness is a fixed-seed private generator (its reproducibility is C12)",
    "C25": "argument validation is a pure function of the arguments; no schedule, fault or history can influence it",
    "C26": "pure arithmetic on one field; the figure-level guarantee that depends on history is C15",
}
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    f = ROOT / "dst" / "props" / f"{i.lower()}.py"
    if f.exists():
        notes = json.loads((ROOT / "tools" / "level_notes.json").read_text())
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} -m dst.check {i}",
            "thorough_cmd": f"{PY} -m dst.check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": notes[i]["technique"],
            "level": "exploration",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
doc = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import dst.runner as r; r.load_world()\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every seam is placed from outside, before sleplet is imported. "
             "Replay a reported violation with /verif/replay FILE. Known findings: known_findings.json.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
