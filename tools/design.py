"""Writes DESIGN.md from tools/design.md, the planted bugs and the fixes.  `python3 tools/design.py`"""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from plants import PLANTS  # noqa: E402
from properties import PROPS  # noqa: E402

text = (ROOT / "tools/design.md").read_text()
module = {p["row"]["id"]: p["module"] for p in PROPS}
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for p in sorted(PLANTS, key=lambda p: p["id"]):
    rows.append(f"| {p['id']} | {' '.join(p['needs'].split())} | {p['property']} `{module[p['property']]}` |")
findings = json.loads((ROOT / "known_findings.json").read_text())["findings"]
byprop = {}
for f in findings:
    byprop.setdefault(f["property"], []).append(f"{f['what']} ({f['commit']})")
fixes = "\n".join(f"* **{k}**: " + "; ".join(v) for k, v in sorted(byprop.items()))
text = text.replace("@FIXES@", fixes).replace("@PLANTS@", "\n".join(rows)).replace("@NPLANTS@", str(len(PLANTS)))
text = text.replace("@DEFECTS@", str(len(findings)))
missed = ROOT / "tools/missed.md"
text = text.replace("@MISSED@\n", missed.read_text() if missed.exists() else "")
(ROOT / "DESIGN.md").write_text(text)
