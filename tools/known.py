"""Writes the "fixed" entries of known_findings.json from the fix commits in /repo."""
import json
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
RULES = [  # first match wins
    ("P24", ["expanded output", "complemented mask", "infinite cutoffs"]),
    ("P19", ["Boolean", "iso-valued storage"]),
    ("P23", ["of multigraphs as networkx does", "networkx multigraphs"]),
    ("P17", ["must raise NetworkXNotImplemented", "must refuse multigraphs"]),
    ("P10", ["edge_boundary", "volume", "conductance", "mixing_expansion", "edge_expansion", "community edges"]),
    ("P11", ["s_metric", "regular (0-"]),
    ("P09", ["k_truss", "generalized_degree", "square_clustering"]),
    ("P08", ["clustering"]),
    ("P02", ["_element-", "iso_value property", "has_self_edges", "has_negative_diagonal"]),
    ("P07", ["floyd"]),
    ("P05", ["all-pairs"]),
    ("P06", ["bellman_ford"]),
    ("P01", ["to_undirected"]),
    ("P15", ["matrix_to_dicts", "Map", "node map", "dict_to_vector"]),
    ("P14", ["reverse", "compose", "ego_graph", "union"]),
    ("P13", ["laplacian"]),
    ("P12", ["katz", "pagerank", "google"]),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True, check=True).stdout
path = ROOT / "known_findings.json"
old = json.loads(path.read_text())["findings"] if path.exists() else []
out = [f for f in old if f["status"] != "fixed"]
for line in log.splitlines():
    commit, _, what = line.partition(" fix: ")
    pid = next(p for p, ks in RULES if any(k in what for k in ks))
    out.append({"property": pid, "status": "fixed", "commit": commit, "what": what, "line": f"fixed: property={pid} {commit} {what}"})
path.write_text(json.dumps({"findings": out}, indent=1) + "\n")
