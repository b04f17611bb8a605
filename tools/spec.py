#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description. Run by hand: python3 tools/spec.py"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, level="exploration", state=(), observe=(), hook=None):
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mechanism],
                              observe_at=list(observe), hook_needed=hook)),
        check=dict(property=id, quick_cmd="bash run.sh %s" % id, thorough_cmd="VERIF_TIER=thorough bash run.sh %s" % id,
                   technique=technique, level=level, level_note=note)))

exec(open(os.path.join(ROOT, "tools", "props_coder.py")).read())
for extra in ("props_io.py", "props_obu.py", "props_sym.py", "props_tab.py", "props_tile.py"):
    f = os.path.join(ROOT, "tools", extra)
    if os.path.exists(f):
        exec(open(f).read())

P.sort(key=lambda p: p["rec"]["id"])
for p in P:
    assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"], sort_keys=False) + "\n")
    for r, _ in NA:
        f.write(json.dumps(r) + "\n")
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif hooks"], capture_output=True, text=True).stdout.split()
man = dict(version=1, setup_cmd="bash run.sh --setup",
           hooks=dict(guard="av1enc_verif (rustc --cfg flag)", enable="RUSTFLAGS=\"--cfg av1enc_verif\" (run.sh sets it); without it the code is compiled as before",
                      source_commits=hooks),
           checks=[p["check"] for p in P],
           not_applicable=[dict(property=r["id"], reason=why) for r, why in NA],
           notes="run.sh ID builds the check from /repo's working tree and runs it; run.sh --replay FILE re-runs one shrunk failing case. Generated-input search only (property-based testing).")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
