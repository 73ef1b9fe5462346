"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run `python3 tools/properties.py` in /verif to regenerate both.
"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
INC = "include/arc_utilities/"
SRC = "src/arc_utilities/"

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, note, technique=None, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(
        line=dict(
            id=pid, title=title, statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(files=files,
                         mechanism=[dict(name=n, where=w) for n, w in mech],
                         **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                         observe_at=observe or ["return values of the public API"],
                         hook_needed=None)),
        note=note,
        technique=technique or "property-based testing (choice-sequence generators, shrinking, ASan+UBSan)"))


exec((pathlib.Path(__file__).resolve().parent / "property_list.py").read_text())


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p["line"]) + "\n")
    claimed = set(CLAIMED)
    manifest = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=[dict(property=p["line"]["id"],
                     quick_cmd="python3 run.py %s" % p["line"]["id"],
                     thorough_cmd="python3 run.py %s --thorough" % p["line"]["id"],
                     evidence_file="evidence/%s.json" % p["line"]["id"],
                     technique=p["technique"],
                     level="exploration",
                     level_note=p["note"])
                for p in P if p["line"]["id"] in claimed],
        not_applicable=NOT_APPLICABLE + [dict(property=p["line"]["id"], reason="check not built yet")
                                         for p in P if p["line"]["id"] not in claimed and
                                         p["line"]["id"] not in [n["property"] for n in NOT_APPLICABLE]],
        notes="All checks are run.py <ID>; the harness sources are cpp/*.cpp and py/*.py; see DESIGN.md.")
    (ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


if __name__ == "__main__":
    main()
