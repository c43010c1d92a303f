#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCAN, PARSE = "src/scanner/mod.rs", "src/parser.rs"
BLOCKS, INLINES, LISTS = "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/lists.rs"
META, MACROS, ASG, NODES = "src/graph/metadata.rs", "src/graph/nodes.rs", "src/graph/asg.rs", "src/graph/nodes.rs"
HTML, DOCX, TERA = "src/backends/htmls.rs", "src/backends/docx/document.rs", "templates/htmlbook/"
CLI = "src/bin/asciidocr/main.rs"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note):
    assert len(title) <= 80, title
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=False)), note))


exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

manifest = dict(
    version=1,
    setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="the harness uses the public interface only; no hooks were added to /repo",
               source_commits=[]),
    checks=[dict(
        property=p["id"],
        quick_cmd="bash check.sh %s quick" % p["id"],
        thorough_cmd="bash check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="bounded exhaustive enumeration of inputs, executed on the real code against a reference model",
        level="model_checking",
        level_note=note) for p, note in P],
    not_applicable=[],
    notes="See DESIGN.md for the alphabet, bound and oracle of every check, and known_findings.txt for what was "
          "found. `mc replay FILE ROOT` re-executes a reported case.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")


def section(name, text):
    path = os.path.join(ROOT, "DESIGN.md")
    doc = open(path).read()
    head, rest = doc.split("<!-- %s -->\n" % name)
    _, tail = rest.split("<!-- /%s -->" % name)
    open(path, "w").write("%s<!-- %s -->\n%s<!-- /%s -->%s" % (head, name, text, name, tail))


section("properties", "".join(
    "### %s %s\n\n%s\n\n- Explored: %s.\n- Oracle and strength: %s\n- Beyond tests: %s\n- Anchored in: %s.\n\n" % (
        p["id"], p["title"], p["statement"], p["quantifier"]["text"], note, p["why_tests_cant"],
        ", ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]))
    for p, note in P))

rows = ""
seeded = os.path.join(ROOT, "seeded")
for id in sorted(os.listdir(seeded)):
    meta = os.path.join(seeded, id, "meta.json")
    if os.path.exists(meta):
        m = json.load(open(meta))
        rows += "| %s | %s | %s | %s |\n" % (id, m["property"], m["what_it_breaks"], m.get("caught_by", ""))
section("seeded", "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + rows)
