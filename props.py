#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (and specs.py)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from specs import SPECS

TECH = "path-exhaustive symbolic execution of the compiled crate's LLVM bitcode (engine/symx) with Z3 deciding every branch and assertion over all inputs within the stated bounds; counterexamples are replayed natively"


def P(id, title, statement, text, why, files, mech, over=("inputs",), na=None, note=None):
    return dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, na=na, note=note)


PROPS = [
    P("P01", "Identifier order agrees with how identifiers follow each other",
      "Identifiers (letters, numbers with suffixes, articles with books, paragraphs, points, acts) have a total order that is the order in which they occur in an act. An identifier is reported as the next one of another exactly when it is an allowed successor (the next letter of the Hungarian alphabet, the next number, the first suffix, the first article of the next book), every successor sorts strictly after its predecessor, and exactly one value per kind counts as first. A range contains exactly the identifiers between its ends.",
      "all pairs of identifier values within the bounds of the harnesses (numbers and books are full width, letters are all 34)",
      "the tests compare a dozen pairs; the relation has to be right for all pairs, including suffix and book transitions and the ends of the number range",
      ["src/identifier/alphabetic.rs", "src/identifier/numeric.rs", "src/identifier/article.rs", "src/identifier/paragraph.rs", "src/identifier/prefixed_alphabetic.rs", "src/identifier/range.rs", "src/identifier/act.rs"],
      [("is_next_from / is_first / Ord", "src/identifier/*.rs"), ("IdentifierRange::contains", "src/identifier/range.rs")]),
    P("P02", "Identifiers survive being written and read back",
      "Every identifier, written in any of its text forms (display, slash form, compact form, roman numeral, act name), reads back as the same identifier. Reading arbitrary text either fails with an error or gives an identifier whose canonical form reads back as itself; writing and reading never panic.",
      "all identifier values within the bounds, and all texts up to the stated lengths",
      "the tests sample a few values per form; digit counts, suffix spellings and boundary values multiply to far more cases than they list",
      ["src/identifier/alphabetic.rs", "src/identifier/numeric.rs", "src/identifier/article.rs", "src/identifier/paragraph.rs", "src/identifier/prefixed_alphabetic.rs", "src/identifier/range.rs", "src/identifier/act.rs", "src/util/compact_string.rs"],
      [("FromStr / Display / CompactString / TryFrom<String>", "src/identifier/*.rs"), ("to_roman / from_roman", "src/identifier/numeric.rs")]),
]
PROPS += __import__("props_more").PROPS(P) if os.path.exists(os.path.join(V, "props_more.py")) else []

HOOK_COMMITS = [l.strip() for l in open(os.path.join(V, "hook_commits.txt")) if l.strip()]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as o:
        for p in PROPS:
            o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        assert p["id"] in SPECS, p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
                       "technique": TECH, "level": "model_checking",
                       "level_note": p["note"] or "exhaustive over all values within the bounds listed per harness in specs.py and in the evidence"})
    m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup",
         "hooks": {"guard": "cfg(hun_law_verif)", "enable": "RUSTFLAGS='--cfg hun_law_verif' (set by check.py)", "source_commits": HOOK_COMMITS},
         "checks": checks, "not_applicable": na,
         "notes": "Generated by props.py. Every check rebuilds from /repo's working tree; build output goes to /verif/.build (ignored by git)."}
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as o:
        json.dump(m, o, indent=1, ensure_ascii=False)
        o.write("\n")


main()
