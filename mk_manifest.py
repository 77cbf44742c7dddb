#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

TRUST = (
    "Trusted: z3, the symbolic models of str and re in symex/ (every explored path is "
    "replayed on the unmodified code with a model of its path condition and has to give "
    "the same observations), and the reference in props/. Outside of the bounds nothing "
    "is claimed; the known findings of known_findings.json are excepted."
)
NOTES = {
    "C01": "documents of up to 3 (thorough: 4) arbitrary characters, of up to 4 (6) "
           "Markdown characters, and all 98 shapes of regular documents, any line length "
           "up to 12 (40) or infinite",
    "C02": "as C01, plus: regular documents are never refused",
    "C03": "as C01",
    "C04": "documents of up to 4 (5) arbitrary characters, sets of lines over alphabets "
           "that start and end sections, all shapes; nested sections by their content",
    "C05": "all shapes of regular documents without tables, rendered before and after by "
           "the commonmark package, which is executed symbolically too",
    "C06": "paragraph, heading, quote and list shapes against an independent greedy filler",
    "C07": "paragraph shapes against a reference, and any short text over alphabets of "
           "links, code, HTML and punctuation in a paragraph",
    "C08": "all shapes of ATX headings against a reference layout",
    "C09": "all shapes of setext headings against a reference layout",
    "C10": "all shapes of fenced code against a reference layout",
    "C11": "all shapes of indented code against a reference layout",
    "C12": "all shapes of bullet lists against a reference layout",
    "C13": "all shapes of ordered lists against a reference layout",
    "C14": "all shapes of block quotes against a reference layout",
    "C15": "all shapes of tables against a reference layout; rows with any number of "
           "cells; any divider of up to 4 (5) characters",
    "C16": "all spellings of thematic breaks, line lengths up to 30 (120) or infinite",
    "C17": "all shapes of link reference definitions against a reference layout",
    "C18": "up to 3 files with symbolic texts, all output options, a real scratch "
           "directory",
    "C19": "as C18, and the standard input with up to 3 (5) symbolic characters",
    "C20": "directory trees and argument lists chosen by the solver on a real scratch "
           "directory; permissions as an unprivileged user",
    "C21": "pairs of documents, all combinations of logging levels, all shapes twice",
    "C22": "documents of two to eight blocks, compared with their blocks formatted alone; "
           "every mixture of line endings",
    "C23": "line lengths -2..8 (12) through every route, up to five -v and -q, renderings "
           "of inconsistent documents",
}


def main():
    checks = []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f if x.strip()]
    for i in ids:
        checks.append(dict(
            property=i,
            quick_cmd="./check.py %s --tier quick" % i,
            thorough_cmd="./check.py %s --tier thorough" % i,
            technique="symbolic execution of the real code (regenerated from its source) "
            "with z3; solver-checked path coverage; concrete replay",
            level="model_checking",
            level_note="Bounded: %s. %s" % (NOTES[i], TRUST),
        ))
    m = dict(
        version=1,
        setup_cmd="python3-vt -c 'import z3' && chmod +x check.py replay.py",
        checks=checks,
        not_applicable=[],
        notes="See DESIGN.md. No hooks in /repo: the encoding instruments its source when "
        "it is loaded.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
