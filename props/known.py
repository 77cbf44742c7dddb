"""The known findings (known_findings.json)."""
import json
import os

PATH = os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"
)


def load():
    try:
        with open(PATH) as f:
            return json.load(f)
    except FileNotFoundError:
        return dict(open=[], fixed=[])


FINDINGS = load()
OPEN = {f["id"] for f in FINDINGS["open"]}


def listed(name):
    """Is this a recorded, unrepaired defect?"""
    return name in OPEN


def match(prop, ids, ctx, label, info):
    return None
