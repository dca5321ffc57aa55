"""The committed list of known findings (known-findings.json)."""
import json
import os

import dump as dumper

PATH = os.path.join(dumper.VERIF, "known-findings.json")


def load():
    with open(PATH) as f:
        return json.load(f)


def match(kf, prop, key):
    """An open finding suppresses exactly the violation key it names; fixed
    entries suppress nothing."""
    return any(e["property"] == prop and e["key"] == key for e in kf["open"])
