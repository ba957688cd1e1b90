"""level claimed in MANIFEST.json for a property"""
import json


def level(verif, pid):
    try:
        for c in json.load(open(verif + "/MANIFEST.json"))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "proof"
