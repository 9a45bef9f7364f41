#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks listed here."""
import json, os

MC = "exhaustive enumeration on the real code, compared with a reference model"
CHECKS = {
    "C01": (MC, "every save the grammar derives within the stated deviations is read and rewritten"),
    "C02": (MC, "every save the grammar derives is read and compared with the model component by component"),
    "C03": (MC, "every tree the grammar derives is written and compared with the reference encoder byte by byte"),
    "C04": (MC, "field values swept, boundary combinations, all single bytes, all cuts"),
    "C05": (MC, "all single changes and bounded pairs of changes to small inputs at every entry point, in both build profiles"),
    "C06": (MC, "the same inputs with the allocator and the stream counted, and every count field without its data"),
    "C07": (MC, "every cut of every small input and of the game saves on a grid"),
    "C08": (MC, "the same changed inputs, every accepted one compared with a strict reference decoder and rewritten"),
    "C09": ("exhaustive enumeration of stream answers at every operation", "all single faults and all pairs at every read and seek, every piece size"),
    "C10": ("exhaustive enumeration of sink answers at every operation", "all single faults and all pairs at every write, seek and flush, every room"),
    "C11": (MC, "every value of every derived save through every write operation"),
    "C12": (MC, "every subset of the needed hints, neighbouring paths and other types"),
    "C13": (MC, "all version numbers around each threshold, every layout-dependent value in both widths, read and written"),
    "C14": (MC, "every mode, every start offset and every envelope field in the bound, game saves in all modes"),
    "C15": (MC, "all characters, all lengths in the bound, all short byte and unit sequences"),
    "C16": (MC, "all byte pairs, all texts near a spelling, all short texts"),
    "C17": (MC, "all lists of elements and entries in the bound through every constructor"),
    "C18": (MC, "every tree the grammar derives through text and value forms of JSON"),
    "C19": (MC, "all pairs and triples of the derived values"),
    "C20": (MC, "all histories of edits, saves and reloads in the bound against a model document"),
    "C21": (MC, "all sequences of calls in the bound, each in a process of its own; all schedules of two calls with one or two switches"),
    "C22": (MC, "every derived property at every offset, before and after other bytes, and every failing cut"),
    "C23": (MC, "every error of the changed inputs compared with the byte the change was made at"),
    "C24": (MC, "all release numbers in the bound, all required and listed version pairs"),
    "C25": (MC, "all combinations of declared types and elements in the bound, through every write operation"),
    "C26": (MC, "every derived save at every offset of the set before every kind of bytes, every damaged small save at every offset"),
    "C27": (MC, "every single change of the JSON of the small documents, every byte of its text"),
}

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fault = {"C09", "C10"}
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": [
        {
            "property": c,
            "quick_cmd": f"./check.sh {c} quick",
            "thorough_cmd": f"./check.sh {c} thorough",
            "evidence_file": f"evidence/{c}.json",
            "technique": t,
            "level": "fault_enumeration" if c in fault else "model_checking",
            "level_note": n,
        }
        for c, (t, n) in CHECKS.items()
    ],
    "not_applicable": [],
    "notes": "Bounds per tier are in DESIGN.md; each run records the bounds it completed in its evidence file.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
