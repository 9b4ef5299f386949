#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/harnesses.json."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
harnesses = json.load(open(here + "/harness/harnesses.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
manifest = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check compiles the sources of /repo's working tree with "
             "AddressSanitizer, UndefinedBehaviorSanitizer and assertions, links "
             "them with an explorer (mc/) and a harness (harness/), and executes "
             "every choice sequence within the stated bounds. No hooks are needed "
             "in /repo.",
}
for p in props:
    h = harnesses.get(p["id"])
    if h is None:
        manifest["not_applicable"].append(
            {"property": p["id"], "reason": "The check is not built yet."})
        continue
    manifest["checks"].append({
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": h.get("technique", "stateless model checking: bounded exhaustive "
                     "exploration of the compiled implementation against a reference model"),
        "level": "model_checking",
        "level_note": h.get("note", "Exhaustive within the bounds listed in the evidence; "
                                    "says nothing about values outside them."),
    })
json.dump(manifest, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(manifest["checks"]), "claimed,", len(manifest["not_applicable"]), "not")
