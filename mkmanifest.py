#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks"""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import props
import props2  # noqa: F401
import props3  # noqa: F401
import props4  # noqa: F401
import notes

ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                      technique=notes.TECHNIQUE.get(i, notes.DEFAULT), level="model_checking", level_note=notes.NOTE.get(i, notes.DEFAULT_NOTE))
                 for i in ids if i in props.PROPS],
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in props.PROPS])
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in m["checks"]], [c["property"] for c in m["not_applicable"]])
