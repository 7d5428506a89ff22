"""Regenerates the frozen descriptions of the file format from the pinned tree. Never run by checks."""
import json, sys
sys.setrecursionlimit(20000)
from vx import prog, fmt, jsonkeys
p = prog.load()
json.dump(fmt.snapshot(p)[0], open("vx/format_spec.json", "w"), indent=1, sort_keys=True)
json.dump(jsonkeys.spec(p), open("vx/descr_spec.json", "w"), indent=1, sort_keys=True)
from vx import names
json.dump(names.snapshot(p), open("vx/base_fields.json", "w"), indent=0, sort_keys=True)
