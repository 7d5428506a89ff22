import json, os
from vx import jsonkeys


def run(c):
    c.rule("json", "Each key of the json descriptions stored in files is still written, and still read, by the functions which do.", 60)
    c.rule("text", "Each field of the text descriptions of formats is written, and what is written is read back.", 20)
    c.rule("field", "The same data member goes with a key when writing and when reading.", 15)
    c.rule("guard", "What is written or read isn't limited by further conditions on its value.", 10)
    spec = json.load(open(os.path.join(os.path.dirname(jsonkeys.__file__), "descr_spec.json")))
    jsonkeys.compare(c, spec)
    c.assumptions.append("vx/descr_spec.json holds the keys which the pinned version of the code writes and reads")
