import json, os
from vx import fmt


def run(c):
    c.rule("layout", "The packed structures written to files keep the size, and their fields the offset and type, they have in existing files.", 60)
    c.rule("enum", "Values of enums stored in files never change.", 180)
    c.rule("constant", "Magic numbers, format versions, labels, tag and field names found in existing files never change.", 60)
    c.rule("names", "Names that stand for values in files are never changed or given to another value, and are unique.", 70)
    c.rule("registered", "Every kind of datalayout piece found in existing files can still be created from its type name.", 100)
    c.rule("typename", "Type names stored in datalayout descriptions never change, and are unique.", 10)
    spec = json.load(open(os.path.join(os.path.dirname(fmt.__file__), "format_spec.json")))
    fmt.compare(c, spec)
    c.assumptions.append("vx/format_spec.json is what the pinned version of the code writes")
