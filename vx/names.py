"""Fields that were renamed since the pinned tree keep the name they had there, so that tables of names still apply to them."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))


def snapshot(p):
    out = {}
    for r in p.records.values():
        q = r.get("qn", "")
        if q.startswith(("vrs::", "(anonymous")) and r.get("fields"):
            out.setdefault(q, {}).update({fl["nm"]: p.types[fl["ty"]] for fl in r["fields"]})
    return out


def renamed(p):
    """{"Class::new name": "Class::old name"}"""
    with open(os.path.join(HERE, "base_fields.json")) as fh:
        base = json.load(fh)
    out = {}
    for q, cur in snapshot(p).items():
        old = base.get(q)
        if not old:
            continue
        gone = [x for x in old if x not in cur]
        new = [x for x in cur if x not in old]
        for x in new:
            c = [y for y in gone if old[y] == cur[x]]
            same = [y for y in new if cur[y] == cur[x]]
            if len(c) == 1 and len(same) == 1:
                out[q + "::" + x] = q + "::" + c[0]
            elif len(c) == len(same) > 1:
                # declared in the same order
                out[q + "::" + x] = q + "::" + c[same.index(x)]
    return out
