"""JSON values are only used as what they were checked to be (P27, rule json).

rapidjson's accessors don't check the type of the value: they assert it, or misread it when asserts are off. Each
use of one must come, on every path, after a check of the type of that very value; what a function requires of its
parameters without checking is required at its calls.
"""
import re
from .facts import Lin, of as facts_of
from .paths import path

NEED = {"FindMember": {"IsObject"}, "MemberBegin": {"IsObject"}, "HasMember": {"IsObject"}, "GetObject": {"IsObject"}, "MemberCount": {"IsObject"},
        "RemoveMember": {"IsObject"}, "EraseMember": {"IsObject"},
        "Begin": {"IsArray"}, "GetArray": {"IsArray"}, "Size": {"IsArray"}, "Capacity": {"IsArray"},
        "GetString": {"IsString"}, "GetStringLength": {"IsString"}, "GetBool": {"IsBool", "IsTrue", "IsFalse"},
        "GetInt": {"IsInt"}, "GetUint": {"IsUint"}, "GetInt64": {"IsInt64", "IsInt"}, "GetUint64": {"IsUint64", "IsUint"},
        "GetDouble": {"IsNumber", "IsDouble", "IsInt", "IsUint", "IsInt64", "IsUint64", "IsFloat"}, "GetFloat": {"IsNumber", "IsDouble", "IsFloat", "IsInt"},
        "Get": {"Is"}}
VALUE = re.compile(r"^(?:vrs_)?rapidjson::Generic(?:Value|Document)<")


def accessor(n):
    if n["k"] != "call" or "obj" not in n or not VALUE.match(n.get("qn", "")):
        return None
    nm = n.get("nm")
    if nm == "operator[]":
        return None
    return NEED.get(nm)


def known(F, fs, ot, need):
    return any(("N", ("m:" + x, ot)) in fs for x in need)


def param_of(f, op):
    """(parameter index, rest of the path) when this path starts at a parameter"""
    for i, q in enumerate(f.params):
        r = "v:" + q["v"]
        if op == r:
            return i, ""
        if op and op.startswith(r + "."):
            return i, op[len(r):]
    return None


class Json:
    def __init__(self, c, calls):
        self.c = c
        self.p = c.prog
        self.calls = calls
        self.memo = {}

    def check(self, f, nid, obj, need, trail):
        """is the JSON value of node obj known, at node nid of f, to be of the needed type? None when it is, or why it isn't"""
        F = facts_of(f)
        fs = F.at(nid)
        if fs is None:
            return None
        ot = F.term(obj)
        if ot and known(F, fs, ot, need):
            return None
        op = path(f, obj)
        if op:
            if re.search(r"\.name$", op) and need == {"IsString"}:
                return None   # rapidjson only has strings there
            r = param_of(f, op)
            if r and len(trail) < 6:
                return self.callers(f, r[0], r[1], need, trail)
        return "%s in %s" % (f.loc(f.nodes[nid]), f.display())

    def callers(self, f, i, rest, need, trail):
        key = (f.usr, i, rest, frozenset(need))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        bad = None
        if rest:
            # a field of a structure: what it's made with
            fld = rest[1:].split(".")[0]
            cls = f.ty_of_param(i) if hasattr(f, "ty_of_param") else self.p.types[f.params[i]["ty"]]
            cls = re.sub(r"^const |[&* ]+$", "", cls)
            for g in self.p.fns.values():
                for n in g.nodes:
                    if n["k"] in ("ctor", "initlist") and re.sub(r"^const ", "", g.ty(n)) == cls and not n.get("copy"):
                        for a in n.get("args", n.get("es", ())):
                            if a is not None and a >= 0 and re.search(r"rapidjson::GenericValue<", g.ty(a)):
                                bad = bad or self.check(g, n["id"], a, need, trail + [f])
        else:
            cs = self.calls.get(f.usr, ())
            for g, nid in cs:
                n = g.nodes[nid]
                a = n.get("args", ())
                if n["k"] not in ("call", "ctor") or i >= len(a) or a[i] is None or a[i] < 0:
                    continue
                bad = bad or self.check(g, nid, a[i], need, trail + [f])
        self.memo[key] = bad
        return bad


def run(c, calls, in_scope):
    j = Json(c, calls)
    seen = set()
    for f in sorted(c.prog.fns.values(), key=lambda f: (f.file, f.line, f.display())):
        if not in_scope(f):
            continue
        for n in f.nodes:
            if n["k"] == "call" and n.get("nm") == "operator[]" and VALUE.match(n.get("qn", "")) and "obj" in n:
                F = facts_of(f)
                key = ("idx", f.loc(n), f.display())
                if key in seen:
                    continue
                seen.add(key)
                fs = F.at(n["id"])
                ot = F.term(n["obj"])
                i = F.lin(n["args"][0])
                if fs is None:
                    continue
                t = ("m:Size", ot)
                ok = ot and i is not None and known(F, fs, ot, {"IsArray"}) and F.le(fs, i, Lin(0, {t: 1}), 1)
                c.expect("json", ok, "%s in %s" % (f.loc(n), f.display()), "element of a JSON value known to be an array with that many elements",
                         "%s|[]" % f.qn, "")
                continue
            need = accessor(n)
            if not need:
                continue
            key = (f.loc(n), n["nm"], f.display())
            if key in seen:
                continue
            seen.add(key)
            bad = j.check(f, n["id"], n["obj"], need, [])
            where = "%s in %s" % (f.loc(n), f.display())
            if bad is None:
                c.ok("json", where, "%s() of a JSON value known to be what %s() tests" % (n["nm"], sorted(need)[0]))
            else:
                c.bad("json", where, "%s() of a JSON value without checking what it is%s" % (n["nm"], "" if bad == where else ": given by " + bad),
                      "%s|%s|%s" % (f.qn, n["nm"], bad.split(" in ")[-1]))
