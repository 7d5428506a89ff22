"""Which data members of the objects involved a method takes care of, directly or through what it calls."""


def members(p, cls):
    r = p.records.get(cls)
    return {f["usr"]: f["nm"] for f in r.get("fields", ())} if r else {}


def side(f, nid, sides):
    """which object the expression designates: one of the values of sides, keyed by "this" and by parameter"""
    for _ in range(30):
        if nid is None or nid < 0:
            return None
        n = f.nodes[nid]
        k = n["k"]
        if k == "this":
            return sides.get("this")
        if k == "var":
            return sides.get(n["v"])
        if k in ("cast", "paren", "un", "mat", "bind"):
            nid = n.get("a")
            continue
        if k in ("call", "ctor") and n.get("nm") in ("move", "forward", "as_const") and n.get("args"):
            nid = n["args"][0]
            continue
        return None
    return None


def touched(p, f, sides, depth=0, seen=None):
    """{(side, field usr)} mentioned by f or what it calls, sides telling what "this" and parameters are"""
    seen = set() if seen is None else seen
    key = (f.usr, tuple(sorted(sides.items())))
    if key in seen or depth > 6:
        return set()
    seen.add(key)
    out = set()
    for n in f.nodes:
        k = n["k"]
        if k == "mem" and n.get("f"):
            s = side(f, n.get("a"), sides)
            if s:
                out.add((s, n["f"]))
        elif k in ("call", "ctor"):
            for t in p.targets(f, n):
                ns = {}
                if n.get("obj") is not None:
                    s = side(f, n["obj"], sides)
                    if s:
                        ns["this"] = s
                for a, q in zip(n.get("args") or (), t.params or ()):
                    s = side(f, a, sides)
                    if s:
                        ns[q["v"]] = s
                if ns:
                    out |= touched(p, t, ns, depth + 1, seen)
        elif k == "lambda":
            t = p.fns.get(n.get("fn"))
            if t is not None:
                out |= touched(p, t, sides, depth + 1, seen)
    if "this" in sides:
        for B in f.blocks.values():
            for e in B.e:
                if isinstance(e, dict) and e.get("k") == "init" and e.get("f") and e.get("written"):
                    out.add((sides["this"], e["f"]))
    return out


def pairs(p, f, sides):
    """(node, field of a, field of b) for comparisons and assignments between members of two of the objects"""
    for n in f.nodes:
        a = b = None
        if n["k"] in ("bin", "assign") and n.get("op") in ("==", "!=", "=", "<", ">"):
            a, b = n["a"], n["b"]
        elif n["k"] == "call" and n.get("nm") in ("operator==", "operator!=", "operator=", "operator<", "operator>", "swap"):
            l = ([n["obj"]] if n.get("obj") is not None else []) + list(n.get("args") or ())
            if len(l) == 2:
                a, b = l
        if a is None:
            continue
        x, y = _field(f, a, sides), _field(f, b, sides)
        if x and y and x[0] != y[0]:
            yield n, x[1], y[1]
    for B in f.blocks.values():
        for e in B.e:
            if isinstance(e, dict) and e.get("k") == "init" and e.get("written") and e.get("a") is not None and "this" in sides:
                y = _field(f, e["a"], sides)
                if y and y[0] != sides["this"] and e.get("f"):
                    yield f.nodes[e["a"]], e["f"], y[1]


def _field(f, nid, sides):
    for _ in range(12):
        n = f.nodes[nid]
        if n["k"] == "mem" and n.get("f"):
            s = side(f, n.get("a"), sides)
            return (s, n["f"]) if s else None
        if n["k"] in ("cast", "paren", "mat", "bind"):
            nid = n["a"]
        elif n["k"] in ("initlist", "ctor") and len(n.get("args") or ()) == 1:
            nid = n["args"][0]
        elif n["k"] == "call" and n.get("nm") in ("move", "forward") and n.get("args"):
            nid = n["args"][0]
        else:
            return None
    return None


def defaults(p, cls):
    """{field: constant of its default member initializer}"""
    out = {}
    for f in p.fns.values():
        if f.cls == cls and f.d.get("ctor"):
            for B in f.blocks.values():
                for e in B.e:
                    if isinstance(e, dict) and e.get("k") == "init" and e.get("a") is not None and f.nodes[e["a"]]["k"] == "definit":
                        v = const(f, e["a"])
                        if v is not None:
                            out[e["f"]] = v
    return out


def const(f, nid):
    for _ in range(10):
        n = f.nodes[nid]
        if n.get("cv") is not None:
            return str(n["cv"])
        if n["k"] in ("cast", "paren", "definit"):
            nid = n["a"]
        elif n["k"] == "initlist" and len(n.get("args") or ()) == 1:
            nid = n["args"][0]
        elif n["k"] == "initlist" and not n.get("args"):
            return "0"
        else:
            return None
    return None
