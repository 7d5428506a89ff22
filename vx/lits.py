"""Literal values of initialisers (strings, integers, enum constants, nested lists)."""


def lit(nodes, i, p=None, depth=0):
    if i is None or i < 0 or depth > 40:
        return None
    n = nodes[i]
    k = n["k"]
    if k == "str":
        return n.get("s")
    if k == "enumc":
        return int(n["cv"])
    if "cv" in n:
        return int(n["cv"])
    if k == "float":
        return n["fv"]
    if k in ("cast", "defarg", "definit"):
        return lit(nodes, n["a"], p, depth + 1)
    if k == "un" and n["op"] == "-":
        v = lit(nodes, n["a"], p, depth + 1)
        return -v if isinstance(v, (int, float)) else None
    if k == "ctor" or k == "call":
        a = [lit(nodes, x, p, depth + 1) for x in n.get("args", ())]
        nz = [x for x in a if x is not None]
        if k == "call" and n.get("op"):
            # "abc"sv
            return nz[0] if nz else None
        if len(n.get("args", ())) == 1:
            return a[0]
        if nz and isinstance(nz[0], str) and len(a) >= 1 and all(not isinstance(x, str) for x in nz[1:]):
            return nz[0]
        return a if nz else None
    if k == "initlist":
        return [lit(nodes, x, p, depth + 1) for x in n.get("args", ())]
    if k == "var" and p is not None:
        g = p.globals.get(n["v"]) or p.globals.get(n["v"].split(":", 1)[-1])
        if g and "nodes" in g:
            return lit(g["nodes"], g["init"], p, depth + 1)
    return None


def glob(p, g):
    if "cv" in g:
        return int(g["cv"])
    if "init" not in g:
        return None
    return lit(g["nodes"], g["init"], p)
