"""Access paths: a canonical name for the storage an expression denotes, seen through parentheses,
casts, references, smart-pointer dereferences and trivial getters."""

SMART = ("unique_ptr", "shared_ptr", "__shared_ptr_access", "__uniq_ptr", "optional", "reference_wrapper")


def ref_aliases(fn):
    """local reference variables initialised from an lvalue: var id -> init node"""
    al = getattr(fn, "_aliases", None)
    if al is None:
        al = {}
        for n in fn.nodes:
            if n["k"] == "decl":
                for d in n["ds"]:
                    if d.get("ref") and d.get("init", -1) >= 0:
                        al[d["v"]] = d["init"]
        fn._aliases = al
    return al


def trivial_getter(prog, usr):
    """field name path returned by a one-statement accessor, or None"""
    cache = prog.__dict__.setdefault("_getters", {})
    if usr in cache:
        return cache[usr]
    cache[usr] = None
    f = prog.fns.get(usr)
    if f is None or f.params or len(f.blocks) > 3:
        return None
    rets = [n for n in f.nodes if n["k"] == "ret"]
    if len(rets) != 1 or "a" not in rets[0]:
        return None
    if any(n["k"] in ("assign", "cassign", "new", "throw", "decl") for n in f.nodes):
        return None
    p = path(f, rets[0]["a"], depth=1)
    if p and p.startswith("this."):
        cache[usr] = p[4:]
        return p[4:]
    return None


def path(fn, nid, depth=0, alias=True):
    if nid is None or nid < 0 or depth > 24:
        return None
    n = fn.nodes[nid]
    k = n["k"]
    if k == "var":
        if alias and n["v"] in ref_aliases(fn):
            p = path(fn, ref_aliases(fn)[n["v"]], depth + 1)
            if p:
                return p
        return "v:" + n["v"]
    if k == "binding":
        if "bind" in n:
            return path(fn, n["bind"], depth + 1) or ("v:" + n["v"])
        return "v:" + n["v"]
    if k == "this":
        return "this"
    if k == "mem":
        b = path(fn, n["a"], depth + 1)
        return b + "." + n["nm"] if b else None
    if k == "un" and n["op"] in ("*", "&"):
        return path(fn, n["a"], depth + 1)
    if k == "cast":
        return path(fn, n["a"], depth + 1)
    if k == "defarg" or k == "definit":
        return None
    if k == "index":
        b = path(fn, n["a"], depth + 1)
        i = fn.nodes[n["b"]]
        if b:
            if "cv" in i:
                return "%s[%s]" % (b, i["cv"])
            ip = path(fn, n["b"], depth + 1)
            if ip:
                return "%s[%s]" % (b, ip)
        return None
    if k == "call" and "obj" in n and "fn" in n:
        if n.get("op") in ("->", "*") and not n.get("args") and "iterator" not in n.get("qn", ""):
            return path(fn, n["obj"], depth + 1)
        if n.get("nm") in ("get", "value") and any(s in n.get("qn", "") for s in SMART) and not n.get("args"):
            return path(fn, n["obj"], depth + 1)
        if n.get("op") == "[]" and len(n.get("args", ())) == 1:
            b = path(fn, n["obj"], depth + 1)
            i = fn.nodes[n["args"][0]]
            if b:
                if "cv" in i:
                    return "%s[%s]" % (b, i["cv"])
                ip = path(fn, n["args"][0], depth + 1)
                if ip:
                    return "%s[%s]" % (b, ip)
            return None
        if not n.get("args"):
            g = trivial_getter(fn.p, n["fn"])
            if g:
                b = path(fn, n["obj"], depth + 1)
                if b:
                    return b + g
        if n.get("op") in ("->", "*") and not n.get("args"):
            b = path(fn, n["obj"], depth + 1)
            return b + "*" if b else None
    if k == "call" and n.get("nm") in ("move", "forward", "__addressof", "addressof", "ref", "as_const") and len(n.get("args", ())) == 1 and n.get("qn", "").startswith("std::"):
        return path(fn, n["args"][0], depth + 1)
    if k == "ctor" and n.get("copy") and n.get("args"):
        return path(fn, n["args"][0], depth + 1)
    return None


def root_is_outer(fn, p):
    """does this path denote storage that outlives the function (member, reference/pointer parameter, global)?"""
    if p is None:
        return False
    if p.startswith("this"):
        return True
    if p.startswith("v:"):
        v = p[2:].split(".")[0].split("[")[0].rstrip("*")
        if v.startswith(("g:", "s:")):
            return True
        info = fn.vars.get(v)
        if info is None:
            return True
        t = fn.p.types[info["ty"]]
        if info["k"] == "param" and (t.endswith("&") or t.endswith("*")):
            return True
        if info["k"] == "local" and t.endswith("*") and "." in p:
            return True
        if info["k"] == "param" and "." in p and ("unique_ptr" in t or "shared_ptr" in t):
            return True
        # captured variable of an enclosing function
        if fn.is_lambda and info["k"] != "param":
            return any(n["k"] == "var" and n.get("v") == v and n.get("cap") for n in fn.nodes)
    return False
