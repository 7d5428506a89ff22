"""The elementary conditions a function branches on, in a form which doesn't depend on names of locals, order or nesting."""
from .paths import ref_aliases

NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
LEN = {"size", "length", "GetStringLength", "Size", "MemberCount"}


def single_defs(f):
    d = getattr(f, "_sdefs", None)
    if d is None:
        d, multi = {}, set()
        for n in f.nodes:
            if n["k"] == "decl":
                for x in n["ds"]:
                    if x["v"] in d:
                        multi.add(x["v"])
                    d[x["v"]] = x.get("init", -1)
            elif n["k"] in ("assign", "cassign") or n["k"] == "un" and n["op"] in ("++", "--", "&", "p++", "p--", "post++", "post--"):
                a = f.nodes[n["a"]]
                if a["k"] == "var":
                    multi.add(a["v"])
            elif n["k"] in ("call", "ctor"):
                for a in n.get("args", ()):
                    m = f.nodes[a]
                    if m["k"] == "var" and not m.get("const"):
                        pass
        for v in multi:
            d.pop(v, None)
        f._sdefs = d
    return d


def term(f, a, depth=0):
    if a is None or not isinstance(a, int) or a < 0 or depth > 14:
        return "?"
    n = f.nodes[a]
    k = n["k"]
    if "cv" in n and k != "var":
        return str(n["cv"])
    if k in ("cast", "tmp", "defarg", "bind", "mat", "paren", "definit"):
        return term(f, n["a"], depth + 1) if "a" in n else "?"
    if k == "var":
        if "cv" in n:
            return str(n["cv"])
        if n["v"] in ref_aliases(f):
            return term(f, ref_aliases(f)[n["v"]], depth + 1)
        d = single_defs(f).get(n["v"], -1)
        if d is not None and d >= 0:
            t = term(f, d, depth + 1)
            if t != "?":
                return t
        return "<%s>" % ty(f, n)
    if k == "this":
        return "this"
    if k == "mem":
        b = term(f, n["a"], depth + 1)
        return n["nm"] if b == "this" else b + "." + n["nm"]
    if k == "str":
        return '"%s"' % n.get("s")
    if k == "un":
        if n["op"] in ("*", "&"):
            return term(f, n["a"], depth + 1)
        return n["op"] + term(f, n["a"], depth + 1)
    if k in ("bin", "assign", "cassign"):
        if k == "assign":
            return term(f, n["a"], depth + 1)
        return "(%s%s%s)" % (term(f, n["a"], depth + 1), n["op"], term(f, n["b"], depth + 1))
    if k == "index":
        return term(f, n["a"], depth + 1) + "[]"
    if k in ("call", "ctor"):
        if k == "call" and n.get("op") in ("->", "*"):
            return term(f, n["obj"], depth + 1) if n.get("obj") is not None else term(f, n["args"][0], depth + 1)
        o = term(f, n["obj"], depth + 1) + "." if n.get("obj") is not None else ""
        if o == "this.":
            o = ""
        if k == "ctor" and len(n.get("args", ())) == 1:
            return term(f, n["args"][0], depth + 1)
        return "%s%s(%s)" % (o, n.get("nm") or "ctor", ",".join(term(f, x, depth + 1) for x in n.get("args", ())))
    return k


def ty(f, n):
    t = f.ty(n) or "?"
    return t.replace("const ", "").replace(" &", "").replace("class ", "").strip()


def stripc(f, a):
    while f.nodes[a]["k"] in ("cast", "paren") and "a" in f.nodes[a] and "cv" not in f.nodes[a]:
        a = f.nodes[a]["a"]
    return a


def atoms(f):
    """[(block, polarity-free atom)]: atom = (term, op, constant or term)"""
    out = []

    def leaf(nid, neg):
        n = f.nodes[nid]
        while n["k"] in ("cast", "paren", "tmp", "mat", "bind") and "a" in n:
            n = f.nodes[n["a"]]
        if n["k"] == "un" and n["op"] == "!":
            return leaf(n["a"], not neg)
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            return leaf(n["b"], neg)
        if n["k"] in ("cond", "ternary") and "c" in n:
            return leaf(n["c"], neg) if isinstance(n["c"], int) else None
        op = a = b = None
        if n["k"] == "bin" and n["op"] in NEG:
            op, a, b = n["op"], n["a"], n["b"]
        elif n["k"] == "call" and n.get("op") in NEG:
            x = ([n["obj"]] if n.get("obj") is not None else []) + list(n.get("args", ()))
            if len(x) == 2:
                op, (a, b) = n["op"], x
        if op is None:
            return (term(f, n["id"]), "!=", "0"), n
        ta, tb = term(f, a), term(f, b)
        num = lambda t: t.lstrip("-").isdigit() or t in ("True", "False", "null", "nullptr") or t[:1] == '"'
        if num(ta) and not num(tb):
            ta, tb, op = tb, ta, SWAP[op]
        elif not num(tb) and tb < ta:
            ta, tb, op = tb, ta, SWAP[op]
        return (ta, op, tb), n

    for b, B in f.blocks.items():
        if B.c is None or len(B.s) != 2 or B.tk in ("forrange", "switch", "tmpdtor"):
            continue
        r = leaf(B.c, False)
        if r:
            x = r[1].get("a", r[1]["id"]) if r[1]["k"] == "bin" else r[1]["id"]
            y = r[1].get("b", -1) if r[1]["k"] == "bin" else -1
            uns = any(isinstance(z, int) and z >= 0 and (f.ti(stripc(f, z)) or "").startswith("u") and "cv" not in f.nodes[stripc(f, z)] for z in (x, y))
            out.append((b, canon(r[0], uns), r[1]))
    return out


def number(k):
    return k.lstrip("-").isdigit()


def canon(a, unsigned=False):
    """a comparison and its negation are the same condition; so are x >= 1, x > 0 and, if it can't be negative, x != 0"""
    t, op, k = a
    if t.endswith(".empty()"):
        t, op, k = t[:-len(".empty()")] + ".#", "!=", "0"
    for l in LEN:
        if t.endswith("." + l + "()"):
            t = t[:-len(l) - 3] + ".#"
    if k in ("False", "null", "nullptr"):
        k = "0"
    if k == "True":
        k = "0"
    if op == "==":
        op = "!="
    if number(k):
        if op in ("<", ">="):
            op, k = ">", str(int(k) - 1)
        elif op == "<=":
            op = ">"
        if op == ">" and k == "0" and (unsigned or t.endswith(".#")):
            op = "!="
    elif op == ">=":
        op = "<"
    elif op == "<=":
        op = ">"
    return t, op, k
