"""Inlines helper functions (those the base tree does not have) and directly called local lambdas into
their callers, so that rules about a function see the same body whether or not part of it was moved out."""
import copy, os
from .prog import Fn, Block

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_functions.txt")
MAXINL = 80
_base = None


def base_names():
    global _base
    if _base is None:
        _base = set(open(BASE).read().split("\n")) if os.path.exists(BASE) else set()
    return _base


def base_key(f):
    return f.qn


def is_helper(f):
    if f.is_lambda:
        return True
    if f.d.get("virt") or f.d.get("ctor") or f.d.get("dtor") or f.d.get("implicit"):
        return False
    return base_key(f) not in base_names()


def write_base(p):
    names = sorted({base_key(f) for f in p.fns.values() if not f.is_lambda})
    with open(BASE, "w") as o:
        o.write("\n".join(names))


REFS = ("a", "b", "c", "obj", "fp", "n", "bind", "tmp")


def renum(o, off, vmap):
    """o: node or element dict, in place"""
    for k in REFS:
        v = o.get(k)
        if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
            o[k] = v + off
    for k in ("args", "pl"):
        if k in o:
            o[k] = [x + off if (isinstance(x, int) and x >= 0) else x for x in o[k]]
    for d in o.get("ds", ()):
        if isinstance(d.get("init"), int) and d["init"] >= 0:
            d["init"] += off
        if d.get("v") in vmap:
            d["v"] = vmap[d["v"]]
        if "bindings" in d:
            d["bindings"] = [vmap.get(x, x) for x in d["bindings"]]
    for d in o.get("caps", ()):
        if isinstance(d.get("init"), int) and d["init"] >= 0:
            d["init"] += off
        if d.get("v") in vmap:
            d["v"] = vmap[d["v"]]
    if o.get("v") in vmap:
        o["v"] = vmap[o["v"]]
    if o.get("hold") in vmap:
        o["hold"] = vmap[o["hold"]]


def assigned_params(f):
    """parameters of f that f itself modifies or takes the address of"""
    c = getattr(f, "_asg", None)
    if c is not None:
        return c
    out = set()
    for n in f.nodes:
        if n["k"] in ("assign", "cassign") or (n["k"] == "un" and n["op"] in ("++", "--", "&")):
            x = f.nodes[n["a"]]
            if x["k"] == "var":
                out.add(x["v"])
        elif n["k"] in ("call", "ctor"):
            pm = n.get("pm", "")
            for i, a in enumerate(n.get("args", ())):
                if a is not None and a >= 0 and i < len(pm) and pm[i] in "rm" and f.nodes[a]["k"] == "var":
                    out.add(f.nodes[a]["v"])
            if "obj" in n and not n.get("cm") and f.nodes[n["obj"]]["k"] == "var":
                t = f.ty(n["obj"])
                if not t.endswith("*"):
                    out.add(f.nodes[n["obj"]]["v"])
    f._asg = out
    return out


class Inliner:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.done = set()      # helpers inlined at least once
        self.kept = set()

    def target(self, fn, n):
        if n["k"] != "call" or n.get("noret"):
            return None
        ts = self.p.targets(fn, n)
        if len(ts) != 1 or n.get("virt") and ts[0].d.get("virt"):
            return None
        t = ts[0]
        if not is_helper(t) or t.entry is None or t.usr == fn.usr:
            return None
        if t.is_lambda and not (n.get("op") == "()" and "obj" in n):
            return None
        if t.is_lambda and len(t.nodes) > 400:
            return None
        return t

    def get(self, fn):
        if fn.usr in self.cache:
            return self.cache[fn.usr]
        self.cache[fn.usr] = fn
        todo = [n["id"] for n in fn.calls() if n["id"] in fn.pos and self.target(fn, n)]
        if not todo:
            return fn
        d = dict(fn.d)
        d["nodes"] = [dict(n) for n in fn.nodes]
        d["vars"] = dict(fn.vars)
        d["blocks"] = [dict(b.raw, e=list(b.e), s=list(b.raw["s"])) for b in fn.blocks.values()]
        blocks = {b["id"]: b for b in d["blocks"]}
        nodes = d["nodes"]
        nextb = max(blocks) + 1
        cnt = 0
        stackof = {}
        work = list(todo)
        while work and cnt < MAXINL:
            cid = work.pop()
            n = nodes[cid]
            tmp = _Shim(self.p, fn, nodes, d["vars"])
            t = self.target(tmp, n)
            if t is None or t.usr in stackof.get(cid, ()) or len(stackof.get(cid, ())) > 6:
                continue
            where = None
            for b in blocks.values():
                if cid in b["e"]:
                    where = b
                    break
            if where is None:
                continue
            cnt += 1
            self.done.add(t.usr)
            tag = "i%d:" % cnt
            vmap = {}
            own = {p["v"] for p in t.params}
            for m in t.nodes:
                if m["k"] == "decl":
                    for x in m["ds"]:
                        if not x.get("static"):
                            own.add(x["v"])
                            own.update(x.get("bindings", ()))
            for v in own:
                vmap[v] = tag + v
            for v, info in t.vars.items():
                if v in vmap:
                    i2 = dict(info)
                    if i2["k"] == "param":
                        i2["k"] = "local"
                    d["vars"][vmap[v]] = i2
                else:
                    d["vars"].setdefault(v, info)
            off = len(nodes)
            objn = n.get("obj")
            for m in t.nodes:
                m2 = copy.deepcopy(m)
                renum(m2, off, vmap)
                m2["id"] = m["id"] + off
                m2.setdefault("_f", t.file)
                if m2["k"] == "this" and not t.is_lambda and objn is not None:
                    m2 = {"k": "cast", "a": objn, "id": m2["id"], "l": m2["l"], "ty": m2.get("ty", -1), "_f": t.file, "ck": "this"}
                nodes.append(m2)
                stackof[m2["id"]] = stackof.get(cid, ()) + (t.usr,)
            # prologue: parameters
            pro = []
            asg = assigned_params(t)
            args = n.get("args", [])
            for i, prm in enumerate(t.params):
                a = args[i] if i < len(args) else -1
                ty = self.p.types[prm["ty"]]
                ref = ty.endswith("&") or (ty.endswith("*") and prm["v"] not in asg)
                dd = {"v": vmap[prm["v"]], "nm": prm["nm"], "ty": prm["ty"]}
                if ref:
                    dd["ref"] = True
                if isinstance(a, int) and a >= 0:
                    dd["init"] = a
                nid = len(nodes)
                nodes.append({"k": "decl", "id": nid, "l": n["l"], "ds": [dd], "_inl": True, **({"_f": n["_f"]} if "_f" in n else {})})
                pro.append(nid)
            # blocks
            bmap = {}
            for bid in t.blocks:
                bmap[bid] = nextb
                nextb += 1
            cont = nextb
            nextb += 1
            retv = tag + "ret"
            void = self.p.types[t.rty] == "void"
            rets = [m for m in t.nodes if m["k"] == "ret" and "a" in m]
            for m in t.nodes:
                if m["k"] == "ret":
                    m2 = nodes[m["id"] + off]
                    if void or "a" not in m2:
                        nodes[m["id"] + off] = {"k": "nop", "id": m2["id"], "l": m2["l"], "_f": t.file}
                    else:
                        dd = {"v": retv, "nm": "ret", "ty": t.rty, "init": m2["a"]}
                        if self.p.types[t.rty].endswith("&") and len(rets) == 1:
                            dd["ref"] = True
                        nodes[m["id"] + off] = {"k": "decl", "id": m2["id"], "l": m2["l"], "ds": [dd], "_f": t.file, "_ret": True}
            d["vars"][retv] = {"name": "ret", "ty": t.rty, "k": "local", "line": t.line}
            for bid, tb in t.blocks.items():
                nb = copy.deepcopy(tb.raw)
                nb["id"] = bmap[bid]
                nb["s"] = [bmap[x] if (x is not None and x >= 0) else x for x in tb.raw["s"]]
                es = []
                for e in tb.e:
                    if isinstance(e, int):
                        es.append(e + off)
                    else:
                        e2 = copy.deepcopy(e)
                        renum(e2, off, vmap)
                        es.append(e2)
                nb["e"] = es
                if isinstance(nb.get("c"), int) and nb["c"] >= 0:
                    nb["c"] += off
                if bid == t.exit:
                    nb["s"] = [cont]
                if bid == t.entry:
                    nb["e"] = pro + nb["e"]
                blocks[nb["id"]] = nb
            i = where["e"].index(cid)
            nb = dict(where, id=cont, e=where["e"][i + 1:], s=where["s"])
            after = nb
            pre = where["e"][:i]
            for k in list(where):
                if k not in ("id", "case", "default", "catch"):
                    del where[k]
            where["e"] = pre
            where["s"] = [bmap[t.entry]]
            after.pop("case", None)
            after.pop("default", None)
            after.pop("catch", None)
            blocks[cont] = after
            if d["exit"] == where["id"]:
                d["exit"] = cont
            # the call's value
            nodes[cid] = ({"k": "nop", "id": cid, "l": n["l"], "ty": n.get("ty", -1)} if void else
                          {"k": "var", "v": retv, "nm": "ret", "id": cid, "l": n["l"], "ty": n.get("ty", -1)})
            if "_f" in n:
                nodes[cid]["_f"] = n["_f"]
            sh = _Shim(self.p, fn, nodes, d["vars"])
            for m in t.calls():
                if m["id"] in t.pos and m["id"] + off < len(nodes) and self.target(sh, nodes[m["id"] + off]):
                    work.append(m["id"] + off)
        d["blocks"] = list(blocks.values())
        f = Fn(self.p, d)
        f.inlined = cnt
        self.cache[fn.usr] = f
        return f

    def view(self):
        """every function of the program with helpers inlined; helpers that are only ever called directly
        by analysed functions are left out"""
        v = getattr(self, "_view", None)
        if v is not None:
            return v
        out = []
        helpers = []
        for f in sorted(self.p.fns.values(), key=lambda f: (f.file, f.line, f.usr)):
            if is_helper(f):
                helpers.append(f)
            else:
                out.append(self.get(f))
        for f in helpers:
            g = self.get(f)
            if f.usr in self.done and self.only_called(f):
                continue
            out.append(g)
        self._view = out
        return out

    def only_called(self, f):
        if f.is_lambda:
            # a lambda also passed elsewhere must still be analysed on its own
            par = self.p.fns.get(f.parent)
            if par is None:
                return False
            uses = 0
            for n in par.nodes:
                if n["k"] == "lambda" and n.get("lid") == f.usr:
                    for q in par.parents.get(n["id"], ()):
                        uses += 1
            v = None
            for n in par.nodes:
                if n["k"] == "decl":
                    for dd in n["ds"]:
                        if dd.get("init", -1) >= 0 and self.p.lambda_of(par, dd["init"]) == f.usr:
                            v = dd["v"]
            if v is None:
                return True
            for src in [par] + self.p.children.get(par.usr, []):
                for n in src.nodes:
                    if n["k"] == "var" and n["v"] == v:
                        for q in src.parents.get(n["id"], ()):
                            m = src.nodes[q]
                            if not (m["k"] == "call" and m.get("obj") == n["id"]):
                                return False
            return True
        # address taken?
        for src, n in self.p.fnrefs.get(f.usr, ()):
            return False
        for src, n in self.p.callers.get(f.usr, ()):
            if src.usr == f.usr:
                return False
        return True


class _Shim:
    """just enough of Fn for target lookup while nodes are being rewritten"""

    def __init__(self, p, fn, nodes, vars):
        self.p = p
        self.usr = fn.usr
        self.nodes = nodes
        self.vars = vars
        self.parent = fn.parent
        self.file = fn.file
