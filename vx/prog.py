"""Program model over the extracted IR: functions, CFGs, call graph with class-hierarchy dispatch."""
import collections, re
from . import build


class Block:
    __slots__ = ("id", "e", "s", "tk", "c", "case", "default", "noret", "tl", "raw", "allenum", "catch")

    def __init__(self, b):
        self.id = b["id"]
        self.e = b["e"]
        self.s = [x if (x is not None and x >= 0) else None for x in b["s"]]
        self.tk = b.get("tk")
        self.c = b.get("c")
        self.case = b.get("case")
        self.default = b.get("default", False)
        self.noret = b.get("noret", False)
        self.tl = b.get("tl", 0)
        self.allenum = b.get("allenum", False)
        self.catch = b.get("catch", False)
        self.raw = b


class Fn:
    def __init__(self, prog, d):
        self.p = prog
        self.d = d
        self.usr = d["usr"]
        self.nm = d["nm"]
        self.qn = d["qn"]
        self.file = d["file"]
        self.line = d["line"]
        self.nodes = d["nodes"]
        self.vars = d["vars"]
        self.params = d["params"]
        self.cls = d.get("cls")
        self.parent = d.get("parent")
        self.rty = d["rty"]
        self.blocks = {b["id"]: Block(b) for b in d["blocks"]}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self._preds = None
        self._pos = None
        self._parents = None

    @property
    def is_lambda(self):
        return self.parent is not None

    def display(self):
        if self.is_lambda:
            par = self.p.fns.get(self.parent)
            return (par.display() if par else "?") + "::<lambda:%d>" % self.line
        return self.qn

    @property
    def preds(self):
        if self._preds is None:
            pr = collections.defaultdict(list)
            for b in self.blocks.values():
                for s in b.s:
                    if s is not None:
                        pr[s].append(b.id)
            self._preds = pr
        return self._preds

    @property
    def pos(self):
        """node id -> (block id, index in block)"""
        if self._pos is None:
            self._pos = {}
            for b in self.blocks.values():
                for i, e in enumerate(b.e):
                    if isinstance(e, int):
                        self._pos[e] = (b.id, i)
        return self._pos

    @property
    def parents(self):
        if self._parents is None:
            pr = collections.defaultdict(list)
            for n in self.nodes:
                for k in operands(n):
                    pr[k].append(n["id"])
            self._parents = pr
        return self._parents

    def n(self, i):
        return self.nodes[i]

    def ty(self, n):
        if isinstance(n, int):
            n = self.nodes[n]
        t = n.get("ty", -1)
        return self.p.types[t] if t is not None and t >= 0 else ""

    def ti(self, n):
        if isinstance(n, int):
            n = self.nodes[n]
        t = n.get("ty", -1)
        return self.p.tinfo[t] if t is not None and t >= 0 else ""

    def loc(self, n):
        if isinstance(n, int):
            n = self.nodes[n]
        return "%s:%d" % (n.get("_f", self.file), n.get("l", 0))

    def calls(self):
        for n in self.nodes:
            if n["k"] in ("call", "ctor"):
                yield n

    def order(self):
        """reverse post order of reachable blocks"""
        seen, out = set(), []
        st = [(self.entry, iter([s for s in self.blocks[self.entry].s if s is not None]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter([x for x in self.blocks[s].s if x is not None])))
                    adv = True
                    break
            if not adv:
                out.append(b)
                st.pop()
        out.reverse()
        return out


def operands(n):
    for k in ("a", "b", "c", "obj", "fp", "n", "bind"):
        v = n.get(k)
        if isinstance(v, int) and v >= 0 and k != "cv":
            yield v
    for v in n.get("args", ()):
        if v is not None and v >= 0:
            yield v
    for v in n.get("pl", ()):
        if v >= 0:
            yield v
    for d in n.get("ds", ()):
        if "init" in d and d["init"] >= 0:
            yield d["init"]
    for c in n.get("caps", ()):
        if "init" in c and c["init"] >= 0:
            yield c["init"]


class Program:
    def __init__(self, data=None, key=None):
        if data is None:
            data, key = build.extract_all()
        self.key = key
        self.types = data["types"]
        self.tinfo = data["tinfo"]
        self.decls = data["decls"]
        self.records = data["records"]
        self.enums = data["enums"]
        self.globals = data["globals"]
        self.units = data["units"]
        self.skipped = data["skipped"]
        self.fns = {u: Fn(self, d) for u, d in data["fns"].items()}
        self.by_qn = collections.defaultdict(list)
        for f in self.fns.values():
            self.by_qn[f.qn].append(f)
        self.overriders = collections.defaultdict(list)
        for f in self.fns.values():
            for o in f.d.get("ov", ()):
                self.overriders[o].append(f)
        self.children = collections.defaultdict(list)
        for f in self.fns.values():
            if f.parent:
                self.children[f.parent].append(f)
        self.rec_by_qn = collections.defaultdict(list)
        for u, r in self.records.items():
            self.rec_by_qn[r["qn"]].append(r)
            r["usr"] = u
        self.enum_by_qn = {e["qn"]: e for e in self.enums.values()}
        self.glob_by_qn = {g["qn"]: g for g in self.globals.values()}
        self.field_owner = {}
        for u, r in self.records.items():
            for f in r["fields"]:
                self.field_owner[f["usr"]] = (r, f)
        self._callers = None

    def find(self, qn):
        """all functions with this qualified name (suffix match on ::)"""
        out = list(self.by_qn.get(qn, ()))
        if not out:
            for q, fs in self.by_qn.items():
                if q.endswith("::" + qn):
                    out += fs
        return [f for f in out if not f.is_lambda]

    def targets(self, fn, n):
        """function bodies a call node may run (class-hierarchy dispatch for virtual calls)."""
        u = n.get("fn")
        out = []
        if u:
            if u in self.fns and self.fns[u].blocks:
                out.append(self.fns[u])
            if n.get("virt"):
                for f in self.overriders.get(u, ()):
                    if f not in out:
                        out.append(f)
            if not out and n.get("op") == "()" and "obj" in n:
                lid = self.lambda_of(fn, n["obj"])
                if lid in self.fns:
                    out.append(self.fns[lid])
        return out

    def lambda_of(self, fn, nid, depth=0):
        if depth > 6 or nid is None or nid < 0:
            return None
        n = fn.nodes[nid]
        if n["k"] == "lambda":
            return n["lid"]
        if n["k"] in ("ctor",) and n.get("args"):
            return self.lambda_of(fn, n["args"][0], depth + 1)
        if n["k"] == "cast":
            return self.lambda_of(fn, n["a"], depth + 1)
        if n["k"] == "var":
            src = fn
            while src is not None:
                for m in src.nodes:
                    if m["k"] == "decl":
                        for d in m["ds"]:
                            if d["v"] == n["v"] and "init" in d:
                                return self.lambda_of(src, d["init"], depth + 1)
                src = self.fns.get(src.parent) if src.parent else None
        return None

    @property
    def fnrefs(self):
        """uses of a function as a value: usr -> [(fn, node)]"""
        if getattr(self, "_fnrefs", None) is None:
            r = collections.defaultdict(list)
            for f in self.fns.values():
                called = set()
                for n in f.nodes:
                    if n["k"] == "fnref" and n.get("fn") in self.fns:
                        ps = f.parents.get(n["id"], ())
                        if ps:
                            r[n["fn"]].append((f, n))
            self._fnrefs = r
        return self._fnrefs

    def inliner(self):
        if getattr(self, "_inl", None) is None:
            from . import inline
            self._inl = inline.Inliner(self)
        return self._inl

    def view(self):
        return self.inliner().view()

    def vfind(self, qn):
        """like find(), with helpers inlined"""
        return [self.inliner().get(f) for f in self.find(qn)]

    @property
    def callers(self):
        if self._callers is None:
            c = collections.defaultdict(list)
            for f in self.fns.values():
                for n in f.calls():
                    for t in self.targets(f, n):
                        c[t.usr].append((f, n))
            self._callers = c
        return self._callers


_prog = None


def load():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog
