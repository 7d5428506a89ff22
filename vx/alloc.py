"""Sizes that come from a file must be bounded before memory is allocated for them."""
import re
from . import facts, mem
from .facts import Lin, show, base_ty, BITS, UNS, CONT, related, comps
from .paths import path

TRUSTED_FIELDS = {"recordSize", "uncompressedSize", "previousRecordSize"}
SRC_CALLS = {"readUnaligned", "ZSTD_getFrameContentSize", "getVarDataSizeFromIndex"}


def disk_fields(p):
    c = p.__dict__.get("_diskfields")
    if c is None:
        c = set()
        for r in p.records.values():
            if r.get("packed") and r["qn"].startswith("vrs::") and "<" not in r["qn"] and "PointND" not in r["qn"] and "MatrixND" not in r["qn"]:
                for fl in r.get("fields", ()):
                    if fl["nm"] not in TRUSTED_FIELDS and (fl.get("size") or 0) * 8 >= 32 or (fl.get("size") or 0) >= 32:
                        c.add(fl["usr"])
        p.__dict__["_diskfields"] = c
    return c


def strip(f, nid):
    n = f.nodes[nid]
    while n["k"] in ("cast", "defarg", "tmp") or (n["k"] == "ctor" and n.get("copy")):
        n = f.nodes[n["a"] if n["k"] != "ctor" else n["args"][0]]
    return n


def filled_params(p):
    """(function, parameter) pairs: the function fills this reference parameter with a number it reads from a file, and does not
    limit it itself before it returns"""
    c = p.__dict__.get("_filledp")
    if c is None:
        c = p.__dict__["_filledp"] = set()
        fs = [f for f in p.view() if mem.in_scope(f)]
        cand = [f for f in fs if any(p.types[q["ty"]].endswith("&") and base_ty(p.types[q["ty"]]) in BITS for q in f.params)]
        while True:
            n = len(c)
            p.__dict__["_ltaint"] = {}
            for f in cand:
                t = tainted(p, f, True)
                for i, q in enumerate(f.params):
                    if "v:" + q["v"] in t["vars"] and p.types[q["ty"]].endswith("&"):
                        c.add((f.usr, i))
            if len(c) == n:
                break
        allp = set(c)
        c.clear()
        while True:         # those limited at every exit do not count (by induction on the call depth)
            add = set()
            p.__dict__["_ltaint"] = {}
            for f in cand:
                for i, q in enumerate(f.params):
                    if (f.usr, i) in allp and (f.usr, i) not in c and not limited(p, f, "v:" + q["v"]):
                        add.add((f.usr, i))
            if not add:
                break
            c |= add
        p.__dict__["_ltaint"] = {}
    return c


def after_write(p, f, q):
    """{block: index from which q may have been written since the function was entered}"""
    res = {}
    todo = []
    for n in f.nodes:
        if n["id"] not in f.pos:
            continue
        k = n["k"]
        w = False
        if k in ("assign", "cassign") or k == "un" and n["op"] in ("++", "--"):
            w = path(f, n["a"]) == q
        elif k == "call":
            pm = n.get("pm", "")
            for j, a in enumerate(n.get("args", ())):
                if a is not None and a >= 0:
                    x = strip(f, a)
                    if x["k"] == "un" and x["op"] == "&":
                        w |= path(f, x["a"]) == q
                    elif (j >= len(pm) or pm[j] == "r") and path(f, a) == q:
                        w = True
        if w:
            b, i = f.pos[n["id"]]
            res[b] = min(res.get(b, 1 << 30), i)
            todo.append(b)
    seen = set()
    while todo:
        for s in f.blocks[todo.pop()].s:
            if s is not None and s not in seen:
                seen.add(s)
                res[s] = 0
                todo.append(s)
    return res


def limited(p, f, q):
    B = Bound(p, f)
    touched = after_write(p, f, q)
    for m in f.nodes:
        if m["k"] == "ret" and m["id"] in f.pos:
            b, i = f.pos[m["id"]]
            if b not in touched or touched[b] > i:
                continue        # still what the caller gave
            x = strip(f, m["a"]) if "a" in m else None
            if x is not None and x["k"] == "call":
                ts = p.targets(f, x)
                js = [j for j, a in enumerate(x.get("args", ())) if a is not None and a >= 0 and path(f, a) == q]
                if js and ts and all((t.usr, j) not in p._filledp for t in ts for j in js):
                    continue    # delegated
            fs = B.F.at(m["id"])
            if fs is not None and B.need(fs, Lin(0, {("p", q): 1}), out=q) != set():
                return False
    return True


def tainted(p, f, partial=False):
    """local storage of f that may hold a number read from a file (flow insensitive)"""
    c = p.__dict__.setdefault("_ltaint", {})
    if f.usr in c:
        return c[f.usr]
    fp = filled_params(p)
    res = {"vars": set()}
    if not partial:
        c[f.usr] = res
    vs = res["vars"]
    df = disk_fields(p)
    for n in f.nodes:
        if n["k"] != "call":
            continue
        args = n.get("args", ())
        if n.get("nm") in ("read", "fread", "readUnaligned"):
            for a in args:
                if a is None or a < 0:
                    continue
                x = strip(f, a)
                if x["k"] == "un" and x["op"] == "&":
                    x = strip(f, x["a"])
                q = path(f, x["id"])
                if q and base_ty(f.ty(x)) in BITS and x["k"] in ("var", "mem") and n.get("nm") != "readUnaligned":
                    pm = n.get("pm", "")
                    j = list(args).index(a)
                    if j < len(pm) and (pm[j] == "r" and len(args) == 1 or pm[j] == "p" and j == 0):
                        vs.add(q)
        ts = p.targets(f, n)
        for t in ts:
            for i, a in enumerate(args):
                if a is None or a < 0:
                    continue
                if (t.usr, i) in fp:
                    q = path(f, a)
                    if q:
                        vs.add(q)
    changed = True
    k = 0
    while changed and k < 6:
        changed = False
        k += 1
        for n in f.nodes:
            tgt = src = None
            if n["k"] == "decl":
                for d in n["ds"]:
                    if d.get("init", -1) is not None and d.get("init", -1) >= 0 and not d.get("ref"):
                        if base_ty(p.types[d["ty"]]) in BITS and texpr(p, f, d["init"], vs, df) and "v:" + d["v"] not in vs:
                            vs.add("v:" + d["v"])
                            changed = True
            elif n["k"] == "assign" and base_ty(f.ty(n["a"])) in BITS:
                q = path(f, n["a"])
                if q and q not in vs and texpr(p, f, n["b"], vs, df):
                    vs.add(q)
                    changed = True
            elif n["k"] == "cassign" and n["op"] in ("+=", "*="):
                q = path(f, n["a"])
                if q and q not in vs and texpr(p, f, n["b"], vs, df):
                    vs.add(q)
                    changed = True
    return res


def texpr(p, f, nid, vs, df, depth=0):
    n = strip(f, nid)
    if depth > 12 or "cv" in n:
        return False
    q = path(f, n["id"])
    if q and q in vs:
        return True
    k = n["k"]
    if k == "mem" and n.get("f") in df and base_ty(f.ty(n)) in BITS and BITS[base_ty(f.ty(n))] >= 32:
        return True
    if k == "bin":
        if n["op"] in ("-", "/", ">>"):
            return texpr(p, f, n["a"], vs, df, depth + 1)
        if n["op"] in ("+", "*", "<<", "|"):
            return texpr(p, f, n["a"], vs, df, depth + 1) or texpr(p, f, n["b"], vs, df, depth + 1)
        return False
    if k == "call":
        if n.get("nm") in SRC_CALLS and base_ty(f.ty(n)) in BITS and BITS[base_ty(f.ty(n))] >= 32:
            return True
        if n.get("nm") == "min" and n.get("qn", "").startswith("std::"):
            return all(texpr(p, f, a, vs, df, depth + 1) for a in n["args"][:2])
        if n.get("nm") == "max" and n.get("qn", "").startswith("std::"):
            return any(texpr(p, f, a, vs, df, depth + 1) for a in n["args"][:2])
        for t in p.targets(f, n):
            # a getter of an on-disk field
            rets = [m for m in t.nodes if m["k"] == "ret" and "a" in m]
            if len(rets) == 1 and not t.params and base_ty(f.ty(n)) in BITS:
                x = strip(t, rets[0]["a"])
                if x["k"] == "mem" and x.get("f") in df and base_ty(t.ty(x)) in BITS and BITS[base_ty(t.ty(x))] >= 32:
                    return True
        return False
    if k == "cond":
        return texpr(p, f, n["a"], vs, df, depth + 1) or texpr(p, f, n["b"], vs, df, depth + 1)
    return False


def allocs(f):
    for n in f.nodes:
        if n["id"] not in f.pos:
            continue
        a = None
        if n["k"] == "call" and n.get("nm") in ("resize", "reserve") and n.get("args") and "obj" in n and CONT.match(f.ty(n["obj"]).rstrip("*& ")):
            a = n["args"][0]
        elif n["k"] == "call" and n.get("nm") in ("malloc", "aligned_alloc"):
            a = n["args"][-1]
        elif n["k"] == "ctor" and n.get("args") and "vector<" in f.ty(n) and "initializer_list" not in str(n.get("pt", "")):
            x = n["args"][0]
            if x is not None and x >= 0 and base_ty(f.ty(x)) in BITS:
                a = x
        elif n["k"] == "new" and n.get("n", -1) is not None and n.get("n", -1) >= 0:
            a = n["n"]
        if a is None or a < 0 or "cv" in f.nodes[a]:
            continue
        yield n, a


class Bound:
    def __init__(self, p, f):
        self.p, self.f, self.F = p, f, facts.of(f)
        self.t = tainted(p, f)["vars"]
        self.df = disk_fields(p)
        self.dfn = None
        self.params = {}
        for i, q in enumerate(f.params):
            self.params["v:" + q["v"]] = i

    def istaint(self, t):
        if t[0] == "p":
            if t[1] in self.t:
                return True
            last = t[1].split(".")[-1]
            if last in self.fieldnames() and "." in t[1] and self.F.range.get(t, (0, 1 << 40))[1] > (1 << 17):
                return True
            return False
        if t[0] in ("m", "f") or isinstance(t[0], str) and t[0][:2] in ("m:", "f:"):
            return t[0][2:].split("::")[-1] in SRC_CALLS
        if t in self.F.opq:
            return texpr(self.p, self.f, self.F.opq[t], self.t, self.df)
        if t[0] == "n":
            return texpr(self.p, self.f, t[1], self.t, self.df)
        return False

    def root(self, t):
        """the parameter, or the reference member bound by the constructor, that t belongs to"""
        if t[0] != "p":
            return None
        c = t[1].split(".")
        r = c[0].split("*")[0]
        if r in self.params:
            return r
        if r == "this" and len(c) > 2 and self.f.cls in self.p.records:
            for fl in self.p.records[self.f.cls].get("fields", ()):
                if fl["nm"] == c[1] and self.p.types[fl["ty"]].endswith("&"):
                    return "this." + c[1]
        return None

    def lift(self, t):
        """(caller, call node, argument) that give t's root its value"""
        root = self.root(t)
        if not root.startswith("this."):
            for g, m in self.p.callers.get(self.f.usr, ()):
                args = m.get("args", ())
                if self.params[root] < len(args):
                    yield g, m, args[self.params[root]]
            return
        for g in self.p.view():
            if g.cls != self.f.cls or "ctor" not in g.d:
                continue
            for B in g.blocks.values():
                for e in B.e:
                    if isinstance(e, dict) and e.get("k") == "init" and e.get("nm") == root[5:] and e.get("a", -1) >= 0:
                        x = strip(g, e["a"])
                        if x["k"] == "initlist" and len(x["args"]) == 1:
                            x = strip(g, x["args"][0])
                        q = path(g, x["id"])
                        for i, x in enumerate(g.params):
                            if q == "v:" + x["v"]:
                                for h, m in self.p.callers.get(g.usr, ()):
                                    if i < len(m.get("args", ())):
                                        yield h, m, m["args"][i]

    def fieldnames(self):
        if self.dfn is None:
            self.dfn = set()
            for r in self.p.records.values():
                for fl in r.get("fields", ()):
                    if fl["usr"] in self.df:
                        self.dfn.add(fl["nm"])
        return self.dfn

    def need(self, fs, l, d=4, seen=(), out=False):
        """None: not bounded; else the set of parameters whose bound is the callers' business"""
        res = set()
        if l.c > 1 << 40:
            return None         # not a limit
        for t, v in l.m.items():
            if v < 0:
                continue
            r = self.term(fs, t, d, seen, out)
            if r is None:
                return None
            res |= r
        return res

    def holds(self, u, t):
        """u is t, or a larger number, divided by something"""
        F = self.F
        if u not in F.opq:
            return False
        n = self.f.nodes[F.opq[u]]
        if n["k"] != "bin" or n["op"] not in ("/", ">>", "*"):
            return False
        l = F.lin(n["a"])
        return l is not None and l.m.get(t, 0) > 0 and l.c >= 0 and all(w > 0 and F.range.get(y, (-1, 0))[0] >= 0 for y, w in l.m.items())

    def term(self, fs, t, d, seen, out=False):
        if t in seen:
            return None
        F = self.F
        rg = F.range.get(t)
        if rg and rg[1] <= (1 << 17):
            return set()
        k = t[0]
        if k == "size" or k == "k":
            return set()
        if t in F.mm:
            l1, l2 = F.mm[t][:2]
            r = [x for x in (self.need(fs, l1, d, seen + (t,)), self.need(fs, l2, d, seen + (t,))) if x is not None]
            if k == "min":
                return min(r, key=len) if r else None
            return None if len(r) < 2 else r[0] | r[1]
        if t in F.trunc:
            r = self.need(fs, F.trunc[t], d, seen + (t,), out)
            if r is not None:
                return r
        if t in F.opq:
            n = self.f.nodes[F.opq[t]]
            if n["k"] == "bin" and n["op"] in ("/", ">>", "*", "+"):
                r = set()
                for o in (n["a"],) + ((n["b"],) if n["op"] in "*+" else ()):
                    l = F.lin(o)
                    x = self.need(fs, l, d, seen + (t,)) if l is not None else None
                    if x is None:
                        r = None
                        break
                    r |= x
                if r is not None:
                    return r
            if n["k"] == "bin" and n["op"] in ("%", "&"):
                return set()
        par = None
        root = self.root(t)
        if root is not None and root != t[1] and self.istaint(t) and not (t[1] in self.t):
            par = {t}
        elif k == "p" and t[1] in self.params:
            par = {t}
            q = self.f.params[self.params[t[1]]]
            ref = self.p.types[q["ty"]].endswith("&") and not self.p.types[q["ty"]].startswith("const ")
            if ref and out == t[1]:
                par = None
            elif ref:
                par = None if t[1] in self.t else set()
        elif not self.istaint(t):
            return set()
        best = par
        if d > 0:
            for x in fs:
                if x[0] == "U" and (x[1] == t or self.holds(x[1], t)):
                    x = ("L", x[2])
                if x[0] != "L":
                    continue
                m = dict(x[1][1])
                v = m.get(t, 0)
                if v <= 0:
                    hit = [u for u, w in m.items() if w > 0 and self.holds(u, t)]
                    if not hit:
                        continue
                    t0 = hit[0]
                else:
                    t0 = t
                ok = True
                up = Lin(-x[1][0])
                for u, w in m.items():
                    if u == t0:
                        continue
                    if w > 0:
                        if F.range.get(u, (-1, 0))[0] < 0 and not F.prove(fs, Lin(0, {u: -1})):
                            ok = False
                            break
                    else:
                        up.m[u] = -w
                if not ok:
                    continue
                r = self.need(fs, up, d - 1, seen + (t,), out)
                if r is not None and (best is None or len(r) < len(best)):
                    best = r
                    if not best:
                        break
        return best


def decide(c, rid, exc):
    p = c.prog
    todo = []   # (fn, node, lin, chain text)
    for f in p.view():
        if not mem.in_scope(f):
            continue
        for n, a in allocs(f):
            F = facts.of(f)
            l = F.lin(a)
            fs = F.at(n["id"])
            if l is None or fs is None or not l.m:
                continue
            todo.append((f, n, l, fs, "allocation of %s" % show(l), 0))
    seen = set()
    used = {}
    while todo:
        f, n, l, fs, what, depth = todo.pop()
        B = Bound(p, f)
        r = B.need(fs, l)
        where = f.loc(n)
        relevant = any(B.istaint(t) or t in B.F.mm or t in B.F.opq for t in l.m) or depth > 0
        if r is None:
            k = mem.fkey(f)
            key = "%s %s" % (k, what)
            if key in used:
                continue
            used[key] = 1
            if k in exc and exc[k][0] > 0:
                exc[k][0] -= 1
                c.excused.append((where + " " + what, exc[k][1]))
                continue
            c.bad(rid, where, "%s in %s: the size comes from a file, and nothing bounds it on some path" % (what, k), key=key)
            continue
        if relevant or r:
            c.ok(rid, where, "%s: bounded%s" % (what, "" if not r else " by the callers of " + f.display()))
        if r and depth < 5:
            for t in r:
                root = B.root(t)
                for g, m, a in B.lift(t):
                    if not mem.in_scope(g) or a is None or a < 0:
                        continue
                    G = facts.of(g)
                    if root == t[1]:
                        al = G.lin(a)
                    else:
                        q = path(g, a)
                        al = Lin(0, {("p", q + t[1][len(root):]): 1}) if q else None
                    gs = G.at(m["id"])
                    if al is None or gs is None or not al.m:
                        continue
                    k = (g.usr, m["id"], t)
                    if k in seen:
                        continue
                    seen.add(k)
                    todo.append((g, m, al, gs, "%s given to %s" % (show(al), f.display()), depth + 1))
