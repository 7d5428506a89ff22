"""Reads of what was never given a value: members, objects and locals."""
import re
from .mem import fkey
from .paths import path

SC = re.compile(r"^(const |volatile )*(unsigned |signed )?(char|short|int|long|long long|bool|float|double|char8_t|char16_t|wchar_t)( int)?$")
ARR = re.compile(r"^(.*?)((?:\[\d*\])+)$")
STDARR = re.compile(r"^(?:const )?std::array<(.*), ?\d+>$")
ATOMIC = re.compile(r"^(?:const )?(?:std::)?atomic<(.*)>$")


def outputs(n, i):
    """may the call set what is passed as its i-th argument, by reference?"""
    pm = n.get("pm", "")
    if i >= len(pm) or pm[i] != "r":
        return False
    q = n.get("qn", "")
    if q.startswith(("fmt::", "vrs::logging")):
        return False
    if q.startswith("std::") and n.get("nm") not in ("swap", "getline", "tie", "exchange", "ref", "from_chars", "operator>>", "get", "read", "async"):
        return False   # forwarded
    return True


class Uninit:
    def __init__(self, p):
        self.p = p
        self.lv = {}
        self.outs = {}
        self.user = {}
        for u, r in p.records.items():
            nm = r["qn"].rsplit("::", 1)[-1].split("<")[0]
            self.user[u] = any(m["nm"].split("<")[0] == nm and not m.get("implicit") and not m.get("deleted") for m in r.get("methods", ()))

    def scalar(self, ty):
        t = self.p.types[ty] if isinstance(ty, int) else ty
        t = t.strip()
        m = ARR.match(t)
        if m:
            t = m.group(1).strip()
        m = STDARR.match(t)
        if m:
            return self.scalar(m.group(1))
        if t.endswith(("*", "*const", "* const")) or SC.match(t):
            return True
        return isinstance(ty, int) and str(self.p.tinfo[ty] or "").startswith(("e:", "enum"))

    def record(self, ty):
        i = str(self.p.tinfo[ty] or "")
        return i[2:] if i.startswith("r:") else None

    def leaves(self, u, seen=()):
        """members without a value in an object of this class created without one"""
        if u in self.lv:
            return self.lv[u]
        r = self.p.records.get(u)
        if r is None or u in seen or self.user[u]:
            return []
        out = []
        for b in r.get("bases", ()):
            out += self.leaves(b, seen + (u,))
        for x in r["fields"]:
            if x.get("init"):
                continue
            if self.scalar(x["ty"]):
                out.append(x["nm"])
            else:
                v = self.record(x["ty"])
                if v:
                    out += [x["nm"] + "." + y for y in self.leaves(v, seen + (u,))]
        self.lv[u] = out
        return out

    # ---- members

    def unset(self, f, r):
        """members of its class that a constructor leaves without a value"""
        inits = {}
        bases = set()
        for B in f.blocks.values():
            for e in B.e:
                if isinstance(e, dict) and e.get("k") == "init":
                    if "f" in e:
                        inits[e["f"]] = e
                    else:
                        bases.add(e.get("a", -1))
        for a in bases:
            if a is not None and a >= 0 and f.nodes[a]["k"] == "ctor" and f.nodes[a].get("cls") == f.cls:
                return []   # delegates to another constructor
        body = None
        out = []
        for x in r["fields"]:
            if x.get("init"):
                continue
            sc = self.scalar(x["ty"])
            e = inits.get(x["usr"])
            if sc:
                if e is not None and e.get("a", -1) is not None and e.get("a", -1) >= 0:
                    continue
                left = [x["nm"]]
            else:
                u = self.record(x["ty"])
                left = [x["nm"] + "." + y for y in self.leaves(u)] if u else []
                if not left:
                    continue
                a = e.get("a", -1) if e else -1
                if a is not None and a >= 0 and (f.nodes[a]["k"] != "ctor" or f.nodes[a].get("args") or f.nodes[a].get("zi")):
                    continue
            if body is None:
                body = self.assigned_at_exit(f)
            left = [y for y in left if not self.covered("this." + y, body)]
            out += left
        return out

    def covered(self, q, done):
        while q:
            if q in done:
                return True
            q = q.rpartition(".")[0]
        return False

    # ---- what every path has assigned

    def gens(self, f, e, conds):
        """paths given a value by an element; conds: call node -> paths given one only when it succeeds"""
        if not isinstance(e, int):
            return ()
        n = f.nodes[e]
        out = []
        k = n["k"]
        if k in ("assign", "cassign"):
            out.append(path(f, n["a"]))
            a = f.nodes[n["a"]]
            while a["k"] == "index":
                a = f.nodes[a["a"]]
                out.append(path(f, a["id"]))
        elif k == "decl":
            for d in n["ds"]:
                i = d.get("init", -1)
                if i is not None and i >= 0:
                    out.append("v:" + d["v"])
        elif k in ("call", "ctor"):
            if "obj" in n and (n.get("op") in ("=",) or not n.get("cm")):
                out.append(path(f, n["obj"]))
                o = f.nodes[n["obj"]]
                if n.get("op") == "[]" or n.get("nm") in ("data", "begin", "at", "fill"):
                    out.append(path(f, o["id"]))
            pm = n.get("pm", "")
            for i, a in enumerate(n.get("args", ())):
                if a is None or a < 0:
                    continue
                x = f.nodes[a]
                while x["k"] in ("cast",):
                    x = f.nodes[x["a"]]
                q = None
                byref = outputs(n, i)
                if x["k"] == "un" and x["op"] == "&":
                    q = path(f, x["a"])
                elif byref or f.ty(x).rstrip().endswith("]"):
                    q = path(f, x["id"])
                if q:
                    h = self.gives(f, n, i) if byref or x["k"] == "un" else "all"
                    if h == "all":
                        out.append(q)
                    elif h in ("true", "zero"):
                        conds.setdefault(e, []).append((q, h))
        elif k == "lambda":
            for c in n.get("caps", ()):
                if c.get("byref") and c.get("v"):
                    out.append("v:" + c["v"])
        elif k == "un" and n["op"] == "&":
            up = [f.nodes[u] for u in f.parents.get(e, ())]
            while up and up[0]["k"] == "cast":
                up = [f.nodes[u] for u in f.parents.get(up[0]["id"], ())]
            if not any(u["k"] in ("call", "ctor") for u in up):
                out.append(path(f, n["a"]))
        return [q for q in out if q]

    def gives(self, f, n, i):
        """when does the call give its i-th argument a value: 'all' (always), 'true' or 'zero' (when its result is), 'never'"""
        ts = self.p.targets(f, n)
        if not ts:
            return "all"
        hs = {self.out(t, i) for t in ts}
        if hs == {"all"}:
            return "all"
        hs.discard("all")
        return hs.pop() if len(hs) == 1 else "never"

    def out(self, t, i):
        key = (t.usr, i)
        h = self.outs.get(key)
        if h is not None:
            return h
        self.outs[key] = "all"
        h = "all"
        if i < len(t.params) and t.entry is not None:
            ty = self.p.types[t.params[i]["ty"]]
            if ty.rstrip().endswith("&") and self.scalar(re.sub(r"\s*&$", "", ty)):
                v = "v:" + t.params[i]["v"]
                inn, at = self.solve(t)
                bad = set()
                for n in t.nodes:
                    if n["k"] == "ret" and n["id"] in t.pos:
                        st = at(n["id"])
                        if st is not None and v not in st:
                            bad.add(self.result(t, n, v, st))
                if t.exit in inn and not any(n["k"] == "ret" for n in t.nodes) and v not in inn[t.exit]:
                    bad.add("?")
                if not bad:
                    h = "all"
                elif bad <= {"false"}:
                    h = "true"
                elif bad <= {"nonzero"}:
                    h = "zero"
                elif bad <= {"true"}:
                    h = "false"
                else:
                    h = "never"
        self.outs[key] = h
        return h

    def result(self, t, n, v, st):
        a = n.get("a", -1)
        if a is None or a < 0:
            return "?"
        x = t.nodes[a]
        while x["k"] == "cast":
            x = t.nodes[x["a"]]
        if "cv" in x:
            b = t.p.types[x["ty"]] if "ty" in x else ""
            if "bool" in b:
                return "true" if x["cv"] not in ("0", 0) else "false"
            return "nonzero" if x["cv"] not in ("0", 0) else "?"
        for truth, r in ((True, "false"), (False, "nonzero")):
            if self.settled(t, x, v, truth):
                return r
        return "?"

    def settled(self, t, x, v, truth):
        """whenever this expression is true (false), was the variable given a value by it?"""
        while x["k"] == "cast":
            x = t.nodes[x["a"]]
        k = x["k"]
        if "cv" in x:
            return (x["cv"] not in ("0", 0)) != truth
        if k == "un" and x["op"] == "!":
            return self.settled(t, t.nodes[x["a"]], v, not truth)
        if k == "bin" and x["op"] in ("&&", "||"):
            both = [self.settled(t, t.nodes[x[y]], v, truth) for y in "ab"]
            return any(both) if (x["op"] == "&&") == truth else all(both)
        if k == "cond":
            return all(self.settled(t, t.nodes[x[y]], v, truth) for y in "ab")
        if k == "call":
            for i, y in enumerate(x.get("args", ())):
                if y is not None and y >= 0 and path(t, y) == v:
                    h = self.gives(t, x, i)
                    return h == "all" or h == ("true" if truth else "zero")
        return False

    def solve(self, f):
        """paths assigned on every path to a block, and a function giving those at a node"""
        r = f.__dict__.get("_uninit")
        if r is not None:
            return r
        conds = {}
        gen = {}
        for b, B in f.blocks.items():
            gen[b] = [frozenset(self.gens(f, e, conds)) for e in B.e]
        results = {}   # variable -> call node its value comes from
        for n in f.nodes:
            if n["k"] == "decl":
                for d in n["ds"]:
                    i = d.get("init", -1)
                    if i is not None and i >= 0:
                        results.setdefault("v:" + d["v"], set()).add(self.core(f, i))
            elif n["k"] == "assign":
                q = path(f, n["a"])
                if q:
                    results.setdefault(q, set()).add(self.core(f, n["b"]))

        def known(c, truth):
            """calls whose result is known (true: non zero) when this condition is"""
            n = f.nodes[c]
            while n["k"] == "cast":
                n = f.nodes[n["a"]]
            if n["k"] == "un" and n["op"] == "!":
                return known(n["a"], not truth)
            if n["k"] == "bin" and n["op"] in ("==", "!="):
                for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
                    if f.nodes[b].get("cv") in ("0", 0) or f.nodes[self.core(f, b)].get("cv") in ("0", 0):
                        return known(a, truth == (n["op"] == "!="))
                return []
            if n["k"] == "bin" and n["op"] in ("&&", "||"):
                if truth == (n["op"] == "&&"):
                    return known(n["a"], truth) + known(n["b"], truth)
                return []
            if n["k"] in ("var", "mem"):
                q = path(f, n["id"])
                x = results.get(q, ())
                if len(x) == 1:
                    return known(next(iter(x)), truth) if f.nodes[next(iter(x))]["k"] in ("call", "bin", "un") else []
                return []
            if n["k"] == "assign":
                return known(n["b"], truth)
            if n["k"] == "call":
                return [(n["id"], truth)]
            return []
        inn = {f.entry: frozenset()}
        work = [f.entry]
        while work:
            b = work.pop()
            B = f.blocks[b]
            st = self.apply(f, set(inn[b]), B.e, gen[b])
            for i, s in enumerate(B.s):
                if s is None or s < 0:
                    continue
                o = set(st)
                if B.c is not None and B.c >= 0 and len(B.s) == 2 and B.tk != "switch":
                    for c, truth in known(B.c, i == 0):
                        for q, h in conds.get(c, ()):
                            if (h == "true") == truth:
                                o.add(q)
                old = inn.get(s)
                new = frozenset(o) if old is None else old & o
                if old is None or new != old:
                    inn[s] = new
                    if s not in work:
                        work.append(s)

        def at(nid):
            pos = f.pos.get(nid)
            if pos is None:
                for u in f.parents.get(nid, ()):
                    r = at(u)
                    if r is not None:
                        return r
                return None
            b, i = pos
            if b not in inn:
                return None
            return self.apply(f, set(inn[b]), f.blocks[b].e[:i], gen[b][:i])
        r = f._uninit = (inn, at)
        return r

    def apply(self, f, st, es, gs):
        for e, g in zip(es, gs):
            if isinstance(e, int) and f.nodes[e]["k"] == "decl":
                for d in f.nodes[e]["ds"]:
                    q = "v:" + d["v"]
                    if not d.get("static"):
                        st = {x for x in st if x != q and not x.startswith(q + ".")}
            st |= g
        return st

    def core(self, f, nid):
        n = f.nodes[nid]
        while n["k"] == "cast":
            n = f.nodes[n["a"]]
        return n["id"]

    def assigned_at_exit(self, f):
        """paths assigned whenever the function returns"""
        inn, at = self.solve(f)
        return inn.get(f.exit, frozenset())

    # ---- locals

    def locals(self, f):
        """locals of scalar type, declared without a value: id -> (declaration, its node, members to give a value)"""
        out = {}
        for n in f.nodes:
            if n["k"] != "decl":
                continue
            for d in n["ds"]:
                i = d.get("init", -1)
                if d.get("static") or d.get("ref") or d["nm"].startswith("__"):
                    continue
                if i is None or i < 0:
                    if self.scalar(d["ty"]):
                        out[d["v"]] = (d, n, None)
                else:
                    x = f.nodes[i]
                    if x["k"] == "ctor" and not x.get("args") and not x.get("zi"):
                        u = self.record(d["ty"])
                        l = self.leaves(u) if u else []
                        if l:
                            out[d["v"]] = (d, n, l)
        return out

    def needs(self, f, n, i):
        """does the function called read its i-th argument before giving it a value?"""
        return any(self.param_read(t, i) for t in self.p.targets(f, n))

    def param_read(self, t, i):
        key = (t.usr, i, "r")
        if key in self.outs:
            return self.outs[key]
        self.outs[key] = False
        r = False
        if i < len(t.params) and t.entry is not None:
            ty = self.p.types[t.params[i]["ty"]].rstrip()
            if ty.endswith("&") and self.scalar(re.sub(r"\s*&$", "", ty)):
                v = t.params[i]["v"]
                at = self.solve(t)[1]
                for n, q in self.reads(t, v):
                    st = at(n["id"])
                    if st is not None and not self.covered(q, st):
                        r = True
        self.outs[key] = r
        return r

    def reads(self, f, v):
        """nodes reading the variable (or a member of it): (node, path)"""
        for n in f.nodes:
            if n["k"] != "var" or n["v"] != v:
                continue
            top = n
            up = None
            while True:
                ps = [f.nodes[u] for u in f.parents.get(top["id"], ())]
                if not ps:
                    break
                up = ps[0]
                if up["k"] == "mem" and up.get("a") == top["id"] and not up.get("arrow"):
                    top = up
                    continue
                break
            if up is None:
                continue
            if up["k"] == "assign" and up["a"] == top["id"] or up["k"] == "un" and up["op"] == "&" or up["k"] in ("sizeof", "lambda"):
                continue
            if up["k"] in ("call", "ctor"):
                if up.get("obj") == top["id"]:
                    if top is n and not up.get("cm"):
                        continue
                else:
                    skip = any(a == top["id"] and outputs(up, i) and not self.needs(f, up, i) for i, a in enumerate(up.get("args", ())))
                    if skip:
                        continue
            ty = f.ty(top).rstrip()
            if ty.endswith("]"):
                # an array: its elements are written before being read, or given to a function
                g = up
                h = top
                while g["k"] in ("index", "cast"):
                    h = g
                    ps = [f.nodes[u] for u in f.parents.get(g["id"], ())]
                    if not ps:
                        break
                    g = ps[0]
                if g["k"] == "assign" and g["a"] == h["id"] or h["k"] != "index" and g["k"] in ("call", "ctor", "un", "lambda"):
                    continue
            yield n, path(f, top["id"]) or "v:" + v


def run(c, exc, inscope):
    p = c.prog
    U = Uninit(p)
    und = {}

    def undecide(rule, key, where, text, what):
        und.setdefault((rule, key), []).append((where, text, what))
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line, f.usr)):
        if f.entry is None:
            continue
        # constructors
        r = p.records.get(f.cls)
        if f.d.get("ctor") == "ctor" and r is not None and not f.d.get("implicit") and U.user[f.cls] and inscope(f):
            left = U.unset(f, r)
            if left:
                for x in left:
                    undecide("members", r["qn"], f.file + ":%d" % f.line, "a constructor of %s leaves %s without a value" % (r["qn"], x), x)
            else:
                c.ok("members", f.file + ":%d" % f.line, "%s gives every member a value" % f.display())
        if not inscope(f):
            continue
        for v, (d, n, ls) in sorted(U.locals(f).items()):
            inn, at = U.solve(f)
            bad = None
            seen = False
            for m, q in U.reads(f, v):
                st = at(m["id"])
                if st is None:
                    continue
                seen = True
                if U.covered(q, st):
                    continue
                if ls is not None and q == "v:" + v and all(U.covered(q + "." + y, st) for y in ls):
                    continue
                if ls is not None and q != "v:" + v and q[len(v) + 3:] not in ls:
                    continue
                bad = bad or m
            if bad is not None:
                undecide("locals", fkey(f), f.loc(bad), "%s reads %s, which isn't given a value on every path" % (fkey(f), d["nm"]), d["nm"])
            else:
                c.ok("locals", f.loc(n), "%s is given a value before it's read" % d["nm"])
        for n in f.nodes:
            u = None
            if n["k"] == "new" and n.get("a", -1) is not None and n.get("a", -1) >= 0:
                x = f.nodes[n["a"]]
                if x["k"] == "ctor" and not x.get("args") and not x.get("zi"):
                    u = x.get("cls")
            if u:
                ls = U.leaves(u)
                if ls:
                    undecide("locals", fkey(f), f.loc(n), "%s creates a %s without giving %s a value" % (fkey(f), p.records[u]["qn"], ls[0]), p.records[u]["qn"])
    # members that are objects, in classes without constructors, are seen through those which contain them; what's left is for a class nobody constructs
    for (rule, key), xs in sorted(und.items()):
        n, why = exc.get((rule, key), (0, None))
        names = {x[2] for x in xs}
        if len(names) <= n:
            for where, text, what in xs:
                c.excused.append(("%s %s" % (where, text), why))
            continue
        done = set()
        for where, text, what in xs:
            if what not in done:
                done.add(what)
                c.bad(rule, where, text, key="%s %s" % (key, what))
