"""What no longer exists isn't used: lifetimes of elements, iterators, references, moved and deleted objects.

Forward may-analysis per function. A state is a set of facts:
    ("dep", var, path, sort)   the local var points into what path holds (sort: how it may be invalidated)
    ("stale", path, why)       what path denotes was destroyed, moved or freed on some path to here
Changes made by called functions come from summaries: what a function drops or grows, relative to its object and parameters.
"""
import re
from .facts import base_ty
from .paths import path

CONT = re.compile(r"^(?:const )?(?:std::(?:__cxx11::)?)(vector|basic_string|deque|map|set|multimap|multiset|unordered_map|unordered_set|list|unique_ptr|shared_ptr|optional|array)<")
NODE = {"map", "set", "multimap", "multiset", "list"}
UNORD = {"unordered_map", "unordered_set"}
OWN = {"unique_ptr", "shared_ptr", "optional"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "reserve", "append", "push_front", "emplace_front", "operator+=", "try_emplace", "insert_or_assign", "operator[]"}
DROP = {"resize", "assign", "clear", "erase", "pop_back", "pop_front", "shrink_to_fit", "replace", "remove", "remove_if", "reset", "release", "extract", "merge"}
TO_IT = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "insert", "emplace", "erase", "try_emplace", "emplace_hint", "equal_range", "crbegin", "crend"}
TO_REF = {"front", "back", "at", "operator[]", "data", "c_str", "emplace_back", "emplace_front", "get", "value", "operator*", "operator->", "c_str", "try_emplace", "emplace"}
STD_IT = {"find_if", "find", "lower_bound", "upper_bound", "max_element", "min_element", "begin", "end", "prev", "next", "remove_if", "remove", "find_first_of", "unique"}
VIEW = re.compile(r"(basic_string_view|span)<|string_view$")
FREE = {"free": 0, "fclose": 0, "closedir": 0, "pclose": 0}
# the reader uses the player given until another one replaces it: it's for the caller to say for how long
BORROW = {"setStreamPlayer"}
REINIT = {"clear", "assign", "reset", "resize", "operator=", "swap", "emplace", "open"}


def ctype(t):
    m = CONT.match(base_ty(t))
    return m.group(1) if m else None


def is_iter(t):
    return bool(re.search(r"iterator", base_ty(t).split("<")[0], re.I)) or "_iterator<" in base_ty(t)[:60]


def is_ptr(t):
    return bool(re.search(r"\*(\s*const)?$", base_ty(t)))


def pointing(t):
    return is_iter(t) or is_ptr(t) or bool(VIEW.search(base_ty(t)[:60]))


def mname(n):
    return ("operator" + n["op"]) if n.get("op") and not n.get("nm", "").startswith("operator") else n.get("nm", "")


def under(q, c):
    """is q inside of what c holds?"""
    return q.startswith(c) and len(q) > len(c) and q[len(c)] in ".[*"


class Life:
    def __init__(self, p):
        self.p = p
        self.sum = {}
        self.seen = set()
        self.bad = []
        self.n = {"use": 0, "dangling": 0}

    # ---- what functions change

    def direct(self, f, n):
        """[(container node, 'grow'|'drop', container class, node of the iterator dropped or None)]"""
        if n["k"] == "call" and "obj" in n:
            c = ctype(f.ty(f.nodes[n["obj"]]))
            if c and c != "array":
                m = mname(n)
                if m == "operator=":
                    return [(n["obj"], "drop", c, None)]
                if c in OWN:
                    if m in ("reset", "emplace", "release"):
                        return [(n["obj"], "free" if m == "release" else "drop", c, None)]
                    return []
                if m in GROW:
                    if m == "operator[]" and c not in UNORD:
                        return []
                    return [(n["obj"], "grow", c, None)]
                if m in DROP:
                    a = n.get("args") or [None]
                    it = a[0] if m == "erase" and a[0] is not None and a[0] >= 0 and len(a) == 1 else None
                    return [(n["obj"], "drop", c, it if it is not None and is_iter(f.ty(f.nodes[it])) else None)]
        return []

    def summary(self, f):
        """{('this'|index, suffix, op, class)}"""
        if f.usr in self.sum:
            return self.sum[f.usr]
        self.sum[f.usr] = frozenset()
        out = set()
        idx = {"v:" + q["v"]: i for i, q in enumerate(f.params)}
        refs = {"v:" + q["v"] for q in f.params if self.p.types[q["ty"]].rstrip().endswith(("&", "*")) and not self.p.types[q["ty"]].startswith("const ")}

        def rel(q):
            if q is None:
                return None
            m = re.match(r"(this|v:[^.\[*]*)(.*)$", q)
            if not m:
                return None
            if m.group(1) == "this":
                return "this", m.group(2)
            if m.group(1) in refs:
                return idx[m.group(1)], m.group(2)
            return None
        idx.update({"v:" + q["v"]: i for i, q in enumerate(f.params)})
        prs = {"v:" + q["v"] for q in f.params if is_ptr(self.p.types[q["ty"]])}
        for n in f.nodes:
            a = n["a"] if n["k"] == "delete" else n["args"][0] if n["k"] == "call" and n.get("nm") in FREE and n.get("args") and not n.get("qn", "").startswith("vrs") else None
            if a is not None:
                q = path(f, a)
                if q == "this":
                    out.add(("this", "", "freed", ""))
                elif q in prs:
                    out.add((idx[q], "", "freed", ""))
            for o, op, c, it in self.direct(f, n):
                r = rel(path(f, o))
                if r:
                    out.add((r[0], r[1], op, c))
            if n["k"] in ("call", "ctor"):
                for q, op, c in self.effects(f, n):
                    if op == "freed":
                        if q == "this" or q in prs:
                            out.add(("this" if q == "this" else idx[q], "", "freed", ""))
                        continue
                    r = rel(q)
                    if r and r[1].count(".") < 4:
                        out.add((r[0], r[1], op, c))
        if len(out) > 40:
            out = set(sorted(out, key=str)[:40])
        self.sum[f.usr] = frozenset(out)
        return self.sum[f.usr]

    def effects(self, f, n):
        """[(path, op, class)] of what a call to a function of ours changes"""
        out = []
        ts = self.p.targets(f, n)
        if not ts or len(ts) > 6:
            return out
        for t in ts:
            if t.usr == f.usr:
                continue
            for who, suf, op, c in self.summary(t):
                if who == "this":
                    b = path(f, n["obj"]) if "obj" in n else ("this" if n["k"] == "call" and t.cls else None)
                else:
                    a = n.get("args", ())
                    b = path(f, a[who]) if who < len(a) and a[who] is not None and a[who] >= 0 else None
                if b:
                    out.append((b + suf, op, c))
        return out

    # ---- what a value points into

    def points(self, f, nid, st, depth=0, addr=False):
        """what the value (or the lvalue, with addr) of an expression points into: {(path, sort)}, or {("temp", what)}"""
        if nid is None or nid < 0 or depth > 12:
            return set()
        n = f.nodes[nid]
        k = n["k"]
        if k in ("cast", "defarg", "definit"):
            return self.points(f, n["a"], st, depth + 1, addr)
        if k == "un" and n["op"] == "&":
            return self.points(f, n["a"], st, depth + 1, True)
        if k == "un" and n["op"] == "*":
            return self.points(f, n["a"], st, depth + 1, False) if addr else set()
        if k == "var":
            d = {(x[2], x[3]) for x in st if x[0] == "dep" and x[1] == n["v"]}
            if addr:
                # an lvalue: a reference points where it was bound
                if n["v"] in self.refs:
                    return d
                return {("local", n["v"])} if self.local(f, n["v"]) else set()
            if not pointing(f.ty(n)) and f.ty(n).rstrip().endswith("]"):
                return {("local", n["v"])} if self.local(f, n["v"]) else set()
            return d
        if k == "mem":
            if addr:
                b = f.nodes[n["a"]]
                return self.points(f, n["a"], st, depth + 1, not n.get("arrow"))
            return set()
        if k == "index":
            return self.points(f, n["a"], st, depth + 1, False) if addr else set()
        if k == "cond":
            return self.points(f, n["a"], st, depth + 1, addr) | self.points(f, n["b"], st, depth + 1, addr)
        if k == "bin" and n["op"] in ("+", "-") and pointing(f.ty(n)):
            return self.points(f, n["a"], st, depth + 1, addr)
        if k == "ctor":
            a = [x for x in n.get("args", ()) if x is not None and x >= 0 and f.nodes[x]["k"] != "defarg"]
            if len(a) >= 1 and (pointing(f.ty(n))):
                b = f.nodes[a[0]]
                if pointing(f.ty(b)):
                    return self.points(f, a[0], st, depth + 1, False)
                if ctype(f.ty(b)) == "basic_string":
                    return self.inside(f, a[0], "ref", st, depth + 1)
            return set()
        if k == "call":
            m = mname(n)
            qn = n.get("qn", "")
            if qn in ("std::move", "std::forward", "std::as_const") and n.get("args"):
                return self.points(f, n["args"][0], st, depth + 1, addr)
            if "obj" in n:
                o = f.nodes[n["obj"]]
                ot = f.ty(o)
                c = ctype(ot)
                if is_iter(ot) or (is_ptr(ot) and m in ("operator*", "operator->")):
                    if m in ("operator*", "operator->", "operator[]"):
                        return self.points(f, n["obj"], st, depth + 1, False) if addr or m == "operator->" else set()
                    if m in ("operator++", "operator--", "operator+", "operator-", "operator+=", "operator-=", "base"):
                        return self.points(f, n["obj"], st, depth + 1, False)
                    return set()
                if c == "array":
                    return set()
                if c:
                    if m in ("operator*", "operator->", "operator[]", "front", "back", "at", "value", "emplace_back", "emplace_front"):
                        if m == "operator->" and c in OWN or addr or m == "operator->":
                            return self.inside(f, n["obj"], "own" if c in OWN else "ref", st, depth + 1)
                        return set()
                    if m in ("data", "c_str") or m == "get" and c in OWN:
                        return self.inside(f, n["obj"], "own" if c in OWN else "ref", st, depth + 1)
                    if m == "operator basic_string_view" or m.startswith("operator basic_string_view") or m.startswith("operator std::basic_string_view"):
                        return self.inside(f, n["obj"], "ref", st, depth + 1)
                    if m in TO_IT and is_iter(f.ty(n)):
                        return self.inside(f, n["obj"], "it", st, depth + 1)
                    return set()
                if VIEW.search(base_ty(ot)[:60]):
                    if m in ("data", "begin", "end", "substr"):
                        return self.points(f, n["obj"], st, depth + 1, False)
                    return set()
                q = path(f, nid)
                if q and (addr or pointing(f.ty(n))):
                    # an accessor
                    return self.points(f, n["obj"], st, depth + 1, not is_ptr(ot)) if addr else set()
                return set()
            if m in STD_IT and qn.startswith("std::") and n.get("args") and (is_iter(f.ty(n)) or is_ptr(f.ty(n))):
                a = n["args"][0]
                if ctype(f.ty(f.nodes[a])):
                    return self.inside(f, a, "it", st, depth + 1)
                return self.points(f, a, st, depth + 1, False)
        return set()

    def temporary(self, f, nid):
        """is this the value of a temporary object that owns memory?"""
        while nid is not None and nid >= 0 and f.nodes[nid]["k"] in ("cast", "defarg"):
            nid = f.nodes[nid]["a"]
        if nid is None or nid < 0:
            return None
        n = f.nodes[nid]
        if n["k"] == "call":
            rt = self.p.types[n["rty"]] if n.get("rty", -1) is not None and n.get("rty", -1) >= 0 else ""
            if rt and not rt.rstrip().endswith(("&", "*")) and (ctype(rt) or n.get("op") == "+" and ctype(f.ty(n))):
                return "what %s() returns" % n.get("nm", "a function")
        if n["k"] == "ctor" and ctype(f.ty(n)) and not n.get("copy"):
            return "a temporary"
        if n["k"] == "ctor" and ctype(f.ty(n)):
            return "a temporary copy"
        return None

    def inside(self, f, onode, sort, st, depth):
        t = self.temporary(f, onode)
        if t:
            return {("temp", t)}
        q = path(f, onode)
        out = set()
        if q and "*" not in q:
            out.add((q, sort + ":" + (ctype(f.ty(f.nodes[onode])) or "")))
        o = f.nodes[onode]
        # the container itself may be an element of another
        out |= {x for x in self.points(f, onode, st, depth + 1, True) if x[0] not in ("temp", "local") or not q}
        return out

    # ---- states

    def kill(self, st, v):
        return frozenset(x for x in st if not (x[0] == "dep" and x[1] == v) and not (x[0] == "stale" and (x[1] == "v:" + v or under(x[1], "v:" + v))))

    def bind(self, f, st, v, node, isref):
        ps = self.points(f, node, st, 0, isref)
        # what is already stale stays so
        src = f.nodes[node] if node is not None and node >= 0 else None
        st2 = self.kill(st, v)
        add = set()
        if isref and self.direct_temp(f, node):
            add.add(("dep", v, "tmp:" + v, "temp:"))
        for q, s in ps:
            if q == "local":
                if s != v:
                    add.add(("dep", v, "v:" + s, "addr:"))
            elif q == "temp":
                if isref:
                    t = self.direct_temp(f, node)
                    if t:
                        add.add(("dep", v, "tmp:" + v, "temp:"))
                        continue
                add.add(("stale", "v:" + v, "%s is gone at the end of the statement" % s))
            else:
                add.add(("dep", v, q, s))
        return st2 | add

    def direct_temp(self, f, nid):
        """a reference bound to the temporary itself, or to a field of it, keeps it alive"""
        while nid is not None and nid >= 0:
            n = f.nodes[nid]
            if self.temporary(f, nid):
                return True
            if n["k"] == "cast" or n["k"] == "mem" and not n.get("arrow"):
                nid = n["a"]
            else:
                return False
        return False

    def invalidate(self, f, st, q, op, c, n, it=None):
        """a change of the container q"""
        out = set(st)
        where = "%s:%d" % (f.file.split("/")[-1], n.get("l", 0))
        itv = None
        if it is not None:
            b = it
            while f.nodes[b]["k"] in ("cast", "ctor") and (f.nodes[b].get("a", -1) >= 0 or f.nodes[b].get("args")):
                b = f.nodes[b]["a"] if f.nodes[b]["k"] == "cast" else f.nodes[b]["args"][0]
            if f.nodes[b]["k"] == "var":
                itv = f.nodes[b]["v"]
            else:
                itv = "?"
        for x in st:
            if x[0] != "dep":
                continue
            v, d, sort = x[1], x[2], x[3]
            so, sc = sort.split(":")
            if d == q:
                if c in ("vector", "basic_string"):
                    hit = True
                elif c == "deque":
                    hit = so == "it" or op == "drop"
                elif c in UNORD and op == "grow":
                    hit = so == "it"
                else:
                    hit = op == "drop"
                if op == "free":
                    hit = False
            elif under(d, q):
                hit = op == "drop" or (c in ("vector", "basic_string", "deque") and so != "own" and op == "grow" and sc not in ("vector", "map", "set", "unordered_map", "list", "deque"))
                if op == "free":
                    hit = False
            else:
                continue
            if not hit:
                continue
            if itv is not None and c not in ("vector", "basic_string", "deque"):
                # erasing one element of a node based container
                if itv == "?" or not (v == itv or self.same_elem(st, v, itv)):
                    continue
            out.discard(x)
            out.add(("stale", "v:" + v, "%s was changed (%s, %s)" % (q.replace("v:", "").split("@")[0], n.get("nm") or "=", where)))
        return frozenset(out)

    def same_elem(self, st, v, itv):
        return ("elem", v, itv) in st

    # ---- one function

    def run(self, f):
        if f.entry is None:
            return
        self.refs = set()
        for n in f.nodes:
            if n["k"] == "decl":
                for d in n["ds"]:
                    if d.get("ref"):
                        self.refs.add(d["v"])
        inn = {f.entry: frozenset()}
        work = [f.entry]
        steps = 0
        while work:
            b = work.pop()
            steps += 1
            if steps > 4000:
                break
            st = inn[b]
            for e in f.blocks[b].e:
                st = self.step(f, st, e, None)
            for s in f.blocks[b].s:
                if s is None:
                    continue
                o = inn.get(s)
                m = st if o is None else o | st
                if o is None or m != o:
                    inn[s] = m
                    if s not in work:
                        work.append(s)
        seen = set()
        for b, st in inn.items():
            for e in f.blocks[b].e:
                st = self.step(f, st, e, seen)

    def use(self, f, st, n, q, seen):
        if seen is None or not q:
            return
        for x in st:
            if x[0] == "stale" and (x[1] == q or under(q, x[1])):
                key = (n["id"], x[1])
                if key not in seen:
                    seen.add(key)
                    self.bad.append((f, n, x[1], x[2]))

    def par(self, f, nid):
        ps = f.parents.get(nid, ())
        return f.nodes[ps[0]] if ps else None

    def harmless(self, f, n):
        """is this mention of a variable not a use of its value: it's assigned, cleared, compared or redefined"""
        x = n
        while True:
            p = self.par(f, x["id"])
            if p is None:
                return False
            if p["k"] == "cast":
                if p.get("ck") in ("PointerToBoolean",):
                    return True
                x = p
                continue
            break
        if p["k"] == "assign" and p["a"] == x["id"]:
            return True
        if p["k"] == "call" and p.get("obj") == x["id"]:
            if mname(p) in REINIT or mname(p) == "operator=":
                return True
            if ctype(f.ty(f.nodes[p["obj"]])) in OWN and mname(p) in ("operator bool", "get", "operator==", "operator!="):
                return True
        if p["k"] == "call" and x["id"] in [a for a in p.get("args", ())] and p.get("qn") != "std::move":
            i = list(p["args"]).index(x["id"])
            if p.get("pm", "")[i:i + 1] == "r" and not is_iter(f.ty(x)):
                return True
            if p.get("qn") in ("std::addressof",):
                return True
        if p["k"] == "un" and p["op"] == "&":
            return True
        if p["k"] == "sizeof":
            return True
        return False

    def step(self, f, st, e, seen):
        if isinstance(e, dict):
            if e["k"] == "dtor" and e.get("v"):
                v = e["v"]
                out = set(self.kill(st, v))
                for x in st:
                    if x[0] == "dep" and (x[2] == "v:" + v or under(x[2], "v:" + v)) and x[1] != v and not x[1].startswith("__"):
                        out.discard(x)
                        out.add(("stale", "v:" + x[1], "%s was destroyed" % v.split("@")[0]))
                return frozenset(out)
            return st
        n = f.nodes[e]
        k = n["k"]
        if k == "var":
            if not self.harmless(f, n):
                if seen is not None:
                    self.n["use"] += 1
                self.use(f, st, n, "v:" + n["v"], seen)
            return st
        if k == "mem":
            if not self.harmless(f, n):
                q = path(f, e)
                if q and q.startswith("this"):
                    self.use(f, st, n, q, seen)
            return st
        if k == "decl":
            for d in n["ds"]:
                if d.get("static"):
                    continue
                i = d.get("init", -1)
                t = self.p.types[d["ty"]] if "ty" in d else ""
                if d.get("ref") or pointing(t):
                    st = self.bind(f, st, d["v"], i, bool(d.get("ref")))
                    st = self.elems(f, st, d["v"], i)
                else:
                    st = self.kill(st, d["v"])
            return st
        if k == "assign":
            self.escapes(f, st, n, seen)
            l = f.nodes[n["a"]]
            if l["k"] == "var" and l["v"] not in self.refs:
                if pointing(f.ty(l)):
                    st = self.bind(f, st, l["v"], n["b"], False)
                    return self.elems(f, st, l["v"], n["b"])
                return self.kill(st, l["v"])
            q = path(f, n["a"])
            return self.clean(st, q)
        if k == "delete":
            q = path(f, n["a"])
            if q:
                self.use(f, st, n, q, seen)
                st = st | {("stale", q, "was deleted (%s:%d)" % (f.file.split("/")[-1], n.get("l", 0)))}
            return st
        if k == "ret":
            self.escapes(f, st, n, seen)
            return st
        if k in ("call", "ctor"):
            self.escapes(f, st, n, seen)
            return self.call(f, st, n, seen)
        return st

    def elems(self, f, st, v, node):
        """v refers to the element an iterator is at"""
        if node is None or node < 0:
            return st
        st = frozenset(x for x in st if not (x[0] == "elem" and v in x[1:]))
        out = set()
        stack = [node]
        while stack:
            m = f.nodes[stack.pop()]
            if m["k"] == "var" and is_iter(f.ty(m)):
                out.add(("elem", v, m["v"]))
                out |= {("elem", v, x[2]) for x in st if x[0] == "elem" and x[1] == m["v"]}
            elif m["k"] == "var" and m["v"] in self.refs:
                out |= {("elem", v, x[2]) for x in st if x[0] == "elem" and x[1] == m["v"]}
            elif m["k"] in ("cast", "mem", "un"):
                stack.append(m["a"])
            elif m["k"] == "call" and "obj" in m:
                stack.append(m["obj"])
            elif m["k"] == "ctor":
                stack += [a for a in m.get("args", ()) if a is not None and a >= 0]
        return st | out

    def clean(self, st, q):
        if not q:
            return st
        return frozenset(x for x in st if not (x[0] == "stale" and (x[1] == q or under(x[1], q))))

    def call(self, f, st, n, seen):
        # arguments given a new value
        qn = n.get("qn", "")
        m = mname(n)
        if n["k"] == "call" and qn == "std::move" and n.get("args"):
            a = n["args"][0]
            t = f.ty(f.nodes[a])
            q = path(f, a)
            par = self.par(f, n["id"])
            if q and self.movable(t) and not self.bound(f, n):
                if ctype(t) and ctype(t) != "basic_string":
                    # what it holds moves with it
                    st = frozenset(x for x in st if not (x[0] == "dep" and (x[2] == q or under(x[2], q))))
                st = st | {("stale", q, "was moved (%s:%d)" % (f.file.split("/")[-1], n.get("l", 0)))}
            return st
        if n["k"] == "call" and n.get("nm") in FREE and n.get("args") and not qn.startswith("vrs"):
            q = path(f, n["args"][0])
            if q:
                st = st | {("stale", q, "was given to %s() (%s:%d)" % (n["nm"], f.file.split("/")[-1], n.get("l", 0)))}
            return st
        for o, op, c, it in self.direct(f, n):
            q = path(f, o)
            if q:
                st = self.invalidate(f, st, q, op, c, n, it)
        for q, op, c in self.effects(f, n):
            if op == "freed":
                if q != "this":
                    self.use(f, st, n, q, seen)
                    st = st | {("stale", q, "was let go by %s() (%s:%d)" % (n.get("nm"), f.file.split("/")[-1], n.get("l", 0)))}
                continue
            st = self.invalidate(f, st, q, op, c, n)
        if n["k"] == "call" and "obj" in n and (m in REINIT or m == "operator="):
            o = f.nodes[n["obj"]]
            q = path(f, n["obj"])
            if o["k"] == "var" and m == "operator=" and o["v"] not in self.refs and pointing(f.ty(o)) and n.get("args"):
                st = self.bind(f, st, o["v"], n["args"][0], False)
                st = self.elems(f, st, o["v"], n["args"][0])
            else:
                st = self.clean(st, q)
        pm = n.get("pm", "")
        for i, a in enumerate(n.get("args", ())):
            if a is None or a < 0:
                continue
            b = f.nodes[a]
            if pm[i:i + 1] == "r" and not is_iter(f.ty(b)):
                st = self.clean(st, path(f, a))
            elif b["k"] == "un" and b["op"] == "&":
                st = self.clean(st, path(f, b["a"]))
        return st

    def movable(self, t):
        b = base_ty(t)
        if t.startswith("const "):
            return False
        return bool(ctype(b)) or ("::" in b and not is_iter(b) and not is_ptr(b)) or b.startswith("std::")

    def bound(self, f, n):
        """auto&& x = std::move(y) moves nothing"""
        p = self.par(f, n["id"])
        while p is not None and p["k"] == "cast":
            p = self.par(f, p["id"])
        if p is not None and p["k"] == "decl":
            return any(d.get("ref") for d in p["ds"])
        return False

    # ---- what outlives the function

    def local(self, f, v):
        """is this variable's storage gone when the function returns?"""
        if v.startswith(("g:", "s:")):
            return False
        for q in f.params:
            if q["v"] == v:
                return not self.p.types[q["ty"]].rstrip().endswith("&")
        d = self.decl(f, v)
        return bool(d) and not d.get("static") and not d.get("ref")

    def decl(self, f, v):
        ds = getattr(f, "_decls", None)
        if ds is None:
            ds = f._decls = {}
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        ds[d["v"]] = d
        return ds.get(v)

    def gone(self, f, ps):
        """of what a value points into, what doesn't outlive the function"""
        for q, s in sorted(ps):
            if q == "temp":
                return s + " is gone at the end of the statement"
            if q == "local":
                return "%s is gone when %s() returns" % (s.split("@")[0], f.nm)
            if s == "temp:":
                return "a temporary is gone when %s() returns" % f.nm
            m = re.match(r"v:([^.\[*]*)(.*)$", q)
            if not m or not self.local(f, m.group(1)):
                continue
            so, sc = s.split(":")
            d = self.decl(f, m.group(1))
            t = self.p.types[d["ty"]] if d else next((self.p.types[x["ty"]] for x in f.params if x["v"] == m.group(1)), "")
            if is_ptr(t) or is_iter(t) or sc == "shared_ptr" or ctype(t) in ("shared_ptr",) or VIEW.search(base_ty(t)[:60]):
                continue
            if so in ("own", "ref") and ctype(t) in ("unique_ptr", "vector") and self.moved(f, m.group(1)):
                continue   # what it holds is handed over
            if so == "own" and m.group(2):
                continue
            return "%s is gone when %s() returns" % (m.group(1).split("@")[0], f.nm)
        return None

    def moved(self, f, v):
        for n in f.nodes:
            if n["k"] == "call" and (n.get("qn") == "std::move" and n.get("args") and path(f, n["args"][0]) == "v:" + v or n.get("nm") in ("release", "swap") and "obj" in n and path(f, n["obj"]) == "v:" + v):
                return True
        return False

    def outer(self, f, q):
        if not q:
            return False
        if q.startswith("this"):
            return not f.nm.startswith("operator()") or not f.is_lambda
        m = re.match(r"v:([^.\[*]*)(.*)$", q)
        if not m:
            return False
        v = m.group(1)
        if v.startswith(("g:", "s:")):
            return True
        return not self.local(f, v) and v not in self.refs and not v.startswith("__")

    def keeps(self, f, i):
        """is parameter i (a pointer, view or function) still referred to once the function has returned?"""
        key = (f.usr, i)
        k = self.keep
        if key in k:
            return k[key]
        k[key] = False
        if i >= len(f.params):
            return False
        v = f.params[i]["v"]

        def carries(nid, depth=0):
            if nid is None or nid < 0 or depth > 8:
                return False
            n = f.nodes[nid]
            if n["k"] == "var":
                return n["v"] == v
            if n["k"] in ("cast", "defarg"):
                return carries(n["a"], depth + 1)
            if n["k"] == "ctor":
                return any(carries(a, depth + 1) for a in n.get("args", ()))
            if n["k"] == "call" and n.get("qn") in ("std::move", "std::forward", "std::ref", "std::make_unique", "std::make_shared", "std::bind"):
                return any(carries(a, depth + 1) for a in n.get("args", ()))
            if n["k"] == "lambda":
                return any(c.get("v") == v for c in n.get("caps", ()))
            return False
        for B in f.blocks.values():
            for e in B.e:
                if isinstance(e, dict) and e.get("k") == "init" and e.get("a", -1) is not None and carries(e.get("a", -1)):
                    k[key] = True
        for n in f.nodes:
            if k[key]:
                break
            if n["k"] == "assign" and carries(n["b"]) and (path(f, n["a"]) or "").startswith("this"):
                k[key] = True
            elif n["k"] == "call":
                if n.get("op") == "=" and "obj" in n and n.get("args") and carries(n["args"][0]) and (path(f, n["obj"]) or "").startswith("this"):
                    k[key] = True
                elif "obj" in n and ctype(f.ty(f.nodes[n["obj"]])) and (mname(n) in GROW or mname(n) in ("assign", "swap")) and any(carries(a) for a in n.get("args", ())) and (path(f, n["obj"]) or "").startswith("this"):
                    k[key] = True
                elif self.p.targets(f, n):
                    o = path(f, n["obj"]) if "obj" in n else "this"
                    for j, a in enumerate(n.get("args", ())):
                        if a is not None and a >= 0 and carries(a) and (o or "").startswith("this"):
                            if any(self.keeps(t, j) for t in self.p.targets(f, n)):
                                k[key] = True
            elif n["k"] == "ctor" and re.match(r"^(std::)?thread$", base_ty(f.ty(n))) and any(carries(a) for a in n.get("args", ())):
                k[key] = True
        return k[key]

    keep = {}

    def escapes(self, f, st, n, seen):
        """a value that outlives what it points into"""
        if seen is None:
            return
        if n["k"] == "ret" and n.get("a", -1) is not None and n.get("a", -1) >= 0 and not f.is_lambda:
            rt = self.p.types[f.rty]
            if rt.rstrip().endswith("&") or pointing(rt):
                self.n["dangling"] += 1
                w = self.gone(f, self.points(f, n["a"], st, 0, rt.rstrip().endswith("&")))
                if w:
                    self.found(f, n, "returned", w, seen)
        elif n["k"] == "assign" and pointing(f.ty(f.nodes[n["a"]])) and self.outer(f, path(f, n["a"])) and f.nodes[n["a"]]["k"] != "var":
            self.n["dangling"] += 1
            w = self.gone(f, self.points(f, n["b"], st))
            if w and not self.unset(f, n, path(f, n["a"])):
                self.found(f, n, path(f, n["a"]), w, seen)
        elif n["k"] == "call" and "obj" in n and ctype(f.ty(f.nodes[n["obj"]])) and mname(n) in GROW and self.outer(f, path(f, n["obj"])):
            for a in n.get("args", ()):
                if a is not None and a >= 0 and pointing(f.ty(f.nodes[a])) and not is_iter(f.ty(f.nodes[a])):
                    self.n["dangling"] += 1
                    w = self.gone(f, self.points(f, a, st))
                    if w and pointing_elem(f.ty(f.nodes[n["obj"]])):
                        self.found(f, n, path(f, n["obj"]), w, seen)
        elif n["k"] == "call":
            ts = self.p.targets(f, n)
            if ts and self.outer(f, path(f, n["obj"]) if "obj" in n else None):
                for i, a in enumerate(n.get("args", ())):
                    if a is not None and a >= 0 and (is_ptr(f.ty(f.nodes[a])) or VIEW.search(base_ty(f.ty(f.nodes[a]))[:60])):
                        w = self.gone(f, self.points(f, a, st))
                        if w and n.get("nm") not in BORROW and any(self.keeps(t, i) for t in ts):
                            self.n["dangling"] += 1
                            self.found(f, n, "kept by %s()" % n.get("nm"), w, seen)

    def unset(self, f, n, q):
        return any(m["k"] == "assign" and m["id"] != n["id"] and path(f, m["a"]) == q for m in f.nodes)

    def found(self, f, n, what, why, seen):
        key = (n["id"], what)
        if key not in seen:
            seen.add(key)
            self.bad.append((f, n, what, why))

    # ---- lambdas that refer to locals

    def lambdas(self, f):
        """[(lambda node, captured by reference, why it outlives the function or None)]"""
        out = []
        self.refs = {d["v"] for n in f.nodes if n["k"] == "decl" for d in n["ds"] if d.get("ref")}
        for n in f.nodes:
            if n["k"] != "lambda":
                continue
            caps = [c["v"].split("@")[0] for c in n.get("caps", ()) if c.get("byref") and "v" in c]
            if not caps:
                continue
            out.append((n, caps, self.consumed(f, n)))
        return out

    def consumed(self, f, n, depth=0):
        if depth > 6:
            return None
        p = self.par(f, n["id"])
        if p is None:
            return None
        k = p["k"]
        if k in ("cast", "defarg", "cond"):
            return self.consumed(f, p, depth + 1)
        if k == "ctor":
            t = base_ty(f.ty(p))
            if re.match(r"^(std::)?j?thread$", t):
                r = self.consumed(f, p, depth + 1)
                return r or ("runs in a thread" if not self.joined(f, p) else None)
            return self.consumed(f, p, depth + 1)
        if k == "decl":
            for d in p["ds"]:
                if d.get("init", -1) is not None and d.get("init", -1) >= 0:
                    for m in f.nodes:
                        if m["k"] == "var" and m["v"] == d["v"]:
                            r = self.consumed(f, m, depth + 1)
                            if r:
                                return r
            return None
        if k == "ret":
            return "is returned"
        if k == "assign":
            return "is kept in %s" % path(f, p["a"]) if self.outer(f, path(f, p["a"])) else None
        if k == "call":
            m = mname(p)
            qn = p.get("qn", "")
            if p.get("obj") == n["id"]:
                return None
            if qn in ("std::make_unique", "std::make_shared") and "thread" in base_ty(f.ty(p)):
                return "runs in a thread"
            if qn in ("std::move", "std::forward", "std::bind", "std::ref", "std::make_unique", "std::make_shared"):
                return self.consumed(f, p, depth + 1)
            if m == "operator=" and "obj" in p:
                return "is kept in %s" % path(f, p["obj"]) if self.outer(f, path(f, p["obj"])) else None
            if "obj" in p and ctype(f.ty(f.nodes[p["obj"]])) and m in GROW | {"assign"}:
                return "is kept in %s" % path(f, p["obj"]) if self.outer(f, path(f, p["obj"])) else None
            ts = self.p.targets(f, p)
            for i, a in enumerate(p.get("args", ())):
                if a == n["id"]:
                    if any(self.keeps(t, i) for t in ts) and ("obj" not in p or self.outer(f, path(f, p["obj"]))):
                        return "is kept by %s()" % p.get("nm")
            if qn == "std::async":
                return "runs in a thread"
        return None

    def joined(self, f, p):
        """is the thread a local variable that the function joins?"""
        return any(m["k"] == "call" and m.get("nm") == "join" for m in f.nodes)


def pointing_elem(t):
    m = re.search(r"<(.*)>", base_ty(t))
    return bool(m) and ("*" in m.group(1) or bool(VIEW.search(m.group(1))))


def run(c, inscope):
    p = c.prog
    L = Life(p)
    from .mem import fkey
    for f in p.fns.values():
        if not inscope(f):
            continue
        n0 = L.n["use"], L.n["dangling"]
        b0 = len(L.bad)
        L.run(f)
        u, d = L.n["use"] - n0[0], L.n["dangling"] - n0[1]
        b = L.bad[b0:]
        done = set()
        for f, n, q, why in b:
            rid = "stale" if q.startswith(("v:", "this")) and n["k"] not in ("ret",) and "is gone when" not in why else "dangling"
            nm = q.replace("v:", "").split("@")[0] if rid == "stale" or q.startswith(("v:", "this")) else q
            k = "%s %s" % (fkey(f), nm)
            if (rid, k) in done:
                continue
            done.add((rid, k))
            if rid == "stale":
                c.bad(rid, f.loc(n), "%s uses %s: %s" % (fkey(f), nm, why), key=k)
            else:
                c.bad(rid, f.loc(n), "%s: %s points to what doesn't last: %s" % (fkey(f), nm, why), key=k)
        if u and not any(x[2].startswith(("v:", "this")) for x in b):
            c.ok("stale", "%s:%d" % (f.file, f.line), "%s: %d uses of variables and fields" % (fkey(f), u))
        for i in range(d - sum(1 for x in b if "is gone" in x[3])):
            c.ok("dangling", "%s:%d" % (f.file, f.line), "%s: value returned or kept" % fkey(f))
        for n, caps, why in L.lambdas(f):
            what = "%s: a function object refers to %s" % (fkey(f), ", ".join(caps))
            c.expect("captures", not why, f.loc(n), what + (", and %s" % why if why else " and is only used meanwhile"), key="%s %s" % (fkey(f), ",".join(caps)))
    c.extra["uses_examined"] = L.n["use"]
