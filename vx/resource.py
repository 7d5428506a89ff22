"""What is opened, created or taken is closed, deleted or handed over, on every path."""
import re
from . import facts as facts_mod
from .facts import Lin, base_ty
from .mem import fkey
from .paths import path

# what acquires -> what releases
ACQ = {
    "fopen": ("fclose",), "fdopen": ("fclose",), "popen": ("pclose",), "opendir": ("closedir",),
    "png_create_read_struct": ("png_destroy_read_struct",), "png_create_write_struct": ("png_destroy_write_struct",),
    "png_create_info_struct": ("png_destroy_read_struct", "png_destroy_write_struct", "png_destroy_info_struct"),
    "tjInitCompress": ("tjDestroy",), "tjInitDecompress": ("tjDestroy",), "tj3Init": ("tj3Destroy",),
    "opus_multistream_encoder_create": ("opus_multistream_encoder_destroy",), "opus_multistream_decoder_create": ("opus_multistream_decoder_destroy",),
    "ZSTD_createCCtx": ("ZSTD_freeCCtx", "ZSTD_freeCStream"), "ZSTD_createDCtx": ("ZSTD_freeDCtx", "ZSTD_freeDStream"), "ZSTD_createCStream": ("ZSTD_freeCStream", "ZSTD_freeCCtx"),
    "ZSTD_createDStream": ("ZSTD_freeDStream", "ZSTD_freeDCtx"), "XXH64_createState": ("XXH64_freeState",), "XXH3_createState": ("XXH3_freeState",),
    "malloc": ("free",), "calloc": ("free",), "aligned_alloc": ("free",), "strdup": ("free",), "realpath": ("free",),
}
SYS = {"open": ("close",), "open64": ("close",), "dup": ("close",), "creat": ("close",), "mkstemp": ("close",)}
# what acquires through an argument (its index)
OUT = {
    "tjCompress2": (6, ("tjFree",)), "LZ4F_createDecompressionContext": (0, ("LZ4F_freeDecompressionContext",)), "LZ4F_createCompressionContext": (0, ("LZ4F_freeCompressionContext",)),
    "posix_memalign": (0, ("free",)), "jpeg_CreateDecompress": (0, ("jpeg_destroy_decompress",)), "jpeg_CreateCompress": (0, ("jpeg_destroy_compress",)),
}
RELEASERS = {r for x in list(ACQ.values()) + list(SYS.values()) + [y[1] for y in OUT.values()] for r in x}
CONSUMERS = {"emplace_back", "emplace_front", "push_back", "push_front", "insert", "emplace", "reset", "push", "insert_or_assign", "try_emplace"}


def core(f, nid):
    n = f.nodes[nid]
    while n["k"] == "cast":
        n = f.nodes[n["a"]]
    return n


class Res:
    def __init__(self, p):
        self.p = p
        self.acq = {}
        self.rel = {}
        self.owned = set()   # types whose objects are deleted through plain pointers
        for f in p.fns.values():
            for n in f.nodes:
                if n["k"] == "delete":
                    x = core(f, n["a"])
                    t = base_ty(f.ty(x)).rstrip("* ").strip()
                    if t.startswith("vrs::"):
                        self.owned.add(t)

    def acquires(self, f, nid, depth=0):
        """names releasing what this expression acquires, or None"""
        n = core(f, nid)
        if n["k"] == "new":
            return ("delete",)
        if n["k"] != "call":
            return None
        if n.get("nm") in ACQ and "obj" not in n and not n.get("qn", "").startswith("vrs"):
            return ACQ[n["nm"]]
        if n.get("nm") in SYS and n.get("qn") == n["nm"]:
            return SYS[n["nm"]]
        for t in self.p.targets(f, n):
            if t.cls is None or t.cls == "":
                r = self.returns(t, depth)
                if r:
                    return r
        return None

    def returns(self, t, depth):
        """a function that returns what it acquired"""
        if t.usr in self.acq:
            return self.acq[t.usr]
        self.acq[t.usr] = None
        if depth < 4:
            for n in t.nodes:
                if n["k"] == "ret" and n.get("a", -1) is not None and n.get("a", -1) >= 0 and t.ty(core(t, n["a"])).rstrip().endswith("*"):
                    r = self.acquires(t, n["a"], depth + 1)
                    if r:
                        self.acq[t.usr] = r
                        break
        return self.acq[t.usr]

    def arg(self, f, a):
        """the path of what an argument names, through & and casts"""
        if a is None or a < 0:
            return None
        x = core(f, a)
        if x["k"] == "un" and x["op"] == "&":
            x = core(f, x["a"])
        return path(f, x["id"])

    def releases(self, f, n, depth=0):
        """[(path, name)] released by this node"""
        k = n["k"]
        out = []
        if k == "delete":
            q = path(f, core(f, n["a"])["id"])
            if q:
                out.append((q, "delete"))
        elif k == "call":
            if n.get("nm") in RELEASERS and "obj" not in n and not n.get("qn", "").startswith("vrs"):
                for a in n.get("args", ()):
                    q = self.arg(f, a)
                    if q:
                        out.append((q, n["nm"]))
            elif n.get("nm") == "operator delete":
                pass
            else:
                ts = self.p.targets(f, n)
                if ts and depth < 4:
                    for i, a in enumerate(n.get("args", ())):
                        q = self.arg(f, a)
                        if q:
                            rs = [self.param(t, i, depth) for t in ts]
                            for r in set.intersection(*rs) if rs else ():
                                out.append((q, r))
                    if "obj" in n:
                        q = path(f, core(f, n["obj"])["id"])
                        if q:
                            rs = [self.param(t, -1, depth) for t in ts]
                            for r in set.intersection(*rs) if rs else ():
                                out.append((q, r))
        return out

    def param(self, t, i, depth):
        """what the function does with its i-th parameter (-1: its object) on every path: names of releases"""
        key = (t.usr, i)
        if key in self.rel:
            return self.rel[key]
        self.rel[key] = set()
        if t.entry is None or i >= len(t.params):
            return set()
        q = "this" if i < 0 else "v:" + t.params[i]["v"]
        names = set()
        for n in t.nodes:
            if n["k"] in ("delete", "call"):
                for o, r in self.releases(t, n, depth + 1):
                    if o == q or o == "*" + q:
                        names.add(r)
                if n["k"] == "call":
                    for a in n.get("args", ()):
                        if a is not None and a >= 0 and i < 0 and core(t, a)["k"] == "this" and any(self.param(u, j, depth + 1) for u in self.p.targets(t, n) for j in range(len(u.params))):
                            for u in self.p.targets(t, n):
                                for j, b in enumerate(n["args"]):
                                    if b is not None and b >= 0 and core(t, b)["k"] == "this":
                                        names |= self.param(u, j, depth + 1)
        good = set()
        for r in names:
            run = Run(self, t, {q: (r,)})
            if not run.leaks():
                good.add(r)
        self.rel[key] = good
        return good


class Run:
    """forward may-analysis of what is held: path -> (names releasing it)"""

    def __init__(self, R, f, start=None, init=None):
        self.R = R
        self.f = f
        self.F = facts_mod.of(f)
        self.start = start or {}
        self.taken = self.takers()
        self.origin = {}
        self.cond = {}
        self.solve()

    def fixed(self):
        """parameters that never change"""
        r = self.__dict__.get("_fixed")
        if r is None:
            f = self.f
            ch = {f.nodes[n["a"]].get("v") for n in f.nodes if n["k"] in ("assign", "cassign") or n["k"] == "un" and n["op"] in ("++", "--", "&")}
            r = self._fixed = {"v:" + q["v"] for q in f.params if q["v"] not in ch and not self.R.p.types[q["ty"]].rstrip().endswith("&")}
        return r

    def takers(self):
        """containers of owned pointers that this function takes elements out of"""
        f = self.f
        out = set()
        for n in f.nodes:
            if n["k"] == "call" and n.get("nm") in ("erase", "clear", "pop_back", "pop_front") and "obj" in n:
                q = path(f, n["obj"])
                if q:
                    out.add(q)
        return out

    def piecewise(self):
        """containers which this function takes elements out of one at a time"""
        r = self.__dict__.get("_piecewise")
        if r is None:
            f = self.f
            one, all = set(), set()
            for n in f.nodes:
                if n["k"] == "call" and "obj" in n:
                    if n.get("nm") in ("pop_back", "pop_front") or n.get("nm") == "erase" and len(n.get("args", ())) == 1:
                        one.add(path(f, n["obj"]))
                    elif n.get("nm") in ("erase", "clear", "swap", "splice", "operator="):
                        all.add(path(f, n["obj"]))
            r = self._piecewise = one - all - {None}
        return r

    def from_taken(self, nid):
        """is this expression an element of a container this function empties?"""
        f = self.f
        x = core(f, nid)
        t = base_ty(f.ty(x))
        if not t.rstrip().endswith("*") or t.rstrip("* ").strip() not in self.R.owned:
            return None
        q = path(f, x["id"])
        n = x
        for _ in range(8):
            if n["k"] == "mem":
                n = core(f, n["a"])
            elif n["k"] == "call" and n.get("op") in ("*", "->", "[]") and "obj" in n:
                n = core(f, n["obj"])
            elif n["k"] == "call" and n.get("nm") in ("back", "front", "begin", "cbegin", "rbegin") and "obj" in n:
                q = path(f, n["obj"])
                return q if q in self.taken else None
            elif n["k"] == "un" and n["op"] == "*":
                n = core(f, n["a"])
            elif n["k"] == "ctor" and len(n.get("args", ())) == 1:
                n = core(f, n["args"][0])
            elif n["k"] == "var":
                ds = self.defs().get(n["v"], ())
                if not ds:
                    return None
                for d in ds:
                    q = self.container(d)
                    if q in self.taken:
                        return q
                return None
            else:
                return None
        return None

    def container(self, nid):
        """the container an iterator or element expression comes from"""
        f = self.f
        n = core(f, nid)
        for _ in range(8):
            if n["k"] == "ctor" and len(n.get("args", ())) == 1:
                n = core(f, n["args"][0])
            elif n["k"] == "call" and n.get("nm") in ("begin", "end", "find", "back", "front", "lower_bound", "upper_bound", "cbegin") and "obj" in n:
                n = core(f, n["obj"])
            elif n["k"] == "call" and n.get("op") in ("*", "->", "++", "--") and "obj" in n:
                n = core(f, n["obj"])
            elif n["k"] == "cond":
                return self.container(n["a"])
            elif n["k"] == "un" and n["op"] in ("*", "++", "--"):
                n = core(f, n["a"])
            elif n["k"] == "var" and n["nm"].startswith("__"):
                ds = self.defs().get(n["v"], ())
                if not ds:
                    return None
                n = core(f, ds[0])
            else:
                return path(f, n["id"])
        return None

    def defs(self):
        d = self.__dict__.get("_defs")
        if d is None:
            d = self._defs = {}
            for n in self.f.nodes:
                if n["k"] == "decl":
                    for x in n["ds"]:
                        i = x.get("init", -1)
                        if i is not None and i >= 0:
                            d.setdefault(x["v"], []).append(i)
                elif n["k"] == "assign":
                    l = self.f.nodes[n["a"]]
                    if l["k"] == "var":
                        d.setdefault(l["v"], []).append(n["b"])
                elif n["k"] == "call" and n.get("op") == "=" and "obj" in n and n.get("args"):
                    l = self.f.nodes[n["obj"]]
                    if l["k"] == "var":
                        d.setdefault(l["v"], []).append(n["args"][0])
        return d

    def local(self, q):
        return q is not None and q.startswith("v:") and "." not in q and "[" not in q and "*" not in q and not q.startswith(("v:g:", "v:s:"))

    def gain(self, st, q, names, where, lost):
        if q in st and lost is not None and ("in", q) not in st:
            lost.append((q, where, self.origin.get(q)))
        st.pop(("in", q), None)
        st[q] = names
        self.origin[q] = where
        fs = self.F.at(where["id"]) or ()
        known = {(x[0], x[1][1]) for x in fs if x[0] in "ZN" and isinstance(x[1], tuple) and x[1][0] == "p" and x[1][1] in self.fixed()}
        self.cond[q] = known if q not in self.cond else self.cond[q] & known

    def set(self, st, q, v, where, lost):
        """assignment of an expression to a path"""
        f, R = self.f, self.R
        names = R.acquires(f, v)
        src = path(f, core(f, v)["id"])
        if self.local(q):
            if names:
                self.gain(st, q, names, where, lost)
            elif src in st and self.local(src):
                n = st.pop(src)
                still = st.pop(("in", src), None)
                self.gain(st, q, n, self.origin.get(src), lost)
                if still:
                    st[("in", q)] = still
            elif self.from_taken(v):
                self.gain(st, q, ("delete",), where, lost)
                if self.from_taken(v) in self.piecewise():
                    st[("in", q)] = self.from_taken(v)   # until it's removed, the container has it
            else:
                if q in st and lost is not None and ("in", q) not in st:
                    lost.append((q, where, self.origin.get(q)))
                st.pop(q, None)
        elif src in st:
            st.pop(src)   # kept by something else

    def step(self, st, b, i, e, lost=None):
        f, R = self.f, self.R
        if isinstance(e, dict):
            if e.get("k") == "dtor" and e.get("v") is not None:
                q = "v:" + e["v"]
                if q in st and False:
                    pass
            return
        if not isinstance(e, int):
            return
        n = f.nodes[e]
        k = n["k"]
        if k == "decl":
            for d in n["ds"]:
                v = d.get("init", -1)
                if d.get("ref") or d.get("static"):
                    continue
                q = "v:" + d["v"]
                if q in st and lost is not None and ("in", q) not in st:
                    lost.append((q, n, self.origin.get(q)))
                st.pop(q, None)
                st.pop(("in", q), None)
                if v is not None and v >= 0 and not d["nm"].startswith("__"):
                    self.set(st, q, v, n, lost)
        elif k == "assign":
            self.set(st, path(f, n["a"]), n["b"], n, lost)
        elif k == "lambda":
            g = R.p.lambda_of(f, e)
            for cap in n.get("caps", ()):
                q = "v:" + cap["v"] if cap.get("v") is not None else None
                if q in st and g is not None and any(m["k"] in ("call", "delete") and (m.get("nm") in st[q] or m["k"] in st[q]) for m in g.nodes):
                    del st[q]   # left to a guard
        elif k == "ret":
            if n.get("a", -1) is not None and n.get("a", -1) >= 0:
                st.pop(path(f, core(f, n["a"])["id"]), None)
                self.uses(st, n["a"])
        elif k == "initlist":
            for a in n.get("args", ()):
                if a is not None and a >= 0:
                    st.pop(path(f, core(f, a)["id"]), None)
        elif k in ("call", "ctor", "delete"):
            for q, r in R.releases(f, n):
                if q in st and r in st[q]:
                    del st[q]
            if k == "call" and "obj" in n and n.get("nm") in ("pop_back", "pop_front", "erase"):
                q = path(f, n["obj"])
                for x in [x for x in st if x[0] == "in" and st[x] == q]:
                    del st[x]
            if k == "delete":
                return
            if n.get("nm") in OUT and "obj" not in n:
                i, names = OUT[n["nm"]]
                if i < len(n.get("args", ())):
                    q = R.arg(f, n["args"][i])
                    if self.local(q):
                        self.gain(st, q, names, n, lost)
            if n.get("nm") == "swap" and len(n.get("args", ())) == 2:
                a, b = (R.arg(f, x) for x in n["args"])
                x, y = st.pop(a, None), st.pop(b, None)
                st.pop(("in", a), None), st.pop(("in", b), None)
                if x:
                    st[b] = x
                    self.origin.setdefault(b, self.origin.get(a))
                if y:
                    st[a] = y
                return
            if n.get("op") == "=" and "obj" in n and n.get("args"):
                st.pop(path(f, core(f, n["args"][0])["id"]), None)
            if k == "ctor" or n.get("nm") in CONSUMERS or n.get("nm") in ("unique_ptr", "shared_ptr"):
                for a in n.get("args", ()):
                    if a is not None and a >= 0:
                        q = path(f, core(f, a)["id"])
                        if q in st and (k == "ctor" or st[q] == ("delete",)):
                            del st[q]
            elif k == "call":
                for i, a in enumerate(n.get("args", ())):
                    if a is None or a < 0:
                        continue
                    q = path(f, core(f, a)["id"])
                    if q in st and self.keeps(n, i):
                        del st[q]

    def keeps(self, n, i):
        """may the function keep its i-th argument?"""
        ts = self.R.p.targets(self.f, n)
        for t in ts:
            if i >= len(t.params):
                continue
            v = "v:" + t.params[i]["v"]
            for m in t.nodes:
                if m["k"] == "assign" and path(t, core(t, m["b"])["id"]) == v:
                    l = path(t, m["a"])
                    if l and not (l.startswith("v:") and "." not in l):
                        return True
                elif m["k"] in ("ctor",) or m["k"] == "call" and m.get("nm") in CONSUMERS:
                    for a in m.get("args", ()):
                        if a is not None and a >= 0 and path(t, core(t, a)["id"]) == v:
                            return True
            for B in t.blocks.values():
                for e in B.e:
                    if isinstance(e, dict) and e.get("k") == "init" and e.get("a", -1) is not None and e.get("a", -1) >= 0 and path(t, core(t, e["a"])["id"]) == v:
                        return True
        return False

    def uses(self, st, nid):
        """a smart pointer or a struct returned with it"""
        f = self.f
        n = core(f, nid)
        if n["k"] in ("ctor", "initlist", "cond", "call"):
            for a in list(n.get("args", ())) + ([n["a"], n["b"]] if n["k"] == "cond" else []):
                if a is not None and a >= 0 and n["k"] != "call":
                    st.pop(path(f, core(f, a)["id"]), None)

    def enter(self, s, st, b=None, i=0):
        """what isn't held when going to a block by this edge, since it's null"""
        fs = self.F.inn.get(s) or ()
        B = self.f.blocks.get(b)
        zero, nonz = set(), set()
        if B is not None and B.c is not None and B.c >= 0 and len(B.s) == 2 and B.tk != "switch":
            nulls(self.f, B.c, i == 0, zero)
            if core(self.f, B.c)["k"] != "bin" or core(self.f, B.c)["op"] in ("==", "!="):
                nulls(self.f, B.c, i != 0, nonz)
        out = {}
        for q, names in st.items():
            if q[0] == "in":
                out[q] = names
                continue
            t = ("p", q)
            if any(k == "Z" and v in nonz or k == "N" and v in zero for k, v in self.cond.get(q, ())):
                continue   # not the case it was acquired in
            if (("Z", t) in fs or q in zero) and names != ("close",):
                continue
            if names == ("close",) and self.F.le(fs, Lin(0, {t: 1}), Lin(-1)):
                continue
            if any(x[0] == "E" and t in (x[1], x[2]) and (("Z", x[2] if x[1] == t else x[1]) in fs) for x in fs):
                continue
            out[q] = names
        return out

    def solve(self):
        f = self.f
        self.inn = {f.entry: dict(self.start)}
        work = [f.entry]
        while work:
            b = work.pop()
            st = dict(self.inn[b])
            for i, e in enumerate(f.blocks[b].e):
                self.step(st, b, i, e)
            for i, s in enumerate(f.blocks[b].s):
                if s is None or s < 0:
                    continue
                o = self.enter(s, st, b, i)
                old = self.inn.get(s)
                if old is None:
                    self.inn[s] = dict(o)
                    work.append(s)
                else:
                    new = [q for q in o if q not in old and (q[0] != "in" or q[1] not in old)]
                    out = [q for q in old if q[0] == "in" and q not in o and q[1] in o]
                    for q in out:
                        del old[q]
                    if new or out:
                        for q in new:
                            old[q] = o[q]
                        if s not in work:
                            work.append(s)

    def leaks(self):
        """[(path, where it's left, where it was acquired)]"""
        f = self.f
        out = []
        for b in sorted(self.inn):
            st = dict(self.inn[b])
            last = None
            for i, e in enumerate(f.blocks[b].e):
                if isinstance(e, int):
                    last = f.nodes[e]
                self.step(st, b, i, e, out)
            if f.exit in f.blocks[b].s and not noreturn(f, b):
                held = self.enter(f.exit, st, b, f.blocks[b].s.index(f.exit))
                for q in sorted(q for q in held if q[0] != "in" and ("in", q) not in held):
                    out.append((q, last, self.origin.get(q)))
            elif not [s for s in f.blocks[b].s if s is not None and s >= 0] and b != f.exit:
                pass
        return out


def nulls(f, c, truth, out):
    """paths known to be null when a condition is true (false)"""
    n = core(f, c)
    if n["k"] == "un" and n["op"] == "!":
        nulls(f, n["a"], not truth, out)
    elif n["k"] == "bin" and n["op"] in ("==", "!="):
        for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
            if core(f, b)["k"] == "null" and truth == (n["op"] == "=="):
                q = path(f, core(f, a)["id"])
                if q:
                    out.add(q)
    elif n["k"] == "bin" and n["op"] in ("&&", "||"):
        # the whole condition: both sides when it's known
        if truth == (n["op"] == "&&"):
            nulls(f, n["a"], truth, out)
            nulls(f, n["b"], truth, out)
    elif not truth and n["k"] in ("var", "mem"):
        q = path(f, n["id"])
        if q:
            out.add(q)


def noreturn(f, b):
    for e in f.blocks[b].e:
        if isinstance(e, int) and f.nodes[e]["k"] == "call" and f.nodes[e].get("nm") in ("abort", "exit", "_exit", "longjmp", "terminate"):
            return True
    return any(isinstance(e, int) and f.nodes[e]["k"] == "throw" for e in f.blocks[b].e)


def run(c, exc, inscope):
    p = c.prog
    R = Res(p)
    und = {}
    n_acq = 0
    for f in p.view():
        if not inscope(f) or f.entry is None:
            continue
        r = Run(R, f)
        got = []
        for q in r.origin:
            got.append(q)
        bad = {}
        for q, where, org in r.leaks():
            bad.setdefault(q, (where, org))
        for q in sorted(got):
            if q not in bad:
                c.ok("locals", f.loc(r.origin[q]), "%s is released or handed over on every path of %s" % (nm(q), fkey(f)))
        for q, (where, org) in sorted(bad.items()):
            w = f.loc(where) if where else f.file + ":%d" % f.line
            und.setdefault(("locals", fkey(f)), []).append((w, "%s may leave without releasing %s%s" % (fkey(f), nm(q), " (acquired at %s)" % f.loc(org) if org else ""), nm(q)))
        # pointers released from their owner
        for n in f.nodes:
            if n["k"] == "call" and n.get("nm") == "release" and "obj" in n and "unique_ptr" in f.ty(f.nodes[n["obj"]]):
                up = [f.nodes[u] for u in f.parents.get(n["id"], ())]
                dyn = False
                while up and up[0]["k"] == "cast":
                    dyn = dyn or up[0].get("ck") == "Dynamic"
                    up = [f.nodes[u] for u in f.parents.get(up[0]["id"], ())]
                w = f.loc(n)
                if dyn:
                    und.setdefault(("locals", fkey(f)), []).append((w, "%s loses an object given up by its owner when it isn't of the type it is cast to" % fkey(f), "release"))
                elif not up:
                    q = path(f, n["obj"])
                    if q and any(m["k"] == "call" and m.get("nm") == "get" and "obj" in m and path(f, m["obj"]) == q and f.parents.get(m["id"]) for m in f.nodes):
                        c.ok("locals", w, "what is released by its owner was given to another")
                        continue
                    und.setdefault(("locals", fkey(f)), []).append((w, "%s drops an object given up by its owner" % fkey(f), "release"))
                else:
                    c.ok("locals", w, "what is released by its owner is given to another")
    members(c, R, und, inscope)
    for (rule, key), xs in sorted(und.items()):
        n, why = exc.get((rule, key), (0, None))
        if len({x[2] for x in xs}) <= n:
            for where, text, what in xs:
                c.excused.append(("%s %s" % (where, text), why))
            continue
        done = set()
        for where, text, what in xs:
            if what not in done:
                done.add(what)
                c.bad(rule, where, text, key="%s %s" % (key, what))


def nm(q):
    return re.sub(r"@\d+:\d+i?", "", q.replace("v:", ""))


def members(c, R, und, inscope):
    """what is kept in a member is released by the destructor of its class, and before being replaced"""
    p = c.prog
    got = {}
    for f in p.fns.values():
        if not inscope(f):
            continue
        for B in f.blocks.values():
            for e in B.e:
                if isinstance(e, dict) and e.get("k") == "init" and "f" in e and e.get("a", -1) is not None and e.get("a", -1) >= 0:
                    r = R.acquires(f, e["a"])
                    if r and f.nodes[core(f, e["a"])["id"]]["k"] in ("call", "new"):
                        got.setdefault(e["f"], []).append((f, core(f, e["a"]), r, "this." + e["nm"]))
        for n in f.nodes:
            if n["k"] == "assign" and f.nodes[n["a"]]["k"] == "mem" and f.ty(f.nodes[n["a"]]).rstrip().endswith(("*", "int")):
                r = R.acquires(f, n["b"])
                x = core(f, n["b"])
                if not r and x["k"] == "var":
                    ds = [d for m in f.nodes if m["k"] == "decl" for d in m["ds"] if d["v"] == x["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0]
                    es = [d["init"] for d in ds] + [m["b"] for m in f.nodes if m["k"] == "assign" and path(f, m["a"]) == "v:" + x["v"]]
                    for i in es:
                        r = r or R.acquires(f, i)
                if r:
                    got.setdefault(f.nodes[n["a"]]["f"], []).append((f, n, r, path(f, n["a"])))
            elif n["k"] == "call" and n.get("nm") in OUT and "obj" not in n:
                i, r = OUT[n["nm"]]
                if i < len(n.get("args", ())):
                    q = R.arg(f, n["args"][i])
                    x = core(f, n["args"][i])
                    if x["k"] == "un":
                        x = core(f, x["a"])
                    if x["k"] == "mem":
                        got.setdefault(x["f"], []).append((f, n, r, q))
    clears(p, inscope, got)
    for fu, xs in sorted(got.items()):
        own = p.field_owner.get(fu)
        if own is None:
            continue
        rec, fld = own
        names = set()
        for f, n, r, q in xs:
            names |= set(r)
        cls = [u for u, r in p.records.items() if r is rec or r["qn"] == rec["qn"]]
        dts = [f for f in p.fns.values() if f.cls in cls and f.nm.startswith("~")]
        w = "%s:%d" % (rec["file"], fld.get("line", 0))
        key = rec["qn"] + "::" + fld["nm"]
        if not dts:
            und.setdefault(("members", key), []).append((w, "%s keeps what it must release, in a class without a destructor" % key, "dtor"))
            continue
        for d in dts:
            if frees(p, R, d, fu, names):
                c.ok("members", d.file + ":%d" % d.line, "%s releases %s" % (d.display(), fld["nm"]))
            else:
                und.setdefault(("members", key), []).append((d.file + ":%d" % d.line, "%s doesn't release %s" % (d.display(), fld["nm"]), "dtor"))
        for f, n, r, q in xs:
            if f.d.get("ctor"):
                c.ok("members", f.loc(n), "%s is set by the constructor" % fld["nm"])
                continue
            if q and empty_before(p, R, f, n, q, fu, names):
                c.ok("members", f.loc(n), "%s held nothing before" % fld["nm"])
            else:
                und.setdefault(("members", key), []).append((f.loc(n), "%s replaces %s, which may still hold something" % (f.display(), fld["nm"]), "replace"))


def clears(p, inscope, got):
    """assignments of null to what is kept, which must not be the last trace of it"""
    for f in p.fns.values():
        if not inscope(f):
            continue
        for n in f.nodes:
            if n["k"] == "assign" and f.nodes[n["a"]]["k"] == "mem" and f.nodes[n["a"]].get("f") in got and core(f, n["b"])["k"] in ("null", "int"):
                q = path(f, n["a"])
                if q and not any(q == path(f, core(f, v)["id"]) for v in values(f)):
                    xs = got[f.nodes[n["a"]]["f"]]
                    xs.append((f, n, xs[0][2], q))


def values(f):
    """expressions which are kept or returned"""
    for n in f.nodes:
        if n["k"] == "decl":
            for d in n["ds"]:
                if d.get("init", -1) is not None and d.get("init", -1) >= 0:
                    yield d["init"]
        elif n["k"] == "assign":
            yield n["b"]
        elif n["k"] == "ret" and n.get("a", -1) is not None and n.get("a", -1) >= 0:
            yield n["a"]


def frees(p, R, d, fu, names, depth=0, seen=None):
    seen = seen or set()
    if d.usr in seen or depth > 5:
        return False
    seen.add(d.usr)
    for n in d.nodes:
        if n["k"] == "delete" and "delete" in names:
            x = core(d, n["a"])
            if x["k"] == "mem" and x.get("f") == fu:
                return True
            if x["k"] == "var":
                # through a local copy
                for m in d.nodes:
                    if m["k"] == "decl":
                        for y in m["ds"]:
                            i = y.get("init", -1)
                            if y["v"] == x["v"] and i is not None and i >= 0 and core(d, i).get("f") == fu:
                                return True
        elif n["k"] == "call":
            if n.get("nm") in names:
                for a in n.get("args", ()):
                    if a is not None and a >= 0:
                        x = core(d, a)
                        if x["k"] == "un" and x["op"] == "&":
                            x = core(d, x["a"])
                        if x["k"] == "mem" and x.get("f") == fu:
                            return True
            for t in p.targets(d, n):
                if t.cls is not None and frees(p, R, t, fu, names, depth + 1, seen):
                    return True
                for i, a in enumerate(n.get("args", ())):
                    if a is not None and a >= 0 and core(d, a).get("f") == fu and R.param(t, i, 0) & names:
                        return True
    return False


def empty_before(p, R, f, n, q, fu, names):
    """at this node, is the member known to hold nothing?"""
    F = facts_mod.of(f)
    fs = F.at(n["id"])
    if fs is None:
        return True
    t = ("p", q)
    if ("Z", t) in fs or F.le(fs, Lin(0, {t: 1}), Lin(-1)):
        return True
    for x in fs:
        if x[0] == "E" and t in (x[1], x[2]):
            o = x[2] if x[1] == t else x[1]
            if ("Z", o) in fs or o == ("k", 0):
                return True
    # released (or closed by a call that does) on every path before it
    return released(p, R, f, n, q, fu, names)


def released(p, R, f, n, q, fu, names):
    F = facts_mod.of(f)
    t = ("p", q)

    def step(e, ok):
        if not isinstance(e, int):
            return ok
        m = f.nodes[e]
        if m["k"] == "delete" and path(f, core(f, m["a"])["id"]) == q:
            return True
        if m["k"] == "call":
            if any(o == q and r in names for o, r in R.releases(f, m)):
                return True
            for u in p.targets(f, m):
                if u.cls == f.cls and frees(p, R, u, fu, names):
                    return True
        if m["k"] == "assign" and path(f, m["a"]) == q:
            return ok and R.acquires(f, m["b"]) is None
        return ok
    inn = {f.entry: False}
    work = [f.entry]
    while work:
        b = work.pop()
        ok = inn[b]
        for e in f.blocks[b].e:
            ok = step(e, ok)
        for i, s in enumerate(f.blocks[b].s):
            if s is None or s < 0:
                continue
            z = set()
            B = f.blocks[b]
            if B.c is not None and B.c >= 0 and len(B.s) == 2 and B.tk != "switch":
                nulls(f, B.c, i == 0, z)
            o = ok or q in z or ("Z", t) in (F.inn.get(s) or ())
            old = inn.get(s)
            new = o if old is None else old and o
            if old is None or old != new:
                inn[s] = new
                if s not in work:
                    work.append(s)
    pos = f.pos.get(n["id"])
    if pos is None or pos[0] not in inn:
        return False
    ok = inn[pos[0]]
    for e in f.blocks[pos[0]].e[:pos[1]]:
        ok = step(e, ok)
    return ok
