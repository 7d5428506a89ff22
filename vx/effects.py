"""What may create, change, rename or delete files, and under which conditions on flags and parameters."""
from . import facts as facts_mod
from .facts import Lin
from .mem import fkey
from .paths import path

# functions of the C library, the standard library and vrs::os which change the file system: name -> index of the argument telling what
PATHOPS = {"remove", "rename", "unlink", "truncate", "mkdir", "rmdir", "link", "symlink", "creat", "mkstemp", "mkdtemp", "chmod", "utime", "utimes", "remove_all", "create_directory",
           "create_directories", "copy_file", "copy", "resize_file", "rename", "create_symlink", "create_hard_link", "last_write_time", "permissions"}
HANDLES = {"fwrite", "pwrite", "ftruncate", "ftruncate64", "pwrite64", "fputs", "fputc", "fprintf", "aio_write", "write"}
WRITE_BITS = 1 | 2 | 64 | 512 | 1024   # O_WRONLY O_RDWR O_CREAT O_TRUNC O_APPEND
CAP = 24


def core(f, nid):
    n = f.nodes[nid]
    while n["k"] == "cast":
        n = f.nodes[n["a"]]
    return n


def writing(s):
    return not (s.startswith("r") and "+" not in s)


class Effects:
    """W[usr]: {frozenset(atoms): (site, what, [call sites])}; an atom is ('p', index, truth) or ('f', field usr, truth)"""

    def __init__(self, p, cut):
        self.p = p
        self.cut = cut            # (f, n, t) -> True: not followed
        self.flags = {}           # field usr -> value by default, for those choosing how files are opened
        self.modefields = set()   # fields holding the mode in which a file will be opened
        self.W = {}
        self.sites = 0
        self.fns = [f for f in p.fns.values() if f.entry is not None]
        self.ch = {}
        for rnd in range(4):
            before = (len(self.flags), len(self.modefields))
            self.solve()
            for cs in self.W.values():
                for c in cs:
                    for a in c:
                        if a[0] == "f":
                            self.flag(a[1])
            if (len(self.flags), len(self.modefields)) == before:
                break

    def flag(self, fu):
        if fu in self.flags:
            return
        own = self.p.field_owner.get(fu)
        d = None
        if own is not None:
            d = own[1].get("init")
        # the value a new object has
        vals = set()
        for f in self.p.fns.values():
            for B in f.blocks.values():
                for e in B.e:
                    if isinstance(e, dict) and e.get("k") == "init" and e.get("f") == fu and e.get("a", -1) is not None and e.get("a", -1) >= 0:
                        vals.add(self.const(f, e["a"]))
        v = vals.pop() if len(vals) == 1 else None
        self.flags[fu] = v

    def const(self, f, nid):
        n = f.nodes[nid]
        while n["k"] in ("cast", "definit", "defarg") or n["k"] == "initlist" and len(n.get("args", ())) == 1:
            if "cv" in n:
                break
            n = f.nodes[n["a"] if n["k"] != "initlist" else n["args"][0]]
        if "cv" in n:
            return bool(int(n["cv"]))
        if n["k"] == "null":
            return False
        return None

    def changes(self, f):
        """for each parameter, the constants it's given in the function (None: others)"""
        if f.usr in self.ch:
            return self.ch[f.usr]
        r = self.ch[f.usr] = {}
        for n in f.nodes:
            if n["k"] == "assign" and f.nodes[n["a"]]["k"] == "var":
                r.setdefault(f.nodes[n["a"]]["v"], set()).add(self.const(f, n["b"]))
            elif n["k"] in ("cassign",) and f.nodes[n["a"]]["k"] == "var" or n["k"] == "un" and n["op"] in ("++", "--", "&") and core(f, n["a"])["k"] == "var":
                r.setdefault(core(f, n["a"])["v"], set()).add(None)
        return r

    def atom(self, f, nid, truth):
        """the atom saying that an expression is true (false): an atom, True / False when it's known, None when nothing is"""
        c = self.const(f, nid)
        if c is not None:
            return c == truth
        n = core(f, nid)
        if n["k"] == "un" and n["op"] == "!":
            return self.atom(f, n["a"], not truth)
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
                c = self.const(f, b)
                if c is not None and "bool" in f.ty(f.nodes[a]):
                    return self.atom(f, a, truth == (c == (n["op"] == "==")))
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            # one side being false makes the whole false
            xs = [self.atom(f, n["a"], truth), self.atom(f, n["b"], truth)]
            if truth == (n["op"] == "&&"):
                if False in xs:
                    return False
                xs = [x for x in xs if x is not None and x is not True]
                return xs[0] if xs else None
            if True in xs:
                return True
            if all(x is False for x in xs):
                return False
            return None
        if n["k"] == "var":
            i = next((i for i, q in enumerate(f.params) if q["v"] == n["v"]), None)
            if i is not None:
                if self.changes(f).get(n["v"], set()) <= {not truth}:
                    return ("p", i, truth)
                return None
            ds = [d["init"] for m in f.nodes if m["k"] == "decl" for d in m["ds"] if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0]
            if len(ds) == 1 and n["v"] not in self.changes(f):
                return self.atom(f, ds[0], truth)
            return None
        if n["k"] == "mem" and "bool" in f.ty(n):
            return ("f", n["f"], truth)
        if n["k"] == "call" and not n.get("args"):
            ts = self.p.targets(f, n)
            if len(ts) == 1:
                rs = [m for m in ts[0].nodes if m["k"] == "ret"]
                if len(rs) == 1 and rs[0].get("a", -1) is not None and rs[0].get("a", -1) >= 0 and core(ts[0], rs[0]["a"])["k"] == "mem":
                    return self.atom(ts[0], rs[0]["a"], truth)
        return None

    def guards(self, f, nid):
        """atoms holding when a node is evaluated"""
        out = set()
        F = facts_mod.of(f)
        fs = F.at(nid)
        if fs is None:
            return None
        ps = {"v:" + q["v"]: i for i, q in enumerate(f.params)}
        for x in fs:
            if x[0] in "NZ" and isinstance(x[1], tuple) and x[1][0] == "p":
                q = x[1][1]
                truth = x[0] == "N"
                if q in ps and "bool" in self.p.types[f.params[ps[q]]["ty"]]:
                    if self.changes(f).get(q[2:], set()) <= {not truth}:
                        out.add(("p", ps[q], truth))
                elif q.startswith("this.") and q.count(".") == 1 and f.cls:
                    fu = self.field(f, q[5:])
                    if fu in self.flags:
                        out.add(("f", fu, truth))
        return out

    def field(self, f, nm):
        for n in f.nodes:
            if n["k"] == "mem" and n["nm"] == nm and core(f, n["a"])["k"] == "this":
                return n["f"]
        return None

    def modes(self, f, nid, depth=0):
        """[(atoms, what)] for the ways a mode argument may ask to write; atoms ('m', i, True): the i-th parameter is such a mode"""
        n = core(f, nid)
        if n["k"] in ("str",):
            return [(frozenset(), "mode \"%s\"" % n.get("s"))] if writing(n.get("s") or "w") else []
        if n["k"] == "null":
            return []
        if n["k"] == "cond":
            out = []
            for arm, t in ((n["a"], True), (n["b"], False)):
                a = self.atom(f, n["c"], t)
                if a is False:
                    continue
                for c, w in self.modes(f, arm, depth + 1):
                    out.append((c | ({a} if isinstance(a, tuple) else set()), w))
            return out
        if n["k"] == "var" and depth < 6:
            i = next((i for i, q in enumerate(f.params) if q["v"] == n["v"]), None)
            if i is not None:
                return [(frozenset({("m", i, True)}), "mode given by the caller")]
            out = []
            for m in f.nodes:
                if m["k"] == "decl":
                    for d in m["ds"]:
                        if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                            out += self.modes(f, d["init"], depth + 1)
                elif m["k"] == "assign" and core(f, m["a"])["k"] == "var" and core(f, m["a"])["v"] == n["v"]:
                    if self.was_writing(f, m, n["v"]):
                        continue
                    g = self.guards(f, m["id"])
                    if g is not None:
                        out += [(c | g, w) for c, w in self.modes(f, m["b"], depth + 1)]
            return out
        if n["k"] == "mem":
            self.modefields.add(n["f"])
            return []   # where it's set
        if n["k"] == "call" and n.get("nm") in ("c_str", "data") and "obj" in n:
            return self.modes(f, n["obj"], depth + 1)
        if n["k"] == "ctor" and n.get("args"):
            return self.modes(f, n["args"][0], depth + 1)
        return [(frozenset(), "unknown mode")]

    def was_writing(self, f, m, v):
        """is the variable known to be a mode to write with, already?"""
        fs = facts_mod.of(f).at(m["id"]) or ()
        F = facts_mod.of(f)
        for n in f.nodes:
            if n["k"] == "bin" and n["op"] == "==":
                for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
                    x, y = core(f, a), core(f, b)
                    if x["k"] == "index" and core(f, x["a"]).get("v") == v and y.get("cv") in (ord("w"), ord("a"), "119", "97"):
                        # the test must hold here
                        if holds(f, n["id"], m["id"]):
                            return True
        return False

    def prims(self, f):
        """[(node, atoms, what)]"""
        out = []
        for n in f.nodes:
            if n["k"] == "call" and "obj" not in n:
                nm, qn = n.get("nm"), n.get("qn", "")
                args = n.get("args", ())
                lib = not qn.startswith("vrs") and not self.p.targets(f, n)
                if nm in ("fopen", "fopen64", "freopen") and lib and len(args) >= 2:
                    out += [(n, c, "opens a file with " + w) for c, w in self.modes(f, args[1])]
                elif nm in ("open", "open64", "openat") and lib and qn == nm and len(args) >= 2:
                    out += [(n, c, w) for c, w in self.openflags(f, n, args)]
                elif nm in PATHOPS and lib and (qn == nm or qn.startswith(("std::filesystem", "boost::filesystem")) or qn == "std::" + nm and nm in ("remove", "rename") and len(args) == (1 if nm == "remove" else 2)):
                    out.append((n, frozenset(), "calls %s()" % nm))
            elif n["k"] == "ctor" and any(x in n.get("qn", "") + f.ty(n) for x in ("basic_ofstream", "basic_fstream")) and n.get("args"):
                if core(f, n["args"][0])["k"] != "ctor" or "fstream" not in f.ty(core(f, n["args"][0])):
                    out.append((n, frozenset(), "opens an output stream"))
            elif n["k"] == "assign":
                l = f.nodes[n["a"]]
                if l["k"] == "mem" and l["f"] in self.modefields:
                    out += [(n, c, "keeps, to open a file with it, " + w) for c, w in self.modes(f, n["b"])]
                elif l["k"] == "mem" and l["f"] in self.flags and self.flags[l["f"]] is not None:
                    d = self.flags[l["f"]]
                    a = self.atom(f, n["b"], not d)
                    if a is not False:
                        out.append((n, frozenset({a}) if isinstance(a, tuple) else frozenset(), "makes %s %s" % (l["nm"], str(not d).lower())))
        return out

    def openflags(self, f, n, args):
        """open(): the bits of the flags, where they're set"""
        out = []
        x = core(f, args[1])
        nodes = [(m, None) for m in f.nodes if m["k"] in ("assign", "cassign") and core(f, m["a"]).get("v") == x.get("v") and x["k"] == "var"] if x["k"] == "var" else []
        exprs = [args[1]] + [m["b"] for m, _ in nodes]
        for e in exprs:
            at = n["id"] if e == args[1] else next(m["id"] for m, _ in nodes if m["b"] == e)
            for c, bits, asks in self.bits(f, e):
                if bits & WRITE_BITS and not asks:
                    out.append((c, "opens a file to write"))
        # flags chosen from a mode string: the callers'
        ms = [i for i, q in enumerate(f.params) if "char *" in self.p.types[q["ty"]]]
        if ms and nodes:
            out.append((frozenset({("m", ms[0], True)}), "opens a file with the mode given by the caller"))
            out = [o for o in out if any(a[0] == "m" for a in o[0]) or not self.by_mode(f, nodes, o)]
        return out

    def by_mode(self, f, nodes, o):
        return True

    def bits(self, f, nid):
        """[(atoms, bits, chosen by a local condition)]"""
        n = f.nodes[nid]
        if "cv" in n:
            return [(frozenset(), int(n["cv"]), False)]
        n = core(f, nid)
        if n["k"] == "bin" and n["op"] == "|":
            return self.bits(f, n["a"]) + self.bits(f, n["b"])
        if n["k"] == "cond":
            out = []
            for arm, t in ((n["a"], True), (n["b"], False)):
                a = self.atom(f, n["c"], t)
                if a is False:
                    continue
                for c, b, k in self.bits(f, arm):
                    out.append((c | ({a} if isinstance(a, tuple) else set()), b, k))
            return out
        return []

    def subst(self, f, n, c, t):
        """a callee's condition, for the caller: None when it can't hold"""
        out = set()
        for a in c:
            if a[0] == "p":
                args = n.get("args", ())
                if a[1] >= len(args) or args[a[1]] is None or args[a[1]] < 0:
                    continue
                x = self.atom(f, args[a[1]], a[2])
                if x is False:
                    return None
                if isinstance(x, tuple):
                    out.add(x)
            elif a[0] == "f":
                if self.flags.get(a[1]) is not None and self.flags[a[1]] != a[2]:
                    # the callee only does so on an object made to: by whom?
                    return None
                if self.flags.get(a[1]) is None:
                    out.add(a)
        return [frozenset(out)]

    def subst_modes(self, f, n, c):
        """parameters which are modes"""
        ms = [a for a in c if a[0] == "m"]
        rest = frozenset(a for a in c if a[0] != "m")
        if not ms:
            return [(c, None)]
        args = n.get("args", ())
        i = ms[0][1]
        if i >= len(args) or args[i] is None or args[i] < 0:
            return [(rest, None)]
        return [(rest | x, w) for x, w in self.modes(f, args[i])]

    def add(self, f, c, w):
        cs = self.W.setdefault(f.usr, {})
        if any(o <= c for o in cs):
            return False
        for o in [o for o in cs if c < o]:
            del cs[o]
        if len(cs) >= CAP:
            return False
        cs[c] = w
        return True

    def solve(self):
        p = self.p
        self.W = {}
        self.sites = 0
        work = []
        for f in self.fns:
            for n, c, what in self.prims(f):
                g = self.guards(f, n["id"]) if n["id"] in f.pos or True else set()
                if g is None:
                    continue
                self.sites += 1
                if self.add(f, c | frozenset(g), (f.loc(n), what, ())):
                    work.append(f)
        while work:
            t = work.pop()
            for f, n in self.callers(t):
                if self.cut(f, n, t):
                    continue
                g = self.guards(f, n["id"])
                if g is None:
                    continue
                for c, w in list(self.W.get(t.usr, {}).items()):
                    if len(w[2]) > 30:
                        continue
                    for c2, what in self.subst_modes(f, n, c):
                        keep = frozenset(a for a in c2 if a in c)
                        for new in ([c2] if what is not None and not keep else self.subst(f, n, keep, t) or ()):
                            if what is not None and keep:
                                new = new | (c2 - keep)
                            if self.add(f, new | frozenset(g), (w[0] if what is None else f.loc(n), w[1] if what is None else "opens a file with " + what, w[2] + ((f.loc(n), t.display()),))):
                                if f not in work:
                                    work.append(f)

    def callers(self, t):
        r = self.__dict__.get("_callers")
        if r is None:
            r = self._callers = {}
            for f in self.fns:
                for n in f.nodes:
                    if n["k"] == "call":
                        for u in self.p.targets(f, n):
                            r.setdefault(u.usr, []).append((f, n))
                    elif n["k"] == "ctor" and n.get("fn") in self.p.fns:
                        r.setdefault(n["fn"], []).append((f, n))
                    elif n["k"] == "lambda" and n.get("lid") in self.p.fns:
                        r.setdefault(n["lid"], []).append((f, n))
            for u, xs in self.p.fnrefs.items():
                if u in self.p.fns:
                    r.setdefault(u, []).extend(xs)
        return r.get(t.usr, ())


def holds(f, cond, at):
    """is the condition true on every path to a node? (it dominates it by its true edge)"""
    pos = f.pos.get(at)
    if pos is None:
        return False
    target = pos[0]
    edges = set()
    for b, B in f.blocks.items():
        if B.c is not None and B.c >= 0 and len(B.s) == 2 and conj(f, B.c, cond):
            edges.add((b, 0))
    if not edges:
        return False
    seen = {f.entry}
    work = [f.entry]
    while work:
        b = work.pop()
        if b == target:
            return False
        for i, s in enumerate(f.blocks[b].s):
            if s is not None and s >= 0 and s not in seen and (b, i) not in edges:
                seen.add(s)
                work.append(s)
    return True


def conj(f, c, cond):
    n = core(f, c)
    if n["id"] == cond:
        return True
    return n["k"] == "bin" and n["op"] == "&&" and (conj(f, n["a"], cond) or conj(f, n["b"], cond))
