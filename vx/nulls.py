"""Dereferences of what may be null, empty, or the end of a container."""
import re
from . import facts as facts_mod
from .facts import base_ty
from .mem import fkey
from .paths import path

SMARTP = re.compile(r"^(?:const )?std::(unique_ptr|shared_ptr|optional)<")
FUNC = re.compile(r"^(?:const )?std::function<")
ITER = re.compile(r"iterator", re.I)
FIND = {"find", "lower_bound", "upper_bound", "find_if", "find_first_of", "max_element", "min_element"}
# library functions that return null when there is nothing to return
LIBNULL = {"fopen", "fdopen", "getenv", "strchr", "strrchr", "strstr", "malloc", "calloc", "realloc", "localtime", "gmtime", "memchr", "opendir", "readdir", "popen", "realpath",
           "png_create_read_struct", "png_create_write_struct", "png_create_info_struct", "opus_multistream_encoder_create", "opus_multistream_decoder_create",
           "ZSTD_createCCtx", "ZSTD_createDCtx", "ZSTD_createCStream", "ZSTD_createDStream", "_popen", "tj3Init", "tjInitDecompress", "tjInitCompress"}


# library functions that can't be given null
NONNULL = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strstr", "strchr", "strrchr", "strcpy", "strncpy", "strtol", "strtod", "strtoul", "atoi", "atof", "atol",
           "fread", "fwrite", "fseek", "fseeko", "fseeko64", "ftell", "ftello", "ftello64", "fclose", "fflush", "feof", "ferror", "fileno", "rewind", "fgets", "fputs", "fprintf", "readdir", "closedir", "pclose", "put_time", "strftime", "mktime", "asctime"}

# a field set in a given state of its object
INVARIANTS = {
    # MultiRecordFileReader: an opened reader with several files has a consolidated index
    "recordIndex_": [[("true", "isOpened_"), ("not single", "readers_")]],
}


def kind(t):
    t = base_ty(t)
    if re.search(r"\*(\s*const)?$", t):
        return "ptr"
    if SMARTP.match(t):
        return "smart"
    if FUNC.match(t):
        return "func"
    if ITER.search(t.split("<")[0]):
        return "iter"
    return None


def strip(f, nid):
    """through casts, copies and moves (a dynamic_cast stays)"""
    while nid is not None and nid >= 0:
        n = f.nodes[nid]
        if n["k"] in ("cast", "defarg", "definit") and n.get("ck") != "Dynamic":
            nid = n["a"]
        elif n["k"] == "ctor" and len([a for a in n.get("args", ()) if a is not None and a >= 0]) == 1 and kind(f.ty(n)):
            nid = [a for a in n["args"] if a is not None and a >= 0][0]
        elif n["k"] == "call" and n.get("qn", "") in ("std::move", "std::forward", "std::static_pointer_cast", "std::const_pointer_cast") and n.get("args"):
            nid = n["args"][0]
        elif n["k"] == "call" and n.get("nm") in ("get", "release") and "obj" in n and SMARTP.match(base_ty(f.ty(f.nodes[n["obj"]]))):
            nid = n["obj"]
        elif n["k"] == "bin" and n["op"] == ",":
            nid = n["b"]
        else:
            break
    return nid


class Nulls:
    def __init__(self, p):
        self.p = p
        self.ret = {}      # usr -> reason or None
        self.field = {}
        self.par = {}
        self.defs = {}
        self.fieldsets = None
        self.rd = {}
        self.nul = {}
        self.per = {}

    # ---- what may be null

    def fields(self):
        """field usr -> [(f, value node or None)]"""
        if self.fieldsets is None:
            m = {}
            for f in self.p.fns.values():
                for B in f.blocks.values():
                    for e in B.e:
                        if isinstance(e, dict) and e.get("k") == "init" and "f" in e:
                            m.setdefault(e["f"], []).append((f, e.get("a", -1), "init", e.get("written")))
                for n in f.nodes:
                    if n["k"] == "assign":
                        self.note(m, f, n["a"], n["b"])
                    elif n["k"] == "call" and n.get("op") == "=" and n.get("args") and "obj" in n:
                        self.note(m, f, n["obj"], n["args"][0])
                    elif n["k"] == "call" and n.get("nm") == "reset" and "obj" in n:
                        self.note(m, f, n["obj"], n["args"][0] if n.get("args") else -1)
                    elif n["k"] == "call" and n.get("qn") == "std::move" and n.get("args"):
                        self.note(m, f, n["args"][0], -2)
            self.fieldsets = m
        return self.fieldsets

    def note(self, m, f, lhs, rhs):
        n = f.nodes[lhs]
        if n["k"] == "mem" and n.get("f"):
            m.setdefault(n["f"], []).append((f, rhs, "set", True))

    def field_nullable(self, usr):
        if usr in self.field:
            return self.field[usr]
        self.field[usr] = None
        rs = self.fields().get(usr, [])
        why = None
        own = self.p.field_owner.get(usr)
        if own is None:
            return None
        for f, v, how, w in rs:
            if how == "init" and self.set_by(f, own[1]["nm"]):
                continue
            if v == -2:
                if not self.refilled(f, own[1]["nm"]):
                    why = "is moved from in %s" % f.display()
            elif v is None or v < 0:
                why = "is left null in %s" % f.display()
            else:
                r = self.expr(f, v)
                x = strip(f, v)
                if r and f.nodes[x]["k"] in ("var", "mem") and self.proved(f, x, v):
                    r = None
                if r:
                    why = "may be set to null in %s" % f.display()
            if why:
                break
        self.field[usr] = why
        return why

    def set_by(self, f, nm):
        """does every path of the constructor leave the field set?"""
        F = facts_mod.of(f)
        if f.exit not in F.inn:
            return False
        fs = F.at_exit(f.exit)
        return ("N", ("p", "this." + nm)) in fs

    refilled = set_by

    def localdefs(self, f, v):
        d = self.defs.get(f.usr)
        if d is None:
            d = {}
            for n in f.nodes:
                if n["k"] == "decl":
                    for x in n["ds"]:
                        d.setdefault(x["v"], []).append(x.get("init", -1))
                elif n["k"] == "assign":
                    l = f.nodes[n["a"]]
                    if l["k"] == "var":
                        d.setdefault(l["v"], []).append(n["b"])
                elif n["k"] == "call" and n.get("op") == "=" and "obj" in n and n.get("args"):
                    l = f.nodes[n["obj"]]
                    if l["k"] == "var":
                        d.setdefault(l["v"], []).append(n["args"][0])
                elif n["k"] == "call" and n.get("nm") == "reset" and "obj" in n:
                    l = f.nodes[n["obj"]]
                    if l["k"] == "var":
                        d.setdefault(l["v"], []).append(n["args"][0] if n.get("args") else -1)
            self.defs[f.usr] = d
        return d.get(v)

    def param_nullable(self, f, v):
        """does the function itself expect this parameter to be null, at times?"""
        key = (f.usr, v)
        if key in self.par:
            return self.par[key]
        self.par[key] = None
        for q in f.params:
            if q["v"] == v and q.get("def") is not None:
                pass
        for n in f.nodes:
            x = None
            if n["k"] == "bin" and n["op"] in ("==", "!="):
                for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
                    if f.nodes[strip(f, b)]["k"] == "null":
                        x = strip(f, a)
            elif n["k"] == "cast" and n.get("ck") == "PointerToBoolean":
                x = strip(f, n["a"])
            elif n["k"] == "call" and n.get("nm") == "operator bool" and "obj" in n:
                x = n["obj"]
            elif n["k"] == "call" and n.get("op") in ("==", "!=") and len(n.get("args", ())) == 2:
                for a, b in (n["args"], n["args"][::-1]):
                    if f.nodes[strip(f, b)]["k"] == "null":
                        x = strip(f, a)
            if x is not None and x >= 0 and f.nodes[x]["k"] == "var" and f.nodes[x]["v"] == v:
                self.par[key] = "is compared with null in %s" % f.display()
                break
        return self.par[key]

    def expr(self, f, nid, depth=0, seen=()):
        """why this expression may be null, or None"""
        if depth > 12:
            return None
        nid = strip(f, nid)
        if nid is None or nid < 0:
            return None
        n = f.nodes[nid]
        k = n["k"]
        if k == "null" or k == "zero":
            return "is null"
        if k == "cast" and n.get("ck") == "Dynamic" and f.ty(n).rstrip().endswith("*"):
            return "is the result of a dynamic_cast"
        if k == "ctor" and kind(f.ty(n)) in ("smart", "func") and not [a for a in n.get("args", ()) if a is not None and a >= 0 and f.nodes[a]["k"] != "defarg"]:
            return "is empty"
        if k == "cond":
            for a in (n["a"], n["b"]):
                r = self.expr(f, a, depth + 1, seen)
                if r:
                    return r
            return None
        if k == "var":
            v = n["v"]
            if v in seen:
                return None
            if v in {q["v"] for q in f.params}:
                return self.param_nullable(f, v)
            ds = self.localdefs(f, v)
            if not ds:
                return None
            for d in ds:
                if d is None or d < 0:
                    return "is declared without a value" if kind(f.ty(n)) in ("smart", "func", "ptr") else None
                r = self.expr(f, d, depth + 1, seen + (v,))
                if r:
                    return r
            return None
        if k == "mem":
            if kind(f.ty(n)) == "iter":
                return None
            return self.field_nullable(n.get("f"))
        if k == "call":
            kd = kind(f.ty(n))
            if kd == "iter":
                if n.get("op") in ("++", "--") and "obj" in n and not n.get("args"):
                    return "was moved in the same expression"
                return "may be the end" if n.get("nm") in FIND else None
            if n.get("nm") in LIBNULL:
                return "%s() may return null" % n["nm"]
            if n.get("op") in ("*", "[]", "->") or n.get("nm") in ("front", "back", "at"):
                return None
            for t in self.p.targets(f, n):
                r = self.returns(t)
                if r:
                    return r
            return None
        return None

    def returns(self, t):
        if t.usr in self.ret:
            return self.ret[t.usr]
        self.ret[t.usr] = None
        for n in t.nodes:
            if n["k"] == "ret" and n.get("a", -1) is not None and n.get("a", -1) >= 0:
                if self.reviewed(t, n["a"]):
                    self.ret[t.usr] = "%s() may return null" % t.display()
                    break
        return self.ret[t.usr]

    def reviewed(self, t, nid):
        """may this return value be null there, given what is known on the way?"""
        r = self.expr(t, nid)
        if not r:
            return None
        n = t.nodes[strip(t, nid)]
        if n["k"] == "mem" and n.get("f"):
            return None   # an accessor: what the field is, is known where it's used
        if n["k"] == "var" and self.proved(t, strip(t, nid), nid):
            return None
        return r

    # ---- definitions that reach a use

    def events(self, f, e):
        """(path, value) set by an element; value: node, or a reason string, or "" when not known (assumed fine)"""
        out = []
        if not isinstance(e, int):
            return out
        n = f.nodes[e]
        k = n["k"]
        if k == "decl":
            for d in n["ds"]:
                if d.get("ref"):
                    continue
                kd = kind(self.p.types[d["ty"]]) if "ty" in d else None
                if kd:
                    i = d.get("init", -1)
                    if i is None or i < 0:
                        out.append(("v:" + d["v"], "is declared without a value" if kd in ("smart", "func", "ptr") and not d.get("static") else ""))
                    else:
                        out.append(("v:" + d["v"], i))
        elif k == "assign":
            if kind(f.ty(f.nodes[n["a"]])):
                out.append((path(f, n["a"]), n["b"]))
        elif k in ("un", "cassign"):
            if (k == "cassign" or n["op"] in ("++", "--")) and kind(f.ty(f.nodes[n["a"]])) == "iter":
                out.append((path(f, n["a"]), "may be moved to the end"))
        elif k in ("call", "ctor"):
            if "obj" in n:
                o = n["obj"]
                kd = kind(f.ty(f.nodes[o]))
                if kd:
                    args = n.get("args") or [-1]
                    if n.get("op") == "=":
                        out.append((path(f, o), args[0]))
                    elif n.get("nm") == "reset" and kd != "iter":
                        out.append((path(f, o), args[0] if args[0] is not None and args[0] >= 0 and f.nodes[args[0]]["k"] != "defarg" else "is reset"))
                    elif n.get("nm") == "release":
                        out.append((path(f, o), "is released"))
                    elif n.get("op") in ("++", "--", "+=", "-=") and kd == "iter":
                        out.append((path(f, o), "may be moved to the end"))
                    elif n.get("nm") in ("emplace", "swap"):
                        out.append((path(f, o), ""))
            pm = n.get("pm", "")
            for i, a in enumerate(n.get("args", ())):
                if a is None or a < 0:
                    continue
                b = f.nodes[a]
                if n.get("qn") in ("std::move", "std::forward"):
                    if n["qn"] == "std::move" and kind(f.ty(b)) in ("smart", "func"):
                        out.append((path(f, a), "is moved from"))
                    continue
                if b["k"] == "un" and b["op"] == "&":
                    if kind(f.ty(f.nodes[b["a"]])):
                        out.append((path(f, b["a"]), ""))
                elif i < len(pm) and pm[i] == "r" and kind(f.ty(b)):
                    out.append((path(f, a), ""))
        return [(q, v) for q, v in out if q]

    def reach(self, f):
        r = self.rd.get(id(f))
        if r is not None:
            return r
        ev = {}
        for b, B in f.blocks.items():
            for i, e in enumerate(B.e):
                x = self.events(f, e)
                if x:
                    ev[(b, i)] = x
        inn = {f.entry: {}}
        work = [f.entry]
        while work:
            b = work.pop()
            st = dict(inn[b])
            for i, e in enumerate(f.blocks[b].e):
                for q, v in ev.get((b, i), ()):
                    self.setdef(st, q, v)
            for s in f.blocks[b].s:
                if s is None or s < 0:
                    continue
                o = inn.get(s)
                if o is None:
                    inn[s] = dict(st)
                    work.append(s)
                else:
                    ch = False
                    for q in set(st) | set(o):
                        a = st.get(q, frozenset([None]))
                        c = o.get(q, frozenset([None]))
                        if not a <= c:
                            o[q] = a | c
                            ch = True
                        elif q not in o:
                            o[q] = c
                            ch = True
                    if ch and s not in work:
                        work.append(s)
        r = self.rd[id(f)] = (inn, ev)
        return r

    def setdef(self, st, q, v):
        for o in list(st):
            if o != q and o.startswith(q + "."):
                del st[o]
        st[q] = frozenset([v])

    def reaching(self, f, q, at):
        """definitions of the path q that reach the node: values, reasons, None for what it held on entry"""
        inn, ev = self.reach(f)
        pos = f.pos.get(at)
        if pos is None:
            for u in f.parents.get(at, ()):
                r = self.reaching(f, q, u)
                if r is not None:
                    return r
            return None
        b, i = pos
        if b not in inn:
            return frozenset()
        st = dict(inn[b])
        for j, e in enumerate(f.blocks[b].e[:i]):
            for o, v in ev.get((b, j), ()):
                self.setdef(st, o, v)
        return st.get(q, frozenset([None]))

    def why(self, f, x, at):
        """why the pointer x, dereferenced at this node, may be null: a reason, or None"""
        s = strip(f, x)
        n = f.nodes[s]
        q = path(f, s)
        if n["k"] not in ("var", "mem", "binding") or q is None:
            r = self.expr(f, s)
            return r if r and not self.proved(f, s, at) else None
        ds = self.reaching(f, q, at)
        for v in sorted(ds or (), key=repr):
            if v is None:
                r = self.initial(f, n)
            elif isinstance(v, str):
                r = v or None
            else:
                r = self.expr(f, v)
                if r:
                    w = strip(f, v)
                    if f.nodes[w]["k"] in ("var", "mem") and self.proved(f, w, v):
                        r = None
            if r and not self.proved(f, s, at) and not (v is None and n["k"] == "mem" and n.get("f") and self.persists(f, q, n["f"], at)):
                return r
        return None

    # ---- checked earlier, and not set to null since

    def nullers(self, usr):
        """functions that may leave the field null, directly or through what they call"""
        r = self.nul.get(usr)
        if r is None:
            r = set()
            for f, v, how, w in self.fields().get(usr, []):
                if how != "set" or f.usr in r:
                    continue
                if v == -2 or v is None or v < 0 or self.expr(f, v):
                    r.add(f.usr)
            work = list(r)
            while work:
                u = work.pop()
                for g, n in self.p.callers.get(u, ()):
                    if g.usr not in r:
                        r.add(g.usr)
                        work.append(g.usr)
            self.nul[usr] = r
        return r

    def persists(self, f, q, usr, at, used=()):
        """was the field (or variable) checked on every path to this node, with nothing since that may set it to null?
        used: nodes which dereference it, and so couldn't be passed if it was null"""
        key = (id(f), q, used)
        r = self.per.get(key)
        if r is None:
            F = facts_mod.of(f)
            bad = self.nullers(usr) if usr else ()
            ev = self.reach(f)[1]
            t = ("p", q)

            def step(b, i, e, ok):
                if isinstance(e, int):
                    fs = F.at(e)
                    if fs is None or F.nonzero(fs, t):
                        ok = True
                for o, v in ev.get((b, i), ()):
                    if o == q or q.startswith(o + "."):
                        ok = o == q and isinstance(v, int) and not self.expr(f, v)
                if isinstance(e, int) and f.nodes[e]["k"] == "call" and any(x.usr in bad for x in self.p.targets(f, f.nodes[e])):
                    ok = False
                if isinstance(e, int) and e in used:
                    ok = True
                return ok
            inn = {f.entry: False}
            work = [f.entry]
            while work:
                b = work.pop()
                ok = inn[b]
                for i, e in enumerate(f.blocks[b].e):
                    ok = step(b, i, e, ok)
                for s in f.blocks[b].s:
                    if s is None or s < 0:
                        continue
                    o = inn.get(s)
                    m = ok if o is None else o and ok
                    if o is None or m != o:
                        inn[s] = m
                        if s not in work:
                            work.append(s)
            r = self.per[key] = (inn, step)
        inn, step = r
        pos = f.pos.get(at)
        if pos is None or pos[0] not in inn:
            return False
        ok = inn[pos[0]]
        for i, e in enumerate(f.blocks[pos[0]].e[:pos[1]]):
            ok = step(pos[0], i, e, ok)
        return ok

    def initial(self, f, n):
        if n["k"] == "var":
            if n["v"] in {q["v"] for q in f.params}:
                return self.param_nullable(f, n["v"])
            return None
        if n["k"] == "mem" and kind(f.ty(n)) != "iter":
            return self.field_nullable(n.get("f"))
        return None

    # ---- what is known not to be

    def proved(self, f, x, at):
        F = facts_mod.of(f)
        fs = F.at(at)
        if fs is None:
            return True   # not reachable
        t = F.term(x)
        if t is None:
            return False
        kd = kind(f.ty(f.nodes[x]))
        if kd == "iter":
            for q in fs:
                if q[0] == "D" and len(q) == 3 and t in (q[1], q[2]):
                    o = q[2] if q[1] == t else q[1]
                    if isinstance(o, tuple) and o[0] in ("m:end", "m:cend", "f:std::end", "p", "m:rend", "f:std::cend", "m:MemberEnd", "m:End"):
                        return True
            return False
        if t[0] == "p" and self.invariant(fs, t[1]):
            return True
        for u in self.equal(fs, t):
            if F.nonzero(fs, u) or F.nonzero(fs, ("m:operator bool", u)) or F.nonzero(fs, ("m:get", u)) or F.nonzero(fs, ("m:has_value", u)):
                return True
            if isinstance(u, tuple) and u[0] in ("f:std::make_unique", "f:std::make_shared"):
                return True
        return False

    def invariant(self, fs, q):
        """fields that a class keeps set in some states: is the object known to be in one?"""
        b, _, nm = q.rpartition(".")
        for cond in INVARIANTS.get(nm, ()):
            good = True
            for what, x in cond:
                x = b + "." + x
                if what == "true":
                    good = good and ("N", ("p", x)) in fs
                elif what == "not single":
                    good = good and any(y[0] == "D" and set(y[1:]) == {("k", 1), ("size", x)} or y[0] == "L" and dict(y[1][1]).get(("size", x), 0) < 0 and y[1][0] >= 2 and len(y[1][1]) == 1 for y in fs)
            if good:
                return True
        return False

    def equal(self, fs, t):
        out = [t]
        for x in fs:
            if x[0] == "E" and t in (x[1], x[2]):
                o = x[2] if x[1] == t else x[1]
                if o not in out:
                    out.append(o)
        return out

    # ---- where it matters

    def sites(self, f):
        """(node, pointer node) for each dereference"""
        for n in f.nodes:
            k = n["k"]
            x = None
            if k == "mem" and n.get("arrow") or k == "call" and n.get("arrow") and "obj" in n:
                x = n["a"] if k == "mem" else n["obj"]
                y = f.nodes[strip(f, x)]
                if y["k"] == "this" or y["k"] == "call" and y.get("op") == "->":
                    continue
                if kind(f.ty(f.nodes[x])) != "ptr":
                    continue
            elif k == "call" and n.get("op") in ("*", "->") and "obj" in n and not n.get("args"):
                x = n["obj"]
                if kind(f.ty(f.nodes[x])) not in ("smart", "iter"):
                    continue
            elif k == "call" and n.get("nm") == "value" and "obj" in n and "optional" in f.ty(f.nodes[n["obj"]]):
                continue
            elif k == "call" and n.get("nm") in NONNULL and n.get("args") and not n.get("qn", "").startswith("vrs") and "obj" not in n:
                for a in n["args"]:
                    if a is not None and a >= 0 and kind(f.ty(f.nodes[a])) == "ptr" and f.nodes[strip(f, a)]["k"] not in ("null", "zero"):
                        yield n, a
            elif k == "ctor" and re.match(r"(const )?(std::)(__cxx11::)?basic_string(_view)?<", base_ty(f.ty(n))) and n.get("args"):
                a = n["args"][0]
                if a is not None and a >= 0 and kind(f.ty(f.nodes[a])) == "ptr":
                    yield n, a
            elif k == "un" and n["op"] == "*":
                x = n["a"]
                y = f.nodes[strip(f, x)]
                if y["k"] == "this":
                    continue
            elif k == "call" and n.get("op") == "()" and "obj" in n and kind(f.ty(f.nodes[n["obj"]])) == "func":
                x = n["obj"]
            if x is not None:
                y = f.nodes[strip(f, x)]
                if y["k"] == "var" and y["nm"].startswith("__"):
                    continue   # the hidden iterator of a range for
                yield n, x

    # ---- obligations handed to callers

    def private(self, f):
        return f.is_lambda or f.d.get("acc") in (1, 2) or "(anonymous namespace)" in f.qn or bool(f.usr) and not f.usr.startswith("c:@")

    def open_at(self, f, q, at, usr):
        """may what the path names (a field) be null at this node?"""
        F = facts_mod.of(f)
        fs = F.at(at)
        if fs is None:
            return False
        t = ("p", q)
        for u in self.equal(fs, t):
            if F.nonzero(fs, u):
                return False
        ds = self.reaching(f, q, at)
        for v in ds or ():
            if v is None:
                if self.field_nullable(usr) and not self.persists(f, q, usr, at):
                    return True
            elif isinstance(v, str):
                if v:
                    return True
            elif self.expr(f, v):
                return True
        return False


def run(c, exc, inscope):
    from collections import OrderedDict
    p = c.prog
    N = Nulls(p)
    undecided = OrderedDict()   # fkey -> {what: (where, text)}
    need = {}                   # usr -> {(path, field usr): where}
    view = [f for f in p.view() if inscope(f)]
    byusr = {f.usr: f for f in view}

    def undecide(f, what, where, text):
        undecided.setdefault(fkey(f), OrderedDict()).setdefault(what, (where, text))

    for f in view:
        open_ = {}
        sites = list(N.sites(f))
        for n, x in sites:
            if N.why(f, x, n["id"]):
                q = path(f, strip(f, x))
                if q:
                    open_.setdefault(q, set()).add(n["id"])
        for n, x in sites:
            r = N.why(f, x, n["id"])
            q = path(f, strip(f, x))
            if r and q and len(open_.get(q, ())) > 1:
                y = f.nodes[strip(f, x)]
                if N.persists(f, q, y.get("f") if y["k"] == "mem" else None, n["id"], frozenset(open_[q])):
                    continue   # an earlier use, on every path, would have failed first
            where = f.loc(n)
            s = strip(f, x)
            q = path(f, s)
            if not r:
                if N.initial(f, f.nodes[s]) or f.nodes[s]["k"] not in ("mem",) and N.expr(f, s):
                    c.ok("checked", where, "%s is known to be there" % name(f, s))
                continue
            m = f.nodes[s]
            if m["k"] == "mem" and q and q.startswith("this.") and N.private(f) and not f.is_lambda and f.usr in p.callers:
                need.setdefault(f.usr, {}).setdefault((q, m["f"]), where)
                continue
            undecide(f, "%s %s" % (name(f, s), where), where, "%s, which %s" % (name(f, s), r))
    # what private functions expect
    done = set()
    work = sorted(need)
    while work:
        u = work.pop()
        for g, n in p.callers.get(u, ()):
            g = byusr.get(g.usr)
            if g is None:
                continue
            for n in g.nodes:
                if n["k"] != "call" or n.get("fn") != u or "obj" not in n:
                    continue
                o = path(g, n["obj"])
                for (q, fu), where in sorted(need[u].items()):
                    k = (g.usr, n["id"], q)
                    if k in done or o is None:
                        continue
                    done.add(k)
                    w = o + q[4:]
                    if not N.open_at(g, w, n["id"], fu) or N.persists(g, w, fu, n["id"], frozenset(x["id"] for x in g.nodes if x["k"] == "call" and any(
                            "obj" in x and (path(g, x["obj"]) or "?") + z[4:] == w for z, _ in need.get(x.get("fn"), ())))):
                        c.ok("callers", g.loc(n), "%s is set when %s() is called" % (q[5:], n["nm"]))
                    elif w.startswith("this.") and N.private(g) and not g.is_lambda and g.usr in p.callers:
                        if (w, fu) not in need.setdefault(g.usr, {}):
                            need[g.usr][(w, fu)] = where
                            work.append(g.usr)
                    else:
                        undecide(g, "%s %s" % (q[5:], g.loc(n)), g.loc(n), "%s, which %s, and is needed by %s() (%s)" % (q[5:], N.field_nullable(fu), n["nm"], where))
    for fn, m in undecided.items():
        n, why, *any_ = exc.get(fn, (0, None))
        rest = OrderedDict()
        for what, (where, text) in m.items():
            if any_ and what.split(" ")[0] in any_[0]:
                c.excused.append(("%s %s" % (where, text), why))
            else:
                rest[what] = (where, text)
        undecided[fn] = m = rest
        if len(m) <= n:
            for what, (where, text) in m.items():
                c.excused.append(("%s %s" % (where, text), why))
            continue
        for what, (where, text) in sorted(m.items(), key=lambda z: z[1][0]):
            c.bad("checked", where, "%s uses %s, without a check on every path" % (fn, text), key="%s %s" % (fn, what.split(" ")[0]))
    return undecided


def name(f, s):
    n = f.nodes[s]
    if n["k"] in ("var", "mem", "binding"):
        return n.get("nm", "?")
    if n["k"] == "call":
        return n.get("nm", "?") + "()"
    return "the pointer"
