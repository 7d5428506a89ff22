"""Must-facts dataflow: what every path to a program point has established.

Facts are linear inequalities between values (L), zero/non-zero knowledge (Z/N), and (in)equality of
opaque values (E/D). They come from branch conditions, assignments and container operations, are
dropped when anything they mention may be modified, and are intersected where paths meet.
"""
import math
import re
from .paths import path, ref_aliases
from .prog import operands

NPOS = (1 << 64) - 1
SEARCH = {"m:find", "m:rfind", "m:find_first_of", "m:find_last_of", "m:find_first_not_of", "m:find_last_not_of"}
JSONREAD = {"FindMember", "MemberBegin", "MemberEnd", "HasMember", "GetObject", "GetArray", "Begin", "End", "GetAllocator"}
BITS = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
        "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "char16_t": 16, "char32_t": 32, "wchar_t": 32}
UNS = {"bool", "unsigned char", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "char16_t", "char32_t"}
CONT = re.compile(r"^(?:const )?(?:volatile )?std::(?:__cxx11::)?(vector|basic_string|basic_string_view|deque|list|map|set|unordered_map|unordered_set|multimap|multiset|array|span|initializer_list)<")


def base_ty(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


_paths_cache = {}


def term_paths(t):
    r = _paths_cache.get(t)
    if r is None:
        s = set()
        if isinstance(t, tuple):
            if t and t[0] in ("p", "size"):
                s.add(t[1])
            else:
                for x in t:
                    if isinstance(x, tuple):
                        s |= term_paths(x)
        r = frozenset(s)
        _paths_cache[t] = r
    return r


def related(a, b):
    """may writing storage a change the value read through b?"""
    return a == b or b.startswith(a + ".") or b.startswith(a + "[") or a.startswith(b + ".") or a.startswith(b + "[") or b.startswith(a + "*")


def comps(p):
    return set(re.split(r"[.\[\]*]", p))


_text = {}


def text(t):
    r = _text.get(t)
    if r is None:
        r = _text[t] = repr(t)
    return r


class Lin:
    __slots__ = ("c", "m")

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m or {}

    def add(self, o, k=1):
        m = dict(self.m)
        for t, v in o.m.items():
            m[t] = m.get(t, 0) + k * v
            if m[t] == 0:
                del m[t]
        return Lin(self.c + k * o.c, m)

    def scale(self, k):
        return Lin(self.c * k, {t: v * k for t, v in self.m.items()} if k else {})

    def key(self):
        return (self.c, frozenset(self.m.items()))

    def __repr__(self):
        return "%d+%s" % (self.c, self.m)


def show(t):
    if isinstance(t, Lin):
        return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, show(k)) for k, v in t.m.items()] + ([str(t.c)] if t.c or not t.m else []))
    if isinstance(t, tuple):
        if t[0] == "p":
            return re.sub(r"@\d+:\d+", "", t[1].replace("v:", ""))
        if t[0] == "size":
            return "size(%s)" % re.sub(r"@\d+:\d+", "", t[1].replace("v:", ""))
        return "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))
    return str(t)


def rename(t, op):
    if not isinstance(t, tuple):
        return t
    if t[0] in ("p", "size"):
        s = t[1]
        if s == "this" or s.startswith("this."):
            return (t[0], op + s[4:])
        if s.startswith(("v:g:", "v:s:")):
            return t
        return None
    if t[0] in ("n", "?", "trunc", "min", "max", "/", "%", "&", ">>"):
        return None
    out = []
    for x in t:
        if isinstance(x, tuple):
            x = rename(x, op)
            if x is None:
                return None
        out.append(x)
    return tuple(out)


class Facts:
    """analysis of one function (after helper inlining, if given an inlined Fn)"""

    snapshots = True

    def __init__(self, fn, entry_facts=()):
        self.fn = fn
        self.p = fn.p
        self.range = {}
        self.inn = {}
        self.entry_facts = frozenset(entry_facts)
        self._solve()

    # ---------------------------------------------------------------- terms
    def note_ty(self, t, ty):
        b = base_ty(ty)
        if b in BITS:
            lo, hi = (0, (1 << BITS[b]) - 1) if b in UNS else (-(1 << (BITS[b] - 1)), (1 << (BITS[b] - 1)) - 1)
            o = self.range.get(t)
            if o:
                lo, hi = max(lo, o[0]), min(hi, o[1])
            self.range[t] = (lo, hi)
        return t

    def sizepath(self, nid):
        return path(self.fn, nid)

    def term(self, nid):
        """canonical value of any expression, or None"""
        f = self.fn
        n = f.nodes[nid]
        if "cv" in n:
            return ("k", int(n["cv"]))
        k = n["k"]
        if k in ("null", "zero"):
            return ("k", 0)
        if k == "str":
            return ("s", n.get("s"))
        if k == "float":
            return ("f", n["fv"])
        p = path(f, nid)
        if p:
            if p.startswith("v:g:"):
                g = self.p.globals.get(p[4:])
                if g and "cv" in g:
                    return ("k", int(g["cv"]))
            return self.note_ty(("p", p), f.ty(n))
        if k in ("cast", "defarg", "definit"):
            return self.term(n["a"])
        if k == "un" and n["op"] in ("!", "-", "~", "+", "*"):
            a = self.term(n["a"])
            return ("un" + n["op"], a) if a else None
        if k == "bin":
            a, b = self.term(n["a"]), self.term(n["b"])
            if n["op"] == ",":
                return b
            if a and b:
                if n["op"] in ("+", "*", "&", "|", "^", "==", "!=") and repr(b) < repr(a):
                    a, b = b, a
                return self.note_ty(("bin" + n["op"], a, b), f.ty(n))
            return None
        if k in ("assign", "cassign"):
            return self.term(n["a"])
        if k == "cond":
            return self.note_ty(("?", n["id"]), f.ty(n))
        if k == "call":
            return self.callterm(n)
        if k == "ctor":
            a = [x for x in n.get("args", ()) if x is not None and x >= 0]
            if n.get("copy") and a:
                return self.term(a[0])
            if len(a) == 1:
                return self.term(a[0])
            return None
        if k == "index":
            a, b = self.term(n["a"]), self.term(n["b"])
            return self.note_ty(("[]", a, b), f.ty(n)) if a and b else None
        if k == "mem":
            a = self.term(n["a"])
            return self.note_ty((".", a, n["nm"]), f.ty(n)) if a else None
        return None

    def callterm(self, n):
        f = self.fn
        nm = n.get("nm")
        if n.get("op") in ("++", "--") and "obj" in n and not n.get("args"):
            return self.term(n["obj"])   # what is stepped, once it was
        args = [a for a in n.get("args", ())]
        if "obj" in n:
            op = path(f, n["obj"])
            if not args and nm in ("size", "length") and op and CONT.match(f.ty(n["obj"]).rstrip("*& ")):
                t = ("size", op)
                self.range.setdefault(t, (0, (1 << 63) - 1))
                return t
            ot = self.term(n["obj"])
            if ot is None:
                return None
            at = [self.term(a) if a is not None and a >= 0 else None for a in args]
            if any(a is None for a in at):
                return None
            return self.note_ty(("m:" + n.get("qn", nm or "?").split("<")[0].split("::")[-1] if False else "m:" + (nm or "?"), ot) + tuple(at), f.ty(n))
        q = n.get("qn", "")
        if q in ("std::min", "std::max") and len(args) == 2:
            return self.note_ty((q[5:], args[0], args[1], n["id"]), f.ty(n))
        at = [self.term(a) if a is not None and a >= 0 else None for a in args]
        if any(a is None for a in at):
            return None
        return self.note_ty(("f:" + q,) + tuple(at), f.ty(n))

    def isint(self, nid):
        return base_ty(self.fn.ty(nid)) in BITS or self.fn.nodes[nid]["k"] == "enumc"

    def lin(self, nid, depth=0):
        """linear form of an integer expression; None if not an integer"""
        f = self.fn
        if nid is None or nid < 0 or depth > 30:
            return None
        n = f.nodes[nid]
        if "cv" in n:
            return Lin(int(n["cv"]))
        k = n["k"]
        if k == "zero":
            return Lin(0)
        if k in ("defarg", "definit"):
            return self.lin(n["a"], depth + 1)
        if k == "initlist" and len(n.get("args", ())) == 1:
            return self.lin(n["args"][0], depth + 1)
        if k == "initlist" and not n.get("args"):
            return Lin(0)
        if k == "cast":
            a = n["a"]
            src, dst = base_ty(f.ty(a)), base_ty(f.ty(n))
            if dst in BITS and src in BITS and BITS[dst] < BITS[src] and dst != "bool":
                la = self.lin(a, depth + 1)
                if la is None:
                    return None
                r = self.linrange(la)
                lo, hi = (0, (1 << BITS[dst]) - 1) if dst in UNS else (-(1 << (BITS[dst] - 1)), (1 << (BITS[dst] - 1)) - 1)
                if r[0] >= lo and r[1] <= hi:
                    return la
                t = ("trunc", dst, la.key())
                self.trunc[t] = la
                self.note_ty(t, dst)
                return Lin(0, {t: 1})
            if dst in BITS or self.isint(a):
                return self.lin(a, depth + 1)
        if k == "un" and n["op"] == "-":
            a = self.lin(n["a"], depth + 1)
            return a.scale(-1) if a else None
        if k == "un" and n["op"] == "+":
            return self.lin(n["a"], depth + 1)
        if k == "un" and n["op"] in ("++", "--"):
            a = self.lin(n["a"], depth + 1)
            if a is None:
                return None
            if n.get("post"):
                # value before the modification; as an operand it is evaluated after the element ran
                return a.add(Lin(1), -1 if n["op"] == "++" else 1)
            return a
        if k in ("assign", "cassign"):
            return self.lin(n["a"], depth + 1)
        if k == "bin":
            op = n["op"]
            if op == ",":
                return self.lin(n["b"], depth + 1)
            if op in ("+", "-") and self.isint(nid):
                a, b = self.lin(n["a"], depth + 1), self.lin(n["b"], depth + 1)
                if a is not None and b is not None:
                    return a.add(b, 1 if op == "+" else -1)
            if op == "*" and self.isint(nid):
                a, b = self.lin(n["a"], depth + 1), self.lin(n["b"], depth + 1)
                if a is not None and b is not None:
                    if not a.m:
                        return b.scale(a.c)
                    if not b.m:
                        return a.scale(b.c)
            if op == "<<" and self.isint(nid):
                a, b = self.lin(n["a"], depth + 1), self.lin(n["b"], depth + 1)
                if a is not None and b is not None and not b.m and 0 <= b.c < 64:
                    return a.scale(1 << b.c)
            if op in ("/", "%", "&", ">>") and self.isint(nid):
                t = (op, n["id"])
                self.opq[t] = nid
                self.note_ty(t, f.ty(n))
                tt = self.term(nid)
                if tt:
                    self.opq[tt] = nid
                    t = tt
                    self.note_ty(t, f.ty(n))
                return Lin(0, {t: 1})
        if k == "call" and n.get("qn") in ("std::min", "std::max") and len(n.get("args", ())) == 2:
            la, lb = self.lin(n["args"][0], depth + 1), self.lin(n["args"][1], depth + 1)
            if la is not None and lb is not None:
                ks = sorted([la.key(), lb.key()], key=repr)
                t = (n["qn"][5:],) + tuple(ks)
                self.mm[t] = (la, lb)
                self.note_ty(t, f.ty(n))
                return Lin(0, {t: 1})
        if k == "cond":
            la, lb = self.lin(n["a"], depth + 1), self.lin(n["b"], depth + 1)
            if la is not None and lb is not None:
                c = f.nodes[n["c"]]
                if c["k"] == "bin" and c["op"] in ("<", "<=", ">", ">="):
                    ca, cb = self.lin(c["a"], depth + 1), self.lin(c["b"], depth + 1)
                    if ca is not None and cb is not None:
                        lt = c["op"] in ("<", "<=")
                        same = ca.key() == la.key() and cb.key() == lb.key()
                        opp = ca.key() == lb.key() and cb.key() == la.key()
                        if same or opp:
                            mn = (lt and same) or (not lt and opp)
                            t = ("min" if mn else "max",) + tuple(sorted([la.key(), lb.key()], key=repr))
                            self.mm[t] = (la, lb)
                            self.note_ty(t, f.ty(n))
                            return Lin(0, {t: 1})
                t = ("?", n["id"])
                self.arms[t] = (la, lb, n)
                self.note_ty(t, f.ty(n))
                return Lin(0, {t: 1})
        if k == "call" and self.isint(nid):
            l = self.getter_lin(n)
            if l is not None:
                return l
        if not self.isint(nid):
            b = base_ty(f.ty(nid))
            if not (b.endswith("*") or b in ("float", "double")) and b not in self.p.enum_by_qn:
                pass
            if b.endswith("*") or "iterator" in b:
                t = self.term(nid)
                return Lin(0, {t: 1}) if t else None
            if b not in self.p.enum_by_qn:
                return None
        t = self.term(nid)
        if t is None:
            return Lin(0, {("n", nid): 1}) if self.isint(nid) else None
        if t[0] == "k":
            return Lin(t[1])
        return Lin(0, {t: 1})

    def pred_target(self, n):
        """the single, side effect free, parameterless method body a call runs, with its result expression"""
        if n["k"] != "call" or [a for a in n.get("args", ()) if a is not None]:
            return None
        op = path(self.fn, n["obj"]) if "obj" in n else None
        if op is None:
            return None
        ts = self.p.targets(self.fn, n)
        if len(ts) != 1:
            return None
        t = ts[0]
        if t.is_lambda or t.params or t.usr == self.fn.usr:
            return None
        c = self.p.__dict__.setdefault("_predexpr", {})
        if t.usr not in c:
            rets = [m for m in t.nodes if m["k"] == "ret" and "a" in m]
            bad = any(m["k"] in ("assign", "cassign", "new", "decl", "lambda", "delete") or (m["k"] == "un" and m["op"] in ("++", "--")) for m in t.nodes)
            c[t.usr] = None if (len(rets) != 1 or bad or len(t.nodes) > 60) else rets[0]["a"]
        if c[t.usr] is None:
            return None
        return t, c[t.usr], op

    def sub_facts(self, t):
        c = self.p.__dict__.setdefault("_subfacts", {})
        if t.usr not in c:
            F = Facts.__new__(Facts)
            F.fn, F.p, F.range, F.inn = t, t.p, {}, {}
            F.opq, F.mm, F.arms, F.trunc, F._tp = {}, {}, {}, {}, {}
            c[t.usr] = F
        return c[t.usr]

    def getter_lin(self, n, depth=0):
        r = self.pred_target(n)
        if r is None or getattr(self, "_gl", 0) > 4:
            return None
        t, e, op = r
        F = self.sub_facts(t)
        F._gl = getattr(self, "_gl", 0) + 1
        l = F.lin(e)
        if l is None or not l.m:
            return l
        m = {}
        for u, v in l.m.items():
            w = rename(u, op)
            if w is None:
                return None
            if u in F.range:
                self.range.setdefault(w, F.range[u])
            m[w] = v
        return Lin(l.c, m)

    def getter_assume(self, facts, n, truth):
        r = self.pred_target(n)
        if r is None or getattr(self, "_gl", 0) > 4:
            return
        t, e, op = r
        F = self.sub_facts(t)
        F._gl = getattr(self, "_gl", 0) + 1
        tmp = set()
        F.assume(tmp, e, truth)
        for x in tmp:
            if x[0] == "L":
                m = {}
                for u, v in x[1][1]:
                    w = rename(u, op)
                    if w is None:
                        break
                    if u in F.range:
                        self.range.setdefault(w, F.range[u])
                    m[w] = v
                else:
                    facts.add(("L", Lin(x[1][0], m).key()))
            elif x[0] in ("N", "Z"):
                w = rename(x[1], op)
                if w is not None:
                    if x[1] in F.range:
                        self.range.setdefault(w, F.range[x[1]])
                    facts.add((x[0], w))
            elif x[0] in ("E", "D") and isinstance(x[1][0], str):
                a, b = rename(x[1], op), rename(x[2], op)
                if a is not None and b is not None:
                    facts.add((x[0],) + tuple(sorted((a, b), key=repr)))

    def linrange(self, l):
        lo = hi = l.c
        for t, v in l.m.items():
            r = self.range.get(t, (-(1 << 64), 1 << 64))
            if v > 0:
                lo += v * r[0]
                hi += v * r[1]
            else:
                lo += v * r[1]
                hi += v * r[0]
        return lo, hi

    # ---------------------------------------------------------------- facts from conditions
    def assume(self, facts, nid, truth, depth=0):
        f = self.fn
        if depth > 20:
            return
        n = f.nodes[nid]
        k = n["k"]
        if "cv" in n:
            return
        if k in ("cast", "defarg", "definit"):
            return self.assume(facts, n["a"], truth, depth + 1)
        if k == "un" and n["op"] == "!":
            return self.assume(facts, n["a"], not truth, depth + 1)
        if k == "bin":
            op = n["op"]
            if op == "&&":
                if truth:
                    self.assume(facts, n["a"], True, depth + 1)
                    self.assume(facts, n["b"], True, depth + 1)
                return
            if op == "||":
                if not truth:
                    self.assume(facts, n["a"], False, depth + 1)
                    self.assume(facts, n["b"], False, depth + 1)
                return
            if op == ",":
                return self.assume(facts, n["b"], truth, depth + 1)
            if op in ("<", "<=", ">", ">=", "==", "!="):
                return self.cmp(facts, op, n["a"], n["b"], truth)
        if k == "cond":
            a, b = self.constval(n["a"]), self.constval(n["b"])
            if a is not None and b is not None and bool(a) != bool(b):
                return self.assume(facts, n["c"], truth if a else not truth, depth + 1)
            return
        if k == "call":
            nm = n.get("nm")
            if n.get("op") in ("==", "!=", "<", ">", "<=", ">=") or nm in ("operator==", "operator!="):
                op = n.get("op") or nm[8:]
                xs = ([n["obj"]] if "obj" in n else []) + list(n.get("args", ()))
                if len(xs) == 2:
                    return self.cmp(facts, op, xs[0], xs[1], truth)
            if nm == "empty" and "obj" in n and not n.get("args"):
                p = path(f, n["obj"])
                if p:
                    t = ("size", p)
                    self.range.setdefault(t, (0, (1 << 63) - 1))
                    if truth:
                        facts.add(("L", Lin(0, {t: 1}).key()))
                    else:
                        facts.add(("L", Lin(1, {t: -1}).key()))
                return
            if base_ty(f.ty(n)) == "bool":
                self.getter_assume(facts, n, truth)
            if nm in ("operator bool", "has_value") and "obj" in n and not self.p.targets(f, n):
                p = path(f, n["obj"])
                if p:
                    facts.add(("N" if truth else "Z", ("p", p)))
            facts.update(self.call_post(n, truth))
        if k in ("assign",):
            self.assume(facts, n["b"], truth, depth + 1)
        p = path(f, nid)
        if p:
            for x in list(facts):
                if x[0] == "B" and x[1] == p:
                    self.assume(facts, x[2], truth, depth + 1)
                elif x[0] == "C" and x[1] == p and x[2] == truth:
                    facts.add(x[3])
        l = self.lin(nid)
        t = self.term(nid)
        if t:
            facts.add(("N" if truth else "Z", t))
            # a non-zero count is at least one
            r = self.range.get(t)
            if r and r[0] == 0 and l is not None:
                if truth:
                    facts.add(("L", Lin(1).add(l, -1).key()))
                else:
                    facts.add(("L", l.key()))

    def constval(self, nid):
        n = self.fn.nodes[nid]
        if "cv" in n:
            return int(n["cv"])
        if n["k"] == "bin" and n["op"] == ",":
            return self.constval(n["b"])
        if n["k"] in ("cast",):
            return self.constval(n["a"])
        return None

    def cmp(self, facts, op, a, b, truth):
        if not truth:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        if self.snapshots and op != "!=":
            la, lb = self.lin(a), self.lin(b)
            if la is not None and lb is not None:
                d = la.add(lb, -1)
                for e in ([d] if op in ("<", "<=", "==") else []) + ([d.scale(-1)] if op in (">", ">=", "==") else []):
                    for t, v in e.m.items():
                        if v > 0 and (t[0] == "p" or t in self.opq):
                            facts.add(("U", t, e.key()))
                            if t[0] == "p":
                                for u in self.copies(facts, t):
                                    facts.add(("U", u, e.add(Lin(0, {t: 1}), -v).add(Lin(0, {u: 1}), v).key()))
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if self.constval(y) == 0:
                    self.status_known(facts, x, op == "!=")
        la, lb = self.lin(a), self.lin(b)
        if la is not None and lb is not None:
            d = la.add(lb, -1)
            if op == "<":
                facts.add(("L", d.add(Lin(1)).key()))
            elif op == "<=":
                facts.add(("L", d.key()))
            elif op == ">":
                facts.add(("L", d.scale(-1).add(Lin(1)).key()))
            elif op == ">=":
                facts.add(("L", d.scale(-1).key()))
            elif op == "==":
                facts.add(("L", d.key()))
                facts.add(("L", d.scale(-1).key()))
            else:
                lo, hi = self.linrange(d)
                if lo == 0:
                    facts.add(("L", d.scale(-1).add(Lin(1)).key()))
                elif hi == 0:
                    facts.add(("L", d.add(Lin(1)).key()))
                facts.add(("D", d.key()))
                for x, y in ((la, lb), (lb, la)):
                    if not y.m and y.c in (NPOS, -1) and not x.c and len(x.m) == 1:
                        self.found(facts, x)
        ta, tb = self.term(a), self.term(b)
        if ta and tb:
            if repr(tb) < repr(ta):
                ta, tb = tb, ta
            if op == "==":
                facts.add(("E", ta, tb))
            elif op == "!=":
                facts.add(("D", ta, tb))
            for x, y in ((ta, tb), (tb, ta)):
                if y == ("k", 0):
                    if op == "==":
                        facts.add(("Z", x))
                    elif op == "!=":
                        facts.add(("N", x))

    def found(self, facts, x):
        """x isn't npos: when it's where something was found in a string, that's a position of the string"""
        (t, k), = x.m.items()
        if k != 1:
            return
        vs = {t}
        for y in facts:
            if y[0] == "L" and y[1][0] == 0 and len(y[1][1]) == 2:
                (t1, v1), (t2, v2) = y[1][1]
                if t in (t1, t2) and v1 == -v2 and abs(v1) == 1 and ("L", Lin(0, {t1: -v1, t2: -v2}).key()) in facts:
                    vs.add(t2 if t1 == t else t1)
        for s in list(vs):
            sz = self.searched(s)
            got = {(sz[0], sz[1])} if sz else set()
            got |= {(y[0] == "S1", y[2]) for y in facts if y[0] in ("S0", "S1") and y[1] == s}
            for one, size in got:
                self.range.setdefault(size, (0, (1 << 63) - 1))
                for v in vs:
                    facts.add(("L", Lin(1 if one else 0, {v: 1, size: -1}).key()))

    def searched(self, s):
        """(is it less than the size, the size) for the position a search gives, or None"""
        if s and s[0] in SEARCH and len(s) > 2 and s[1][0] == "p":
            return s[0] not in ("m:find", "m:rfind") or s[2][0] == "k" or s[2][0] == "s" and bool(s[2][1]), ("size", s[1][1])
        return None

    def copies(self, facts, t):
        """variables known to have the same value"""
        out = set()
        for x in facts:
            if x[0] == "L" and x[1][0] == 0 and len(x[1][1]) == 2:
                (t1, v1), (t2, v2) = x[1][1]
                if t in (t1, t2) and v1 == -v2:
                    u = t2 if t1 == t else t1
                    if u[0] == "p" and ("L", Lin(0, {t1: -v1, t2: -v2}).key()) in facts:
                        out.add(u)
        return out

    # ---------------------------------------------------------------- what a callee guarantees when it returns
    def status_known(self, facts, nid, nonzero):
        f = self.fn
        n = f.nodes[nid]
        while n["k"] == "cast":
            n = f.nodes[n["a"]]
        if n["k"] == "call":
            facts.update(self.call_post(n, nonzero))
            return
        if n["k"] == "assign":
            self.status_known(facts, n["b"], nonzero)
        p = path(f, n["id"])
        if p:
            for x in list(facts):
                if x[0] == "C" and x[1] == p and x[2] == nonzero:
                    facts.add(x[3])

    def call_post(self, n, truth):
        """facts, in this function's terms, that hold when this call returned a value that is (not) zero"""
        f = self.fn
        if n["k"] != "call" or f.usr is None:
            return ()
        ts = self.p.targets(f, n)
        if len(ts) != 1 or ts[0].usr == f.usr or ts[0].is_lambda:
            return ()
        t = ts[0]
        post = post_facts(t, truth)
        if not post:
            return ()
        op = path(f, n["obj"]) if "obj" in n else None
        args = n.get("args", ())
        par = {}
        for i, q in enumerate(t.params):
            if i < len(args) and args[i] is not None and args[i] >= 0:
                par["v:" + q["v"]] = (args[i], self.p.types[q["ty"]])
        out = []
        for x in post:
            y = self.bring(t, x, op, par)
            if y is not None:
                out.append(y)
        return out

    def bring_path(self, s, op, par):
        if s == "this" or s.startswith("this."):
            return None if op is None else op + s[4:]
        if s.startswith(("v:g:", "v:s:")):
            return s
        for q, (a, ty) in par.items():
            if s == q or s.startswith((q + ".", q + "*")):
                b = path(self.fn, a)
                if b is None:
                    # a view of a string has its size and its content
                    n = self.fn.nodes[a]
                    while n["k"] == "cast" or n["k"] == "ctor" and len(n.get("args", ())) == 1 and n["args"][0] >= 0:
                        n = self.fn.nodes[n["a"] if n["k"] == "cast" else n["args"][0]]
                    if n["k"] == "call" and "obj" in n and (n.get("nm") or "").startswith("operator basic_string_view"):
                        b = path(self.fn, n["obj"])
                    else:
                        b = path(self.fn, n["id"])
                if b is None:
                    return None
                return b + s[len(q):]
        return None

    def bring(self, t, x, op, par):
        F = of(t)
        if x[0] == "L":
            l = Lin(x[1][0])
            for u, v in x[1][1]:
                w = None
                if u[0] == "p" and u[1] in par:
                    a, ty = par[u[1]]
                    if ty.endswith("&") and not ty.startswith("const "):
                        b = path(self.fn, a)
                        w = Lin(0, {("p", b): 1}) if b else None
                        if b:
                            self.note_ty(("p", b), self.fn.ty(a))
                    else:
                        w = self.lin(a)
                elif u[0] in ("p", "size"):
                    b = self.bring_path(u[1], op, par)
                    if b:
                        if u in F.range:
                            self.range.setdefault((u[0], b), F.range[u])
                        w = Lin(0, {(u[0], b): 1})
                if w is None:
                    return None
                l = l.add(w, v)
            return ("L", l.key()) if l.m else None
        if x[0] in ("N", "Z") and x[1][0] in ("p", "size"):
            b = self.bring_path(x[1][1], op, par)
            if b:
                if x[1] in F.range:
                    self.range.setdefault((x[1][0], b), F.range[x[1]])
                return (x[0], (x[1][0], b))
        return None

    # ---------------------------------------------------------------- transfer
    def fact_paths(self, x):
        if x[0] == "U":
            return self.tp(x[1])
        if x[0] == "C":
            return {x[1]} | set(self.fact_paths(x[3]))
        if x[0] == "L":
            s = set()
            for t, v in x[1][1]:
                s |= self.tp(t)
            return s
        if x[0] == "D" and isinstance(x[1][0], int):
            s = set()
            for t, v in x[1][1]:
                s |= self.tp(t)
            return s
        if x[0] == "B":
            return {x[1]} | self.node_paths(x[2])
        s = set()
        for t in x[1:]:
            s |= self.tp(t)
        return s

    def tp(self, t):
        c = self._tp.get(t)
        if c is None:
            s = set(term_paths(t))
            if t in self.opq:
                s |= self.node_paths(self.opq[t])
            for d in (self.mm, self.arms):
                if t in d:
                    for l in d[t][:2]:
                        for u in l.m:
                            s |= self.tp(u)
            if t in self.trunc:
                for u in self.trunc[t].m:
                    s |= self.tp(u)
            if t[0] in ("min", "max") and t not in self.mm:
                for a in t[1:3]:
                    if isinstance(a, int):
                        s |= self.node_paths(a)
            c = self._tp[t] = frozenset(s)
        return c

    def node_paths(self, nid, depth=0):
        s = set()
        if depth > 25 or nid is None or nid < 0:
            return s
        p = path(self.fn, nid)
        if p:
            s.add(p)
        for o in operands(self.fn.nodes[nid]):
            s |= self.node_paths(o, depth + 1)
        return s

    def kill(self, facts, p):
        if not p:
            return
        for x in list(facts):
            if x[0] in ("N", "Z") and x[1][0] == "p" and p.startswith(x[1][1] + ".") and x[1][1] in self.pointers():
                continue   # what it points to is changed, not where it points
            for q in self.fact_paths(x):
                if related(p, q):
                    facts.discard(x)
                    break

    def pointers(self):
        s = getattr(self, "_pp", None)
        if s is None:
            s = self._pp = set()
            for n in self.fn.nodes:
                if n["k"] in ("var", "mem"):
                    t = self.fn.ty(n).rstrip()
                    if t.endswith(("*", "*const", "* const")) or "unique_ptr<" in t[:22] or "shared_ptr<" in t[:22]:
                        q = path(self.fn, n["id"])
                        if q:
                            s.add(q)
        return s

    def kill_fields(self, facts, names, objp):
        """a callee may have assigned these members (of any object reachable)"""
        if not names:
            return
        for x in list(facts):
            for q in self.fact_paths(x):
                if (q.startswith("this") or (objp and q.startswith(objp)) or not q.startswith("v:") or "." in q) and comps(q) & names:
                    facts.discard(x)
                    break

    def shift(self, facts, p, delta, exact_term=None):
        """storage p (as value term) becomes old + delta (a Lin not mentioning p)"""
        t0 = exact_term or ("p", p)
        out = set()
        for x in facts:
            if x[0] == "L":
                m = dict(x[1][1])
                others = [t for t in m if t != t0]
                if any(related(p, q) for t in others for q in self.tp(t)) and not exact_term:
                    continue
                if exact_term and any(t[0] != "size" and any(related(p, q) for q in self.tp(t)) for t in others):
                    continue
                if t0 in m:
                    # old = new - delta
                    l = Lin(x[1][0], m).add(delta, -m[t0])
                    out.add(("L", l.key()))
                else:
                    out.add(x)
            elif x[0] == "C" and x[3][0] == "L" and not related(p, x[1]):
                g = {x[3]}
                self.shift(g, p, delta, exact_term)
                for y in g:
                    out.add(("C", x[1], x[2], y))
            else:
                if x[0] in ("N", "Z") and x[1][0] == "p" and p.startswith(x[1][1] + ".") and x[1][1] in self.pointers():
                    out.add(x)
                    continue
                if any(related(p, q) for q in self.fact_paths(x)):
                    continue
                out.add(x)
        facts.clear()
        facts.update(out)

    def seteq(self, facts, t, l):
        d = Lin(0, {t: 1}).add(l, -1)
        facts.add(("L", d.key()))
        facts.add(("L", d.scale(-1).key()))

    def setval(self, facts, p, init, ty):
        """storage p now holds the value of node init (facts about p were dropped)"""
        if init is None or init < 0:
            return
        b = base_ty(ty)
        t = ("p", p)
        self.note_ty(t, ty)
        f = self.fn
        if b in BITS and b != "bool":
            l = self.lin(init)
            if l is not None and not any(related(p, q) for u in l.m for q in self.tp(u)):
                # narrowing conversions do not keep the value
                sb = base_ty(f.ty(init))
                self.seteq(facts, t, l)
            sz = self.searched(self.term(init) or ())
            if sz and not related(p, sz[1][1]):
                facts.add(("S1" if sz[0] else "S0", t, sz[1]))
            self.bind_call(facts, p, init)
            self.copy_flag(facts, p, init)
            c = self.constval(init)
            if c is not None:
                facts.add(("N" if c else "Z", t))
            elif f.nodes[init]["k"] == "call" and f.nodes[init].get("nm") == "getLastError" and p.endswith(":ret"):
                facts.add(("N", t))     # returned after a failure
            return
        if b == "bool":
            self.bind_call(facts, p, init)
            if not any(related(p, q) for q in self.node_paths(init)):
                base = {x for x in facts if x[0] in ("B", "C", "Z", "N")}
                for truth in (True, False):
                    got = set(base)
                    self.assume(got, init, truth)
                    for x in sorted(got - base, key=repr)[:16]:
                        if x[0] in ("L", "N", "Z", "E", "D", "U") and not any(related(p, q) for q in self.fact_paths(x)):
                            facts.add(("C", p, truth, x))
                facts.add(("B", p, init))
            self.copy_flag(facts, p, init)
            c = self.constval(init)
            if c is not None:
                facts.add(("N" if c else "Z", t))
            return
        if b.endswith("*") or b in self.p.enum_by_qn or "iterator" in b:
            n = f.nodes[init]
            tt = self.term(init)
            if n["k"] == "new":
                facts.add(("N", t))
            if n["k"] == "un" and n["op"] == "&":
                facts.add(("N", t))
            if tt and not any(related(p, q) for q in self.tp(tt)):
                if repr(tt) < repr(t):
                    facts.add(("E", tt, t))
                else:
                    facts.add(("E", t, tt))
                if tt == ("k", 0):
                    facts.add(("Z", t))
                if ("N", tt) in facts:
                    facts.add(("N", t))
                l = self.lin(init)
                if l is not None and (b in self.p.enum_by_qn or b.endswith("*")):
                    self.seteq(facts, t, l)
            return
        if "unique_ptr<" in b or "shared_ptr<" in b:
            n = f.nodes[init]
            while n["k"] in ("cast", "ctor") and (n.get("args") or "a" in n):
                a = n["a"] if n["k"] == "cast" else n["args"][0]
                if a is None or a < 0:
                    break
                n = f.nodes[a]
            if n["k"] == "new" or (n["k"] == "call" and n.get("nm") in ("make_unique", "make_shared")):
                facts.add(("N", t))
            return
        if CONT.match(b):
            self.setcont(facts, p, init)

    def copy_flag(self, facts, p, init):
        """what is known when the variable copied is (not) zero is known of the copy"""
        q = path(self.fn, init)
        if not q or related(p, q):
            return
        for x in list(facts):
            if x[0] == "C" and x[1] == q and not any(related(p, y) for y in self.fact_paths(x[3])):
                facts.add(("C", p, x[2], x[3]))
            elif x[0] in ("N", "Z") and x[1] == ("p", q):
                facts.add((x[0], ("p", p)))

    def flags(self):
        """local bool and int variables that are given constants: what holds for each value is kept apart when paths meet"""
        c = getattr(self, "_flags", None)
        if c is None:
            c = set()
            f = self.fn
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        i = d.get("init", -1)
                        if i is not None and i >= 0 and not d.get("static") and base_ty(self.p.types[d["ty"]]) in ("bool", "int") and self.constval(i) is not None:
                            c.add("v:" + d["v"])
                elif n["k"] == "assign" and f.nodes[n["a"]]["k"] == "var" and base_ty(f.ty(n["a"])) in ("bool", "int") and self.constval(n["b"]) is not None:
                    c.add("v:" + f.nodes[n["a"]]["v"])
            self._flags = c
        return c

    def known_flags(self, s):
        fl = self.flags()
        return {x[1][1]: x[0] == "N" for x in s if x[0] in ("N", "Z") and x[1][0] == "p" and x[1][1] in fl}

    def partition(self, r, a, b, fresh):
        """facts of one side that only hold for one value of a flag"""
        ka, kb = self.known_flags(a), self.known_flags(b)
        for s, o, ks, ko in ((a, b, ka, kb), (b, a, kb, ka)):
            for x in s:
                if x[0] == "C" and x not in r:
                    if x[1] in ko and ko[x[1]] != x[2] or x[3] in o or (x[3][0] == "L" and len(x[3][1][1]) <= 3 and self.prove(o, Lin(x[3][1][0], dict(x[3][1][1])), 1)):
                        r.add(x)
            for p, v in ko.items():
                if fresh and ks.get(p) != v:
                    k = 0
                    for x in sorted(s - r, key=repr):
                        if x[0] in ("L", "N", "Z", "E", "U") and k < 24 and not any(related(p, q) for q in self.fact_paths(x)):
                            r.add(("C", p, not v, x))
                            k += 1

    def bind_call(self, facts, p, init):
        n = self.fn.nodes[init]
        while n["k"] == "cast":
            n = self.fn.nodes[n["a"]]
        if n["k"] == "call":
            for truth in (True, False):
                for x in list(self.call_post(n, truth))[:16]:
                    if not any(related(p, q) for q in self.fact_paths(x)):
                        facts.add(("C", p, truth, x))

    def setcont(self, facts, p, init):
        f = self.fn
        n = f.nodes[init]
        while n["k"] == "cast":
            n = f.nodes[n["a"]]
        t = ("size", p)
        self.range.setdefault(t, (0, (1 << 63) - 1))
        if n["k"] == "ctor":
            args = [a for a in n.get("args", ()) if a is not None and a >= 0 and f.nodes[a]["k"] != "defarg"]
            ty = base_ty(f.ty(n))
            if not args:
                facts.add(("L", Lin(0, {t: 1}).key()))
            elif n.get("copy"):
                q = path(f, args[0])
                if q and q != p:
                    self.seteq(facts, t, Lin(0, {("size", q): 1}))
            elif ("vector<" in ty or "basic_string<" in ty) and self.isint(args[0]) and len(args) <= 2:
                l = self.lin(args[0])
                if l is not None:
                    self.seteq(facts, t, l)
            return
        q = path(f, n["id"])
        if q and q != p:
            self.seteq(facts, t, Lin(0, {("size", q): 1}))
        if n["k"] == "call":
            pass

    def xfer(self, facts, e):
        f = self.fn
        if not isinstance(e, int):
            if e.get("k") == "init" or "written" in e:
                # constructor initialiser
                if "nm" in e and e.get("a", -1) is not None and e.get("a", -1) >= 0:
                    self.setval(facts, "this." + e["nm"], e["a"], f.ty(e["a"]))
            return
        n = f.nodes[e]
        k = n["k"]
        if k == "decl":
            for d in n["ds"]:
                if d.get("ref") or d.get("static"):
                    continue
                p = "v:" + d["v"]
                self.kill(facts, p)
                self.setval(facts, p, d.get("init", -1), self.p.types[d["ty"]])
        elif k == "assign":
            p = path(f, n["a"])
            if p is None:
                # unknown storage of some object: anything reached through the same base
                self.kill_unknown(facts, n["a"])
                return
            l = self.lin(n["b"]) if self.isint(n["a"]) else None
            t = ("p", p)
            if l is not None and l.m.get(t) == 1 and not any(u != t and any(related(p, q) for q in self.tp(u)) for u in l.m):
                self.shift(facts, p, l.add(Lin(0, {t: 1}), -1))
            else:
                self.kill(facts, p)
                self.setval(facts, p, n["b"], f.ty(n["a"]))
        elif k == "cassign" or (k == "un" and n["op"] in ("++", "--")):
            p = path(f, n["a"])
            if p is None:
                self.kill_unknown(facts, n["a"])
                return
            d = None
            if k == "un":
                d = Lin(1 if n["op"] == "++" else -1)
            elif n["op"] in ("+=", "-="):
                d = self.lin(n["b"])
                if d is not None and n["op"] == "-=":
                    d = d.scale(-1)
            if d is not None and not any(related(p, q) for u in d.m for q in self.tp(u)):
                self.shift(facts, p, d)
            else:
                self.kill(facts, p)
        elif k in ("call", "ctor"):
            self.call(facts, n)
        elif k == "delete":
            pass

    def kill_unknown(self, facts, nid):
        """assignment to storage without a path: drop facts about members of that name"""
        n = self.fn.nodes[nid]
        while n["k"] in ("cast", "index") or (n["k"] == "un" and n["op"] == "*"):
            n = self.fn.nodes[n["a"]]
        if n["k"] == "mem":
            self.kill_fields(facts, {n["nm"]}, None)
        elif n["k"] == "call" and "obj" in n:
            p = path(self.fn, n["obj"])
            # element of a container: the container's size does not change
            if p:
                for x in list(facts):
                    if any(q == p or q.startswith(p + "[") or q.startswith(p + ".") for q in self.fact_paths(x)) and not self.only_size(x, p):
                        facts.discard(x)

    def only_size(self, x, p):
        if x[0] != "L":
            return False
        for t, v in x[1][1]:
            if t == ("size", p):
                continue
            if any(related(p, q) for q in self.tp(t)):
                return False
        return True

    def call(self, facts, n):
        saved = ()
        if n.get("arrow") and "obj" in n and not self.p.targets(self.fn, n):
            # a library method called through a pointer doesn't change where it points
            q = ("p", path(self.fn, n["obj"]))
            saved = [x for x in facts if x[0] in ("N", "Z") and x[1] == q]
        self.call_(facts, n)
        facts.update(saved)

    def call_(self, facts, n):
        f = self.fn
        nm = n.get("nm")
        op = path(f, n["obj"]) if "obj" in n else None
        ts = self.p.targets(f, n)
        args = n.get("args", ())
        oty = f.ty(n["obj"]).rstrip("*& ") if "obj" in n else ""
        if n["k"] == "call" and op and CONT.match(oty) and not ts:
            t = ("size", op)
            self.range.setdefault(t, (0, (1 << 63) - 1))
            a = [x for x in args if x is not None and x >= 0 and f.nodes[x]["k"] != "defarg"]
            if nm == "resize" and a:
                l = self.lin(a[0])
                if l is not None and l.m.get(t) and not [u for u in l.m if u != t and any(related(op, q) for q in self.tp(u))] and l.m[t] == 1:
                    self.shift(facts, op, l.add(Lin(0, {t: 1}), -1), t)
                else:
                    self.kill(facts, op)
                    if l is not None and not any(related(op, q) for u in l.m for q in self.tp(u)):
                        self.seteq(facts, t, l)
                return
            if nm == "clear":
                self.kill(facts, op)
                facts.add(("L", Lin(0, {t: 1}).key()))
                return
            if nm in ("push_back", "emplace_back", "push_front", "emplace_front", "append") and nm != "append" or nm == "push_back":
                self.shift(facts, op, Lin(1), t)
                facts.add(("L", Lin(1, {t: -1}).key()))
                self.kill_args(facts, n, ts)
                return
            if nm in ("pop_back", "pop_front"):
                self.shift(facts, op, Lin(-1), t)
                return
            if nm in ("reserve", "shrink_to_fit", "data", "begin", "end", "front", "back", "size", "empty", "at", "find", "count", "c_str",
                      "rbegin", "rend", "capacity", "length", "lower_bound", "upper_bound", "cbegin", "cend") or n.get("op") == "[]" and "map<" not in oty.split("<")[0] + "<":
                return
            if nm == "operator=" or n.get("op") == "=":
                self.kill(facts, op)
                if a:
                    self.setcont(facts, op, a[0])
                return
            if nm == "assign" and len(a) == 2 and self.isint(a[0]):
                l = self.lin(a[0])
                self.kill(facts, op)
                if l is not None:
                    self.seteq(facts, t, l)
                return
            if nm in ("append", "insert", "emplace"):
                # only grows
                lo = [x for x in facts if x[0] == "L" and dict(x[1][1]).get(t, 0) < 0 and self.only_size(x, op)]
                self.kill(facts, op)
                facts.update(lo)
                self.kill_args(facts, n, ts)
                return
        if n.get("op") == "=" and op and args:
            self.kill_args(facts, n, ts)
            self.kill(facts, op)
            t = ("p", op)
            a = args[0]
            if ("unique_ptr<" in oty or "shared_ptr<" in oty):
                if f.nodes[a]["k"] == "null":
                    facts.add(("Z", t))
                else:
                    self.setval(facts, op, a, oty)
            elif "std::optional<" in oty and not ("nullopt" in f.ty(a) or "optional<" in f.ty(a)):
                facts.add(("N", t))
            elif "std::function<" in oty and f.nodes[a]["k"] == "lambda":
                facts.add(("N", t))
            else:
                tt = self.term(a)
                if tt and not any(related(op, q) for q in self.tp(tt)):
                    facts.add(("E",) + tuple(sorted((t, tt), key=repr)))
            return
        if "obj" in n and op and not n.get("cm") and not n.get("stat"):
            if ts:
                mods = set()
                for t in ts:
                    mods |= self.mods(t)
                if mods:
                    self.kill_fields(facts, mods, op)
                    # value terms computed by calls on this object
                    self.kill_calls(facts, op)
            else:
                known = n.get("op") in ("->", "*", "[]", "()") or nm in ("get", "begin", "end", "data", "lock", "c_str", "rbegin", "rend", "back", "front", "at", "find") \
                    or nm in JSONREAD and "rapidjson::" in n.get("qn", "")
                if nm in ("reset", "release", "swap", "operator=") or not known:
                    self.kill(facts, op)
                    if nm == "reset" and not [a for a in args if a is not None and a >= 0 and f.nodes[a]["k"] != "defarg"]:
                        facts.add(("Z", ("p", op)))
                    elif nm == "reset" and args and f.nodes[args[0]]["k"] == "new" or nm == "emplace" and "optional<" in oty:
                        facts.add(("N", ("p", op)))
        elif ts and "obj" not in n:
            mods = set()
            for t in ts:
                mods |= self.mods(t)
            self.kill_fields(facts, mods, None)
        elif n["k"] == "ctor" and ts:
            pass
        self.kill_args(facts, n, ts)

    def kill_calls(self, facts, op):
        for x in list(facts):
            ts = [t for t, v in x[1][1]] if (x[0] == "L" or (x[0] == "D" and isinstance(x[1][0], int))) else [t for t in x[1:] if isinstance(t, tuple)]
            for t in ts:
                if self.has_call_on(t, op):
                    facts.discard(x)
                    break

    def has_call_on(self, t, op):
        if not isinstance(t, tuple) or not t:
            return False
        if isinstance(t[0], str) and t[0].startswith("m:"):
            if any(related(op, q) for q in term_paths(t)):
                return True
        return any(self.has_call_on(x, op) for x in t[1:])

    def mods(self, t):
        return modfields(self.p, t)

    def kill_args(self, facts, n, ts):
        f = self.fn
        if n.get("qn", "").startswith(("fmt::", "vrs::logging")):
            return
        if n.get("nm") in ("move", "forward", "min", "max", "make_unique", "make_shared", "back_inserter", "addressof", "ref", "get") and n.get("qn", "").startswith("std::"):
            return
        pm = n.get("pm", "")
        for i, a in enumerate(n.get("args", ())):
            if a is None or a < 0 or i >= len(pm):
                continue
            x = f.nodes[a]
            while x["k"] == "cast":
                x = f.nodes[x["a"]]
            if pm[i] in "r":
                if ts and not any(self.writes_param(t, i) for t in ts):
                    continue
                self.kill(facts, path(f, a))
            elif pm[i] == "m":
                # bound to an rvalue reference: moved from
                p = path(f, a)
                if p:
                    self.kill(facts, p)
            elif pm[i] in "pv" and x["k"] == "un" and x["op"] == "&":
                self.kill(facts, path(f, x["a"]))
            elif pm[i] == "p":
                p = path(f, a)
                if p:
                    for y in list(facts):
                        if any(q.startswith(p + ".") or q.startswith(p + "[") or q.startswith(p + "*") for q in self.fact_paths(y)):
                            facts.discard(y)

    def writes_param(self, t, i):
        if i >= len(t.params):
            return True
        v = t.params[i]["v"]
        key = (t.usr, i)
        c = self.p.__dict__.setdefault("_wparam", {})
        if key in c:
            return c[key]
        c[key] = True
        w = False
        for m in t.nodes:
            if m["k"] in ("assign", "cassign") or (m["k"] == "un" and m["op"] in ("++", "--")):
                p = path(t, m["a"])
                if p and p.split(".")[0].split("[")[0] == "v:" + v:
                    w = True
            elif m["k"] in ("call", "ctor"):
                if "obj" in m and not m.get("cm"):
                    p = path(t, m["obj"])
                    if p and p.split(".")[0].split("[")[0].rstrip("*") == "v:" + v:
                        w = True
                pm = m.get("pm", "")
                for j, a in enumerate(m.get("args", ())):
                    if a is None or a < 0:
                        continue
                    p = path(t, a)
                    if p and p.split(".")[0].split("[")[0].rstrip("*") == "v:" + v and j < len(pm) and pm[j] in "rmp":
                        w = True
            elif m["k"] == "lambda":
                for cc in m.get("caps", ()):
                    if cc.get("v") == v:
                        w = True
        c[key] = w
        return w

    # ---------------------------------------------------------------- solver
    def _solve(self):
        f = self.fn
        self.opq, self.mm, self.arms, self.trunc, self._tp = {}, {}, {}, {}, {}
        self.edge = {}
        for pr in f.params:
            self.note_ty(("p", "v:" + pr["v"]), self.p.types[pr["ty"]])
        if f.entry is None:
            return
        order = f.order()
        idx = {b: i for i, b in enumerate(order)}
        import heapq
        self.inn = {f.entry: self.entry_facts}
        visits = {}
        work = [idx[f.entry]]
        inw = {f.entry}
        while work:
            b = order[heapq.heappop(work)]
            inw.discard(b)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 60:
                self.inn[b] = frozenset()
            facts = set(self.inn[b])
            B = f.blocks[b]
            for e in B.e:
                self.xfer(facts, e)
            for i, s in enumerate(B.s):
                if s is None:
                    continue
                out = set(facts)
                if B.c is not None and B.c >= 0 and len(B.s) == 2 and B.tk in ("if", "for", "while", "do", "&&", "||", "?:", "?"):
                    self.assume(out, B.c, i == 0)
                elif B.tk == "switch" and B.c is not None and B.c >= 0:
                    self.switch(out, B, s)
                self.edge[(b, i)] = None
                new = frozenset(out)
                if len(new) > 400:
                    new = frozenset(sorted(new, key=repr)[:400])
                old = self.inn.get(s)
                if old is None:
                    j = new
                else:
                    j = self.join(old, new, visits.get(s, 0) > 4, visits.get(s, 0) <= 4)
                if old is None or j != old:
                    self.inn[s] = j
                    if s not in inw and s in idx:
                        inw.add(s)
                        heapq.heappush(work, idx[s])

    def switch(self, out, B, s):
        S = self.fn.blocks[s]
        case = S.case
        if case is None or S.default:
            return
        vals = case if isinstance(case, list) else [case]
        if len(vals) == 1:
            try:
                v = int(vals[0])
            except (TypeError, ValueError):
                return
            l = self.lin(B.c)
            if l is not None:
                d = l.add(Lin(v), -1)
                out.add(("L", d.key()))
                out.add(("L", d.scale(-1).key()))
            t = self.term(B.c)
            if t:
                out.add(("E",) + tuple(sorted((t, ("k", v)), key=repr)))

    def join(self, a, b, strict, fresh=True):
        r = set(a & b)
        da = {}
        for x in a - r:
            if x[0] == "L":
                k = x[1][1]
                if k not in da or x[1][0] > da[k]:
                    da[k] = x[1][0]
        for x in b - r:
            if x[0] == "L" and x[1][1] in da:
                # same linear form with different constants: keep the weaker one, if it is (when widening) the one already there
                if not strict or x[1][0] >= da[x[1][1]]:
                    r.add(("L", (min(da[x[1][1]], x[1][0]), x[1][1])))
        # an inequality on one side that the other side also implies
        for p, q in ((a, b),) if strict else ((a, b), (b, a)):
            for x in p - q:
                if x[0] == "L" and x not in r and len(x[1][1]) <= 3:
                    l = Lin(x[1][0], dict(x[1][1]))
                    if self.prove(q, l, 2):
                        r.add(x)
                elif x[0] == "N" and x not in r:
                    if self.nonzero(q, x[1]):
                        r.add(x)
        self.partition(r, a, b, fresh)
        if strict:
            # decreasing from here on
            r &= a
        return frozenset(r)

    # ---------------------------------------------------------------- queries
    def at(self, nid):
        """facts holding just before element nid is evaluated"""
        f = self.fn
        pos = f.pos.get(nid)
        if pos is None:
            # not an element itself: use the first enclosing element
            for q in f.parents.get(nid, ()):
                r = self.at(q)
                if r is not None:
                    return r
            return None
        b, i = pos
        if b not in self.inn:
            return None
        facts = set(self.inn[b])
        for e in f.blocks[b].e[:i]:
            self.xfer(facts, e)
        return facts

    def at_exit(self, b):
        facts = set(self.inn.get(b, ()))
        for e in self.fn.blocks[b].e:
            self.xfer(facts, e)
        return facts

    def axioms(self, t):
        """inequalities true of an opaque term, as Lin <= 0"""
        out = []
        one = Lin(0, {t: 1})
        r = self.range.get(t)
        if t in self.mm:
            la, lb = self.mm[t]
            if t[0] == "min":
                out += [one.add(la, -1), one.add(lb, -1)]
            else:
                out += [la.add(one, -1), lb.add(one, -1)]
        if t in self.trunc and r and r[0] == 0:
            out.append(one.add(self.trunc[t], -1))
        if t in self.opq:
            n = self.fn.nodes[self.opq[t]]
            la, lb = self.lin(n["a"]), self.lin(n["b"])
            if la is not None and lb is not None:
                nonneg = self.linrange(la)[0] >= 0
                if n["op"] == "%":
                    if nonneg:
                        out.append(one.add(la, -1))
                    if lb.m or lb.c > 0:
                        out.append(one.add(lb, -1).add(Lin(1)))
                elif n["op"] == "/" and nonneg:
                    if not lb.m and lb.c > 0:
                        out.append(one.scale(lb.c).add(la, -1))
                        out.append(la.add(one.scale(lb.c), -1).add(Lin(-(lb.c - 1))))
                    else:
                        out.append(one.add(la, -1))
                elif n["op"] == ">>" and nonneg:
                    if not lb.m and 0 <= lb.c < 64:
                        out.append(one.scale(1 << lb.c).add(la, -1))
                    else:
                        out.append(one.add(la, -1))
                elif n["op"] == "&":
                    for l in (la, lb):
                        if self.linrange(l)[0] >= 0:
                            out.append(one.add(l, -1))
        if t in self.arms:
            la, lb, n = self.arms[t]
            ra, rb = self.linrange(la), self.linrange(lb)
            hi, lo = max(ra[1], rb[1]), min(ra[0], rb[0])
            if hi < 1 << 62:
                out.append(one.add(Lin(hi), -1))
            if lo > -(1 << 62):
                out.append(Lin(lo).add(one, -1))
        if r:
            if r[0] > -(1 << 40):
                out.append(Lin(r[0]).add(one, -1))
            if r[1] < (1 << 40):
                out.append(one.add(Lin(r[1]), -1))
        return out

    def prove(self, facts, q, depth=4, trail=None):
        """does facts imply q <= 0 ?"""
        # the strongest inequality for each linear form, simplest forms first
        best = {}
        for x in facts:
            if x[0] == "L":
                k = x[1][1]
                if k not in best or x[1][0] > best[k]:
                    best[k] = x[1][0]
            elif x[0] == "E":
                a, b = x[1], x[2]
                la = Lin(a[1]) if a[0] == "k" else Lin(0, {a: 1})
                lb = Lin(b[1]) if b[0] == "k" else Lin(0, {b: 1})
                d = la.add(lb, -1)
                for d in (d, d.scale(-1)):
                    k = frozenset(d.m.items())
                    if k not in best or d.c > best[k]:
                        best[k] = d.c
        byterm = {}
        for k, c in best.items():
            l = Lin(c, dict(k))
            for t, v in k:
                byterm.setdefault((t, v > 0), []).append(l)
        cands = {}
        seen = {}
        budget = [6000]

        def by(t, pos):
            r = cands.get((t, pos))
            if r is None:
                r = byterm.get((t, pos), [])
                if len(r) > 1:
                    r.sort(key=lambda l: (len(l.m), -l.c, sorted((text(z), v) for z, v in l.m.items())))
                r = cands[(t, pos)] = r + [a for a in self.axioms(t) if t in a.m and (a.m[t] > 0) == pos]
            return r

        def rec(q, d):
            if self.trivial(q):
                return True
            if d == 0 or budget[0] <= 0:
                return False
            k = q.key()
            if seen.get(k, 0) >= d:
                return False
            seen[k] = d
            budget[0] -= 1
            # eliminate some term whose presence is a problem
            for t, v in sorted(q.m.items(), key=lambda z: (text(z[0]), z[1])):
                for l in by(t, v > 0):
                    w = l.m[t]
                    # q - (v/w) l must stay integral: scale q instead
                    g = math.gcd(abs(v), abs(w))
                    q2 = q.scale(abs(w) // g).add(l, -(abs(v) // g))
                    if len(q2.m) <= 6 and rec(q2, d - 1):
                        return True
            return False
        if rec(q, depth):
            return True
        return False

    def trivial(self, q):
        hi = q.c
        for t, v in q.m.items():
            r = self.range.get(t)
            if r is None:
                return False
            if v > 0:
                if r[1] >= 1 << 40:
                    return False
                hi += v * r[1]
            else:
                if r[0] <= -(1 << 31):
                    return False
                hi += v * r[0]
            if hi > 0 and v > 0 and False:
                return False
        return hi <= 0

    def le(self, facts, a, b, off=0):
        """a + off <= b ?  (Lin)"""
        return self.prove(facts, a.add(b, -1).add(Lin(off)))

    def nonzero(self, facts, t):
        if ("N", t) in facts:
            return True
        for x in facts:
            if x[0] == "E" and t in (x[1], x[2]):
                o = x[2] if x[1] == t else x[1]
                if ("N", o) in facts or (o[0] == "k" and o[1] != 0):
                    return True
        r = self.range.get(t)
        if r is not None and r[0] >= 0:
            return self.prove(facts, Lin(1, {t: -1}))
        return False


def post_facts(t, truth):
    """facts about parameters and members that hold at every return of t whose value is (not) zero"""
    p = t.p
    c = p.__dict__.setdefault("_postfacts", {})
    key = (t.usr, truth)
    if key in c:
        return c[key]
    c[key] = ()
    if t.entry is None or t.params is None:
        return ()
    rt = None
    rets = [n for n in t.nodes if n["k"] == "ret" and n["id"] in t.pos]
    if not rets or len(rets) > 40 or len(t.nodes) > 4000:
        return ()
    if any(r.get("a", -1) is None or r.get("a", -1) < 0 for r in rets):
        return ()
    b = base_ty(t.ty(rets[0]["a"]))
    if b not in ("bool", "int"):
        return ()
    busy = p.__dict__.setdefault("_postbusy", set())
    if t.usr in busy or len(busy) > 12:
        del c[key]
        return ()
    busy.add(t.usr)
    try:
        F = of(t)
        acc = None
        for r in rets:
            fs = F.at(r["id"])
            if fs is None:
                continue
            v = F.constval(r["a"])
            if v is not None:
                if bool(v) != truth:
                    continue
            else:
                e = t.nodes[r["a"]]
                while e["k"] == "cast":
                    e = t.nodes[e["a"]]
                if not truth and e["k"] == "call" and e.get("nm") == "getLastError":
                    continue
                u = F.term(r["a"])
                if u:
                    if truth and ("Z", u) in fs or not truth and F.nonzero(fs, u):
                        continue
                F.assume(fs, r["a"], truth)
            acc = frozenset(fs) if acc is None else F.join(acc, frozenset(fs), False)
            if not acc:
                break
        out = []
        if acc:
            vals = {"v:" + q["v"] for q in t.params}
            mod = {"v:" + q["v"] for q in t.params if not p.types[q["ty"]].endswith("&") and changed(t, q["v"])}
            for x in sorted(acc, key=repr):
                if x[0] == "L":
                    us = [u for u, v in x[1][1]]
                elif x[0] in ("N", "Z"):
                    us = [x[1]]
                else:
                    continue
                ok = True
                for u in us:
                    if u[0] not in ("p", "size") or not isinstance(u[1], str):
                        ok = False
                        break
                    root = u[1].split(".")[0].split("[")[0].split("*")[0]
                    if root.startswith(("v:g:", "v:s:")):
                        continue
                    if root != "this" and root not in vals or root in mod:
                        ok = False
                        break
                if ok and us:
                    out.append(x)
        c[key] = tuple(out[:40])
    finally:
        busy.discard(t.usr)
    return c[key]


def changed(f, v):
    for n in f.nodes:
        if n["k"] in ("assign", "cassign") or (n["k"] == "un" and n["op"] in ("++", "--", "&")):
            q = path(f, n["a"])
            if q == "v:" + v:
                return True
        elif n["k"] == "call" and not n.get("qn", "").startswith(("fmt::", "vrs::logging", "std::min", "std::max")):
            pm = n.get("pm", "")
            ts = None
            for j, a in enumerate(n.get("args", ())):
                if a is not None and a >= 0 and j < len(pm) and pm[j] in "rm" and path(f, a) == "v:" + v:
                    if pm[j] == "r":
                        ts = f.p.targets(f, n)
                        if ts and not any(of(t).writes_param(t, j) for t in ts):
                            continue
                    return True
    return False


def modfields(p, t):
    """names of members t may assign, transitively"""
    c = p.__dict__.get("_modfields")
    if c is None:
        c = p._modfields = closure(p, {f.usr: modded(p, f) for f in p.fns.values()})
    return c.get(t.usr, frozenset())


def closure(p, sets):
    """what each function has, and all functions it may call"""
    callees = {}
    for f in p.fns.values():
        out = set()
        for n in f.nodes:
            if n["k"] in ("call", "ctor"):
                out.update(t.usr for t in p.targets(f, n))
        callees[f.usr] = sorted(out)
    callers = {}
    for u, ts in callees.items():
        for t in ts:
            callers.setdefault(t, []).append(u)
    sets = {u: set(x) for u, x in sets.items()}
    work = sorted(u for u in sets if sets[u])
    while work:
        u = work.pop()
        for g in callers.get(u, ()):
            if not sets[u] <= sets.setdefault(g, set()):
                sets[g] |= sets[u]
                work.append(g)
    return sets


def modded(p, t):
    out = set()
    for n in t.nodes:
        if n["k"] in ("assign", "cassign") or (n["k"] == "un" and n["op"] in ("++", "--")):
            a = t.nodes[n["a"]]
            while a["k"] in ("cast", "index") or (a["k"] == "un" and a["op"] == "*"):
                a = t.nodes[a["a"]]
            if a["k"] == "mem":
                out.add(a["nm"])
            elif a["k"] == "call" and "obj" in a:
                x = path(t, a["obj"])
                if x:
                    out.add(x.split(".")[-1].split("[")[0])
        elif n["k"] in ("call", "ctor"):
            ts = p.targets(t, n)
            if "obj" in n and not n.get("cm") and not ts and n.get("op") not in ("->", "*", "[]", "()") and n.get("nm") not in (
                    "get", "begin", "end", "data", "find", "back", "front", "at", "rbegin", "rend", "c_str", "lock"):
                x = path(t, n["obj"])
                if x:
                    out.add(x.split(".")[-1].split("[")[0])
            pm = n.get("pm", "")
            for i, a in enumerate(n.get("args", ())):
                if a is not None and a >= 0 and i < len(pm) and pm[i] in "rm":
                    x = path(t, a)
                    if x and "." in x:
                        out.add(x.split(".")[-1].split("[")[0])
                elif a is not None and a >= 0:
                    y = t.nodes[a]
                    if y["k"] == "un" and y["op"] == "&":
                        x = path(t, y["a"])
                        if x and "." in x:
                            out.add(x.split(".")[-1].split("[")[0])
    return out


def of(fn):
    F = getattr(fn, "_facts", None)
    if F is None:
        F = fn._facts = Facts(fn)
    return F
