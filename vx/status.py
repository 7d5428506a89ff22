"""Must-use analysis of status codes.

Every call to a status function creates a token; the analysis follows, path by path, which storage
holds the token and whether the path has established that the operation failed ('e'), succeeded
('o'), or neither ('u'). When the function returns, every token that is not known to be a success
must be covered: the returned value is that status (or a known non-zero / false one after a known
failure), or the status sits in storage that outlives the call.
"""
import collections
from .paths import path, root_is_outer
from .prog import operands
from .facts import closure

ZERO, NONZ = ("Z",), ("N",)
MAXSTATES = 800
SOFT = 60


class Cfg:
    """What counts as a status, per check."""

    def __init__(self):
        self.not_status = set()          # qualified names of int functions whose result is not a status
        self.externals = {}              # qualified name -> "int" | "count" | "neg" | "ptr"
        self.always_error = set()        # qualified names: result is always a non-zero error
        self.sinks = set()               # names of functions taking an error and making it sticky


class Status:
    def __init__(self, prog, cfg):
        self.p = prog
        self.cfg = cfg
        self._sum = {}
        self._stack = set()
        self._prop = {}
        self.viol = {}
        self.sites = {}
        self._mods = None

    # -------------------------------------------------------------- helpers
    def rkind(self, fn):
        t = self.p.types[fn.rty]
        if t == "int":
            return "int"
        if t == "bool":
            return "bool"
        if t == "void":
            return "void"
        if t.endswith("*") or "unique_ptr<" in t or "shared_ptr<" in t or "optional<" in t:
            return "ptr"
        return "other"

    def modfields(self, fn):
        """names of fields possibly assigned by fn (transitively, within the repository)"""
        if self._mods is None:
            self._mods = closure(self.p, {f.usr: self.modded(f) for f in self.p.fns.values()})
        return self._mods.get(fn.usr, ())

    def modded(self, fn):
        out = set()
        for n in fn.nodes:
            if n["k"] in ("assign", "cassign") or (n["k"] == "un" and n["op"] in ("++", "--")):
                a = fn.nodes[n["a"]]
                if a["k"] == "mem":
                    out.add(a["nm"])
            elif n["k"] in ("call", "ctor"):
                pm = n.get("pm", "")
                for i, a in enumerate(n.get("args", ())):
                    if a is not None and a >= 0 and i < len(pm) and pm[i] in "rpm":
                        x = fn.nodes[a]
                        if x["k"] == "un" and x["op"] == "&":
                            x = fn.nodes[x["a"]]
                        if x["k"] == "mem":
                            out.add(x["nm"])
        return out

    def may_write_arg(self, fn, n, ts, i):
        """may the callee assign through its i-th (reference or pointer) parameter?"""
        if not ts:
            q = n.get("qn", "")
            if q.startswith(("fmt::", "vrs::logging", "arvr::logging")):
                return False
            if q.startswith("std::") and n.get("nm") not in ("swap", "getline", "from_chars", "exchange", "operator>>", "get"):
                return False
            return True
        for t in ts:
            key = ("w", t.usr, i)
            if key not in self._prop:
                w = False
                if i < len(t.params):
                    v = t.params[i]["v"]
                    for m in t.nodes:
                        if m["k"] == "var" and m["v"] == v:
                            if not self._benign_use(t, m["id"]):
                                w = True
                                break
                self._prop[key] = w
            if self._prop[key]:
                return True
        return False

    def _benign_use(self, t, nid):
        for q in t.parents.get(nid, ()):
            m = t.nodes[q]
            if m["k"] in ("bin", "cond", "ret", "decl"):
                continue
            if m["k"] == "cast":
                continue
            if m["k"] == "un" and m["op"] in ("!", "-", "*"):
                if not self._benign_use(t, q):
                    return False
                continue
            if m["k"] == "assign" and m["a"] != nid:
                continue
            if m["k"] in ("call", "ctor"):
                if nid == m.get("obj"):
                    if m.get("cm"):
                        continue
                    return False
                idx = [j for j, a in enumerate(m.get("args", ())) if a == nid]
                pm = m.get("pm", "")
                if all(j < len(pm) and pm[j] in "vcq" for j in idx):
                    continue
                if m.get("qn", "").startswith(("fmt::", "vrs::logging")):
                    continue
                return False
            return False
        return True

    def ext_kind(self, n):
        return self.cfg.externals.get(n.get("qn"))

    def is_status_call(self, fn, n):
        """None, or (kind): 'int' nonzero=error, 'bool' false=error, 'count', 'neg'"""
        if n["k"] != "call":
            return None
        x = self.ext_kind(n)
        if x:
            return x
        qn = n.get("qn")
        if qn in self.cfg.not_status or qn in self.cfg.always_error:
            return None
        u = n.get("fn")
        t = self.p.types[n["rty"]] if "rty" in n else ""
        lam = None
        if n.get("op") == "()" and "obj" in n:
            lid = self.p.lambda_of(fn, n["obj"])
            lam = self.p.fns.get(lid)
        if u in self.p.decls or u in self.p.fns or lam is not None:
            if t == "int":
                ts = self.p.targets(fn, n)
                if not ts:
                    return "int"
                return "int" if any(self.summary(x)["status"] for x in ts) or any(x.usr in self._stack for x in ts) else None
            if t == "bool":
                ts = self.p.targets(fn, n)
                return "bool" if any(self.summary(x)["status"] for x in ts) else None
            ts = self.p.targets(fn, n)
            if ts and all(self.summary(x).get("count") for x in ts):
                return "count"
            if t == "void" or t:
                return None
        return None

    def summary(self, fn):
        if fn.usr in self._sum:
            return self._sum[fn.usr]
        if fn.usr in self._stack:
            return {"status": False, "retmember": None, "pending": set()}
        self._stack.add(fn.usr)
        try:
            s = FnRun(self, fn).run()
            if s.get("overflow"):
                # one obligation at a time
                viol, bad = {}, []
                for e in list(s["sites"]):
                    r = FnRun(self, fn, only=e).run()
                    viol.update({k: v for k, v in r["viol"].items() if k[0] == e})
                    if r.get("overflow"):
                        bad.append(e)
                s["viol"] = viol
                s["overflow"] = bad
        finally:
            self._stack.discard(fn.usr)
        self._sum[fn.usr] = s
        return s

    def propagates(self, fn, i):
        """does a failing status passed as parameter i always make fn's result report failure?"""
        key = (fn.usr, i)
        if key in self._prop:
            return self._prop[key]
        self._prop[key] = False
        if i >= len(fn.params) or self.rkind(fn) not in ("int", "bool"):
            return False
        r = FnRun(self, fn, param_token=i).run()
        self._prop[key] = r["param_ok"]
        return r["param_ok"]


class St:
    __slots__ = ("v", "t", "n")

    def __init__(self, v=None, t=None, n=None):
        self.v = v if v is not None else {}
        self.t = t if t is not None else {}
        self.n = n if n is not None else {}

    def copy(self):
        return St(dict(self.v), dict(self.t), dict(self.n))

    def key(self):
        return (frozenset(self.v.items()), frozenset(self.t.items()), frozenset(self.n.items()))


class FnRun:
    def __init__(self, S, fn, param_token=None, only=None):
        self.S = S
        self.p = S.p
        self.fn = fn
        self.rk = S.rkind(fn)
        self.param_token = param_token
        self.only = only
        self.count = False
        self.viol = {}
        self.retvals = []
        self.status = False
        self.sites = {}
        self.pending = set()
        self.retmember = "?"
        self.param_ok = True
        self._tested = None
        # values that must not be forgotten: whatever is assigned from a call or returned
        self.keep = set()
        self.retkeep = set()
        for n in fn.nodes:
            if n["k"] == "assign" and n["op"] == "=" and fn.nodes[n["b"]]["k"] in ("call", "cond", "bin"):
                q = path(fn, n["a"])
                if q:
                    self.keep.add(q)
            elif n["k"] == "ret" and "a" in n:
                q = path(fn, n["a"])
                if q:
                    self.keep.add(q)
                    self.retkeep.add(q)
            elif n["k"] == "decl":
                for d in n["ds"]:
                    if d.get("init", -1) >= 0 and fn.nodes[d["init"]]["k"] in ("call",):
                        self.keep.add("v:" + d["v"])
        # nodes whose value is needed in another block
        self.cross = set()
        pos = fn.pos
        for n in fn.nodes:
            b = pos.get(n["id"])
            for o in operands(n):
                ob = pos.get(o)
                if not b or not ob or ob[0] != b[0]:
                    self.cross.add(o)
        for b in fn.blocks.values():
            if b.c is not None and b.c >= 0:
                ob = pos.get(b.c)
                if ob is None or ob[0] != b.id:
                    self.cross.add(b.c)
                n = fn.nodes[b.c]
                if n["k"] == "un":
                    self.cross.add(n["a"])

    # ---------------------------------------------------------------- values
    def val(self, st, nid):
        if nid is None or nid < 0:
            return None
        n = self.fn.nodes[nid]
        if nid in st.n:
            return st.n[nid]
        if "cv" in n:
            return ZERO if n["cv"] == "0" else NONZ
        k = n["k"]
        if k in ("var", "mem", "binding"):
            p = path(self.fn, nid)
            if p and p in st.v:
                return st.v[p]
            return None
        if k in ("null", "zero"):
            return ZERO
        if k in ("cast", "defarg", "definit"):
            return self.val(st, n["a"])
        if k == "un" and n["op"] == "!":
            return flip(self.val(st, n["a"]))
        if k == "un" and n["op"] in ("-", "+"):
            return self.val(st, n["a"])
        if k == "un" and n["op"] == "*" and self.fn.nodes[n["a"]].get("qn") == "__errno_location":
            return NONZ   # errno, read after a failed system call
        if k == "assign" and n["op"] == "=":
            return self.val(st, n["a"]) if self.val(st, n["a"]) is not None else self.val(st, n["b"])
        if k == "bin":
            return self.binval(st, n)
        if k == "cond":
            c = self.truth(st, n["c"])
            if c is True:
                return self.val(st, n["a"])
            if c is False:
                return self.val(st, n["b"])
            a, b = self.val(st, n["a"]), self.val(st, n["b"])
            return a if a == b else None
        if k == "ctor":
            # copies of a value; empty smart pointer / optional
            if n.get("copy") and n.get("args"):
                return self.val(st, n["args"][0])
            t = self.fn.ty(n)
            if "unique_ptr<" in t or "shared_ptr<" in t or "optional<" in t:
                a = [x for x in n.get("args", ()) if x is not None and x >= 0]
                if not a:
                    return ZERO
                if self.fn.nodes[a[0]]["k"] == "null":
                    return ZERO
                if "nullopt" in self.fn.ty(a[0]):
                    return ZERO
                return self.val(st, a[0]) or NONZ
            return None
        if k == "initlist" and not n.get("args"):
            return ZERO
        if k == "initlist" and len(n.get("args", ())) == 1:
            return self.val(st, n["args"][0])
        if k == "call":
            if n.get("qn") in self.S.cfg.always_error:
                return NONZ
            if n.get("nm") in ("move", "forward") and n.get("args"):
                return self.val(st, n["args"][0])
            if n.get("nm") == "getLastError" and "obj" in n:
                o = path(self.fn, n["obj"])
                for s, x in st.t.items():
                    if x == "e" and isinstance(s[0], int) and o is not None:
                        m = self.fn.nodes[s[0]]
                        if "obj" in m and path(self.fn, m["obj"]) == o:
                            return NONZ
                return None
            if n.get("nm") in ("max", "min") and n.get("qn", "").startswith("std::"):
                return None
        return None

    def binval(self, st, n):
        op = n["op"]
        if op == ",":
            return self.val(st, n["b"])
        if op in ("&&", "||"):
            a = self.truth(st, n["a"])
            if op == "&&":
                if a is False:
                    return ZERO
                if a is True:
                    return self.val(st, n["b"])
            else:
                if a is True:
                    return NONZ
                if a is False:
                    return self.val(st, n["b"])
            return None
        if op in ("==", "!=", "<", ">", "<=", ">="):
            va, vb = self.val(st, n["a"]), self.val(st, n["b"])
            swap = False
            if (vb is not None and vb[0] in "PCG") and not (va is not None and va[0] in "PCG"):
                va, vb = vb, va
                swap = True
            if va is None:
                return None
            if va[0] == "G":  # negative means failure
                s = va[1]
                if op == "==" and vb == NONZ:
                    return ("P", s, "e", "o")
                if op == "!=" and vb == NONZ:
                    return ("P", s, "o", "e")
                if op in ("<", "<=", ">", ">="):
                    lt = (op in ("<", "<=")) != swap
                    return ("P", s, "e", "o") if lt else ("P", s, "o", "e")
                return None
            if va[0] == "C":  # byte count of a transfer
                if vb == ZERO and op in ("==", "!="):
                    return None
                s = va[1]
                if op == "!=":
                    return ("P", s, "e", "o")
                if op == "==":
                    return ("P", s, "o", "e")
                if (op == "<") != swap and op in "<>":
                    return ("P", s, "e", "o")
                if op in (">=", "<="):
                    return ("P", s, "o", "e")
                return None
            if va[0] == "P":
                s, t, f = va[1], va[2], va[3]
                if vb == ZERO:
                    if op == "==":
                        return ("P", s, f, t)
                    if op == "!=":
                        return va
                    if op in ("<", ">"):
                        return ("P", s, t, "u") if (t == "e") else None
                    if op in ("<=", ">="):
                        return ("P", s, "u", t) if (t == "e") else None
                if vb == NONZ:
                    if op == "==":
                        return ("P", s, t, "u")
                    if op == "!=":
                        return ("P", s, "u", t)
                return None
            if va in (ZERO, NONZ) and vb == ZERO and op in ("<", ">", "<=", ">=") and self.unsigned(n["a"]):
                return (NONZ if (va == NONZ) == (op == ">") else ZERO) if op in (">", "<=") else NONZ if op == ">=" else ZERO
            if va in (ZERO, NONZ) and vb == ZERO:
                z = va == ZERO
                if op == "==":
                    return NONZ if z else ZERO
                if op == "!=":
                    return ZERO if z else NONZ
            if va == ZERO and vb == NONZ:
                if op == "==":
                    return ZERO
                if op == "!=":
                    return NONZ
        if op == "+" and self.unsigned(n["a"]) and self.unsigned(n["b"]):
            for x in (n["a"], n["b"]):
                if self.fn.nodes[x].get("cv", "0") != "0":
                    return NONZ   # sizes: assumed not to wrap (P12)
        return None

    def unsigned(self, nid):
        return self.fn.ti(nid).startswith("u")

    def truth(self, st, nid):
        v = self.val(st, nid)
        if v == ZERO:
            return False
        if v == NONZ:
            return True
        if v and v[0] == "P":
            s = st.t.get(v[1])
            if s in ("o", "e"):
                if v[2] == s and v[3] != s:
                    return True
                if v[3] == s and v[2] != s:
                    return False
                if v[2] == "u" and v[3] != s:   # false would imply the opposite
                    return True
                if v[3] == "u" and v[2] != s:
                    return False
        return None

    def refine(self, st, nid, want):
        """state with condition nid == want, or None if impossible"""
        t = self.truth(st, nid)
        if t is not None and t != want:
            return None
        st = st.copy()
        self._refine(st, nid, want)
        return st

    def _refine(self, st, nid, want, depth=0):
        if depth > 10:
            return
        n = self.fn.nodes[nid]
        v = self.val(st, nid)
        if v and v[0] == "P":
            r = v[2] if want else v[3]
            if r in ("o", "e") and st.t.get(v[1]) == "u":
                st.t[v[1]] = r
        elif v is None:
            k = n["k"]
            if k in ("var", "mem"):
                p = path(self.fn, nid)
                ti = self.fn.ti(nid)
                if p and (ti == "b" or ti in ("i32", "u32") or ti.startswith("e:")) and self.tested(p):
                    st.v[p] = NONZ if want else ZERO
            elif k == "un" and n["op"] == "!":
                self._refine(st, n["a"], not want, depth + 1)
            elif k == "cast":
                self._refine(st, n["a"], want, depth + 1)
            elif k == "bin" and n["op"] in ("==", "!="):
                vb = self.val(st, n["b"])
                if vb == ZERO:
                    self._refine(st, n["a"], want == (n["op"] == "!="), depth + 1)
                elif vb == NONZ and want == (n["op"] == "=="):
                    self._refine(st, n["a"], True, depth + 1)
            elif k == "assign":
                self._refine(st, n["a"], want, depth + 1)
        if nid in self.cross or nid in st.n:
            st.n[nid] = NONZ if want else ZERO

    def tested(self, p):
        if self._tested is None:
            c = collections.Counter()
            for n in self.fn.nodes:
                if n["k"] in ("var", "mem"):
                    q = path(self.fn, n["id"])
                    if q:
                        c[q] += 1
            self._tested = c
        return self._tested[p] > 1

    # --------------------------------------------------------------- transfer
    def kill(self, st, p):
        for q in [q for q in st.v if q == p or q.startswith(p + ".") or q.startswith(p + "[")]:
            del st.v[q]

    def set(self, st, p, v):
        self.kill(st, p)
        if v is not None:
            st.v[p] = v

    def new_token(self, st, nid, kind, label):
        s = (nid, label)
        if st.t.get(s) in ("u", "e"):
            # a second execution of the same call: keep the earlier obligation under another name
            stt = st.t[s]
            old = (nid, label + ("'" if stt == "u" else "!"))
            for q, v in list(st.v.items()):
                if v and v[0] in "PC" and v[1] == s:
                    st.v[q] = ("P", old, v[2], v[3]) if v[0] == "P" else ("C", old)
            if st.t.get(old) == "u" and not self.held(st, old):
                self.report(old[0], "lost", None)
            st.t[old] = stt
        st.t[s] = "u"
        for q in [q for q, v in st.n.items() if v and v[0] in "PC" and v[1] == s]:
            del st.n[q]
        return s

    def held(self, st, s):
        return any(v and v[0] in "PC" and v[1] == s for v in st.v.values())

    def report(self, nid, why, retnode):
        self.viol.setdefault((nid, why), retnode)

    def element(self, st, e):
        fn = self.fn
        if not isinstance(e, int):
            if e["k"] == "init" and "f" in e and "a" in e:
                v = self.val(st, e["a"])
                self.set(st, "this." + e["nm"], v)
            return [st]
        n = fn.nodes[e]
        k = n["k"]
        if e in st.n:
            del st.n[e]
        if st.n:
            self.forget_parents(st, e)
        if k == "assign" and n["op"] == "=":
            p = path(fn, n["a"])
            v = self.val(st, n["b"])
            if p:
                self.set(st, p, v)
            if e in self.cross and v is not None:
                st.n[e] = v
        elif k == "cassign":
            p = path(fn, n["a"])
            v = None
            if p:
                if n["op"] == "|=":
                    a, b = self.val(st, n["a"]), self.val(st, n["b"])
                    v = self.combine_or(st, a, b)
                elif n["op"] == "&=":
                    a, b = self.val(st, n["a"]), self.val(st, n["b"])
                    v = self.combine_and(st, a, b)
                self.set(st, p, v)
        elif k == "un" and n["op"] in ("++", "--"):
            p = path(fn, n["a"])
            if p:
                cur = st.v.get(p)
                self.set(st, p, NONZ if n["op"] == "++" and cur in (ZERO, NONZ) else None)
                # counting failures: an incremented counter that outlives the call covers known failures
                for s in [s for s, x in st.t.items() if x == "e"]:
                    st.v.setdefault("cnt:" + p, NONZ)
        elif k == "decl":
            for d in n["ds"]:
                p = "v:" + d["v"]
                if d.get("ref"):
                    continue
                v = self.val(st, d["init"]) if d.get("init", -1) >= 0 else None
                self.set(st, p, v)
        elif k in ("call", "ctor"):
            return self.call(st, e, n)
        elif k == "ret":
            self.ret(st, e, n)
        elif k in ("cond",) or (k == "bin" and n["op"] in ("&&", "||")) or e in self.cross:
            v = self.val(st, e)
            if v is not None and (e in self.cross):
                st.n[e] = v
        return [st]

    def forget_parents(self, st, e):
        """a value computed from e in an earlier iteration is stale once e is evaluated again"""
        for q in self.fn.parents.get(e, ()):
            if q not in self.fn.pos:
                st.n.pop(q, None)
                self.forget_parents(st, q)

    def combine_or(self, st, a, b):
        if a == ZERO:
            return b
        if b == ZERO:
            return a
        if a == NONZ or b == NONZ:
            return NONZ
        return None

    def combine_and(self, st, a, b):
        if a == NONZ:
            return b
        if b == NONZ:
            return a
        if a == ZERO or b == ZERO:
            return ZERO
        return None

    def call(self, st, e, n):
        fn = self.fn
        S = self.S
        args = [a for a in n.get("args", ())]
        # sinks
        if n.get("nm") in S.cfg.sinks or n.get("qn") in S.cfg.sinks:
            for a in args:
                v = self.val(st, a)
                if v and v[0] == "P":
                    st.t.pop(v[1], None)
                elif v == NONZ:
                    for s in [s for s, x in st.t.items() if x == "e"]:
                        st.t.pop(s)
        kind = S.is_status_call(fn, n)
        ts = S.p.targets(fn, n) if n["k"] == "call" else []
        # status passed on as an argument to a function that reports it
        carried = []
        for i, a in enumerate(args):
            v = self.val(st, a)
            if v and v[0] == "P" and ts and any(S.propagates(t, i) for t in ts):
                rks = {S.rkind(t) for t in ts if S.propagates(t, i)}
                if rks == {"bool"}:
                    v = ("P", v[1], "o", "e") if "e" in v[2:] else v
                carried.append(v)
        # effects on reference arguments
        pm = n.get("pm", "")
        for i, a in enumerate(args):
            if a is None or a < 0:
                continue
            if i < len(pm) and pm[i] in "rp":
                p = path(fn, a)
                if p:
                    x = fn.nodes[a]
                    if pm[i] == "p" and x["k"] != "un":
                        continue
                    if S.may_write_arg(fn, n, ts, i):
                        self.kill(st, p)
        lam = None
        if n.get("op") == "()" and "obj" in n:
            lam = S.p.fns.get(S.p.lambda_of(fn, n["obj"]))
        # effects on fields of this
        objp = path(fn, n["obj"]) if "obj" in n else None
        if ts:
            mods = set()
            for t in ts:
                mods |= S.modfields(t)
            if mods:
                for q in [q for q in st.v if ("." in q) and q.rsplit(".", 1)[1].split("[")[0] in mods]:
                    if not (q.startswith("cnt:")):
                        del st.v[q]
            if lam is not None:
                # by-reference captures assigned inside the lambda
                for m in lam.nodes:
                    if m["k"] in ("assign", "cassign"):
                        q = path(lam, m["a"])
                        if q:
                            self.kill(st, q)
        elif objp and not n.get("cm") and n.get("k") == "call" and objp in st.v:
            self.kill(st, objp)
        res = None
        if kind:
            self.sites[e] = kind
        if kind and self.only is not None and e != self.only:
            for v in carried:
                res = v
        elif kind:
            s = self.new_token(st, e, kind, "r")
            if kind == "int":
                res = ("P", s, "e", "o")
            elif kind == "bool":
                res = ("P", s, "o", "e")
            elif kind == "neg":
                res = ("G", s)
            elif kind == "ptr":
                res = ("P", s, "o", "e")
            elif kind == "count":
                res = ("C", s)
            for v in carried:
                st.t.pop(v[1], None)
        elif carried:
            res = carried[0]
        elif n.get("qn") in S.cfg.always_error:
            res = NONZ
        # member-carried status of methods called on the same object
        if objp == "this" and ts and len(ts) >= 1 and not fn.is_lambda:
            sms = [S.summary(t) for t in ts]
            for sm in sms[:1]:
                rm = sm.get("retmember")
                if rm and res and res[0] == "P":
                    st.v["this." + rm] = ("P", res[1], "e", "o")
                for f in sm.get("pending", ()):
                    if f == rm and kind:
                        continue
                    if self.only is not None and e != self.only:
                        continue
                    s = self.new_token(st, e, "int", "m:" + f)
                    st.v["this." + f] = ("P", s, "e", "o")
        if res is not None:
            st.n[e] = res
        return [st]

    def ret(self, st, e, n):
        a = n.get("a")
        v = self.val(st, a) if a is not None else None
        self.check_exit(st, v, e, a)

    def check_exit(self, st, v, e, a):
        fn = self.fn
        rk = self.rk
        covered = set()
        held_out = set()
        for q, x in st.v.items():
            if x and x[0] == "P" and (root_is_outer(fn, q)):
                held_out.add(x[1])
                if q.startswith("this.") and "." not in q[5:] and "[" not in q:
                    if st.t.get(x[1]) in ("u", "e"):
                        self.pending.add(q[5:])
        cnt = any(q.startswith("cnt:") and root_is_outer(fn, q[4:]) for q in st.v)
        retfail = None      # does the returned value say "failure"?
        if rk == "int":
            if v == NONZ:
                retfail = "all"
            elif v and v[0] == "P":
                s, t, f = v[1:]
                if t == "e":
                    covered.add(s)
                    if st.t.get(s) == "e":
                        retfail = "all"
        elif rk in ("bool", "ptr"):
            if v == ZERO:
                retfail = "all"
            elif v and v[0] == "P":
                s, t, f = v[1:]
                if f == "e":
                    covered.add(s)
                    if st.t.get(s) == "e":
                        retfail = "all"
                elif t == "e":
                    # failure reported as 'true'
                    self.report(s[0], "inverted", e)
        if rk == "other" and v and v[0] == "C":
            covered.add(v[1])
            self.count = True
        open_toks = [s for s, x in st.t.items() if x != "o"]
        # retmember: is the returned value the same as a member?
        if rk == "int" and a is not None and self.retmember is not None:
            pa = path(fn, a)
            m = None
            if pa and pa.startswith("this.") and pa.count(".") == 1:
                m = {pa[5:]}
            else:
                if v is not None:
                    m = {q[5:] for q, x in st.v.items() if q.startswith("this.") and q.count(".") == 1 and x == v and v != NONZ}
                else:
                    m = set()
            if self.retmember == "?":
                self.retmember = m
            else:
                self.retmember = self.retmember & m
        for s in open_toks:
            x = st.t[s]
            if s in covered:
                self.status = True
                continue
            if retfail == "all":
                if x == "e":
                    self.status = True
                    continue
                continue  # an error is reported anyway
            if s in held_out:
                continue
            if x == "e" and cnt:
                continue
            if s[0] == "param":
                self.param_ok = False
                continue
            self.report(s[0], "dropped" if x == "u" else "swallowed", e)
        if retfail == "all" and rk == "int":
            self.status = True
        if rk == "int" and v and v[0] == "P":
            self.status = True

    def run(self):
        fn = self.fn
        if fn.entry is None:
            return {"status": self.rk == "int", "retmember": None, "pending": set(), "viol": {}, "sites": {}, "param_ok": False}
        st0 = St()
        if self.param_token is not None:
            pv = fn.params[self.param_token]
            s = ("param", "r")
            st0.t[s] = "e"
            st0.v["v:" + pv["v"]] = ("P", s, "e", "o") if self.p.types[pv["ty"]] != "bool" else ("P", s, "o", "e")
        work = collections.OrderedDict()
        seen = collections.defaultdict(set)
        order = {b: i for i, b in enumerate(fn.order())}
        pend = collections.defaultdict(list)
        pend[fn.entry].append(st0)
        overflow = False
        while pend:
            b = min(pend, key=lambda x: order.get(x, 1 << 30))
            sts = pend.pop(b)
            blk = fn.blocks[b]
            for st in sts:
                k = st.key()
                if k in seen[b]:
                    continue
                if len(seen[b]) > SOFT:
                    # too many variants: forget what is known about values that carry no status
                    st = st.copy()
                    tier = self.keep if len(seen[b]) < 3 * SOFT else self.retkeep if len(seen[b]) < 6 * SOFT else ()
                    for q in [q for q, v in st.v.items() if v in (ZERO, NONZ) and q not in tier]:
                        del st.v[q]
                    if tier is not self.keep:
                        st.n = {q: v for q, v in st.n.items() if v not in (ZERO, NONZ)}
                    k = st.key()
                    if k in seen[b]:
                        continue
                if len(seen[b]) > MAXSTATES:
                    overflow = True
                    continue
                seen[b].add(k)
                st = st.copy()
                for e in blk.e:
                    (st,) = self.element(st, e)
                if b == fn.exit:
                    continue
                if blk.noret:
                    continue
                # prune
                for q in [q for q in st.n if q not in self.cross]:
                    if not (blk.c == q or self.uses(blk.c, q)):
                        del st.n[q]
                succ = [s for s in blk.s]
                live = [s for s in succ if s is not None]
                if not live:
                    continue
                isret = any(isinstance(e, int) and fn.nodes[e]["k"] == "ret" for e in blk.e)
                if blk.c is not None and blk.c >= 0 and blk.tk in ("if", "while", "for", "do", "&&", "||", "?:", "forrange") and len(succ) == 2:
                    for i, s in enumerate(succ):
                        if s is None:
                            continue
                        st2 = self.refine(st, blk.c, i == 0)
                        if st2 is None:
                            continue
                        self.prune(st2)
                        self.push(pend, s, st2, fn, isret)
                elif blk.tk == "switch" and blk.c is not None and blk.c >= 0:
                    v = self.val(st, blk.c)
                    for s in live:
                        st2 = st.copy()
                        if v and v[0] == "P" and v[2] == "e":
                            cs = fn.blocks[s].case
                            if cs:
                                if cs[0] == "0":
                                    if st2.t.get(v[1]) == "u":
                                        st2.t[v[1]] = "o"
                                elif st2.t.get(v[1]) == "u":
                                    st2.t[v[1]] = "e"
                        self.prune(st2)
                        self.push(pend, s, st2, fn, isret)
                else:
                    for s in live:
                        st2 = st.copy()
                        self.prune(st2)
                        self.push(pend, s, st2, fn, isret)
        rm = self.retmember
        rm = sorted(rm)[0] if isinstance(rm, set) and len(rm) >= 1 else None
        return {"status": self.status if self.rk in ("int", "bool") else False, "retmember": rm, "pending": self.pending,
                "viol": self.viol, "sites": self.sites, "param_ok": self.param_ok, "overflow": overflow, "count": self.count}

    def push(self, pend, s, st, fn, isret):
        if s == fn.exit and not isret:
            # falling off the end of a void function / constructor
            self.check_exit(st, None, None, None)
        pend[s].append(st)

    def uses(self, c, q):
        return c is not None and c >= 0 and q in operands(self.fn.nodes[c])

    def prune(self, st):
        """forget known-good tokens and values that mention them"""
        good = [s for s, x in st.t.items() if x == "o"]
        for s in good:
            del st.t[s]
            for d in (st.v, st.n):
                for q, v in list(d.items()):
                    if v and v[0] in "CG" and v[1] == s:
                        del d[q]
                    elif v and v[0] == "P" and v[1] == s:
                        if v[2] == "o" and v[3] == "e":
                            d[q] = NONZ
                        elif v[2] == "e" and v[3] == "o":
                            d[q] = ZERO
                        elif v[2] == "u" and v[3] == "e":
                            d[q] = NONZ
                        elif v[2] == "e" and v[3] == "u":
                            d[q] = ZERO
                        else:
                            del d[q]


def flip(v):
    if v == ZERO:
        return NONZ
    if v == NONZ:
        return ZERO
    if v and v[0] == "P":
        return ("P", v[1], v[3], v[2])
    return None
