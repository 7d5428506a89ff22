"""Which locks are certainly held at each program point (must-held lockset dataflow over each function's CFG)."""
import collections, os
from .paths import path, ref_aliases

HERE = os.path.dirname(os.path.abspath(__file__))
LOCK_TYPES = ("std::unique_lock", "std::lock_guard", "std::scoped_lock", "std::shared_lock")
MUTEX_TYPES = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::recursive_timed_mutex")


def bare(t):
    return t.replace("const ", "").replace("mutable ", "").rstrip("&* ")


def is_mutex_type(t):
    return bare(t) in MUTEX_TYPES or bare(t) in ("mutex", "recursive_mutex", "shared_mutex")


def is_lock_type(t):
    return any(bare(t).startswith(x) for x in LOCK_TYPES)


def strip(f, nid):
    while nid is not None and nid >= 0:
        n = f.nodes[nid]
        if n["k"] in ("cast", "paren") or n["k"] == "un" and n["op"] in ("*", "&"):
            nid = n["a"]
        elif n["k"] == "ctor" and len(n.get("args", ())) == 1 and not is_lock_type(f.ty(n)):
            nid = n["args"][0]
        else:
            break
    return nid


def base_names():
    s = set()
    with open(os.path.join(HERE, "base_functions.txt")) as fh:
        for l in fh:
            s.add(l.rstrip("\n"))
    return s


class Locks:
    def __init__(self, p, fns=None):
        self.p = p
        self.fns = fns if fns is not None else list(p.fns.values())
        self.fns = [f for f in self.fns if f.blocks]
        self.ids = {f.usr for f in self.fns}
        self.base = base_names()
        self.recursive = set()
        self.at = {}           # fn usr -> {node id: frozenset(tokens)}
        self.entry = {}        # fn usr -> frozenset(mutex ids) or None (not reached yet)
        self.acq = collections.defaultdict(list)   # fn usr -> [(node, mutex id, held before)]
        self.prep()
        self.solve()

    # -- identities

    def mutex_id(self, f, nid, depth=0):
        """(identity, base path) of the mutex an expression denotes"""
        nid = strip(f, nid)
        if nid is None or nid < 0 or depth > 6:
            return None
        n = f.nodes[nid]
        if n["k"] == "mem":
            own = self.p.field_owner.get(n.get("f"))
            ident = (own[0]["qn"] if own else "?") + "::" + n["nm"]
            if own and "recursive" in self.p.types[own[1]["ty"]]:
                self.recursive.add(ident)
            return ident, path(f, n["a"]) or "?"
        if n["k"] == "var":
            if n["v"] in ref_aliases(f):
                return self.mutex_id(f, ref_aliases(f)[n["v"]], depth + 1)
            t = f.ty(n)
            if is_mutex_type(t):
                ident = "%s:%s" % (f.file, n["nm"])
                if "recursive" in t:
                    self.recursive.add(ident)
                return ident, ""
        if n["k"] == "gvar" and is_mutex_type(f.ty(n)):
            return "%s" % n.get("qn", n.get("nm")), ""
        if n["k"] == "call" and (n.get("op") in ("->", "*") or n.get("nm") == "get") and "obj" in n and not is_mutex_type(f.ty(n)):
            return self.mutex_id(f, n["obj"], depth + 1)
        if n["k"] == "call":
            for t in self.p.targets(f, n):
                for r in t.nodes:
                    if r["k"] == "ret" and "a" in r:
                        m = self.mutex_id(t, r["a"], depth + 1)
                        if m:
                            return (m[0], "*" if m[1] else "")
            if is_mutex_type(f.ty(n)):
                if "recursive" in f.ty(n):
                    self.recursive.add("fn:" + (n.get("qn") or ""))
                return "fn:" + (n.get("qn") or ""), ""
        return None

    def lock_var(self, f, nid):
        nid = strip(f, nid)
        if nid is None or nid < 0:
            return None
        n = f.nodes[nid]
        if n["k"] == "var" and n["v"] in ref_aliases(f):
            return self.lock_var(f, ref_aliases(f)[n["v"]])
        if n["k"] in ("var", "mem") and is_lock_type(f.ty(n)):
            return n["v"] if n["k"] == "var" else "mem:" + n["nm"]
        return None

    # -- effects

    def prep(self):
        self.locks = {}     # fn usr -> {lock var: [(mutex, base)]}
        self.lockparams = {}
        for f in self.fns:
            m = {}
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        t = self.p.types[d["ty"]] if "ty" in d else ""
                        if is_lock_type(t) and not d.get("ref"):
                            m[d["v"]] = self.ctor_mutexes(f, d.get("init", -1))
            self.locks[f.usr] = m
            self.lockparams[f.usr] = [(i, x["v"]) for i, x in enumerate(f.params) if is_lock_type(self.p.types[x["ty"]])]

    def ctor_mutexes(self, f, nid):
        """mutexes a lock object is constructed from, or None when it doesn't lock them at once"""
        for _ in range(6):
            if nid is None or nid < 0:
                return []
            n = f.nodes[nid]
            if n["k"] == "ctor" and is_lock_type(f.ty(n)):
                args = n.get("args", ())
                if len(args) == 1 and is_lock_type(f.ty(args[0])):
                    nid = args[0]   # moved
                    continue
                out, defer = [], False
                for a in args:
                    t = f.ty(strip(f, a)) if a >= 0 else ""
                    if "defer_lock" in t or "try_to_lock" in t or "duration" in t or "time_point" in t:
                        defer = True
                        continue
                    m = self.mutex_id(f, a)
                    if m:
                        out.append(m)
                return [] if defer else out
            if "a" in n:
                nid = n["a"]
            else:
                return []
        return []

    def step(self, f, st, e):
        """the tokens held after an element; token = (how, mutex, base)"""
        if not isinstance(e, int):
            if e.get("k") == "dtor" and e.get("v") is not None:
                return frozenset(t for t in st if t[0] != e["v"])
            return st
        n = f.nodes[e]
        if n["k"] == "decl":
            for d in n["ds"]:
                ms = self.locks[f.usr].get(d["v"])
                if ms:
                    for m, b in ms:
                        self.note(f, n, m, b, st)
                    st = st | {(d["v"], m, b) for m, b in ms}
            return st
        if n["k"] == "call" and "obj" in n and n.get("nm") in ("lock", "unlock", "release", "try_lock"):
            lv = self.lock_var(f, n["obj"])
            if lv:
                if n["nm"] == "lock":
                    ms = self.locks[f.usr].get(lv)
                    if ms is None or not ms:
                        ms = [(t[1], t[2]) for t in self.released.get((f.usr, lv), ())]
                    for m, b in ms:
                        self.note(f, n, m, b, st)
                    return st | {(lv, m, b) for m, b in ms}
                if n["nm"] == "unlock":
                    gone = {t for t in st if t[0] == lv}
                    self.released.setdefault((f.usr, lv), set()).update(gone)
                    return st - gone
                return st
            m = self.mutex_id(f, n["obj"])
            if m and is_mutex_type(f.ty(strip(f, n["obj"]))):
                if n["nm"] == "lock":
                    self.note(f, n, m[0], m[1], st)
                    return st | {("manual", m[0], m[1])}
                if n["nm"] == "unlock":
                    return frozenset(t for t in st if t[:2] != ("manual", m[0]) and not (t[0] == "entry" and t[1] == m[0]))
        if n["k"] == "call" and n.get("qn") in ("std::lock",):
            for a in n.get("args", ()):
                m = self.mutex_id(f, a)
                if m:
                    st = st | {("manual", m[0], m[1])}
        return st

    def note(self, f, n, m, b, st):
        self.acq[f.usr].append((n, m, b, st))

    # -- fixpoint

    def inherits(self, f):
        """helpers whose callers hold the locks"""
        if f.is_lambda or f.nm.startswith("~") or f.usr in self.thread_roots:
            return False
        if self.lockparams[f.usr]:
            return True
        return f.qn not in self.base and bool(self.p.callers.get(f.usr)) and f.usr not in self.p.fnrefs_taken

    def solve(self):
        self.thread_roots = set()
        self.released = {}
        self.inn = {}
        self.compute_fnrefs()
        for f in self.fns:
            if f.is_lambda or self.inherits(f):
                self.entry[f.usr] = None
            else:
                self.entry[f.usr] = frozenset()
        work = collections.deque(f for f in self.fns if self.entry[f.usr] is not None)
        inq = {f.usr for f in work}
        n = 0
        while work:
            f = work.popleft()
            inq.discard(f.usr)
            n += 1
            for u, held in self.flow(f):
                if u not in self.ids:
                    continue
                g = self.p.fns[u]
                if not (g.is_lambda or self.inherits(g)):
                    continue
                old = self.entry[u]
                new = held if old is None else old & held
                if new != old:
                    self.entry[u] = new
                    if u not in inq:
                        inq.add(u)
                        work.append(g)
            if n > 40 * len(self.fns):
                break
            if not work:   # lambdas and helpers nobody was seen to reach
                for g in self.fns:
                    if self.entry[g.usr] is None:
                        self.entry[g.usr] = frozenset()
                        work.append(g)
                        inq.add(g.usr)

    def compute_fnrefs(self):
        if not hasattr(self.p, "fnrefs_taken"):
            taken = set()
            for f in self.p.fns.values():
                callee = set()
                for n in f.nodes:
                    if n["k"] == "call" and n.get("fn"):
                        callee.add(n["fn"])
                for n in f.nodes:
                    if n["k"] == "un" and n["op"] == "&":
                        m = f.nodes[n["a"]]
                        if m["k"] in ("fnref", "memfn") and m.get("fn"):
                            taken.add(m["fn"])
                    if n["k"] in ("call", "ctor"):
                        for a in n.get("args", ()):
                            a = strip(f, a)
                            if a is not None and a >= 0 and f.nodes[a]["k"] == "fnref" and f.nodes[a].get("fn"):
                                taken.add(f.nodes[a]["fn"])
            self.p.fnrefs_taken = taken

    def flag(self, f, nid, neg=False):
        """the local flag a branch tests: (variable, value on the true edge)"""
        while nid is not None and nid >= 0:
            n = f.nodes[nid]
            if n["k"] == "un" and n["op"] == "!":
                neg = not neg
                nid = n["a"]
            elif n["k"] in ("cast", "paren"):
                nid = n["a"]
            elif n["k"] == "var":
                return n["v"], not neg
            else:
                break
        return None

    def owns(self, f, nid, neg=False):
        """the lock object a branch tests for holding its lock: (variable, value on the true edge)"""
        for _ in range(8):
            if nid is None or nid < 0:
                return None
            n = f.nodes[nid]
            if n["k"] == "un" and n["op"] == "!":
                neg = not neg
                nid = n["a"]
            elif n["k"] in ("cast", "paren"):
                nid = n["a"]
            elif n["k"] == "call" and "obj" in n and n.get("nm") in ("owns_lock", "operator bool"):
                lv = self.lock_var(f, n["obj"])
                return (lv, not neg) if lv and lv in self.locks[f.usr] else None
            else:
                return None
        return None

    def steps(self, f, sts, e):
        out = set()
        kill = None
        if isinstance(e, int):
            n = f.nodes[e]
            if n["k"] in ("assign", "cassign"):
                m = f.nodes[strip(f, n["a"])]
                kill = m["v"] if m["k"] == "var" else None
        for facts, held in sts:
            if kill:
                facts = frozenset(x for x in facts if x[0] != kill)
            out.add((facts, self.step(f, held, e)))
        return frozenset(out)

    def meet(self, sts):
        if len(sts) <= 24:
            return sts
        held = None
        for _, h in sts:
            held = h if held is None else held & h
        return frozenset([(frozenset(), held)])

    def flow(self, f):
        entry = self.entry[f.usr]
        lp = self.lockparams[f.usr]
        start = set()
        for m in entry:
            start.add(("entry", m, "*"))
        for i, v in lp:
            for m in entry:
                start.discard(("entry", m, "*"))
                start.add((v, m, "*"))
        inn = {f.entry: frozenset([(frozenset(), frozenset(start))])}
        self.acq[f.usr] = []
        work = [f.entry]
        plain = not self.locks[f.usr] and not entry and not lp and not any(
            n["k"] == "call" and n.get("nm") in ("lock", "unlock") for n in f.nodes)
        while work and not plain:
            b = work.pop()
            sts = inn[b]
            B = f.blocks[b]
            for e in B.e:
                sts = self.steps(f, sts, e)
            fl = self.flag(f, B.c) if B.c is not None and B.tk in ("if", "while", "for", "?:", "&&", "||") and len(B.s) == 2 else None
            ow = self.owns(f, B.c) if B.c is not None and len(B.s) == 2 and not fl else None
            for i, s in enumerate(B.s):
                if s is None:
                    continue
                out = sts
                if ow:
                    want = ow[1] if i == 0 else not ow[1]
                    out = frozenset((facts, h) for facts, h in sts if any(t[0] == ow[0] for t in h) == want)
                    if not out:
                        continue
                if fl:
                    want = fl[1] if i == 0 else not fl[1]
                    out = frozenset((facts | {(fl[0], want)}, h) for facts, h in sts if (fl[0], not want) not in facts)
                    if not out:
                        continue
                new = self.meet(inn.get(s, frozenset()) | out)
                if new != inn.get(s):
                    inn[s] = new
                    work.append(s)
        at = {}
        self.acq[f.usr] = []
        for b in f.blocks.values():
            sts = inn.get(b.id)
            if plain:
                for e in b.e:
                    if isinstance(e, int):
                        at[e] = frozenset()
                continue
            if sts is None:
                continue
            for e in b.e:
                if isinstance(e, int):
                    held = None
                    for _, h in sts:
                        held = h if held is None else held & h
                    at[e] = held
                sts = self.steps(f, sts, e)
        self.at[f.usr] = at
        self.inn[f.usr] = {} if plain else inn
        out = []
        for n in f.nodes:
            if n["id"] not in at:
                continue
            held = frozenset(t[1] for t in at[n["id"]])
            if n["k"] in ("call", "ctor"):
                for t in self.p.targets(f, n):
                    out.append((t.usr, held))
                # lambdas given to an algorithm or a wait run before the call returns
                for a in n.get("args", ()):
                    lid = self.p.lambda_of(f, a)
                    if lid in self.p.fns:
                        out.append((lid, held if self.synchronous(f, n) else frozenset()))
        return out

    def synchronous(self, f, n):
        qn = n.get("qn") or ""
        if n["k"] == "ctor":
            return False
        if n.get("nm") in ("wait", "wait_for", "wait_until"):
            return True
        if qn.startswith("std::") and not qn.startswith(("std::thread", "std::async", "std::function", "std::bind", "std::make_", "std::deque", "std::vector", "std::list", "std::map")):
            return True
        # a function of ours that only calls it
        for t in self.p.targets(f, n):
            return True
        return False

    # -- questions

    def states(self, f, nid):
        """[(flags known, tokens held)] when a node of the CFG is evaluated"""
        for b in f.blocks.values():
            if nid in b.e:
                sts = self.inn.get(f.usr, {}).get(b.id)
                if sts is None:
                    return []
                for e in b.e:
                    if e == nid:
                        return list(sts)
                    sts = self.steps(f, sts, e)
        return []

    def out_states(self, f):
        return list(self.inn.get(f.usr, {}).get(f.exit, ()))

    def held(self, f, nid):
        """tokens held when a node is evaluated"""
        at = self.at.get(f.usr, {})
        if nid in at:
            return at[nid]
        for q in f.parents.get(nid, ()):
            h = self.held(f, q)
            if h is not None:
                return h
        return None


def accesses(p, f):
    """(node, kind, identity, base path) of the fields and statics a function touches"""
    for n in f.nodes:
        if n["k"] == "mem" and n.get("f") in p.field_owner:
            own, fl = p.field_owner[n["f"]]
            yield n, own["qn"] + "::" + n["nm"], path(f, n["a"]) or "?"
