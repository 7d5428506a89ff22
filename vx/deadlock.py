"""P08: threads can't block each other forever: one order for locks, no waiting for a thread that needs a lock one holds, and every lock taken is released."""
import collections
from .locks import Locks, strip, is_mutex_type, is_lock_type, bare
from .check import Broken

SKIP = ("tools/vrsplayer", "/test", "sample_")
CV = ("wait", "wait_for", "wait_until")
# functions that hand a lock to the function that ends what they begin
HANDS_OVER = {
    "dataLayoutBegin": "held while a layout's pieces are constructed, until endLayout",
}


def skipped(f):
    return any(x in f.file for x in SKIP)


class Deadlock:
    def __init__(self, c):
        self.c = c
        self.p = c.prog
        self.L = Locks(self.p)
        self.fns = [f for f in self.L.fns if not skipped(f)]
        self.callees = {f.usr: [(n, t) for n in f.nodes if n["k"] in ("call", "ctor", "delete") for t in self.p.targets(f, n)] for f in self.L.fns}
        self.dtors()
        self.acq = self.close({f.usr: {m for n, m, b, h in self.L.acq[f.usr]} for f in self.L.fns})

    def dtors(self):
        """destructors of locals and members run too"""
        by = {}
        for f in self.p.fns.values():
            if f.nm.startswith("~") and f.cls:
                by[f.cls] = f
        for f in self.L.fns:
            for b in f.blocks.values():
                for e in b.e:
                    if isinstance(e, dict) and e.get("k") in ("dtor", "mdtor", "bdtor", "tdtor") and e.get("fn") in self.p.fns:
                        self.callees[f.usr].append((None, self.p.fns[e["fn"]]))

    def close(self, s):
        s = {u: set(x) for u, x in s.items()}
        callers = collections.defaultdict(set)
        for u, ts in self.callees.items():
            for n, t in ts:
                callers[t.usr].add(u)
        work = [u for u in s if s[u]]
        while work:
            u = work.pop()
            for v in callers[u]:
                if v in s and not s[u] <= s[v]:
                    s[v] |= s[u]
                    work.append(v)
        return s

    def run(self):
        self.order()
        self.waiting()
        self.release()

    # -- one order

    def held(self, f, n):
        return [(t[1], t[2]) for t in self.L.held(f, n["id"]) or ()]

    def order(self):
        c = self.c
        c.rule("order", "Locks are always taken in the same order: no two functions, directly or through what they call, take the same two locks in opposite orders.", 6)
        c.rule("again", "A lock that isn't recursive isn't taken again by a thread that holds it.", 60)
        edges = collections.defaultdict(list)
        for f in self.fns:
            for n, m, b, h in self.L.acq[f.usr]:
                bad = False
                for t in h:
                    if t[1] != m:
                        edges[t[1], m].append((f, n, "takes it"))
                    elif m not in self.L.recursive:
                        bad = True
                c.expect("again", not bad, f.loc(n), "%s takes %s %s" % (f.display(), m, "while it may hold it already" if bad else "without holding it"), "%s:%s" % (f.qn, m))
            for n, t in self.callees[f.usr]:
                if n is None:
                    continue
                for h, b in self.held(f, n):
                    for m in self.acq.get(t.usr, ()):
                        if m != h:
                            edges[h, m].append((f, n, "calls %s, which takes it" % t.display()))
                        elif m not in self.L.recursive and t.usr not in self.entry_held(m):
                            if not self.only_other_object(f, n, t, m):
                                c.bad("again", f.loc(n), "%s holds %s, and calls %s, which takes it" % (f.display(), m, t.display()), "%s:%s:%s" % (f.qn, m, t.qn))
        g = collections.defaultdict(set)
        for a, b in edges:
            g[a].add(b)
        self.c.extra["lock_order"] = sorted("%s -> %s" % e for e in edges)
        for (a, b), sites in sorted(edges.items()):
            back = self.path(g, b, a)
            f, n, how = sites[0]
            if back:
                other = edges[back[-2], a][0]
                c.bad("order", f.loc(n), "%s holds %s and %s (%s), but elsewhere they are taken in the opposite order: %s in %s" % (
                    f.display(), a, how, b, " -> ".join(back), other[0].display()), "%s|%s" % tuple(sorted((a, b))))
            else:
                c.ok("order", f.loc(n), "%s before %s (%d sites)" % (a, b, len(sites)))

    def entry_held(self, m):
        """functions that rely on the caller's lock and don't take it themselves"""
        return ()

    def only_other_object(self, f, n, t, m):
        return False

    def path(self, g, a, b):
        seen, st = {a}, [[a]]
        while st:
            q = st.pop(0)
            if q[-1] == b:
                return q
            for x in sorted(g.get(q[-1], ())):
                if x not in seen:
                    seen.add(x)
                    st.append(q + [x])
        return None

    # -- waiting

    def blocking(self, f, n):
        if n["k"] != "call":
            return None
        q = n.get("qn") or ""
        if q in ("std::thread::join", "std::jthread::join"):
            return "join"
        if q.startswith("std::condition_variable") and n.get("nm") in CV:
            return "wait"
        if q.startswith("std::future") and n.get("nm") in CV + ("get",):
            return "join"
        return None

    def waiting(self):
        c, p = self.c, self.p
        c.rule("wait", "A thread that waits, for another thread to end or for a notification, holds no lock that the thread it waits for may need.", 8)
        entries = self.entries()
        needs = set()
        for g in entries:
            needs |= self.acq.get(g.usr, set())
        own = {}
        waits = {f.usr: set() for f in self.L.fns}
        for f in self.L.fns:
            for n in f.calls():
                k = self.blocking(f, n)
                if k:
                    waits[f.usr].add((k, self.cv_lock(f, n)))
        trans = self.close(waits)
        for f in self.fns:
            for n in f.calls():
                k = self.blocking(f, n)
                if k:
                    self.judge(f, n, k, self.cv_lock(f, n), "itself")
            for n, t in self.callees[f.usr]:
                if n is None or not self.held(f, n):
                    continue
                for k, lk in trans.get(t.usr, ()):
                    self.judge(f, n, k, lk, t.display())

    def judge(self, f, n, k, lk, via):
        c = self.c
        others = {m for m, b in self.held(f, n)} - ({lk} if lk else set())
        if k == "join":
            bad = sorted(m for m in others if m in self.thread_needs(f))
        else:
            bad = sorted(m for m in others if m in self.thread_needs(f) or m in self.notifier_needs(lk))
        c.expect("wait", not bad, f.loc(n), "%s waits (%s)%s" % (f.display(), "for a thread to end" if k == "join" else "for a notification",
                 " while holding %s, which a thread it may wait for takes" % ", ".join(bad) if bad else (" holding only %s" % ", ".join(sorted(others)) if others else "")),
                 "%s:%s:%s" % (f.qn, k, ",".join(bad)))

    def notifier_needs(self, lk):
        """locks taken by functions that notify a condition waited for under the lock, before they do"""
        if not hasattr(self, "_nn"):
            self._nn = collections.defaultdict(set)
            for f in self.L.fns:
                for n in f.calls():
                    if (n.get("qn") or "").startswith("std::condition_variable") and n.get("nm") in ("notify_one", "notify_all"):
                        for m in {m for m, b in self.held(f, n)} or {"*"}:
                            self._nn[m] |= self.acq.get(f.usr, set()) - {m}
        return self._nn.get(lk, set()) | self._nn.get("*", set())

    def thread_needs(self, f):
        if not hasattr(self, "_tn"):
            self._tn = set()
            for g in self.entries():
                if not skipped(g):
                    self._tn |= self.acq.get(g.usr, set())
        return self._tn

    def cv_lock(self, f, n):
        """the mutex of the lock given to a condition variable"""
        if not (n.get("qn") or "").startswith("std::condition_variable") or not n.get("args"):
            return None
        lv = self.L.lock_var(f, n["args"][0])
        for t in self.L.held(f, n["id"]) or ():
            if t[0] == lv:
                return t[1]
        ms = self.L.locks[f.usr].get(lv)
        return ms[0][0] if ms else None

    def entries(self):
        from .conc import Conc
        if not hasattr(self, "_e"):
            k = Conc.__new__(Conc)
            k.p, k.L, k.c = self.p, self.L, self.c
            self._e = [g for f, n, g in k.thread_entries()]
        return self._e

    # -- every lock is released

    def release(self):
        c, p = self.c, self.p
        c.rule("release", "A lock taken without a guard object is released on every path out of the function; lock objects aren't unlocked unless they hold their lock, nor locked twice.", 4)
        for f in self.fns:
            manual = [(n, m, b) for n, m, b, h in self.L.acq[f.usr] if n["k"] == "call" and self.is_manual(f, n)]
            if manual:
                out = self.at_exit(f)
                for n, m, b in manual:
                    left = any(t[0] == "manual" and t[1] == m for st in out for t in st)
                    if left and f.nm in HANDS_OVER:
                        c.excused.append((f.loc(n), HANDS_OVER[f.nm]))
                        continue
                    c.expect("release", not left, f.loc(n), "%s locks %s%s" % (f.display(), m, ", and may return without unlocking it" if left else " and unlocks it"), "%s:%s" % (f.qn, m))
            self.handed_back(f)
            for n in f.calls():
                if "obj" in n and n.get("nm") in ("lock", "unlock"):
                    lv = self.L.lock_var(f, n["obj"])
                    if not lv or lv.startswith("mem:"):
                        continue
                    may, must = self.state(f, n, lv)
                    if n["nm"] == "unlock":
                        c.expect("release", must, f.loc(n), "%s unlocks a lock it %s" % (f.display(), "holds" if must else "may not hold"), "%s:unlock" % f.qn)
                    else:
                        c.expect("release", not may, f.loc(n), "%s locks a lock it %s" % (f.display(), "may hold already" if may else "released"), "%s:lock" % f.qn)

    def handed_back(self, f):
        """a function that releases a lock taken by another does so however it returns"""
        un, taken = {}, set()
        for n in f.calls():
            if "obj" in n and n.get("nm") in ("lock", "unlock", "try_lock") and (n.get("qn") or "").startswith("std::") and "mutex" in n["qn"]:
                m = self.mutex_id(f, n["obj"])
                if not m:
                    continue
                if n["nm"] == "unlock":
                    un.setdefault(m, []).append(n)
                else:
                    taken.add(m)
        for m, ns in un.items():
            if m in taken:
                continue
            ids = {n["id"] for n in ns}
            seen, st, out = set(), [f.entry], False
            while st and not out:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if any(isinstance(e, int) and e in ids for e in f.blocks[b].e):
                    continue
                out = b == f.exit
                st.extend(x for x in f.blocks[b].s if x is not None)
            self.c.expect("release", not out, f.loc(ns[0]), "%s releases %s%s" % (f.display(), m, ", taken by another function, but may return without doing so" if out else ", taken by another function, however it returns"), "%s:%s:handed" % (f.qn, m))

    def mutex_id(self, f, nid):
        n = f.nodes[strip(f, nid)]
        if n["k"] == "mem":
            own = self.p.field_owner.get(n.get("f"))
            if own:
                return own[0]["qn"].split("<")[0] + "::" + own[1]["nm"]
        return None

    def is_manual(self, f, n):
        return "obj" in n and self.L.lock_var(f, n["obj"]) is None

    def at_exit(self, f):
        return [h for facts, h in self.L.out_states(f)]

    def state(self, f, n, lv):
        sts = self.L.states(f, n["id"])
        if not sts:
            return False, True
        has = [any(t[0] == lv for t in h) for facts, h in sts]
        return any(has), all(has)
