"""P09: threads end when asked to and are joined before what they use goes away; whoever waits is woken up."""
import collections
from .locks import Locks, strip, bare, is_lock_type
from .conc import Conc, fid, RENAMED, pointerish, is_atomic
from .names import renamed
from .paths import ref_aliases
from .check import Broken

NONE, ASKED, WOKEN, ENDED = 0, 1, 2, 3
STATE = ("nobody asked it to end", "it was asked to end, but nothing wakes it up", "it was asked to end", "it ended")
ADD = ("push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace", "insert", "try_emplace", "swap", "splice", "operator=")
REMOVE = ("pop_back", "pop_front", "pop", "erase", "clear", "swap", "remove", "remove_if", "operator=", "resize")
NOTIFY = ("notify_one", "notify_all")
SKIP = ("tools/vrsplayer", "/test", "sample_")
# what a thread waits for on an event channel: (class, field) -> its channel
EVENTS = {
    ("vrs::RecordFileWriter_::WriterThreadData", "shouldEndThread"): "writeEventChannel",
    ("vrs::RecordFileWriter_::WriterThreadData", "recordsReadyToWrite"): "writeEventChannel",
    ("vrs::RecordFileWriter_::PurgeThreadData", "shouldEndThread"): "purgeEventChannel",
}


def skipped(f):
    return any(x in f.file for x in SKIP)


def const_of(f, nid):
    """the constant an expression evaluates to"""
    while nid is not None and nid >= 0:
        n = f.nodes[nid]
        if n.get("cv") is not None:
            return int(n["cv"]) if str(n["cv"]).lstrip("-").isdigit() else None
        if n["k"] in ("cast", "paren") or n["k"] == "ctor" and len(n.get("args", ())) == 1:
            nid = n["a"] if n["k"] != "ctor" else n["args"][0]
        elif n["k"] == "bool":
            return int(n.get("b", n.get("v", 0)))
        else:
            return None
    return None


class Thread:
    def __init__(self, entry):
        self.entry = entry
        self.name = entry.qn
        self.field = None
        self.owner = None
        self.flags = set()
        self.own_flags = set()
        self.queues = set()
        self.container = False
        self.loops = False


class Threads:
    def __init__(self, c):
        self.c = c
        self.p = c.prog
        self.L = Locks(self.p)
        RENAMED.clear()
        RENAMED.update(renamed(self.p))
        self.types = {}
        for own, fl in self.p.field_owner.values():
            self.types.setdefault(fid(own, fl), self.p.types[fl["ty"]])
        k = Conc.__new__(Conc)
        k.p, k.L, k.c = self.p, self.L, c
        self.conc = k
        self.cls_qn = {u: r.get("qn") for u, r in self.p.records.items()}
        self.dtor = {}
        for f in self.p.fns.values():
            if f.nm.startswith("~") and f.cls and f.blocks:
                self.dtor[self.cls_qn.get(f.cls, f.d.get("clsn"))] = f

    def run(self):
        self.find_threads()
        self.waits()
        self.lifecycle()
        self.start_last()
        self.events()

    # -- expressions

    def field(self, f, nid):
        """the field an expression denotes: itself, what it points to, or one of its elements"""
        for _ in range(12):
            if nid is None or nid < 0:
                return None
            n = f.nodes[nid]
            if n["k"] == "mem":
                own = self.p.field_owner.get(n.get("f"))
                return fid(*own) if own else None
            if n["k"] == "var":
                a = ref_aliases(f).get(n["v"])
                nid = a if a is not None else self.init(f, n["v"])
                continue
            if n["k"] in ("cast", "paren", "index") or n["k"] == "un" and n["op"] in ("*", "&", "!"):
                nid = n["a"]
            elif n["k"] == "call" and "obj" in n and (n.get("op") in ("->", "*", "[]") or n.get("nm", "").startswith("operator ") or
                                                       n.get("nm") in ("get", "load", "begin", "end", "front", "back", "at", "joinable", "empty", "size")):
                nid = n["obj"]
            elif n["k"] == "ctor" and len(n.get("args", ())) == 1 or n["k"] == "call" and n.get("nm") in ("move", "exchange", "forward") and n.get("args"):
                nid = n["args"][0]
            elif n["k"] == "call" and "obj" in n and n.get("nm") == "release":
                nid = n["obj"]
            else:
                return None
        return None

    def init(self, f, v):
        """the initialiser of a reference, pointer or iterator that is never assigned"""
        r = None
        for n in f.nodes:
            if n["k"] == "decl":
                for d in n["ds"]:
                    if d["v"] == v:
                        r = d.get("init", -1)
            elif n["k"] == "assign" and f.nodes[n["a"]]["k"] == "var" and f.nodes[n["a"]]["v"] == v:
                return None
        return r

    def sets(self, f, n):
        """(field, constant or None) a node writes"""
        if n["k"] == "assign":
            i = self.direct(f, n["a"])
            return (i, const_of(f, n["b"])) if i else None
        if n["k"] == "call" and "obj" in n and (n.get("op") == "=" or n.get("nm") in ("store", "exchange")) and n.get("args"):
            i = self.direct(f, n["obj"])
            return (i, const_of(f, n["args"][0])) if i else None
        return None

    def direct(self, f, nid):
        nid = strip(f, nid)
        if nid is None or nid < 0:
            return None
        n = f.nodes[nid]
        if n["k"] == "var" and n["v"] in ref_aliases(f):
            return self.direct(f, ref_aliases(f)[n["v"]])
        if n["k"] == "mem":
            own = self.p.field_owner.get(n.get("f"))
            return fid(*own) if own else None
        return None

    # -- threads

    def find_threads(self):
        self.threads = []
        for f, n, g in self.conc.thread_entries():
            if skipped(f):
                continue
            t = Thread(g)
            t.start = (f, n)
            t.field = self.stored(f, n)
            if t.field:
                t.owner = t.field.rsplit("::", 1)[0]
                ty = self.types.get(t.field, "")
                t.container = ty.startswith(("std::deque", "std::vector", "std::list", "std::array", "std::map"))
            self.loop_flags(t)
            if t.field and any(x.field == t.field and x.entry.usr == t.entry.usr for x in self.threads):
                continue
            self.threads.append(t)
        # a thread whose activity is the caller's
        for own, fl in self.p.field_owner.values():
            i = fid(own, fl)
            if own["qn"] == "vrs::JobQueueWithThread" and "std::thread" in self.p.types[fl["ty"]] and not any(t.field == i for t in self.threads):
                g = [h for h in self.p.fns.values() if h.qn.startswith("vrs::JobQueue") and h.nm == "waitForJob"]
                if g:
                    t = Thread(g[0])
                    t.name, t.field, t.owner, t.start = "the thread of a JobQueueWithThread", i, own["qn"], None
                    t.loops = True
                    t.flags = {x for x in self.types if x.startswith("vrs::JobQueue::") and "bool" in self.types[x]}
                    self.threads.append(t)
        if len(self.threads) < 4:
            raise Broken("threads not found: %s" % [t.name for t in self.threads])
        self.c.extra["threads"] = ["%s, stored in %s, ends on %s" % (t.name, t.field, ", ".join(sorted(t.flags)) or "its own") for t in self.threads]

    def stored(self, f, nid_n):
        n = nid_n
        for b in f.blocks.values():
            for e in b.e:
                if isinstance(e, dict) and e.get("k") == "init" and e.get("a", -1) >= 0 and self.under(f, e["a"], n["id"]):
                    own = self.p.field_owner.get(e.get("f"))
                    return fid(*own) if own else None
        if n["k"] == "call" and "obj" in n and n.get("nm", "").startswith(("emplace", "push")):
            return self.field(f, n["obj"])
        st, seen = [n["id"]], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for q in f.parents.get(x, ()):
                m = f.nodes[q]
                if m["k"] == "assign" and m["b"] == x:
                    return self.field(f, m["a"])
                if m["k"] == "call" and "obj" in m and m["obj"] != x and (m.get("op") == "=" or m.get("nm", "") in ("reset", "emplace_back", "push_back", "emplace")):
                    return self.field(f, m["obj"])
                if m["k"] in ("cast", "ctor", "new", "paren"):
                    st.append(q)
        return None

    def under(self, f, a, b):
        for _ in range(6):
            if a == b:
                return True
            n = f.nodes[a] if a is not None and a >= 0 else None
            if n is None:
                return False
            if n["k"] in ("cast", "paren"):
                a = n["a"]
            elif n["k"] == "ctor" and n.get("args"):
                a = n["args"][0]
            else:
                return False
        return False

    def loop_flags(self, t):
        """fields the thread looks at to know when to end"""
        g = t.entry
        calls = []
        heads = self.loop_blocks(g)
        t.loops = bool(heads)
        for b in heads:
            c = g.blocks[b].c
            if c is None or c < 0:
                continue
            for nid in self.subtree(g, c):
                n = g.nodes[nid]
                if n["k"] == "mem":
                    i = self.direct(g, nid)
                    if i and "bool" in self.types.get(i, ""):
                        t.own_flags.add(i)
                elif n["k"] == "call":
                    calls += [h for h in self.p.targets(g, n)]
        t.flags = set(t.own_flags)
        if not t.own_flags:
            for h in calls:
                self.queue_flags(h, t, 0)

    def loop_blocks(self, g):
        out = []
        for b in g.blocks.values():
            if b.c is None:
                continue
            # can it reach itself?
            seen, st = set(), [s for s in b.s if s is not None]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(s for s in g.blocks[x].s if s is not None)
            if b.id in seen and any(s is not None and b.id not in self.reach_blocks(g, s) for s in b.s):
                out.append(b.id)
        return out

    def reach_blocks(self, g, b):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(s for s in g.blocks[x].s if s is not None)
        return seen

    def queue_flags(self, h, t, depth):
        for n in h.nodes:
            if n["k"] == "mem":
                i = self.direct(h, n["id"])
                if i and "bool" in self.types.get(i, ""):
                    t.flags.add(i)
            elif n["k"] == "call" and depth < 3:
                for x in self.p.targets(h, n):
                    if x.cls == h.cls:
                        self.queue_flags(x, t, depth + 1)
        for x in self.p.children.get(h.usr, ()):
            self.queue_flags(x, t, depth + 1)

    def subtree(self, f, nid):
        out, st = [], [nid]
        while st:
            x = st.pop()
            if x is None or x < 0 or x in out:
                continue
            out.append(x)
            n = f.nodes[x]
            for k in ("a", "b", "c", "obj"):
                if isinstance(n.get(k), int):
                    st.append(n[k])
            st.extend(a for a in n.get("args", ()) if isinstance(a, int))
        return out

    # -- asked to end, woken, joined

    def lifecycle(self):
        c = self.c
        c.rule("end", "Whoever waits for a background thread to end asked it to end first, and then woke it up.", 5)
        c.rule("join", "A background thread is joined before its thread object, or the data it runs on, is destroyed or replaced.", 3)
        for t in self.threads:
            if not t.field:
                f, n = t.start
                c.bad("join", f.loc(n), "%s starts %s in a thread that nothing holds on to" % (f.display(), t.name), "%s:%s" % (f.qn, t.name))
                continue
            Life(self, t).run()

    # -- what waits, and who wakes it

    def cv_field(self, f, n):
        i = self.direct(f, n["obj"]) if "obj" in n else None
        return i

    def waits(self):
        c, p = self.c, self.p
        c.rule("predicate", "A wait on a condition variable checks what it waits for, and checks it again after each wake-up.", 6)
        c.rule("stop-wakes", "A wait also ends when its object is being ended.", 3)
        c.rule("notify", "Whatever makes a wait's condition true is followed by a notification, on every path.", 8)
        c.rule("notify-all", "A change that may let several waiting threads go on (an end flag, or anything else they don't use up) wakes up all of them.", 2)
        c.rule("state-locked", "What a wait's condition depends on only changes while holding the lock used to wait.", 10)
        preds = {}      # cv -> [(kind, field, polarity)]
        mutex, counters = {}, collections.defaultdict(set)
        seen = set()
        for f in self.L.fns:
            if skipped(f):
                continue
            for n in f.calls():
                if not (n.get("qn") or "").startswith("std::condition_variable") or n.get("nm") not in ("wait", "wait_for", "wait_until"):
                    continue
                cv = self.cv_field(f, n)
                atoms = set()
                pl = None
                for a in n.get("args", ())[1:]:
                    lid = p.lambda_of(f, a)
                    if lid in p.fns:
                        pl = p.fns[lid]
                if pl is not None:
                    for m in pl.nodes:
                        if m["k"] == "ret" and m.get("a", -1) >= 0:
                            atoms |= self.atoms(pl, m["a"], True)
                    okp = bool(atoms)
                else:
                    inloop = None
                    for b in self.loop_blocks(f):
                        if any(n["id"] in f.blocks[x].e for x in self.reach_blocks(f, b)) and b in self.reach_blocks(f, self.block_of(f, n["id"])):
                            inloop = b
                            atoms |= self.atoms(f, f.blocks[b].c, False)
                    okp = inloop is not None and bool(atoms)
                c.expect("predicate", okp, f.loc(n), "%s waits on %s %s" % (f.display(), cv, "until %s" % self.show(atoms) if okp else "without checking, each time it wakes up, that what it waits for happened"),
                         "%s:%s" % (f.qn, cv))
                if cv is None:
                    continue
                preds.setdefault(cv, []).append((f, n, atoms))
                lv = self.L.lock_var(f, n["args"][0]) if n.get("args") else None
                for t in self.L.held(f, n["id"]) or ():
                    if t[0] == lv:
                        mutex.setdefault(cv, t[1])
                counters[cv] |= self.counters(f, n)
        self.stop_flags = collections.defaultdict(set)
        en = collections.defaultdict(list)      # cv -> [(f, node, field, how)]
        for cv, ws in preds.items():
            atoms = set().union(*[a for f, n, a in ws])
            for f in self.L.fns:
                if skipped(f) or f.is_lambda:
                    continue
                for n in f.nodes:
                    for i, how in self.enabling(f, n, atoms):
                        en[cv].append((f, n, i, how))
                        if how == "set" and "bool" in self.types.get(i, ""):
                            self.stop_flags[cv].add(i)
        for cv, ws in sorted(preds.items()):
            cls = cv.rsplit("::", 1)[0]
            flags = {i for i in self.class_flags(cls)}
            for f, n, atoms in ws:
                if flags:
                    have = {i for k, i, v in atoms} & flags
                    c.expect("stop-wakes", bool(have), f.loc(n), "%s %s" % (f.display(), "stops waiting when %s is set" % ", ".join(sorted(have)) if have else "waits on %s, even once %s is set" % (cv, ", ".join(sorted(flags)))),
                             "%s:%s" % (f.qn, cv))
            done = set()
            for f, n, i, how in en[cv]:
                g = f
                if self.conc.exempt1(g, i) is not None and not g.nm.startswith("~") or self.fresh(g, i):
                    continue
                key = (g.usr, n["id"])
                if key in done:
                    continue
                done.add(key)
                ok, notes = self.notified(g, n, cv, counters[cv])
                c.expect("notify", ok, g.loc(n), "%s changes %s, which a wait on %s is for, %s" % (g.display(), i, cv, "and notifies it" if ok else "and may return without notifying it"), "%s:%s:%s" % (g.qn, i, cv))
                if how == "set" and "bool" in self.types.get(i, "") or not self.single(g, n, i, ws, counters[cv]):
                    c.expect("notify-all", not ok or notes == {"notify_all"} or "notify_all" in notes and self.depends(g, n), g.loc(n), "%s sets %s and wakes up %s" % (g.display(), i, "every waiting thread" if notes == {"notify_all"} else "a single waiting thread"),
                             "%s:%s:%s" % (g.qn, i, cv))
                m = mutex.get(cv)
                if m:
                    held = {x[1] for x in self.L.held(g, n["id"]) or ()}
                    c.expect("state-locked", m in held, g.loc(n), "%s changes %s %s" % (g.display(), i, "holding " + m if m in held else "without holding %s, which the thread that waits for it checks it under" % m),
                             "%s:%s" % (g.qn, i))

    def class_flags(self, cls):
        """bool fields of the class set once to end things"""
        if not hasattr(self, "_cf"):
            self._cf = collections.defaultdict(set)
            for f in self.L.fns:
                if skipped(f) or not any(n.get("nm") in NOTIFY and (n.get("qn") or "").startswith("std::condition_variable") for n in f.calls()):
                    continue
                for n in f.nodes:
                    s = self.sets(f, n)
                    if s and s[1] == 1 and "bool" in self.types.get(s[0], ""):
                        self._cf[s[0].rsplit("::", 1)[0]].add(s[0])
        return self._cf.get(cls, set())

    def fresh(self, f, i):
        return False

    def block_of(self, f, nid):
        for b in f.blocks.values():
            if nid in b.e:
                return b.id
        return f.entry

    def show(self, atoms):
        return " or ".join(sorted("%s%s" % ({("flag", True): "", ("flag", False): "not ", ("nonempty", True): "something in ", ("nonempty", False): "nothing in ", ("value", True): "the value of ", ("value", False): "the value of "}.get((k, v), ""), i.split("::")[-1]) for k, i, v in atoms))

    def atoms(self, f, nid, truth):
        """what makes a condition have a truth value: {(kind, field, value)}"""
        if nid is None or nid < 0:
            return set()
        n = f.nodes[nid]
        k = n["k"]
        if k in ("cast", "paren"):
            return self.atoms(f, n["a"], truth)
        if k == "un" and n["op"] == "!":
            return self.atoms(f, n["a"], not truth)
        if k == "bin" and n["op"] in ("||", "&&"):
            return self.atoms(f, n["a"], truth) | self.atoms(f, n["b"], truth)
        if k == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            out = set()
            for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
                i = self.field(f, x)
                if i:
                    kind = "value"
                    if const_of(f, y) == 0:
                        op = n["op"]
                        if op in ("==", "!="):
                            kind = "zero" if (op == "==") == truth else "positive"
                        elif x == n["a"] and op in (">", "<="):
                            kind = "positive" if (op == ">") == truth else "zero"
                        elif x == n["b"] and op in ("<", ">="):
                            kind = "positive" if (op == "<") == truth else "zero"
                    out.add((kind, i, True))
            return out
        if k == "call" and n.get("nm") == "empty" and "obj" in n:
            i = self.direct(f, n["obj"])
            return {("nonempty", i, not truth)} if i else set()
        if k == "call" and "obj" in n and (n.get("nm", "").startswith("operator ") or n.get("nm") == "load"):
            i = self.direct(f, n["obj"])
            return {("flag", i, truth)} if i else set()
        if k == "call":
            out = set()
            for t in self.p.targets(f, n):
                for m in t.nodes:
                    if m["k"] == "ret" and m.get("a", -1) >= 0:
                        out |= self.atoms(t, m["a"], truth)
            return out
        if k == "mem":
            i = self.direct(f, nid)
            return {("flag", i, truth)} if i else set()
        if k == "var":
            a = self.init(f, n["v"])
            return self.atoms(f, a, truth) if a is not None and a >= 0 else set()
        return set()

    def enabling(self, f, n, atoms):
        k = n["k"]
        if k in ("assign", "cassign", "un", "call"):
            s = self.sets(f, n)
            for kind, i, v in atoms:
                if s and s[0] == i:
                    if kind == "flag" and (s[1] is None or bool(s[1]) == v):
                        yield i, "set"
                    elif kind == "value" or kind == "zero" and s[1] == 0 or kind == "positive" and s[1] != 0:
                        yield i, "value"
                    elif kind == "nonempty":
                        yield i, "content"
                elif k == "cassign" and kind in ("value", "zero" if n["op"].startswith("-") else "positive") and self.direct(f, n["a"]) == i:
                    yield i, "value"
                elif k == "un" and n["op"] in ("++", "--") and kind in ("value", "zero" if n["op"] == "--" else "positive") and self.direct(f, n["a"]) == i:
                    yield i, "value"
                elif k == "call" and "obj" in n and not n.get("cm") and kind in ("nonempty", "value", "zero", "positive") and self.direct(f, n["obj"]) == i:
                    ops = REMOVE if (kind, v) == ("nonempty", False) or kind == "zero" else ADD
                    if kind != "nonempty" and n.get("op") in {"value": ("++", "--", "+=", "-="), "zero": ("--", "-="), "positive": ("++", "+=")}[kind]:
                        yield i, "value"
                    elif n.get("nm") in ops:
                        yield i, "content"

    def counters(self, f, w):
        """fields that count the threads waiting: incremented before the wait, decremented after it"""
        inc, dec = collections.defaultdict(dict), collections.defaultdict(dict)
        for n in f.nodes:
            i = None
            if n["k"] == "un" and n["op"] in ("++", "--"):
                i, up = self.direct(f, n["a"]), n["op"] == "++"
            elif n["k"] == "cassign" and n["op"] in ("+=", "-="):
                i, up = self.direct(f, n["a"]), n["op"] == "+="
            elif n["k"] == "call" and n.get("op") in ("++", "--", "+=", "-=") and "obj" in n:
                i, up = self.direct(f, n["obj"]), n["op"][0] == "+"
            if i:
                (inc if up else dec)[i][n["id"]] = "count"
        b0 = self.block_of(f, w["id"])
        es = f.blocks[b0].e
        pos = es.index(w["id"]) if w["id"] in es else 0
        return {i for i in set(inc) & set(dec)
                if self.all_paths(f, b0, pos, inc[i], set(), set(), False, None) and self.all_paths(f, b0, pos, dec[i], set(), set(), True, None)}

    def consumed(self, f, i, kind, depth=0):
        """does a thread that waited use up what it waited for?"""
        for n in f.nodes:
            if n["k"] == "call" and depth < 3 and any(t.blocks and t.usr != f.usr and self.consumed(t, i, kind, depth + 1) for t in self.p.targets(f, n)):
                return True
            if kind in ("nonempty", "positive") and n["k"] == "call" and "obj" in n and not n.get("cm") and self.direct(f, n["obj"]) == i and n.get("nm") in REMOVE:
                return True
            if kind == "positive" and (n["k"] == "un" and n["op"] == "--" or n["k"] == "cassign" and n["op"] == "-=") and self.direct(f, n["a"]) == i:
                return True
            if kind == "positive" and n["k"] == "call" and "obj" in n and n.get("op") in ("--", "-=") and self.direct(f, n["obj"]) == i:
                return True
            s = self.sets(f, n) if n["k"] in ("assign", "cassign", "un", "call") else None
            if s and s[0] == i and s[1] == 0 and kind in ("positive", "nonempty"):
                return True
        return False

    def depends(self, f, n):
        """what is set, and who is woken up, depends on something else"""
        rhs = n["b"] if n["k"] == "assign" else n["args"][0] if n["k"] == "call" and n.get("args") else -1
        return rhs >= 0 and f.nodes[strip(f, rhs)]["k"] == "cond"

    def single(self, f, n, i, ws, counters):
        """may a single thread be woken up: is there enough for one only, and does it use it up?"""
        kinds = [(g, kind) for g, w, atoms in ws for kind, j, v in atoms if j == i and v is not False]
        if not any(kind in ("nonempty", "positive") and self.consumed(g, i, kind) for g, kind in kinds):
            return False
        if n["k"] == "assign" or n["k"] == "call" and n.get("op") == "=":
            rhs = n["b"] if n["k"] == "assign" else n["args"][0] if n.get("args") else -1
            if rhs >= 0 and {self.direct(f, x) for x in self.subtree(f, rhs)} & counters:
                return False
        return True

    def notified(self, f, n, cv, counters, depth=0):
        """(is the condition variable notified on every path through the node?, how)"""
        how = set()
        notes = {}
        for m in f.calls():
            if (m.get("qn") or "").startswith("std::condition_variable") and m.get("nm") in NOTIFY and self.cv_field(f, m) == cv:
                notes[m["id"]] = m["nm"]
            else:
                for t in self.p.targets(f, m):
                    if depth < 3 and t.blocks and self.always_notifies(t, cv, depth + 1):
                        notes[m["id"]] = self.always_notifies(t, cv, depth + 1)
        b0 = self.block_of(f, n["id"])
        pos = f.blocks[b0].e.index(n["id"]) if n["id"] in f.blocks[b0].e else 0
        after = self.all_paths(f, b0, pos, notes, counters, how, True, n)
        if not after:
            how2 = set()
            before = self.all_paths(f, b0, pos, notes, counters, how2, False, n)
            if before:
                return True, how2
            # a helper: its callers notify
            if f.qn not in self.L.base and self.p.callers.get(f.usr) and f.usr not in self.p.fnrefs_taken and depth < 3:
                r = [self.notified(g, m, cv, counters, depth + 1) for g, m in self.p.callers[f.usr]]
                if all(x[0] for x in r):
                    return True, set().union(*[x[1] for x in r])
            return False, how
        return True, how

    def always_notifies(self, f, cv, depth):
        key = (f.usr, cv)
        if not hasattr(self, "_an"):
            self._an = {}
        if key not in self._an:
            self._an[key] = None
            notes = {}
            for m in f.calls():
                if (m.get("qn") or "").startswith("std::condition_variable") and m.get("nm") in NOTIFY and self.cv_field(f, m) == cv:
                    notes[m["id"]] = m["nm"]
                elif depth < 3:
                    for t in self.p.targets(f, m):
                        r = self.always_notifies(t, cv, depth + 1) if t.blocks and t.usr != f.usr else None
                        if r:
                            notes[m["id"]] = r
            how = set()
            if notes and self.all_paths(f, f.entry, -1, notes, set(), how, True, None):
                self._an[key] = "notify_all" if how == {"notify_all"} else "notify_one"
        return self._an[key]

    def all_paths(self, f, b0, pos, notes, counters, how, forward, node):
        """is there a notification on every path from (or to) a point?"""
        seen, st = set(), [(b0, pos + 1 if forward else pos - 1)]
        pred = collections.defaultdict(list)
        for b in f.blocks.values():
            for s in b.s:
                if s is not None:
                    pred[s].append(b.id)
        while st:
            b, i = st.pop()
            B = f.blocks[b]
            es = B.e[i:] if forward and i >= 0 else B.e if forward else B.e[:i + 1][::-1] if i != -2 else B.e[::-1]
            if forward and i == -1:
                es = B.e
            if not forward and i == -1:
                es = []
            hit = None
            for e in es:
                if isinstance(e, int) and e in notes:
                    hit = notes[e]
                    break
            if hit:
                how.add(hit)
                continue
            if b == (f.exit if forward else f.entry):
                return False
            nxt = []
            for j, s in enumerate(B.s) if forward else ((None, q) for q in pred[b]):
                if s is None:
                    continue
                if forward and len(B.s) == 2 and self.nobody_waits(f, B, j, counters, node):
                    continue
                nxt.append(s)
            for s in nxt:
                if s not in seen:
                    seen.add(s)
                    st.append((s, 0 if forward else -2))
        return True

    def nobody_waits(self, f, B, j, counters, node):
        """the branch is taken when no thread waits, or when what it waits for isn't so"""
        cond = self.last_term(f, B)
        if cond is None:
            return False
        fields = {self.direct(f, x) for x in self.subtree(f, cond)} - {None}
        if not fields:
            return False
        if fields & counters:
            return self.zero_edge(f, cond, counters) == j
        # the very value the wait is for, just changed here
        if node is not None and node["id"] in self.subtree(f, cond):
            n = f.nodes[strip(f, cond)]
            return n["k"] == "bin" and n["op"] == "==" and j == 1
        return False

    def zero_edge(self, f, nid, counters):
        """which branch (0: true, 1: false) is taken when no thread waits"""
        n = f.nodes[strip(f, nid)]
        if n["k"] == "bin" and n["op"] == "&&":
            return 1 if 1 in (self.zero_edge(f, n["a"], counters), self.zero_edge(f, n["b"], counters)) else None
        if n["k"] == "un" and n["op"] == "!":
            z = self.zero_edge(f, n["a"], counters)
            return None if z is None else 1 - z
        if n["k"] == "bin" and n["op"] in ("<", "<=", ">", ">=", "==", "!="):
            a, b, op = n["a"], n["b"], n["op"]
            if const_of(f, a) is not None:
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            k = const_of(f, b)
            if self.count(f, a, counters):
                return {(">", 0): 1, ("!=", 0): 1, (">=", 1): 1, ("==", 0): 0, ("<", 1): 0, ("<=", 0): 0}.get((op, k))
            return None
        return 1 if self.count(f, nid, counters) else None

    def count(self, f, nid, counters):
        """is it the number of threads waiting, maybe with others?"""
        n = f.nodes[strip(f, nid)]
        if n["k"] == "bin" and n["op"] == "+":
            return self.count(f, n["a"], counters) or self.count(f, n["b"], counters)
        return self.direct(f, nid) in counters

    @staticmethod
    def last_term(f, B):
        """what a block's branch depends on: the last operand of an && or || evaluated there"""
        nid = B.c
        while nid is not None and nid >= 0:
            n = f.nodes[nid]
            if n["k"] in ("cast", "paren"):
                nid = n["a"]
            elif n["k"] == "bin" and n["op"] in ("&&", "||"):
                # unless the block is also reached when the first operand decides (temporaries to destroy)
                for A in f.blocks.values():
                    if A.c == n["a"] and len(A.s) == 2 and A.id != B.id:
                        seen, st = {A.id}, [A.s[1 if n["op"] == "&&" else 0]]
                        while st:
                            x = st.pop()
                            if x is None or x in seen:
                                continue
                            if x == B.id:
                                return nid
                            seen.add(x)
                            if f.blocks[x].tk is None or f.blocks[x].tk == "tmpdtor":
                                st.extend(f.blocks[x].s)
                nid = n["b"]
            else:
                return nid
        return None

    # -- a thread started by a constructor uses what was constructed

    def start_last(self):
        c, p = self.c, self.p
        c.rule("start-last", "A thread that a constructor starts only uses fields initialised before it starts.", 2)
        for t in self.threads:
            if t.start is None:
                continue
            f, n = t.start
            at = None
            order = []
            for b in f.blocks.values():
                for e in b.e:
                    if isinstance(e, dict) and e.get("k") == "init":
                        own = self.p.field_owner.get(e.get("f"))
                        order.append((fid(*own) if own else None, e))
                        if e.get("a", -1) >= 0 and self.under(f, e["a"], n["id"]):
                            at = len(order) - 1
            if at is None:
                continue
            cls = t.field.rsplit("::", 1)[0]
            body = self.conc.reach([t.entry])
            used = {self.direct(p.fns[u], m["id"]) for u in body for m in p.fns[u].nodes if m["k"] == "mem"} - {None}
            after = {i for i, e in order[at + 1:] if i}
            names = [fl["nm"] for r in p.records.values() if r.get("qn") == cls for fl in r.get("fields", ())]
            tf = t.field.rsplit("::", 1)[1]
            late = names[names.index(tf) + 1:] if tf in names else []
            after |= {cls + "::" + x for x in late}
            for i in sorted(x for x in used if x.startswith(cls + "::") and x != t.field):
                bad = i in after
                c.expect("start-last", not bad, f.loc(n), "%s starts %s %s %s is initialised" % (f.display(), t.name, "before" if bad else "after", i), "%s:%s" % (f.qn, i))

    # -- what a thread is told through an event channel

    def events(self):
        c, p = self.c, self.p
        c.rule("event", "What a background thread waits to be told is followed by the event that wakes it up.", 3)
        for f in self.L.fns:
            if skipped(f) or f.is_lambda:
                continue
            for n in f.nodes:
                i = how = None
                s = self.sets(f, n)
                if s and s[1] == 1:
                    i = s[0]
                elif n["k"] == "call" and "obj" in n and n.get("nm") in ADD and not n.get("cm"):
                    i = self.direct(f, n["obj"])
                if not i:
                    continue
                cls, nm = i.rsplit("::", 1)
                ch = EVENTS.get((cls, nm))
                if not ch:
                    continue
                t = [t for t in self.threads if t.owner == cls]
                if t and f.usr in self.conc.reach([t[0].entry]) and f.usr not in {g.usr for g in self.conc.api()}:
                    continue
                if t and self.only_thread(f, t[0]):
                    continue
                ok = self.dispatched(f, n, cls + "::" + ch)
                c.expect("event", ok, f.loc(n), "%s changes %s %s" % (f.display(), i, "and signals it" if ok else "and may return without the event that tells the thread"), "%s:%s" % (f.qn, i))

    def only_thread(self, f, t):
        """only the thread itself runs the function"""
        seen, st = set(), [f]
        while st:
            g = st.pop()
            if g.usr in seen:
                continue
            seen.add(g.usr)
            if g.usr == t.entry.usr:
                continue
            cs = [x[0] for x in self.p.callers.get(g.usr, ())]
            if not cs:
                return False
            st.extend(cs)
        return True

    def dispatched(self, f, n, ch, depth=0):
        notes = {}
        for m in f.calls():
            if m.get("nm") == "dispatchEvent" and "obj" in m and self.field(f, m["obj"]) == ch:
                notes[m["id"]] = "dispatch"
            elif depth < 3:
                for t in self.p.targets(f, m):
                    if t.blocks and t.usr != f.usr and self.dispatches(t, ch, depth + 1):
                        notes[m["id"]] = "dispatch"
        b0 = self.block_of(f, n["id"])
        pos = f.blocks[b0].e.index(n["id"]) if n["id"] in f.blocks[b0].e else 0
        if self.all_paths(f, b0, pos, notes, set(), set(), True, n):
            return True
        if f.qn not in self.L.base and self.p.callers.get(f.usr) and depth < 3:
            return all(self.dispatched(g, m, ch, depth + 1) for g, m in self.p.callers[f.usr])
        return False

    def dispatches(self, f, ch, depth):
        notes = {}
        for m in f.calls():
            if m.get("nm") == "dispatchEvent" and "obj" in m and self.field(f, m["obj"]) == ch:
                notes[m["id"]] = "dispatch"
            elif depth < 3:
                for t in self.p.targets(f, m):
                    if t.blocks and t.usr != f.usr and self.dispatches(t, ch, depth + 1):
                        notes[m["id"]] = "dispatch"
        return bool(notes) and self.all_paths(f, f.entry, -1, notes, set(), set(), True, None)


class Life:
    """how far a thread is from having ended, at each point of the functions that end it"""

    def __init__(self, T, t):
        self.T, self.p, self.c, self.t = T, T.p, T.c, t
        self.sum, self.sites = {}, {}
        self.ops, self.open, self.done = {}, set(), set()
        self.relevant()

    def relevant(self):
        """functions that ask for the end, wake, join or destroy: directly, or through what they call"""
        p, T, t = self.p, self.T, self.t
        self.rel = set()
        for f in T.L.fns:
            if skipped(f):
                continue
            if any(self.op(f, n) for n in f.nodes) or any(isinstance(e, dict) and self.destroyed(f, e) for b in f.blocks.values() for e in b.e):
                self.rel.add(f.usr)
        work = list(self.rel)
        while work:
            u = work.pop()
            for g, n in p.callers.get(u, ()):
                if g.usr not in self.rel and not skipped(g):
                    self.rel.add(g.usr)
                    work.append(g.usr)
        self.joiner_classes = set()
        for q, d in T.dtor.items():
            if q and self.joins(d, 0):
                self.joiner_classes.add(q)

    def joins(self, f, depth):
        return any(n["k"] == "call" and n.get("nm") == "join" and "obj" in n and self.T.field(f, n["obj"]) == self.t.field for n in f.nodes)

    def op(self, f, n):
        k = (f.usr, n["id"])
        if k not in self.ops:
            self.ops[k] = self.op1(f, n)
        return self.ops[k]

    def op1(self, f, n):
        """what a node does: ask, wake, join, start, destroy"""
        T, t = self.T, self.t
        if n["k"] == "call" and n.get("qn") in ("std::thread::join", "std::thread::detach") and "obj" in n:
            if T.field(f, n["obj"]) == t.field:
                return "join" if n["nm"] == "join" else "detach"
        s = T.sets(f, n)
        if s and s[0] in t.flags and (s[1] == 1):
            return "ask"
        if n["k"] == "call" and (n.get("nm") in NOTIFY and (n.get("qn") or "").startswith("std::condition_variable") or n.get("qn") == "vrs::os::EventChannel::dispatchEvent"):
            return "wake"
        if not t.own_flags and n["k"] == "call" and "obj" in n and n.get("nm") in ADD and not n.get("cm"):
            i = T.direct(f, n["obj"])
            if i and t.flags and i.rsplit("::", 1)[0] in {x.rsplit("::", 1)[0] for x in t.flags} and not "bool" in T.types.get(i, ""):
                return "ask"
        if n["k"] == "delete":
            ty = f.ty(n["a"]) if isinstance(n["a"], int) and n["a"] >= 0 else ""
            if t.owner and bare(ty).rstrip("* ") == t.owner:
                return "destroy"
        if n["k"] == "call" and "obj" in n and n.get("nm") in ("reset", "clear") and T.direct(f, n["obj"]) == t.field:
            return "destroy"
        return None

    def destroyed(self, f, e):
        if e.get("k") == "mdtor":
            own = self.p.field_owner.get(e.get("f"))
            return bool(own) and fid(*own) == self.t.field
        return False

    def member_joiners(self, f, n_or_e):
        """destructors that join the thread, run by clearing or destroying a member"""
        T = self.T
        ty = None
        if "f" in n_or_e and n_or_e.get("k") == "mdtor":
            own = self.p.field_owner.get(n_or_e.get("f"))
            ty = self.p.types[own[1]["ty"]] if own else None
        elif n_or_e.get("k") == "call" and n_or_e.get("nm") in ("clear", "reset", "pop_back", "erase", "resize") and n_or_e.get("obj", -1) >= 0:
            i = T.direct(f, n_or_e["obj"])
            ty = T.types.get(i) if i else f.ty(n_or_e["obj"])
        if not ty:
            return []
        return [T.dtor[q] for q in self.joiner_classes if q in ty and T.dtor[q].usr != f.usr and (q.split("::")[-1] in ty)]

    def run(self):
        c, t, T = self.c, self.t, self.T
        for f in sorted((self.p.fns[u] for u in self.rel), key=lambda f: (f.file, f.line)):
            if f.is_lambda or not self.reaches_end(f) or not self.is_root(f):
                continue
            self.flow(f, NONE, frozenset())
        if not self.sites:
            f, n = t.start if t.start else (None, None)
            if f is not None and not any("join" in (self.op(g, m) for m in g.nodes) for g in T.L.fns):
                c.bad("join", f.loc(n), "nothing joins %s" % t.name, "none:%s" % t.name)
            return
        for (rule, f, loc, what), (st, ok) in sorted(self.sites.items(), key=lambda x: (x[0][1].file, x[0][2], x[0][3])):
            need = "waits for %s to end" % t.name if rule == "end" else what
            c.expect(rule, ok, loc, "%s %s: %s" % (f.display(), need, STATE[st] if rule == "end" else ("it was joined" if ok else "it may still be running")), "%s:%s:%s" % (f.qn, t.name, what))

    def reaches_end(self, f):
        return True

    def is_root(self, f):
        p, T = self.p, self.T
        if f.nm.startswith("~"):
            q = T.cls_qn.get(f.cls)
            # destroyed by its owners
            if q in self.joiner_classes and self.owners(q):
                return False
            if q == self.t.owner and self.owners(q):
                # only when those who own it join its thread
                return any(self.op(g, n) == "join" for g in T.L.fns if g.qn.rsplit("::", 1)[0] != q and not (g.is_lambda and g.qn.startswith(q + "::")) for n in g.nodes) is False
            return True
        cs = [g for g, n in p.callers.get(f.usr, ()) if not skipped(g)]
        if f.qn not in T.L.base and cs:
            return False
        if f.d.get("acc", 0) in (0, 3):
            return True
        return not cs

    def owners(self, q):
        for own, fl in self.p.field_owner.values():
            if q in self.p.types[fl["ty"]] and own["qn"] != q:
                return True
        return False

    def note(self, rule, f, loc, what, st, ok):
        k = (rule, f, loc, what)
        o = self.sites.get(k)
        if o is None or o[1] and not ok:
            self.sites[k] = (st, ok)

    def step(self, f, e, st, stack):
        p, t = self.p, self.t
        if isinstance(e, dict):
            if self.destroyed(f, e):
                self.note("join", f, "%s:%d" % (f.file, f.line), "destroys the thread object of %s" % t.name, st, st == ENDED or self.moved_from(f))
            elif e.get("k") == "mdtor":
                for d in self.member_joiners(f, e):
                    st = self.flow(d, st, stack)
            elif e.get("fn") in p.fns and e["fn"] in self.rel and p.fns[e["fn"]].blocks and e.get("k") in ("dtor", "tdtor", "bdtor"):
                # an object of its own, local to the function
                pass
            return st
        n = f.nodes[e]
        o = self.op(f, n)
        if o == "ask":
            return max(st, ASKED)
        if o == "wake":
            return WOKEN if st == ASKED else st
        if o in ("join", "detach"):
            if self.t.loops and o == "join":
                self.note("end", f, f.loc(n), "", st, st >= WOKEN)
            if o == "detach":
                self.note("join", f, f.loc(n), "lets go of %s" % t.name, st, False)
            return ENDED
        if o == "destroy":
            self.note("join", f, f.loc(n), "destroys what %s runs on" % t.name if n["k"] == "delete" else "destroys the thread object of %s" % t.name, st, st == ENDED)
            return ENDED
        if n["k"] == "call":
            for d in self.member_joiners(f, n):
                st = self.flow(d, st, stack)
            ts = [g for g in p.targets(f, n) if g.usr in self.rel]
            if ts and len(ts) == len(p.targets(f, n)):
                st = min(self.flow(g, st, stack) for g in ts)
        return st

    def moved_from(self, f):
        return False

    def owner_type(self, ty):
        return self.t.owner and pointerish(ty) and self.t.owner in ty

    def edge(self, f, B, j):
        """the state a branch implies, or None"""
        T, t = self.T, self.t
        nid, val = T.last_term(f, B), j == 0
        for _ in range(8):
            if nid is None or nid < 0:
                return None
            n = f.nodes[nid]
            if n["k"] == "un" and n["op"] == "!":
                nid, val = n["a"], not val
            elif n["k"] in ("cast", "paren"):
                if self.owner_type(f.ty(n["a"])):
                    return ENDED if not val else None
                nid = n["a"]
            elif n["k"] == "bin" and n["op"] in ("==", "!="):
                a, b = n["a"], n["b"]
                for x, y in ((a, b), (b, a)):
                    if f.nodes[strip(f, y)]["k"] == "null":
                        i = T.field(f, x)
                        if self.owner_type(f.ty(x)) or i and (i == t.field or self.owner_type(T.types.get(i, ""))):
                            return ENDED if val == (n["op"] == "==") else None
                return None
            elif n["k"] == "call" and "obj" in n:
                i = T.field(f, n["obj"])
                if n.get("nm") == "joinable" and i == t.field:
                    return ENDED if not val else None
                if n.get("nm") == "empty" and i == t.field:
                    return ENDED if val else None
                if n.get("nm", "").startswith("operator ") or n.get("nm") == "load":
                    if i in t.flags:
                        return WOKEN if val else None
                    if i == t.field or self.owner_type(f.ty(n["obj"])) or i and self.owner_type(T.types.get(i, "")):
                        return ENDED if not val else None
                return None
            elif n["k"] in ("mem", "var"):
                i = T.field(f, nid)
                if i in t.flags and "bool" in f.ty(n):
                    return WOKEN if val else None
                if i == t.field or self.owner_type(f.ty(n)):
                    return ENDED if not val else None
                return None
            else:
                return None
        return None

    def loop_exits(self, f):
        """edges out of loops that join every element of the container"""
        out = set()
        if not self.t.container:
            return out
        T = self.T
        joins = [n["id"] for n in f.nodes if self.op(f, n) == "join"]
        for jn in joins:
            b = T.block_of(f, jn)
            for h in T.loop_blocks(f):
                if h in T.reach_blocks(f, b):
                    for i, s in enumerate(f.blocks[h].s):
                        if s is not None and h not in T.reach_blocks(f, s):
                            # the loop's own exit only: not a break
                            if b in T.reach_blocks(f, h):
                                out.add((h, i))
        return out

    def flow(self, f, st0, stack):
        key = (f.usr, st0)
        if key in stack:
            self.open.add(key)
            return self.sum.get(key, st0)
        if key in self.done:
            return self.sum[key]
        stack = stack | {key}
        exits = self.loop_exits(f)
        ins = {f.entry: st0}
        work = [f.entry]
        out = None
        it = 0
        while work and it < 3000:
            it += 1
            b = work.pop()
            st = ins[b]
            B = f.blocks[b]
            for e in B.e:
                st = self.step(f, e, st, stack)
            if b == f.exit:
                out = st if out is None else min(out, st)
            for i, s in enumerate(B.s):
                if s is None:
                    continue
                v = st
                if len(B.s) == 2 and B.tk != "switch":
                    r = self.edge(f, B, i)
                    if r is not None:
                        v = max(v, r)
                if (b, i) in exits:
                    v = ENDED
                o = ins.get(s)
                nv = v if o is None else min(o, v)
                if o is None or nv != o:
                    ins[s] = nv
                    work.append(s)
        self.sum[key] = st0 if out is None else out
        # final, unless it was computed from that of a call still going on
        self.open.discard(key)
        if not self.open & stack:
            self.done.add(key)
        return self.sum[key]
