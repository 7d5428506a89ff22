"""Rules about when the outcome of buffered, background and deferred writes is looked at (P01, P02, P03)."""
from . import tstate, facts
from .order import make_status, WCLS
from .paths import path
from .status import ZERO, NONZ

WRITERS = ("DiskFile", "AtomicDiskFile", "WriteFileHandler", "DiskFileT<")


def where_exit(f, e):
    return f.nodes[e] if isinstance(e, int) else f.nodes[0]


class Base:
    def __init__(self, c, S=None):
        self.c, self.p = c, c.prog
        self.S = S or make_status(self.p)
        self.res = {}

    def bad(self, rid, f, n, what, key):
        self.res.setdefault((rid, f.qn, f.loc(n), key), (f, n, what, key))

    def flush(self):
        for (rid, _, _, key), (f, n, what, _) in sorted(self.res.items(), key=str):
            self.c.bad(rid, f.loc(n), "%s: %s" % (f.display(), what), "%s %s" % (f.qn, key))
        self.res = {}

    def fns(self, cls=None):
        for f in self.p.view():
            if "/test" in f.file or "vrsplayer" in f.file or f.is_lambda:
                continue
            if cls and not f.qn.startswith(cls):
                continue
            yield f


# ---------------------------------------------------------------------------------------------
class Deferred(Base):
    """P01: what fails in the background is reported"""

    def run(self):
        c = self.c
        c.rule("async-error", "Once asynchronous writes have completed, their error is consulted and returned: after the last look at the buffers in flight, "
                              "and by every operation that must not succeed before them.", 6)
        c.rule("sticky-error", "The status of a background writer is only ever replaced by an error, and what waits for the writer returns it as it is once the writer ended.", 3)
        c.rule("closed", "A file created, written and not handed over by a function is closed by it, and its success depends on that of close().", 3)
        A = "vrs::AsyncDiskFileChunk::"
        flushers = set()
        for f in self.fns(A):
            if any(self.member(f, n) == "buffers_free_" for n in f.calls()) and any(self.member(f, n) == "async_error_" for n in f.calls()) \
                    and any(n.get("nm") in ("wait", "wait_for", "wait_until") for n in f.calls()):
                if self.waits(f):
                    flushers.add(f.nm)
        c.expect("async-error", bool(flushers), "vrs/AsyncDiskFileChunk.cpp", "an operation waits for the writes in flight, then returns their error", "flusher")
        self.flushers = flushers
        for nm in ("close", "flush", "truncate", "read", "seek", "rewind"):
            for f in self.fns(A):
                if f.nm == nm:
                    self.operation(f)
        self.sticky()
        self.closed()
        self.flush()

    @staticmethod
    def member(f, n):
        o = n.get("obj")
        if o is None:
            return None
        q = path(f, o)
        return q[5:].split(".")[0].split("[")[0] if q and q.startswith("this.") else None

    def waits(self, f):
        """the error must be consulted after the buffers in flight were last looked at"""
        hits = []

        def label(g, n):
            if n["k"] == "call" and self.member(g, n) == "buffers_free_" and n.get("nm") in ("size", "empty"):
                return ("LOOK",)
            if n["k"] == "call" and n.get("nm") in ("wait", "wait_for", "wait_until") and "condition_variable" in n.get("qn", ""):
                return ("LOOK",)
            if n["k"] == "call" and self.member(g, n) == "async_error_":
                return ("ERR",)
            return ()

        class T(tstate.Track):
            def fire(s, st, n, v):
                tstate.Track.fire(s, st, n, v)
                if "LOOK" in s.labels[n["id"]]:
                    st.v.pop("ev:ERR", None)

        def ex(t, st, e, out, v):
            hits.append(e)
            if out != "fail" and t.state(st, "LOOK") and not t.state(st, "ERR"):
                self.bad("async-error", f, where_exit(f, e), "succeeds without looking at the error of the writes it waited for", "late")

        S = make_status(self.p)
        T(S, f, label, lambda *a: None, ex).run()
        # what was read must decide the result
        for n in f.calls():
            if self.member(f, n) == "async_error_" and n.get("nm") in ("exchange", "load", "operator int", "operator __int_type"):
                if not self.used(f, n["id"]):
                    self.bad("async-error", f, n, "the error of asynchronous writes is not returned", "unused")
        if hits:
            self.c.ok("async-error", "%s:%d" % (f.file, f.line), "%s: consults the error after waiting" % f.display())
        return bool(hits)

    def used(self, f, nid):
        """does the value reach a return (directly or through a variable)?"""
        vs, ids = set(), {nid}
        for _ in range(4):
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        if d.get("init", -1) >= 0 and self.mentions(f, d["init"], ids, vs):
                            vs.add(d["v"])
                elif n["k"] == "assign" and f.nodes[n["a"]]["k"] == "var" and self.mentions(f, n["b"], ids, vs):
                    vs.add(f.nodes[n["a"]]["v"])
        for n in f.nodes:
            if n["k"] == "ret" and "a" in n and self.mentions(f, n["a"], ids, vs):
                return True
            # helpers inlined in this view
            if n["k"] == "assign" and f.nodes[n["a"]]["k"] == "var" and f.nodes[n["a"]]["v"].endswith(":ret") and self.mentions(f, n["b"], ids, vs):
                vs.add(f.nodes[n["a"]]["v"])
        return False

    def mentions(self, f, nid, ids, vs, depth=0):
        if nid is None or nid < 0 or depth > 12:
            return False
        n = f.nodes[nid]
        if nid in ids or n["k"] in ("var", "binding") and n.get("v") in vs:
            return True
        from .status import operands
        return any(self.mentions(f, x, ids, vs, depth + 1) for x in operands(n) if isinstance(x, int))

    def operation(self, f):
        def label(g, n):
            if n["k"] != "call":
                return ()
            if n.get("nm") in self.flushers and "AsyncDiskFileChunk" in n.get("qn", ""):
                return ("FLUSH",)
            if n.get("nm") in ("flush", "close") and n.get("qn", "").startswith("vrs::AsyncDiskFileChunk::"):
                return ("FLUSH",)
            if n.get("nm") == "isOpened" and ("this" in n or self.member(g, n) == "file_" or "AsyncDiskFileChunk" in n.get("qn", "")):
                return ("OPEN",)
            if self.member(g, n) == "file_" and n.get("nm") in ("close", "truncate", "read", "seek", "pwrite"):
                return ("USE",)
            return ()

        def ev(t, st, n, labels):
            if "USE" in labels and t.state(st, "FLUSH") is None:
                self.bad("async-error", f, n, "%s before the writes in flight are completed" % n.get("nm"), "early")

        def ex(t, st, e, out, v):
            if out == "fail" or st.v.get("x:closed"):
                return
            s = t.state(st, "FLUSH")
            if s == "ok" or s == "?" and t.implied(st, v, "FLUSH"):
                return
            self.bad("async-error", f, where_exit(f, e), "may succeed though %s" % (
                "the writes in flight aren't completed" if s is None else "completing the writes in flight may have failed"), "op")

        class T(tstate.Track):
            def _refine(s, st, nid, want, depth=0):
                n = f.nodes[nid]
                if n["k"] == "bin" and n["op"] in ("&&", "||"):
                    s._refine(st, n["b"], want, depth + 1)   # this block is reached only once the first operand didn't decide
                    return tstate.Track._refine(s, st, nid, want, depth)
                if n["k"] == "call" and n.get("nm") == "isOpened" and not want:
                    st.v["x:closed"] = NONZ
                tstate.Track._refine(s, st, nid, want, depth)

        t = T(self.S, f, label, ev, ex)
        t.keep.add("x:closed")
        t.retkeep.add("x:closed")
        t.run()
        self.c.ok("async-error", "%s:%d" % (f.file, f.line), "%s: succeeds only if the writes in flight did" % f.display())

    # ------------------------------------------------------------------
    def sticky(self):
        c = self.c
        stores = 0
        for f in self.fns():
            for n in f.nodes:
                tgt = val = None
                if n["k"] == "assign" and f.nodes[n["a"]]["k"] == "mem" and f.nodes[n["a"]]["nm"] in ("fileError",):
                    tgt, val = n["a"], n["b"]
                elif n["k"] == "call" and n.get("obj") is not None and (path(f, n["obj"]) or "").endswith(".fileError") and n.get("nm") in ("store", "operator=", "exchange") and n.get("args"):
                    tgt, val = n["obj"], n["args"][0]
                if tgt is None:
                    continue
                stores += 1
                F = facts.of(f)
                ft = F.at(n["id"])
                if ft is None:
                    continue
                t = F.term(val)
                x = f.nodes[val]
                good = "cv" in x and x["cv"] not in (0, "0") or t is not None and F.nonzero(ft, t)
                c.expect("sticky-error", good, f.loc(n), "%s: the writer's status is only replaced by an error" % f.display(), "%s store" % f.qn)
        waiters = 0
        for f in self.fns("vrs::RecordFileWriter::"):
            if not any(n.get("nm") == "join" and (path(f, n["obj"]) or "").endswith("saveThread") for n in f.calls() if n.get("obj") is not None):
                continue
            if self.S.rkind(f) != "int":
                continue
            waiters += 1
            self.waiter(f)
        c.expect("sticky-error", waiters > 0, "vrs/RecordFileWriter.cpp", "an operation waits for the writer and returns its status", "waiter")

    def waiter(self, f):
        reads = set()
        for n in f.nodes:
            if n["k"] == "mem" and n["nm"] == "fileError":
                reads.add(n["id"])
        joins = [n["id"] for n in f.calls() if n.get("nm") == "join"]
        dom = set()
        for r in reads:
            if any(before(f, j, r) for j in joins):
                dom.add(r)
        self.c.expect("sticky-error", any(self.used(f, r) for r in dom), "%s:%d" % (f.file, f.line),
                      "%s: returns the writer's status, read after the writer ended" % f.display(), "%s wait" % f.qn)
        # every way to return after the writer ended depends on it
        vs = self.derived(f, dom)
        for n in f.nodes:
            if n["k"] == "ret" and "a" in n and n["id"] in f.pos and any(reaches(f, j, n["id"]) for j in joins):
                self.c.expect("sticky-error", self.mentions(f, n["a"], dom, vs) or self.nonzero(f, n), f.loc(n),
                              "%s: the result depends on the writer's status" % f.display(), "%s result" % f.qn)

    def nonzero(self, f, n):
        F = facts.of(f)
        ft = F.at(n["id"])
        if ft is None:
            return True
        t = F.term(n["a"])
        return t is not None and F.nonzero(ft, t)

    def derived(self, f, ids):
        vs = set()
        for _ in range(4):
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        if d.get("init", -1) >= 0 and self.mentions(f, d["init"], ids, vs):
                            vs.add(d["v"])
                elif n["k"] == "assign" and f.nodes[n["a"]]["k"] == "var" and self.mentions(f, n["b"], ids, vs):
                    vs.add(f.nodes[n["a"]]["v"])
        return vs

    # ------------------------------------------------------------------
    def closed(self):
        """files created and completed by one function"""
        found = 0
        for f in self.fns():
            locs = {}
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        t = self.p.types[d["ty"]] if "ty" in d else ""
                        if not d.get("ref") and any(x in t for x in WRITERS) and not t.endswith(("*", "&")):
                            locs["v:" + d["v"]] = d
            if not locs:
                continue
            created = {path(f, n["obj"]) for n in f.calls() if n.get("nm") in ("create", "createSplitFile") and n.get("obj") is not None} & set(locs)
            for q in sorted(created):
                if self.S.rkind(f) != "int" and self.S.rkind(f) != "bool":
                    continue
                found += 1
                self.close_one(f, q)
        self.c.expect("closed", found > 0, "vrs", "functions which create and complete a file", "none")

    def close_one(self, f, q):
        def label(g, n):
            if n["k"] == "call" and n.get("obj") is not None and path(g, n["obj"]) == q:
                if n.get("nm") in ("create", "createSplitFile"):
                    return ("CREATE",)
                if n.get("nm") in ("close", "abort"):
                    return ("CLOSE",)
            if n["k"] == "call" and n.get("nm") in ("move", "swap", "release") and any(path(g, a) == q for a in n.get("args", ())):
                return ("GONE",)
            return ()

        def ex(t, st, e, out, v):
            if out == "fail" or t.state(st, "CREATE") != "ok" or t.state(st, "GONE"):
                return
            s = t.state(st, "CLOSE")
            if s == "ok" or s == "?" and t.implied(st, v, "CLOSE"):
                return
            self.bad("closed", f, where_exit(f, e), "may succeed though %s" % ("the file created wasn't closed" if s is None else "closing the file may have failed"), "close " + q)

        t = tstate.Track(self.S, f, label, lambda *a: None, ex)
        t.run()
        self.c.ok("closed", "%s:%d" % (f.file, f.line), "%s: success depends on closing the file" % f.display())


def before(f, a, b):
    """a is executed before b on every path to b (block dominance)"""
    pa, pb = f.pos.get(a), owner_pos(f, b)
    if pa is None or pb is None:
        return False
    if pa[0] == pb[0]:
        return pa[1] < pb[1]
    # can b be reached from the entry avoiding a's block?
    todo, seen = [f.entry], set()
    while todo:
        x = todo.pop()
        if x in seen or x == pa[0]:
            continue
        seen.add(x)
        if x == pb[0]:
            return False
        todo += [s for s in f.blocks[x].s if s is not None]
    return True


def reaches(f, a, b):
    pa, pb = f.pos.get(a), owner_pos(f, b)
    if pa is None or pb is None:
        return False
    if pa[0] == pb[0] and pa[1] < pb[1]:
        return True
    todo, seen = [s for s in f.blocks[pa[0]].s if s is not None], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == pb[0]:
            return True
        todo += [s for s in f.blocks[x].s if s is not None]
    return False


def owner_pos(f, nid):
    """position of a node, or of the element it is part of"""
    if nid in f.pos:
        return f.pos[nid]
    from .status import operands
    par = getattr(f, "_par", None)
    if par is None:
        par = {}
        for n in f.nodes:
            for x in operands(n):
                if isinstance(x, int):
                    par.setdefault(x, n["id"])
            if n["k"] == "decl":
                for d in n["ds"]:
                    if d.get("init", -1) >= 0:
                        par.setdefault(d["init"], n["id"])
        f._par = par
    for _ in range(30):
        nid = par.get(nid)
        if nid is None:
            return None
        if nid in f.pos:
            return f.pos[nid]
    return None


# ---------------------------------------------------------------------------------------------
class EndOfFile(Base):
    """P02: reaching the end of a file is only a normal end when nothing at all was read"""

    def run(self):
        self.c.rule("end-of-file", "A read which failed at the end of a file is only taken for a normal end when no byte was read.", 3)
        for f in self.fns():
            if not any(n.get("nm") == "isEof" for n in f.calls()) or f.nm == "isEof":
                continue
            if not any(n.get("nm", "").startswith("read") for n in f.calls()):
                continue
            self.one(f)
        self.flush()

    def one(self, f):
        lasts = {n["id"] for n in f.calls() if n.get("nm") == "getLastRWSize"}
        vs = set()
        for n in f.nodes:
            if n["k"] == "decl":
                for d in n["ds"]:
                    if d.get("init", -1) >= 0 and strip(f, d["init"]) in lasts:
                        vs.add(d["v"])

        def isl(nid):
            nid = strip(f, nid)
            n = f.nodes[nid]
            return nid in lasts or n["k"] == "var" and n["v"] in vs

        def label(g, n):
            if n["k"] == "call" and n.get("nm", "").startswith("read") and any(x in n.get("qn", "") for x in WCLS + ("FileHandler::",)):
                return ("READ",)
            return ()

        class T(tstate.Track):
            def _refine(s, st, nid, want, depth=0):
                n = f.nodes[nid]
                if n["k"] == "bin" and n["op"] in ("&&", "||"):
                    s._refine(st, n["b"], want, depth + 1)   # this block is reached only once the first operand didn't decide
                    return tstate.Track._refine(s, st, nid, want, depth)
                if n["k"] == "call" and n.get("nm") == "isEof" and want:
                    st.v["x:eof"] = NONZ
                if n["k"] == "bin" and n["op"] in (">", "<", "<=", ">=") and (isl(n["a"]) or isl(n["b"])):
                    op = n["op"] if isl(n["a"]) else {">": "<", "<": ">", "<=": ">=", ">=": "<="}[n["op"]]
                    k = f.nodes[n["b"] if isl(n["a"]) else n["a"]].get("cv")
                    if (op, str(k)) in ((">", "0"), (">=", "1")) and not want or (op, str(k)) in (("<", "1"), ("<=", "0")) and want:
                        st.v["x:none"] = NONZ
                if isl(nid) and not want:
                    st.v["x:none"] = NONZ
                tstate.Track._refine(s, st, nid, want, depth)

            def fire(s, st, n, v):
                tstate.Track.fire(s, st, n, v)
                st.v.pop("x:eof", None)
                st.v.pop("x:none", None)

        hits = []

        def ex(t, st, e, out, v):
            if st.v.get("x:eof"):
                hits.append(e)
                if out != "fail" and not st.v.get("x:none") and v != NONZ:
                    self.bad("end-of-file", f, where_exit(f, e), "a read which failed after part of the data was read is taken for a normal end", "eof")

        t = T(self.S, f, label, lambda *a: None, ex)
        t.keep |= {"x:eof", "x:none"}
        t.retkeep |= {"x:eof", "x:none"}
        t.run()
        if hits:
            for n in f.calls():
                if n.get("nm") == "isEof":
                    self.c.ok("end-of-file", f.loc(n), "%s: only when nothing was read" % f.display())


def strip(f, nid):
    for _ in range(12):
        n = f.nodes[nid]
        if n["k"] in ("cast", "paren", "ctor") and ("a" in n or len(n.get("args", ())) == 1):
            nid = n["a"] if "a" in n else n["args"][0]
        else:
            break
    return nid


# ---------------------------------------------------------------------------------------------
class Streams(Base):
    """P03: what is written through an output stream"""

    def run(self):
        self.c.rule("output-stream", "A function which writes a file with an output stream is successful only if the state of the stream, tested once everything was written to the file, was good.", 3)
        for f in self.fns():
            if self.S.rkind(f) not in ("int", "bool"):
                continue
            qs = set()
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        t = self.p.types[d["ty"]] if "ty" in d else ""
                        if "ofstream" in t and not d.get("ref") and not t.endswith(("*", "&")):
                            qs.add("v:" + d["v"])
            closing = set()
            for n in f.calls():
                if n.get("nm") == "close" and n.get("obj") is not None and "ofstream" in n.get("qn", ""):
                    q = path(f, n["obj"])
                    if q and q not in qs:
                        closing.add(q)
            for q in sorted(qs | closing):
                self.one(f, q)
        self.flush()

    def one(self, f, q):
        tests = {"fail", "good", "bad", "rdstate", "operator!", "operator bool"}

        def label(g, n):
            if n["k"] not in ("call", "ctor"):
                return ()
            o = n.get("obj")
            if o is not None and path(g, o) == q:
                nm = n.get("nm", "")
                if nm in ("close", "flush"):
                    return ("FLUSH",)
                if nm in tests or n.get("op") == "!":
                    return ("TEST",)
                if nm in ("write", "put") or n.get("op") == "<<":
                    return ("OUT",)
                return ()
            if any(path(g, a) == q for a in n.get("args", ())):
                return ("OUT",)
            return ()

        class T(tstate.Track):
            def fire(s, st, n, v):
                l = s.labels[n["id"]]
                if "OUT" in l:
                    st.v.pop("ev:FLUSH", None)
                    st.v.pop("ev:TEST", None)
                if "FLUSH" in l:
                    st.v.pop("ev:TEST", None)
                tstate.Track.fire(s, st, n, v)

        hits = []

        def ex(t, st, e, out, v):
            if out == "fail" or not (t.state(st, "OUT") or t.state(st, "FLUSH")):
                return
            hits.append(e)
            if not t.state(st, "FLUSH"):
                self.bad("output-stream", f, where_exit(f, e), "may succeed though what was written to the stream isn't in the file yet", "flush " + q)
            elif not t.state(st, "TEST"):
                self.bad("output-stream", f, where_exit(f, e), "may succeed though completing the file may have failed", "test " + q)

        T(self.S, f, label, lambda *a: None, ex).run()
        if hits:
            self.c.ok("output-stream", "%s:%d" % (f.file, f.line), "%s: success depends on the state of the stream" % f.display())
