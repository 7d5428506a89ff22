"""Ordering rules for what is written to files, decided with the path-sensitive typestate of vx/tstate.py."""
import sys
from . import errors, status, tstate
from .paths import path
from .status import ZERO, NONZ

W = {"write", "overwrite"}
WCLS = ("WriteFileHandler::", "DiskFileT<", "DiskFile::", "DiskFileChunk::")


def make_status(p):
    cfg = status.Cfg()
    cfg.not_status, cfg.always_error = errors.NOT_STATUS, errors.ALWAYS_ERROR
    cfg.externals = errors.EXTERNALS
    cfg.sinks = {"setFileError", "set_async_error"}
    return status.Status(p, cfg)


def strip(f, nid):
    for _ in range(12):
        n = f.nodes[nid]
        if n["k"] in ("cast", "paren") or n["k"] == "un" and n.get("op") == "&":
            nid = n["a"]
        else:
            break
    return nid


def wtype(f, n):
    """type of what is written, or None when it isn't a write to a file"""
    if n["k"] != "call" or n.get("nm") not in W or not any(x in (n.get("qn") or "") for x in WCLS):
        return None
    a = n.get("args") or ()
    if not a:
        return None
    return f.ty(f.nodes[strip(f, a[0])]) or "?"


def is_header(f, n):
    t = wtype(f, n)
    return t is not None and "FileFormat::FileHeader" in t


def text(f, nid, depth=0):
    """a name for the value of an expression: constant, path, or None"""
    if nid is None or nid < 0:
        return None
    n = f.nodes[nid]
    if "cv" in n:
        return str(n["cv"])
    if n["k"] in ("cast", "paren"):
        return text(f, n["a"], depth + 1)
    return path(f, nid)


def prim(f, n):
    if wtype(f, n) is not None:
        return {"HDR"} if is_header(f, n) else {"DATA"}
    if n["k"] == "call" and n.get("nm") == "setPos" and any(x in (n.get("qn") or "") for x in WCLS + ("FileHandler::",)):
        return {"SETPOS"}
    if n["k"] == "call" and (n.get("qn") or "").endswith("DirectWriteRecordData::write"):
        return {"DATA"}
    return set()


def is_offset(f, n):
    if n["k"] != "assign" or n.get("op") != "=":
        return False
    a = f.nodes[n["a"]]
    return a["k"] == "mem" and a["nm"] == "indexRecordOffset"


IDX = ("writeDiskInfos", "writeClassicIndexRecord")


class Commit:
    """P04: what refers to data is written after the data"""

    EXC = {"vrs::IndexRecord::Reader::rebuildIndex": "repairs the index of a file already in a bad shape; the index record the header refers to is completed after the header"}

    def __init__(self, c):
        self.c, self.p = c, c.prog
        self.S = make_status(self.p)
        self.may = tstate.May(self.p, prim)
        self.idx = tstate.May(self.p, lambda f, n: {"IDX"} if n.get("nm") in IDX else set())

    def label(self, f, n):
        k = n["k"]
        if k == "call":
            m = self.may.call(f, n)
            if wtype(f, n) is not None:
                return ("HDR",) if "HDR" in m else ("DATA",)
            l = []
            if n.get("nm") == "init" and "FileHeader::" in (n.get("qn") or ""):
                l.append("INIT")
            if "SETPOS" in m and n.get("nm") == "setPos":
                l.append("SETPOS")
            elif "HDR" in m:
                l.append("NESTED")
            elif "DATA" in m and "RecordFileWriter" not in (n.get("qn") or ""):
                l.append("DATA")
                if n.get("nm") in IDX or "IDX" in self.idx.call(f, n):
                    l.append("IDX")
            return tuple(l)
        if is_offset(f, n):
            return ("OFF",)
        return ()

    def bad(self, rid, f, n, what, key):
        k = (rid, f.qn, f.nodes[n["id"]].get("l"), key)
        self.res.setdefault(k, (f, n, what, key))

    def run(self):
        c = self.c
        c.rule("header-last", "The file header is rewritten, at offset 0, only once what it refers to was written successfully, and nothing is written after it.", 4)
        c.rule("index-offset", "The offset saved in the header is where the index record was written, and the header isn't saved with the offset of a preliminary index.", 2)
        c.rule("indexed", "A record enters the index only once it was written successfully, and every record written does.", 2)
        c.rule("size-after", "The size of a record is updated only after the record was written successfully.", 2)
        c.rule("finalize", "A file is closed after its index and header were completed, and success requires both.", 2)
        c.rule("keep-pending", "Records waiting for the index are forgotten only once written to it.", 1)
        for f in self.p.view():
            if not f.file.startswith("vrs/") or "/test" in f.file or f.is_lambda:
                continue
            calls = list(f.calls())
            handler = f.nm in ("write", "overwrite")
            if not handler and any(is_header(f, n) for n in calls):
                self.header(f)
            if any(n.get("nm") == "addRecord" and "IndexRecord::Writer" in n.get("qn", "") for n in calls):
                self.indexed(f)
            if f.qn == "vrs::Record::writeRecord" and len(f.params) >= 4:
                self.size(f)
            if f.qn == "vrs::RecordFileWriter::completeAndCloseFile":
                self.final(f)
            if f.cls and f.qn.startswith("vrs::IndexRecord::Writer::") and any("IDX" in self.idx.call(f, n) or n.get("nm") in IDX for n in calls):
                self.pending(f)

    # ------------------------------------------------------------------
    def header(self, f):
        c = self.c
        self.res = {}
        seen = {}

        def ev(t, st, n, labels):
            w = f.loc(n)
            if "SETPOS" in labels:
                st.v["x:pos"] = ("S", text(f, n["args"][0]) if n.get("args") else None)
            if "IDX" in labels:
                st.v["x:idxpos"] = st.v.get("x:pos")
            if "HDR" in labels:
                first = t.state(st, "INIT") and t.state(st, "HDR") is None and t.state(st, "NESTED") is None
                if first:
                    seen.setdefault((n["id"], "init"), n)
                    return
                d = t.state(st, "DATA")
                if d != "ok":
                    self.bad("header-last", f, n, "header rewritten %s" % ("before anything is written" if d is None else "though a write may have failed" if d == "?" else "after a failed write"), "data")
                if t.state(st, "IDX") in ("err", "?"):
                    self.bad("header-last", f, n, "header rewritten though the index wasn't written", "index")
                pos = st.v.get("x:pos")
                if pos is None or pos[1] != "0" or t.state(st, "SETPOS") != "ok":
                    self.bad("header-last", f, n, "header rewritten at position %s" % (pos and pos[1]), "pos")
                seen.setdefault((n["id"], "rewrite"), n)
                ip, off = st.v.get("x:idxpos"), st.v.get("x:off")
                if f.nm == "preallocateClassicIndexRecord":
                    if t.state(st, "OFF"):
                        self.bad("index-offset", f, n, "header saved with the offset of a preliminary index", "prelim")
                    seen.setdefault((n["id"], "prelim"), n)
                elif ip and ip[1]:
                    if not (ip[1].endswith(".indexRecordOffset") and not off or off and off[1] == ip[1]) and not ip[1].endswith(".indexRecordOffset"):
                        self.bad("index-offset", f, n, "index written at %s, header refers to %s" % (ip[1], off and off[1]), "off")
                    seen.setdefault((n["id"], "offset"), n)
            elif "DATA" in labels and not t.state(st, "INIT"):
                if t.state(st, "HDR") is not None and f.qn not in self.EXC:
                    self.bad("header-last", f, n, "%s: data is written after the header which refers to it" % (n.get("nm")), "after")

        class T(tstate.Track):
            def fire(s, st, n, v):
                tstate.Track.fire(s, st, n, v)
                if n["k"] == "assign" and "OFF" in s.labels[n["id"]]:
                    st.v["x:off"] = ("S", text(f, n["b"]))

        t = T(self.S, f, self.label, ev)
        t.keep |= {"x:pos", "x:off", "x:idxpos"}
        r = t.run()
        if r.get("overflow"):
            c.extra.setdefault("too_complex", []).append(f.display())
        for (nid, kind), n in sorted(seen.items(), key=str):
            rid = "index-offset" if kind in ("offset", "prelim") else "header-last"
            bads = [k for k in self.res if k[0] == rid]
            c.ok(rid, f.loc(n), "%s: header %s" % (f.display(), {"init": "first written", "rewrite": "rewritten last, after the data", "prelim": "not committing a preliminary index", "offset": "refers to the index written"}[kind]))
        self.flush(f)
        if f.qn in self.EXC:
            c.excused.append((f.qn, self.EXC[f.qn]))

    def flush(self, f):
        for (rid, _, _, key), (g, n, what, _) in sorted(self.res.items(), key=str):
            self.c.bad(rid, g.loc(n), "%s: %s" % (g.display(), what), "%s %s" % (g.qn, key))
        self.res = {}

    def indexed(self, f):
        c = self.c
        self.res = {}
        hits = {}

        def label(g, n):
            if n["k"] == "call":
                if n.get("nm") == "addRecord" and "IndexRecord::Writer" in n.get("qn", ""):
                    return ("ADD",)
                if n.get("nm") == "writeRecord" and "Record::" in n.get("qn", ""):
                    return ("REC",)
            return ()

        def ev(t, st, n, labels):
            if "ADD" in labels:
                hits["add"] = n
                if t.state(st, "REC") != "ok":
                    self.bad("indexed", f, n, "record indexed though it may not have been written", "add")
            if "REC" in labels:
                hits["rec"] = n

        def ex(t, st, e, out, v):
            if t.state(st, "REC") in ("ok", "?") and t.state(st, "ADD") is None and not any(q.endswith("skipFinalizeIndexRecords_") and x == NONZ for q, x in st.v.items()):
                self.bad("indexed", f, hits.get("rec") or f.nodes[0], "record written, but not indexed", "missing")

        t = tstate.Track(self.S, f, label, ev, ex)
        t.keep |= {"this.skipFinalizeIndexRecords_"}
        t._tested = None
        tested = t.tested
        t.tested = lambda q: q.endswith("skipFinalizeIndexRecords_") or tested(q)
        t.run()
        for k, n in hits.items():
            c.ok("indexed", f.loc(n), "%s: %s" % (f.display(), {"add": "indexed after it was written", "rec": "written records are indexed"}[k]))
        c.ok("indexed", "%s:%d" % (f.file, f.line), f.display())
        self.flush(f)

    def size(self, f):
        c = self.c
        self.res = {}
        hits = {}
        par = next((q["v"] for q in f.params if self.p.types[q["ty"]].replace("const ", "") in ("unsigned int &", "uint32_t &", "unsigned int&")), None)

        def label(g, n):
            if n["k"] == "call" and "DATA" in self.may.call(g, n):
                return ("DATA",)
            if n["k"] == "assign" and n.get("op") == "=" and g.nodes[n["a"]]["k"] == "var" and g.nodes[n["a"]]["v"] == par:
                return ("SIZE",)
            return ()

        class T(tstate.Track):
            def fire(s, st, n, v):
                if "SIZE" in s.labels[n["id"]]:
                    hits[n["id"]] = n
                    if s.state(st, "DATA") != "ok":
                        self.bad("size-after", f, n, "size of the record updated before it was written", "size")
                tstate.Track.fire(s, st, n, v)

        def ex(t, st, e, out, v):
            if out != "fail" and t.state(st, "SIZE") is None:
                self.bad("size-after", f, f.nodes[e] if isinstance(e, int) else f.nodes[0], "size of the record not updated", "missing")
            if out != "fail" and t.state(st, "DATA") is None:
                self.bad("size-after", f, f.nodes[e] if isinstance(e, int) else f.nodes[0], "nothing written", "nothing")

        T(self.S, f, label, lambda *a: None, ex).run()
        for n in hits.values():
            c.ok("size-after", f.loc(n), f.display())
        self.flush(f)

    def final(self, f):
        c = self.c
        self.res = {}
        hits = {}

        def label(g, n):
            if n["k"] != "call":
                return ()
            if n.get("nm") == "close" and any(x in n.get("qn", "") for x in WCLS + ("FileHandler::",)):
                return ("CLOSE",)
            if "HDR" in self.may.call(g, n):
                return ("FIN",)
            return ()

        def ev(t, st, n, labels):
            if "FIN" in labels:
                hits[n["id"]] = n
                if t.state(st, "CLOSE") is not None:
                    self.bad("finalize", f, n, "index completed after the file was closed", "order")
            if "CLOSE" in labels:
                hits[n["id"]] = n

        def ex(t, st, e, out, v):
            if out == "fail":
                return
            if t.state(st, "CLOSE") is None:
                self.bad("finalize", f, f.nodes[e] if isinstance(e, int) else f.nodes[0], "success without closing the file", "close")
            if t.state(st, "FIN") is None and not any(q.endswith("skipFinalizeIndexRecords_") and x == NONZ for q, x in st.v.items()):
                if not (v and v[0] == "P" and st.t.get(v[1]) == "e"):
                    self.bad("finalize", f, f.nodes[e] if isinstance(e, int) else f.nodes[0], "success without completing the index", "index")

        t = tstate.Track(self.S, f, label, ev, ex)
        t.keep |= {"this.skipFinalizeIndexRecords_"}
        tested = t.tested
        t.tested = lambda q: q.endswith("skipFinalizeIndexRecords_") or tested(q)
        t.run()
        for n in hits.values():
            c.ok("finalize", f.loc(n), "%s: %s" % (f.display(), n.get("nm")))
        self.flush(f)

    def pending(self, f):
        c = self.c
        self.res = {}
        hits = {}

        def label(g, n):
            if n["k"] == "call":
                if n.get("nm") in ("clear", "swap", "resize") and n.get("obj") is not None and (path(g, n["obj"]) or "").endswith("writtenRecords_"):
                    return ("CLEAR",)
                if n.get("nm") in IDX or "IDX" in self.idx.call(g, n):
                    return ("IDX",)
            return ()

        def ev(t, st, n, labels):
            if "CLEAR" in labels:
                hits[n["id"]] = n
                if t.state(st, "IDX") != "ok":
                    self.bad("keep-pending", f, n, "pending records forgotten though they may not have been written", "clear")

        tstate.Track(self.S, f, label, ev).run()
        for n in hits.values():
            c.ok("keep-pending", f.loc(n), f.display())
        self.flush(f)
