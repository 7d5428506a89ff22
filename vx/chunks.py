"""P05: notifications of completed chunks. P06: files replaced atomically."""
from . import tstate
from .handles import Base, where_exit, strip
from .order import WCLS
from .paths import path
from .status import ZERO, NONZ

NOTIFIER = "NewChunkNotifier"


def is_file_call(n, *names):
    return n["k"] == "call" and n.get("nm") in names and any(x in (n.get("qn") or "") for x in WCLS + ("FileHandler::",))


def local_of_type(p, f, what):
    out = {}
    for n in f.nodes:
        if n["k"] == "decl":
            for d in n["ds"]:
                t = p.types[d["ty"]] if "ty" in d else ""
                if what in t and not d.get("ref") and not t.endswith(("*", "&")):
                    out["v:" + d["v"]] = (n, d)
    return out


def ctor_args(f, nid):
    for _ in range(8):
        n = f.nodes[nid]
        if n["k"] == "ctor" and n.get("args"):
            if NOTIFIER in (n.get("qn") or "") or len(n["args"]) > 1:
                return n["args"]
            nid = n["args"][0]
        elif "a" in n and n["k"] in ("cast", "paren"):
            nid = n["a"]
        else:
            return n.get("args", ())
    return ()


class Notify(Base):
    def run(self):
        c = self.c
        c.rule("chunk-complete", "A chunk is announced only after it was closed, or after a chunk was added behind it, with the path and index it had before that.", 3)
        c.rule("chunk-announced", "Every chunk completed by a writer is announced, once.", 3)
        c.rule("chunk-last", "Only the last announcement of a file is flagged as the last, and the offset of the indexes counts the split head.", 3)
        c.rule("chunk-identity", "An announcement carries the path and index recorded when the notifier was made, of the chunk being written then.", 3)
        n = 0
        for f in self.fns("vrs::"):
            if f.qn.startswith("vrs::" + NOTIFIER):
                continue
            nots = local_of_type(self.p, f, NOTIFIER)
            adds = [x for x in f.calls() if is_file_call(x, "addChunk")]
            if not nots:
                if adds and not any(x in f.qn for x in ("DiskFile", "FileHandler::")) and "/utils/" not in f.file:
                    for a in adds:
                        self.bad("chunk-announced", f, a, "a chunk is completed, but not announced", "none")
                continue
            n += 1
            self.one(f, nots)
        self.identity()
        c.rule("chunk-rotated", "A chunk is added behind the current one only once what was written to that one was flushed, its size recorded.", 2)
        for f in self.fns("vrs::DiskFileT<"):
            if f.nm == "addChunk" and any(n.get("nm") in ("push_back", "emplace_back") for n in f.calls()):
                self.rotate(f)
        self.flush()

    def rotate(self, f):
        def cur(g, n, *names):
            return n["k"] == "call" and n.get("nm") in names and n.get("obj") is not None and path(g, n["obj"]) in ("this.currentChunk_", "this.currentChunk_*")

        def label(g, n):
            if cur(g, n, "flush", "close") or n["k"] == "call" and n.get("nm") == "closeChunk":
                return ("FLUSH",)
            if cur(g, n, "setSize"):
                return ("SIZE",)
            if n["k"] == "call" and n.get("nm") in ("push_back", "emplace_back") and n.get("obj") is not None and "chunks_" in (path(g, n["obj"]) or ""):
                return ("PUSH",)
            return ()

        class T(tstate.Track):
            def _refine(s, st, nid, want, *a):
                n = f.nodes[strip(f, nid)]
                if n["k"] == "bin" and n.get("op") in ("&&", "||"):
                    s._refine(st, n["b"], want, *a)   # this block is reached only once the first operand didn't decide
                elif n["k"] == "un" and n["op"] == "!":
                    s._refine(st, n["a"], not want, *a)
                    return
                elif cur(f, n, "isOpened") and not want:
                    st.v["x:none"] = NONZ
                elif n["k"] == "bin" and n.get("op") in ("==", "!="):
                    sides = [path(f, n["a"]), path(f, n["b"])]
                    if "this.currentChunk_" in sides and want == (n["op"] == "=="):
                        st.v["x:none"] = NONZ
                elif path(f, n["id"]) == "this.currentChunk_" and not want:
                    st.v["x:none"] = NONZ
                tstate.Track._refine(s, st, nid, want, *a)

            def fire(s, st, n, v):
                if "FLUSH" in s.labels[n["id"]] and s.state(st, "FLUSH") == "ok":
                    return   # flushed, then closed
                tstate.Track.fire(s, st, n, v)

        hits = []

        def ev(t, st, n, labels):
            if "PUSH" in labels:
                hits.append(n)
                if st.v.get("x:none") == NONZ:
                    return
                if t.state(st, "FLUSH") != "ok":
                    self.bad("chunk-rotated", f, n, "a chunk is added, though flushing the current one may have failed", "flush")
                if t.state(st, "SIZE") is None:
                    self.bad("chunk-rotated", f, n, "a chunk is added, but the size of the current one isn't recorded", "size")

        t = T(self.S, f, label, ev)
        t.keep |= {"x:none"}
        t.run()
        if hits:
            self.c.ok("chunk-rotated", f.loc(hits[0]), "%s: current chunk flushed, size recorded" % f.display())

    def one(self, f, nots):
        c = self.c
        files = {}
        for q, (n, d) in nots.items():
            a = ctor_args(f, d["init"]) if d.get("init", -1) >= 0 else ()
            files[q] = path(f, a[0]) if a else None
        decl = {n["id"]: q for q, (n, d) in nots.items()}

        def label(g, n):
            if n["id"] in decl:
                return ("MADE",)
            if n["k"] != "call":
                return ()
            if n.get("nm") == "notify" and NOTIFIER in (n.get("qn") or ""):
                return ("NOTIFY",)
            if is_file_call(n, "close", "addChunk") and n.get("obj") is not None and any(path(g, n["obj"]) == x for x in files.values()):
                return ("ADD",) if n["nm"] == "addChunk" else ("CLOSE",)
            return ()

        hits = {}

        def ev(t, st, n, labels):
            if "CLOSE" in labels or "ADD" in labels:
                hits[n["id"]] = n
                if t.state(st, "MADE") is None:
                    self.bad("chunk-complete", f, n, "the chunk's identity isn't recorded before %s" % n["nm"], "late")
                if t.state(st, "NOTIFY") is not None and "ADD" not in labels:
                    self.bad("chunk-complete", f, n, "the chunk is closed after it was announced", "early")
                st.v.pop("ev:NOTIFY", None)
            if "NOTIFY" in labels:
                hits[n["id"]] = n
                cl, ad = t.state(st, "CLOSE"), t.state(st, "ADD")
                if cl is None and ad is None:
                    self.bad("chunk-complete", f, n, "a chunk is announced before it is complete", "early")
                elif cl is None and ad != "ok":
                    self.bad("chunk-complete", f, n, "a chunk is announced though adding the next one may have failed: it is still written", "failed")
                if t.state(st, "NOTIFY") is not None:
                    self.bad("chunk-announced", f, n, "a chunk is announced twice", "twice")
                self.args(f, n, files)

        def ex(t, st, e, out, v):
            cl, ad = t.state(st, "CLOSE"), t.state(st, "ADD")
            if (cl is not None or ad in ("ok", "?")) and t.state(st, "NOTIFY") is None:
                self.bad("chunk-announced", f, where_exit(f, e), "a chunk is complete, but not announced", "missing")

        tstate.Track(self.S, f, label, ev, ex, keep=("MADE", "CLOSE", "ADD", "NOTIFY")).run()
        for h in hits.values():
            c.ok("chunk-announced" if h["nm"] == "notify" else "chunk-complete", f.loc(h), "%s: %s" % (f.display(), h["nm"]))

    def args(self, f, n, files):
        a = [f.nodes[strip(f, x)] for x in n.get("args", ())]

        def const(i, dflt):
            if i >= len(n.get("args", ())):
                return dflt
            x = f.nodes[n["args"][i]]
            if x["k"] == "defarg":
                return dflt
            if "cv" in x:
                return str(x["cv"])
            y = a[i]
            return str(y["cv"]) if "cv" in y else str(y.get("bv")) if "bv" in y else None

        off, last = const(0, "0"), const(1, "0")
        q = path(f, n["obj"])
        file = files.get(q) or ""
        want = "0" if "splitHead" in file else "1"
        if off is not None:
            self.c.expect("chunk-last", off == want, f.loc(n), "%s: index offset %s" % (f.display(), want), "%s offset" % f.qn)
        closes = any(is_file_call(x, "close") and path(f, x["obj"]) == file for x in f.calls() if x.get("obj") is not None)
        w = "1" if closes and "splitHead" not in file else "0"
        if last is not None:
            last = {"True": "1", "False": "0", "true": "1", "false": "0"}.get(last, last)
            self.c.expect("chunk-last", last == w, f.loc(n), "%s: last chunk flag %s" % (f.display(), "set" if w == "1" else "not set"), "%s last" % f.qn)

    def identity(self):
        c = self.c
        for f in self.p.fns.values():
            if f.qn == "vrs::NewChunkNotifier::notify":
                for n in f.calls():
                    if n.get("nm") == "newChunk":
                        a = n.get("args", ())
                        ps = [x["nm"] for x in f.params]
                        ok = len(a) == 3 and path(f, a[0]) == "this.path_"
                        x = f.nodes[strip(f, a[1])] if len(a) == 3 else {}
                        txt = sorted(str(path(f, y)) for y in (x.get("a"), x.get("b")) if y is not None) if x.get("k") == "bin" and x.get("op") == "+" else []
                        ok = ok and "this.index_" in txt and len(txt) == 2
                        ok = ok and (path(f, a[2]) or "").startswith("v:")
                        c.expect("chunk-identity", ok, f.loc(n), "%s: announces the recorded path and index" % f.display(), f.qn)
            if f.qn.startswith("vrs::NewChunkNotifier::NewChunkNotifier") and f.params and len(f.params) == 2:
                g = [n for n in f.calls() if n.get("nm") == "getCurrentChunk"]
                ok = any([path(f, x) for x in n.get("args", ())] == ["this.path_", "this.index_"] for n in g)
                c.expect("chunk-identity", ok, "%s:%d" % (f.file, f.line), "%s: records the current chunk" % f.display(), f.qn + " ctor")
            if f.nm == "getCurrentChunk" and "DiskFileT<" in f.qn:
                srcs = set()
                for n in f.nodes:
                    if n["k"] == "mem":
                        srcs.add(n["nm"])
                c.expect("chunk-identity", "currentChunk_" in srcs, "%s:%d" % (f.file, f.line), "%s: describes the chunk being written" % f.display(), "getCurrentChunk")


# ---------------------------------------------------------------------------------------------
class Atomic(Base):
    def run(self):
        c = self.c
        c.rule("atomic-name", "A file replaced atomically is first created under another, unused name.", 2)
        c.rule("atomic-commit", "It gets its name only once it was closed without error, and success of closing it means that it has its name.", 2)
        c.rule("atomic-abort", "Aborting it closes it without giving it its name, and deletes what was written.", 2)
        c.rule("atomic-use", "What was written only in part is aborted before the file is destroyed or closed, and closing is checked.", 2)
        c.rule("atomic-users", "Caches and compressed files are written through files replaced atomically.", 2)
        A = "vrs::AtomicDiskFile::"
        ren = tstate.May(self.p, lambda f, n: {"RENAME"} if n["k"] == "call" and n.get("nm") == "rename" else set())
        seen = set()
        for f in self.fns(A):
            seen.add(f.nm)
            if f.nm == "create":
                self.create(f)
            elif f.nm == "close":
                self.close(f)
            elif f.nm == "abort":
                self.abort(f, ren)
        for nm in ("create", "close", "abort"):
            c.expect("atomic-name" if nm == "create" else "atomic-commit" if nm == "close" else "atomic-abort",
                     nm in seen, "vrs/DiskFile.cpp", "AtomicDiskFile::%s" % nm, nm)
        for f in self.p.view():
            if "/test" in f.file or f.is_lambda or f.qn.startswith(A):
                continue
            for q in sorted(local_of_type(self.p, f, "AtomicDiskFile")):
                self.use(f, q)
            if f.qn == "vrs::FileDetailsCache::write" or f.nm == "writeZstdFile":
                made = [n for n in f.calls() if n.get("nm") in ("create",) and n.get("obj") is not None]
                for n in made:
                    c.expect("atomic-users", "AtomicDiskFile" in (f.ty(f.nodes[strip(f, n["obj"])]) or "") or "AtomicDiskFile" in n.get("qn", ""),
                             f.loc(n), "%s: replaces the file atomically" % f.display(), f.qn)
            if f.qn == "vrs::os::getUniquePath" and len(f.params) == 2:
                self.unique(f)
        self.flush()

    def unique(self, f):
        """the name returned was tested, and found unused"""
        names = set()

        def label(g, n):
            if n["k"] == "call" and n.get("nm") in ("pathExists", "exists"):
                return ("TEST",)
            return ()

        class T(tstate.Track):
            def _refine(s, st, nid, want, depth=0):
                n = f.nodes[nid]
                if n["k"] == "call" and n.get("nm") in ("pathExists", "exists"):
                    st.v["x:free"] = ZERO if want else NONZ
                    names.add(path(f, n["args"][0]) if n.get("args") else None)
                tstate.Track._refine(s, st, nid, want, depth)

        def ex(t, st, e, out, v):
            if st.v.get("x:free") != NONZ:
                self.bad("atomic-name", f, where_exit(f, e), "the name returned may be that of an existing file", "unique")

        t = T(self.S, f, label, lambda *a: None, ex)
        t.keep |= {"x:free"}
        t.run()
        self.c.ok("atomic-name", "%s:%d" % (f.file, f.line), "%s: the name returned isn't used" % f.display())

    def create(self, f):
        final = {"this.finalName_"} | {"v:" + p["v"] for p in f.params[:1]}
        for n in f.calls():
            if is_file_call(n, "create"):
                a = n.get("args", ())
                x = strip(f, a[0]) if a else None
                ok = x is not None and self.from_unique(f, x) and path(f, x) not in final
                self.c.expect("atomic-name", ok, f.loc(n), "%s: created under a unique name" % f.display(), "create")

    def from_unique(self, f, nid, depth=0):
        n = f.nodes[nid]
        if n["k"] == "call" and n.get("nm") == "getUniquePath":
            return True
        if n["k"] == "var" and depth < 4:
            defs = [d["init"] for m in f.nodes if m["k"] == "decl" for d in m["ds"] if d["v"] == n["v"] and d.get("init", -1) >= 0]
            defs += [m["b"] for m in f.nodes if m["k"] == "assign" and path(f, m["a"]) == "v:" + n["v"]]
            defs += [m["args"][0] for m in f.calls() if m.get("op") == "=" and m.get("obj") is not None and path(f, m["obj"]) == "v:" + n["v"] and m.get("args")]
            return bool(defs) and all(self.from_unique(f, strip(f, d), depth + 1) for d in defs)
        return False

    def close(self, f):
        def label(g, n):
            if is_file_call(n, "close"):
                return ("CLOSE",)
            if n["k"] == "call" and n.get("nm") == "rename":
                return ("RENAME",)
            return ()

        hits = {}

        def ev(t, st, n, labels):
            hits[n["id"]] = n
            if "RENAME" in labels:
                s = t.state(st, "CLOSE")
                if s != "ok":
                    self.bad("atomic-commit", f, n, "the file gets its name %s" % ("before it is closed" if s is None else "though closing it may have failed"), "order")
                a = n.get("args", ())
                if len(a) == 2 and path(f, a[1]) != "this.finalName_":
                    self.bad("atomic-commit", f, n, "the file gets another name", "name")

        def ex(t, st, e, out, v):
            if out == "fail":
                return
            s, r = t.state(st, "CLOSE"), t.state(st, "RENAME")
            if not (s == "ok" or s == "?" and t.implied(st, v, "CLOSE")):
                self.bad("atomic-commit", f, where_exit(f, e), "may succeed though closing the file may have failed", "close")
            if r in ("err",) or r == "?" and not t.implied(st, v, "RENAME"):
                self.bad("atomic-commit", f, where_exit(f, e), "may succeed though the file didn't get its name", "rename")

        tstate.Track(self.S, f, label, ev, ex).run()
        self.c.expect("atomic-commit", any(n.get("nm") == "rename" for n in hits.values()), "%s:%d" % (f.file, f.line), "%s: renames the file" % f.display(), "rename call")
        for h in hits.values():
            self.c.ok("atomic-commit", f.loc(h), "%s: %s" % (f.display(), h["nm"]))

    def abort(self, f, ren):
        def label(g, n):
            if is_file_call(n, "close"):
                return ("CLOSE",)
            if n["k"] == "call" and n.get("nm") in ("remove", "unlink"):
                return ("REMOVE",)
            if n["k"] == "call" and n.get("nm") == "rename":
                return ("RENAME",)
            return ()

        hits = []

        def ev(t, st, n, labels):
            hits.append(n)
            if "CLOSE" in labels and not n.get("virt") is False and "RENAME" in self.direct(f, n, ren):
                self.bad("atomic-abort", f, n, "closing the aborted file gives it its name", "commit")
            if "RENAME" in labels:
                self.bad("atomic-abort", f, n, "the aborted file is renamed", "rename")
            if "REMOVE" in labels and t.state(st, "CLOSE") is None:
                self.bad("atomic-abort", f, n, "removed before it is closed: closing it may write it again", "order")

        tstate.Track(self.S, f, label, ev).run()
        names = {n.get("nm") for n in hits}
        self.c.expect("atomic-abort", "close" in names, "%s:%d" % (f.file, f.line), "%s: closes the file" % f.display(), "abort close")
        self.c.expect("atomic-abort", bool(names & {"remove", "unlink"}), "%s:%d" % (f.file, f.line), "%s: deletes what was written" % f.display(), "abort remove")

    def direct(self, f, n, ren):
        """may this call rename? A qualified call (DiskFile::close()) runs that function, not an override"""
        out = set()
        for t in self.p.targets(f, n):
            out |= ren.fn(t)
        return out

    def use(self, f, q):
        def mine(g, nid):
            return path(g, nid) == q

        def label(g, n):
            if n["k"] != "call":
                return ()
            if n.get("obj") is not None and mine(g, n["obj"]):
                nm = n.get("nm")
                if nm == "create":
                    return ("CREATE",)
                if nm == "close":
                    return ("CLOSE",)
                if nm == "abort":
                    return ("ABORT",)
                if nm in ("write", "overwrite", "flush", "setPos", "truncate", "addChunk"):
                    return ("WRITE",)
                return ()
            if any(mine(g, a) for a in n.get("args", ())):
                return ("WRITE",)
            return ()

        hits = {}

        class T(tstate.Track):
            def fire(s, st, n, v):
                if "WRITE" in s.labels[n["id"]] and s.state(st, "WRITE") == "err":
                    return   # a failure isn't cured by another write
                tstate.Track.fire(s, st, n, v)

        def ev(t, st, n, labels):
            hits[n["id"]] = n
            if "WRITE" in labels and t.state(st, "WRITE") == "?":
                st.v["x:lost"] = NONZ
            if "CLOSE" in labels and (t.state(st, "WRITE") in ("err", "?") or st.v.get("x:lost")):
                self.bad("atomic-use", f, n, "the file gets its name though writing it may have failed", "close " + q)

        def ex(t, st, e, out, v):
            if t.state(st, "CREATE") not in ("ok",) or t.state(st, "ABORT") or t.state(st, "CLOSE"):
                return
            w = t.state(st, "WRITE")
            if w in ("err", "?") or st.v.get("x:lost"):
                self.bad("atomic-use", f, where_exit(f, e), "the file gets its name when destroyed, though writing it may have failed", "drop " + q)
            elif out == "fail":
                self.bad("atomic-use", f, where_exit(f, e), "fails, but the file gets its name when destroyed", "fail " + q)

        t = T(self.S, f, label, ev, ex)
        t.keep |= {"x:lost"}
        t.retkeep |= {"x:lost"}
        t.run()
        for h in hits.values():
            if h["nm"] == "create":
                self.c.ok("atomic-use", f.loc(h), "%s: aborted on failure" % f.display())
