"""P07: data shared between threads is atomic, or only touched under the lock that guards it."""
import collections, re
from .locks import Locks, accesses as field_accesses, bare, is_lock_type, is_mutex_type, strip
from .paths import path, ref_aliases
from .check import Broken
from .names import renamed

# what the library's threads share, and a field of the mutex that guards it
SHARED = {
    "vrs::RecordManager": ("cache_", "activeRecords_", "creationOrder_", "maxCacheSize_"),
    "vrs::RecordFileWriter": ("recordables_",),
    "vrs::RecordFileWriter_::WriterThreadData": ("recordsReadyToWrite", "maxTimestampProvider"),
    "vrs::RecordFileWriter_::PurgeThreadData": ("maxTimestampProvider", "autoPurgeDelay"),
    "vrs::IndexRecord::Writer": ("streamIds_",),
    "vrs::AsyncDiskFileChunk": ("buffers_free_", "buffers_queued_", "buffers_writing_"),
    "vrs::os::EventChannel": ("inDestruction_", "mostRecentEvents_", "numEntering_", "numListeners_", "pendingWakeupsCount_"),
    "vrs::JobQueue": ("queue_",),
    "vrs::FileHandlerFactory": ("extraDelegatorMap_", "fileDelegatorMap_", "fileHandlerMap_"),
    "vrs::RecordFormatRegistrar": ("legacyRecordFormats_", "providers_"),
    "(anonymous namespace)::ImageProcessor": ("threadPool_",),
    "vrs::utils::Throttler": ("stats_",),
}
# flags and counters read and written by several threads: atomic, or guarded
ATOMIC = {
    "vrs::RecordFileWriter_::WriterThreadData": ("fileError", "shouldEndThread", "hasRecordsReadyToWrite", "autoCollectDelay"),
    "vrs::RecordFileWriter_::PurgeThreadData": ("shouldEndThread", "purgingPaused_"),
    "vrs::RecordFileWriter": ("queueByteSize_", "purgeThreadData_"),
    "vrs::AsyncDiskFileChunk": ("async_error_",),
    "vrs::os::EventChannel": ("numEventsSinceLastWait_",),
    "vrs::JobQueue": ("hasEnded_",),
}
# functions that are only called with the lock held: their callers are checked instead
HOLD = {"vrs::RecordFormatRegistrar::getLegacyRegistry"}
# (function, class::field): why the lock isn't needed there
NOLOCK = {
    ("vrs::AsyncDiskFileChunk::alloc_write_buffers", "*"): "called when the file is opened: no write is in flight",
    ("vrs::AsyncDiskFileChunk::free_write_buffers", "*"): "called when the file is closed, after flushing: no write is in flight",
}
# classes whose objects are handed from one thread to the next, and never used by two at once
HANDED = {
    "vrs::Record": "a record belongs to its RecordManager's containers (guarded), then to the batch of the thread that collected it, then to the compression job",
    "vrs::RecordFileWriter::SortRecord": "part of the job handed to a compression thread",
    "vrs::RecordFileWriter_::(anonymous namespace)::CompressionJob": "handed to a compression thread by a job queue, and back by another",
    "vrs::Compressor": "each compression job has its own compressor",
    "vrs::Compressor::CompressorImpl": "each compression job has its own compressor",
    "vrs::utils::BufferFileHandler": "not a file that is written",
}
# fields only changed while the threads that read them aren't running
CONFIG = {
    "vrs::RecordFileWriter::compressionThreadPoolSize_": "set before the file is created",
    "vrs::RecordFileWriter::maxChunkSize_": "set before the file is created",
    "vrs::RecordFileWriter::writerThreadData_": "set before the writer thread starts, and reset after it was joined",
    "vrs::RecordFileWriter_::WriterThreadData::nextAutoCollectTime": "only used by the writer thread",
    "vrs::RecordFileWriter_::PurgeThreadData::purgeThread": "set once, by the thread that starts it",
    "vrs::RecordFileWriter_::WriterThreadData::saveThread": "set once, by the thread that starts it",
    "vrs::RecordFileWriter::newChunkHandler_": "set before the writer thread starts, and reset after it was joined",
}
STATICS = {
    "vrs::utils::simple_random::state": "only used while a static const table is being initialised",
}
# classes whose threads read their fields without locks
WORKER_CLASSES = ("vrs::RecordFileReader",)
# methods of the file writer that may not be called while another thread writes the file (they start or wait for its threads)
NOT_CONCURRENT = ("createFile", "createFileAsync", "createChunkedFile", "waitForFileClosed", "writeToFile", "addChunkHandler",
                  "setInitCreatedThreadCallback", "setWriteFileHandler")
READERS = ("find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "count", "at", "lower_bound", "upper_bound",
           "data", "c_str", "front", "back", "load", "get", "length", "contains", "equal_range", "has_value", "value", "what", "str")


def ctor_like(f):
    return f.d.get("ctor") is not None or f.nm.startswith("~") or f.nm == "operator=" or (f.cls or "") and f.nm == f.qn.split("::")[-2] if "::" in f.qn else False


def is_sync(t):
    t = bare(t)
    return is_mutex_type(t) or t.startswith(("std::atomic", "std::condition_variable", "std::once_flag", "std::thread", "std::recursive_mutex"))


def is_atomic(t):
    return re.search(r"std::(__)?atomic", t) is not None


def pointerish(t):
    t = bare(t) if not t.rstrip().endswith("*") else t.rstrip()
    return t.endswith("*") or t.endswith("* const") or t.startswith(("std::unique_ptr", "std::shared_ptr"))


def written(f, n, depth=0):
    """does the expression modify the object the node designates (not what it points to)?"""
    if depth > 8:
        return False
    for q in f.parents.get(n["id"], ()):
        m = f.nodes[q]
        k = m["k"]
        if k in ("assign", "cassign") and m["a"] == n["id"]:
            return True
        if k == "un" and m["op"] in ("++", "--"):
            return True
        if k == "un" and m["op"] == "&":
            return True
        if k == "un" and m["op"] == "*":
            continue
        if k == "call" and m.get("obj") == n["id"]:
            if m.get("op") in ("->", "*") or m.get("nm") in ("operator->", "operator*") or m.get("cm"):
                continue
            if m.get("op") == "[]" and not bare(f.ty(n)).startswith(("std::map", "std::unordered_map")):
                if written(f, m, depth + 1):
                    return True
                continue
            if m.get("nm") in READERS:
                continue
            if pointerish(f.ty(n)) and m.get("nm") not in ("reset", "swap", "release", "operator="):
                continue
            return True
        if k in ("call", "ctor"):
            pm = m.get("pm", "")
            for i, a in enumerate(m.get("args", ())):
                if a == n["id"] and i < len(pm) and pm[i] in "rm":
                    return True
        if k == "mem" and m.get("a") == n["id"]:
            if not pointerish(f.ty(n)) and written(f, m, depth + 1):
                return True
        if k in ("index", "cast", "paren") and written(f, m, depth + 1):
            return True
    return False


RENAMED = {}


def fid(own, fl):
    i = own["qn"] + "::" + fl["nm"]
    return RENAMED.get(i, i)


def accesses(p, f):
    for n, i, b in field_accesses(p, f):
        yield n, RENAMED.get(i, i), b


class Conc:
    def __init__(self, c):
        self.c = c
        self.p = c.prog
        self.L = Locks(self.p)
        RENAMED.clear()
        RENAMED.update(renamed(self.p))
        self.acc = collections.defaultdict(list)     # field -> [(fn, node, base)]
        self.types = {}
        self.classes = collections.defaultdict(set)
        self.own = {r["qn"] for r in self.p.records.values() if "qn" in r}
        for own, fl in self.p.field_owner.values():
            self.types.setdefault(fid(own, fl), self.p.types[fl["ty"]])
            self.classes[own["qn"]].add(fl["nm"])
        for f in self.L.fns:
            if "/test" in f.file:
                continue
            for n, ident, b in accesses(self.p, f):
                self.acc[ident].append((f, n, b))
        self.objlocks = self.object_locks()

    def object_locks(self):
        """locks held for the lifetime of the objects of a class: {class: mutexes}"""
        out, gone = collections.defaultdict(set), set()
        for f in self.L.fns:
            for n in f.nodes:
                if n["k"] == "call" and n.get("nm") in ("unlock", "release", "swap") and "obj" in n:
                    o = f.nodes[strip(f, n["obj"])] if strip(f, n["obj"]) is not None and strip(f, n["obj"]) >= 0 else None
                    if o and o["k"] == "mem":
                        gone.add(o.get("f"))
            for b in f.blocks.values():
                for e in b.e:
                    if isinstance(e, dict) and e.get("k") == "init" and e.get("a", -1) >= 0 and f.cls:
                        own = self.p.field_owner.get(e.get("f"))
                        if own and is_lock_type(self.p.types[own[1]["ty"]]):
                            for m, b_ in self.L.ctor_mutexes(f, e["a"]):
                                out[f.cls].add((e["f"], m))
        return {k: {m for fl, m in v if fl not in gone} for k, v in out.items()}

    def held(self, f, nid):
        return {t[1] for t in self.L.held(f, nid) or ()} | self.objlocks.get(self.owner_of(f).cls, set())

    def run(self):
        self.guarded()
        self.holds()
        self.escapes()
        self.conflicts()
        self.statics()
        self.worker()

    # -- fields and their lock

    def owner_of(self, f):
        while f.is_lambda and f.parent and f.parent in self.p.fns:
            f = self.p.fns[f.parent]
        return f

    def exempt(self, f, ident, depth=0):
        why = self.exempt1(f, ident)
        if why is not None or depth > 4:
            return why
        g = self.owner_of(f)
        # a helper that only such functions call
        if not g.d.get("ctor") and g.qn not in self.L.base and g.usr not in self.p.fnrefs_taken and self.p.callers.get(g.usr):
            whys = [self.exempt(self.p.fns[u], ident, depth + 1) for u in self.caller_fns(g) if u != g.usr]
            if whys and None not in whys:
                return whys[0]
        return None

    def caller_fns(self, g):
        return {x[0].usr if isinstance(x, tuple) else x for x in self.p.callers.get(g.usr, ())}

    def exempt1(self, f, ident):
        g = self.owner_of(f)
        cls = ident.rsplit("::", 1)[0]
        g_cls = "::".join(g.qn.split("::")[:-1])
        # constructors, destructors and moves of the owner: nobody else has access to it
        if g_cls.split("::")[-1] == cls.split("::")[-1] and (g.d.get("ctor") or g.nm.startswith("~") or g.nm == "operator=" or g.nm == g_cls.split("::")[-1]):
            return "dtor" if g.nm.startswith("~") and cls == "vrs::os::EventChannel" else "ctor"
        for (fn, x), why in NOLOCK.items():
            if g.qn == fn and x in ("*", ident):
                return why
        return None

    def locks_at(self, f, n, base):
        h = self.L.held(f, n["id"]) or frozenset()
        return {t[1] for t in h if t[2] == base or t[2] in ("*", "?", "") or base in ("?", None)}

    def common(self, sites):
        """the mutex most of the accesses are made under"""
        cnt = collections.Counter()
        for f, n, b in sites:
            for m in self.locks_at(f, n, b):
                cnt[m] += 1
        return cnt.most_common(1)[0][0] if cnt else None

    def sites(self, ident):
        return [(f, n, b) for f, n, b in self.acc.get(ident, ()) if self.exempt(f, ident) is None and self.owner_of(f).qn not in HOLD]

    def guarded(self):
        c = self.c
        c.rule("guarded", "Every access to data shared between threads is made while holding the lock that guards it.", 60)
        c.rule("atomic", "Flags and counters used by several threads are atomic, or guarded by a lock.", 6)
        self.mutex = {}
        for cls, names in SHARED.items():
            for nm in names:
                ident = cls + "::" + nm
                s = self.sites(ident)
                if not s:
                    continue
                if is_atomic(self.types.get(ident, "")):
                    c.ok("guarded", "%s:%d" % (s[0][0].file, 0), ident + " is atomic")
                    continue
                m = self.common(s)
                self.mutex[ident] = m
                for f, n, b in s:
                    held = self.locks_at(f, n, b)
                    c.expect("guarded", m is not None and m in held, f.loc(n),
                             "%s accesses %s, which %s guards, %s" % (f.display(), ident, m or "nothing", "holding it" if m in held else "without holding it"),
                             "%s:%s" % (self.owner_of(f).qn, ident))
        for cls, names in ATOMIC.items():
            for nm in names:
                ident = cls + "::" + nm
                s = self.sites(ident)
                if not s:
                    continue
                t = self.types.get(ident, "")
                if is_atomic(t):
                    c.ok("atomic", s[0][0].loc(s[0][1]), ident + " is atomic")
                    continue
                m = self.common(s)
                bad = [(f, n) for f, n, b in s if m is None or m not in self.locks_at(f, n, b)]
                if bad:
                    c.bad("atomic", bad[0][0].loc(bad[0][1]), "%s is used by several threads, but is neither atomic nor always guarded (%s)" % (ident, bad[0][0].display()), ident)
                else:
                    c.ok("atomic", s[0][0].loc(s[0][1]), "%s is guarded by %s" % (ident, m))

    def holds(self):
        c = self.c
        c.rule("callers-hold", "Functions that rely on their caller's lock are only called with it held.", 1)
        for f in self.p.fns.values():
            if f.qn not in HOLD:
                continue
            cls = "::".join(f.qn.split("::")[:-1])
            ms = {self.mutex.get(cls + "::" + x) for x in SHARED.get(cls, ())} - {None}
            for g, n in self.call_sites(f):
                h = {t[1] for t in self.L.held(g, n["id"]) or ()}
                c.expect("callers-hold", bool(h) and (not ms or bool(ms & h)), g.loc(n), "%s calls %s %s" % (g.display(), f.display(), "holding the lock" if h else "without the lock"),
                         "%s:%s" % (g.qn, f.qn))

    def call_sites(self, f):
        for g in self.L.fns:
            for n in g.calls():
                if n.get("fn") == f.usr or any(t.usr == f.usr for t in self.p.targets(g, n)):
                    yield g, n

    # -- references to guarded data don't outlive the lock

    def escapes(self):
        c, p = self.c, self.p
        c.rule("no-escape", "References, pointers and iterators to guarded data aren't used, nor returned, once the lock is released.", 10)
        for ident, m in self.mutex.items():
            if m is None:
                continue
            cls, nm = ident.rsplit("::", 1)
            for f in {g.usr: g for g, n, b in self.acc[ident]}.values():
                if self.exempt(f, ident) or f.qn in HOLD:
                    continue
                alias = {}
                decls = [n for n in f.nodes if n["k"] == "decl"]
                # (a node may come before the nodes of the statements it follows: twice is enough for an iterator)
                for n in decls * 2 + [n for n in f.nodes if n["k"] == "ret"]:
                    if n["k"] == "decl":
                        for d in n["ds"]:
                            i = d.get("init", -1)
                            if i is None or i < 0:
                                continue
                            t = p.types[d["ty"]] if "ty" in d else ""
                            if not (d.get("ref") or "iterator" in t.lower() or t.rstrip().endswith("*")):
                                continue
                            r = self.root(f, i, ident)
                            if r is None and "iterator" not in t.lower() and self.owned(f, i, ident, alias):
                                alias[d["v"]] = n
                            if r is not None and (d.get("ref") or "iterator" in t.lower() or r == "addr"):
                                alias[d["v"]] = n
                    elif n["k"] == "ret" and n.get("a", -1) is not None and n.get("a", -1) >= 0 and f.qn not in HOLD:
                        rt = f.d.get("rty")
                        rt = p.types[rt] if isinstance(rt, int) else (rt or "")
                        if not f.is_lambda and (rt.rstrip().endswith("&") or rt.rstrip().endswith("*") or "iterator" in rt.lower()) and self.root(f, n["a"], ident) in ("ref", "addr"):
                            c.bad("no-escape", f.loc(n), "%s returns a reference to %s" % (f.display(), ident), "%s:%s" % (f.qn, ident))
                for v, d in alias.items():
                    ok = True
                    for n in f.nodes:
                        if n["k"] == "var" and n["v"] == v:
                            h = self.L.held(f, n["id"])
                            if h is not None and m not in {t[1] for t in h}:
                                ok = False
                                c.bad("no-escape", f.loc(n), "%s uses %s, which refers to %s, after %s was released" % (f.display(), n["nm"], ident, m), "%s:%s:%s" % (f.qn, ident, n["nm"]))
                                break
                    if ok:
                        c.ok("no-escape", f.loc(d), "%s refers to %s under the lock only" % (f.display(), ident))

    def root(self, f, nid, ident, depth=0):
        """"ref"/"addr" when the expression is (an element of, an iterator into) the field"""
        if nid is None or nid < 0 or depth > 8:
            return None
        n = f.nodes[nid]
        k = n["k"]
        if k == "mem":
            own = self.p.field_owner.get(n.get("f"))
            if own and fid(*own) == ident:
                return "ref"
            # a member of an element
            return self.root(f, n["a"], ident, depth + 1) if not n.get("arrow") else None
        if k in ("cast", "paren", "index"):
            return self.root(f, n["a"], ident, depth + 1)
        if k == "un" and n["op"] == "&":
            return "addr" if self.root(f, n["a"], ident, depth + 1) else None
        if k == "un" and n["op"] == "*":
            return None
        if k == "ctor" and len(n.get("args", ())) == 1 and "iterator" in f.ty(n).lower():
            return self.root(f, n["args"][0], ident, depth + 1)
        if k == "call" and "obj" in n and (n.get("op") == "[]" or n.get("nm") in ("begin", "end", "find", "front", "back", "at", "rbegin", "lower_bound", "upper_bound", "operator[]", "data")):
            return self.root(f, n["obj"], ident, depth + 1)
        return None

    def owned(self, f, nid, ident, alias, depth=0):
        """is it what a unique_ptr held in the field points to?"""
        if nid is None or nid < 0 or depth > 6:
            return False
        n = f.nodes[nid]
        if n["k"] in ("cast", "paren"):
            return self.owned(f, n["a"], ident, alias, depth + 1)
        if n["k"] == "un" and n["op"] in ("*", "&"):
            return self.owned(f, n["a"], ident, alias, depth + 1)
        if n["k"] == "ctor" and len(n.get("args", ())) == 1 and pointerish(f.ty(n)):
            return self.owned(f, n["args"][0], ident, alias, depth + 1)
        if n["k"] == "call" and "obj" in n and (n.get("op") in ("*", "->") or n.get("nm") in ("get", "operator*", "operator->")) and "unique_ptr" in f.ty(n["obj"]):
            return self.element(f, n["obj"], ident, alias)
        return False

    def element(self, f, nid, ident, alias, depth=0):
        """an element of the field, maybe through an iterator"""
        while nid is not None and nid >= 0 and depth < 10:
            n = f.nodes[nid]
            if self.root(f, nid, ident):
                return True
            if n["k"] == "var":
                return n["v"] in alias
            if n["k"] in ("cast", "paren", "index", "mem") or n["k"] == "un" and n["op"] == "*":
                nid = n["a"]
            elif n["k"] == "call" and "obj" in n and (n.get("op") in ("*", "->", "[]") or n.get("nm") in ("operator*", "operator->", "at", "front", "back")):
                nid = n["obj"]
            else:
                return False
            depth += 1
        return False

    # -- fields used by a thread and by the calls made while it runs

    def reach(self, roots):
        p = self.p
        seen, st = set(), list(roots)
        while st:
            f = st.pop()
            if f.usr in seen:
                continue
            seen.add(f.usr)
            for n in f.calls():
                st.extend(p.targets(f, n))
            for n in f.nodes:
                if n["k"] == "ctor":
                    st.extend(p.targets(f, n))
            st.extend(p.children.get(f.usr, ()))
        return seen

    def thread_entries(self):
        """functions given to std::thread, by class"""
        p = self.p
        out = []
        for f in self.L.fns:
            for n in f.nodes:
                ty = f.ty(n) if n["k"] in ("ctor", "call") else ""
                if n["k"] == "ctor" and bare(ty).startswith("std::thread") or n["k"] == "call" and (
                        n.get("qn") == "std::make_unique" and "std::thread" in ty or n.get("nm") in ("emplace_back",) and "obj" in n and "std::thread" in f.ty(n["obj"])):
                    for a in n.get("args", ()):
                        g = self.callee(f, a)
                        if g:
                            out.append((f, n, g))
        return out

    def callee(self, f, a):
        for _ in range(6):
            if a is None or a < 0:
                return None
            n = f.nodes[a]
            if n["k"] == "lambda":
                return self.p.fns.get(self.p.lambda_of(f, a))
            if n["k"] in ("memfn", "fnref"):
                return self.p.fns.get(n.get("fn"))
            if n["k"] in ("un", "cast", "paren"):
                a = n["a"]
            elif n["k"] == "ctor" and len(n.get("args", ())) == 1:
                a = n["args"][0]
            else:
                return None
        return None

    def api(self):
        out = []
        threads = {g.usr for f, n, g in self.thread_entries()}
        for f in self.p.fns.values():
            if "/test" in f.file or f.is_lambda or f.usr in threads:
                continue
            cls = "::".join(f.qn.split("::")[:-1])
            if cls == "vrs::RecordFileWriter" and f.d.get("acc", 0) == 0 and not ctor_like(f) and f.nm not in NOT_CONCURRENT:
                out.append(f)
            elif cls in ("vrs::RecordManager", "vrs::Recordable") and f.d.get("acc", 0) == 0 and not ctor_like(f):
                out.append(f)
        return out

    def conflicts(self):
        c, p = self.c, self.p
        c.rule("conflict", "A field that a background thread uses and that calls made meanwhile use too, one of them to change it, is atomic, synchronises itself, or is guarded at every access.", 12)
        entries = {g.usr: g for f, n, g in self.thread_entries()}
        writer = [g for g in entries.values() if g.qn.startswith("vrs::RecordFileWriter")]
        workers = [g for g in entries.values() if "CompressionWorker" in g.qn or "CompressionWorker" in (self.owner_of(g).qn)]
        if len(writer) < 2 or not workers:
            raise Broken("the file writer's threads weren't found: %s" % sorted(g.qn for g in entries.values()))
        api = self.reach(self.api())
        groups = [(g.nm, self.reach([g]), api) for g in writer]
        for i, g in enumerate(writer):
            for h in writer[i + 1:]:
                groups.append((g.nm + "/" + h.nm, self.reach([g]), self.reach([h])))
        wr = set().union(*[self.reach([g]) for g in writer])
        groups += [(self.owner_of(g).nm, self.reach([g]), api | (wr - self.reach([g]))) for g in workers]
        seen = set()
        c.extra["threads"] = sorted({self.owner_of(g).qn for g in entries.values()})
        for nm, T, A in groups:
            at, aa = self.by_field(T), self.by_field(A)
            for ident in sorted(set(at) & set(aa)):
                t = self.types.get(ident, "")
                cls = ident.rsplit("::", 1)[0]
                if is_sync(t) or is_atomic(t) or self.repo_class(t) or cls not in self.shared_classes():
                    continue
                if not any(written(f, n) for f, n, b in at[ident] + aa[ident]):
                    continue
                if (nm, ident) in seen:
                    continue
                seen.add((nm, ident))
                if ident in self.mutex:
                    c.ok("conflict", at[ident][0][0].loc(at[ident][0][1]), "%s (%s): guarded" % (ident, nm))
                    continue
                why = CONFIG.get(ident) or HANDED.get(cls)
                if why:
                    c.excused.append((ident, why))
                    continue
                s = at[ident] + aa[ident]
                m = self.common(s)
                un = [(f, n) for f, n, b in s if m is None or m not in self.locks_at(f, n, b)]
                if un:
                    w = [(f, n) for f, n, b in s if written(f, n)][0]
                    c.bad("conflict", un[0][0].loc(un[0][1]), "%s is used by %s and by calls made while it runs, without a common lock (%s; changed by %s)" % (
                        ident, nm, un[0][0].display(), w[0].display()), ident, "\n".join("%s %s" % (f.loc(n), f.display()) for f, n in un[:20]))
                else:
                    c.ok("conflict", s[0][0].loc(s[0][1]), "%s (%s): guarded by %s" % (ident, nm, m))

    def shared_classes(self):
        """classes of which one object is reached by several threads"""
        if not hasattr(self, "_sc"):
            s = set(SHARED) | set(ATOMIC) | set(HANDED)
            s |= {"vrs::Recordable", "vrs::RecordFileWriter_::CompressionThreadsData", "vrs::DiskFileT"}
            s |= {x for x in self.classes if x.startswith("vrs::RecordFileWriter_::") or x.startswith("vrs::IndexRecord::Writer")}
            self._sc = s
        return self._sc

    def repo_class(self, t):
        """an object with methods of its own: its fields are looked at instead"""
        if pointerish(t):
            return False
        t = bare(t)
        return t in self.classes and t.startswith("vrs::") and not t.endswith(("Event", "RecordSignature"))

    def by_field(self, S):
        r = collections.defaultdict(list)
        for u in S:
            f = self.p.fns[u]
            for n, i, b in accesses(self.p, f):
                if self.exempt(f, i) is None and self.root_object(b):
                    r[i].append((f, n, b))
        return r

    def root_object(self, b):
        return True

    # -- static variables

    def statics(self):
        c, p = self.c, self.p
        c.rule("static", "Static variables are constant, initialised once, atomic, or always used under the same lock.", 8)
        decl = {}
        for f in self.L.fns:
            if "/test" in f.file or f.file.startswith("tools/vrsplayer"):
                continue
            for n in f.nodes:
                if n["k"] == "decl":
                    for d in n["ds"]:
                        if d.get("static"):
                            decl[("l", f.usr, d["v"])] = (f, n, d["nm"], p.types[d["ty"]])
        uses = collections.defaultdict(list)
        accessor = {}
        for (k, u, v), (f, dn, nm, t) in decl.items():
            for g in [f] + self.kids(f):
                for n in g.nodes:
                    if n["k"] == "var" and n["v"] == v:
                        if not f.is_lambda and self.returned_ref(g, n):
                            accessor[f.usr] = (k, u, v)
                        else:
                            uses[(k, u, v)].append((g, n))
        for g in self.L.fns:
            for n in g.nodes:
                if n["k"] == "call":
                    for t in p.targets(g, n) if n.get("fn") in accessor or "fn" not in n else ():
                        if t.usr in accessor:
                            uses[accessor[t.usr]].append((g, n))
                            # a local reference to it
                            for q in g.parents.get(n["id"], ()):
                                pass
                if n["k"] == "decl":
                    for d in n["ds"]:
                        i = strip(g, d.get("init", -1))
                        if d.get("ref") and i is not None and i >= 0 and g.nodes[i]["k"] == "call" and g.nodes[i].get("fn") in accessor:
                            for m in g.nodes:
                                if m["k"] == "var" and m["v"] == d["v"]:
                                    uses[accessor[g.nodes[i]["fn"]]].append((g, m))
                if n["k"] == "gvar" and (n.get("qn") or "").split("::")[0] != "std" and not g.file.startswith("tools/vrsplayer"):
                    t = g.ty(n)
                    key = ("g", n.get("qn") or n["nm"], "")
                    decl.setdefault(key, (g, n, n.get("nm"), t))
                    uses[key].append((g, n))
        for key, (f, dn, nm, t) in sorted(decl.items(), key=lambda x: (x[1][0].file, str(x[0]))):
            if t.startswith("const ") or is_sync(t) or is_atomic(t) or t.rstrip().endswith("* const") or self.own_class(t):
                continue
            name = (f.qn + "::" + nm) if key[0] == "l" else key[1]
            us = uses.get(key, [])
            wr = [(g, n) for g, n in us if self.mutates(g, n) and not self.once(g)]
            if not wr:
                c.ok("static", f.loc(dn), "%s isn't changed once initialised" % name)
                continue
            if name in STATICS:
                c.excused.append((name, STATICS[name]))
                continue
            cnt = collections.Counter()
            for g, n in us:
                for m in self.held(g, n["id"]):
                    cnt[m] += 1
            m = cnt.most_common(1)[0][0] if cnt else None
            un = [(g, n) for g, n in us if m is None or m not in self.held(g, n["id"])]
            if un:
                c.bad("static", un[0][0].loc(un[0][1]), "%s uses %s without %s" % (un[0][0].display(), name, ("the lock used elsewhere, " + m) if m else "any lock"), name)
            else:
                c.ok("static", f.loc(dn), "%s: %d uses, all under %s" % (name, len(us), m))

    def own_class(self, t):
        return (bare(t) in self.classes or bare(t) in self.own) and not bare(t).startswith("std::")

    def kids(self, f):
        out, st = [], [f]
        while st:
            g = st.pop()
            for h in self.p.children.get(g.usr, ()):
                out.append(h)
                st.append(h)
        return out

    def returned_ref(self, f, n):
        rt = f.d.get("rty")
        rt = self.p.types[rt] if isinstance(rt, int) else (rt or "")
        if not rt.rstrip().endswith("&") and not rt.rstrip().endswith("*"):
            return False
        return any(f.nodes[q]["k"] == "ret" for q in f.parents.get(n["id"], ()))

    def mutates(self, g, n):
        if written(g, n) and not self.const_address(g, n):
            return True
        # bound to a reference that isn't const
        for q in g.parents.get(n["id"], ()):
            m = g.nodes[q]
            if m["k"] == "decl":
                for d in m["ds"]:
                    if d.get("ref") and strip(g, d.get("init", -1)) == n["id"] and not self.p.types[d["ty"]].startswith("const "):
                        return True
        return False

    def const_address(self, g, n):
        """only its address is taken, to return it as a pointer to const"""
        rt = g.d.get("rty")
        rt = self.p.types[rt] if isinstance(rt, int) else (rt or "")
        if not (rt.startswith("const ") and rt.rstrip().endswith("*")):
            return False
        for q in g.parents.get(n["id"], ()):
            m = g.nodes[q]
            if not (m["k"] == "un" and m["op"] == "&"):
                return False
            up = q
            for _ in range(4):
                ps = g.parents.get(up, ())
                if any(g.nodes[x]["k"] == "ret" for x in ps):
                    break
                ps = [x for x in ps if g.nodes[x]["k"] in ("cond", "cast", "paren")]
                if not ps:
                    return False
                up = ps[0]
            else:
                return False
        return True

    def once(self, g):
        """runs once: given to call_once"""
        if not g.is_lambda or not g.parent or g.parent not in self.p.fns:
            return False
        f = self.p.fns[g.parent]
        for n in f.nodes:
            if n["k"] == "call" and n.get("qn") == "std::call_once":
                if any(self.p.lambda_of(f, a) == g.usr for a in n.get("args", ()) if a is not None and a >= 0):
                    return True
        return False

    # -- data a worker reads isn't changed before it is joined

    def worker(self):
        c, p = self.c, self.p
        c.rule("worker", "What a reader's background thread reads isn't changed, and the thread isn't replaced, while it may be running.", 8)
        by_cls = collections.defaultdict(list)
        for f, n, g in self.thread_entries():
            o = self.owner_of(f)
            cls = "::".join(o.qn.split("::")[:-1])
            if cls in WORKER_CLASSES:
                by_cls[cls].append((f, n, g))
        for cls, starts in sorted(by_cls.items()):
            WorkerState(self, cls, starts).run()


MUTATING = ("sort", "stable_sort", "partial_sort", "nth_element", "remove", "remove_if", "unique", "reverse", "rotate", "fill", "fill_n", "swap_ranges",
            "iter_swap", "shuffle", "partition", "stable_partition", "generate", "iota", "transform", "for_each", "inplace_merge")


class WorkerState:
    """whether a class' thread may be running, at each point of its methods"""

    def __init__(self, conc, cls, starts):
        self.c, self.p, self.conc, self.cls = conc.c, conc.p, conc, cls
        self.starts = collections.defaultdict(set)
        body = set()
        for f, n, g in starts:
            self.starts[f.usr].add(n["id"])
            body |= conc.reach([g])
        self.body = body
        self.reads = {i for u in body for n, i, b in accesses(self.p, self.p.fns[u]) if i.startswith(cls + "::")}
        self.threads = {fid(own, fl) for own, fl in self.p.field_owner.values() if own["qn"] == cls and "std::thread" in self.p.types[fl["ty"]]}
        self.methods = {f.usr: f for f in self.p.fns.values() if f.qn.rsplit("::", 1)[0] == cls and f.blocks and not f.is_lambda and f.usr not in body}
        self.sum, self.busy, self.checked = {}, set(), {}

    def run(self):
        c = self.c
        for _ in range(4):
            old = dict(self.sum)
            self.checked = {}
            for f in self.methods.values():
                if f.d.get("ctor") or f.nm == self.cls.split("::")[-1]:
                    continue
                if f.d.get("acc", 0) == 0 or f.nm.startswith("~"):
                    self.flow(f, True, set())
            if old == self.sum:
                break
        for (f, nid, what), running in sorted(self.checked.items(), key=lambda x: (x[0][0].file, x[0][1])):
            n = f.nodes[nid]
            c.expect("worker", not running, f.loc(n), "%s %s while the thread that reads it %s" % (f.display(), what, "may be running" if running else "isn't running"),
                     "%s:%s" % (f.qn, what))
        c.extra["worker_reads"] = sorted(self.reads)

    def field(self, f, nid, depth=0):
        """the field of this an expression denotes"""
        while nid is not None and nid >= 0 and depth < 8:
            n = f.nodes[nid]
            if n["k"] == "mem":
                own = self.p.field_owner.get(n.get("f"))
                return fid(*own) if own else None
            if n["k"] in ("cast", "paren") or n["k"] == "un" and n["op"] in ("*", "&", "!"):
                nid = n["a"]
            elif n["k"] == "call" and "obj" in n and n.get("nm") in ("operator bool", "operator->", "operator*", "get", "joinable"):
                nid = n["obj"]
            elif n["k"] == "call" and n.get("op") in ("->", "*") and "obj" in n:
                nid = n["obj"]
            elif n["k"] == "var":
                # what it was moved to
                init = [d["init"] for m in f.nodes if m["k"] == "decl" for d in m["ds"] if d.get("v") == n["v"] and d.get("init", -1) >= 0]
                if not init:
                    return None
                nid = self.moved(f, init[0])
            else:
                return None
            depth += 1
        return None

    def moved(self, f, nid):
        for _ in range(6):
            n = f.nodes[nid]
            if n["k"] == "call" and n.get("nm") == "move" and n.get("args"):
                return n["args"][0]
            if n["k"] in ("cast", "paren"):
                nid = n["a"]
            elif n["k"] == "ctor" and len(n.get("args", ())) == 1:
                nid = n["args"][0]
            elif n["k"] == "call" and n.get("nm") == "release" and "obj" in n:
                return n["obj"]
            else:
                return None
        return None

    def writes(self, f):
        """node -> what it does to a field the thread reads"""
        out = {}
        for g in [f] + self.conc.kids(f):
            if g.usr in self.body:
                continue
            for n, i, b in accesses(self.p, g):
                if i not in self.reads or is_atomic(self.conc.types.get(i, "")):
                    continue
                if written(g, n) or self.algorithm(g, n):
                    at = n["id"]
                    if g is not f:
                        at = self.site_of(f, g)
                        if at is None:
                            continue
                    out.setdefault(at, []).append("changes " + i)
        return out

    def site_of(self, f, g):
        while g.parent and g.parent != f.usr and g.parent in self.p.fns:
            g = self.p.fns[g.parent]
        for n in f.nodes:
            if n["k"] == "lambda" and self.p.lambda_of(f, n["id"]) == g.usr:
                return n["id"]
        return None

    def algorithm(self, f, n):
        for q in f.parents.get(n["id"], ()):
            m = f.nodes[q]
            if m["k"] == "call" and m.get("nm") in ("begin", "rbegin", "data"):
                st, seen = [q], 0
                while st and seen < 12:
                    x = st.pop()
                    seen += 1
                    for r in f.parents.get(x, ()):
                        y = f.nodes[r]
                        if y["k"] == "call" and (y.get("qn") or "").startswith("std::") and y.get("nm") in MUTATING:
                            return True
                        if y["k"] in ("ctor", "cast"):
                            st.append(r)
        return False

    def callee(self, f, n):
        """a method of the same object"""
        if n["k"] != "call":
            return None
        ts = [t for t in self.p.targets(f, n) if t.usr in self.methods]
        if len(ts) != 1:
            return None
        o = n.get("obj", -1)
        o = strip(f, o) if o is not None and o >= 0 else None
        if o is not None and f.nodes[o]["k"] != "this":
            return None
        return ts[0]

    def step(self, f, n, st, wr, stack):
        nid = n["id"]
        if nid in wr:
            for w in wr[nid]:
                k = (f, nid, w)
                self.checked[k] = self.checked.get(k, False) or st
        if nid in self.starts.get(f.usr, ()):
            k = (f, nid, "starts a thread")
            self.checked[k] = self.checked.get(k, False) or st
            return True
        if n["k"] == "call" and n.get("nm") == "join" and "obj" in n and self.field(f, n["obj"]) in self.threads:
            return False
        g = self.callee(f, n)
        if g is not None:
            r = self.flow(g, st, stack)
            return st if r is None else r
        return st

    def flow(self, f, st0, stack):
        key = (f.usr, st0)
        if key in stack:
            return self.sum.get(key)
        stack = stack | {key}
        wr = self.writes(f)
        blocks = f.blocks if isinstance(f.blocks, dict) else {i: b for i, b in enumerate(f.blocks)}
        ins = {f.entry: st0}
        work, out, it = [f.entry], None, 0
        while work and it < 5000:
            it += 1
            b = work.pop()
            B = blocks[b]
            st = ins[b]
            for e in B.e:
                if isinstance(e, int) and e >= 0:
                    st = self.step(f, f.nodes[e], st, wr, stack)
            if b == f.exit:
                out = st if out is None else (out or st)
            absent = self.absent_edge(f, B)
            for i, s in enumerate(B.s):
                if s is None or s < 0:
                    continue
                v = st
                if i == absent:
                    v = False
                o = ins.get(s)
                nv = v if o is None else (o or v)
                if o is None or nv != o:
                    ins[s] = nv
                    work.append(s)
        self.sum[key] = out
        return out

    def absent_edge(self, f, B):
        """the branch taken when there is no thread"""
        if len(B.s) != 2:
            return None
        nid, absent = B.c, 1
        for _ in range(10):
            if nid is None or nid < 0:
                return None
            n = f.nodes[nid]
            if n["k"] == "un" and n["op"] == "!":
                nid, absent = n["a"], 1 - absent
            elif n["k"] in ("cast", "paren"):
                nid = n["a"]
            elif n["k"] == "bin" and n["op"] in ("&&", "||"):
                nid = n["b"]
            elif n["k"] == "bin" and n["op"] in ("==", "!=") or n["k"] == "call" and n.get("op") in ("==", "!="):
                ab = [n["a"], n["b"]] if n["k"] == "bin" else list(n.get("args", ())) if len(n.get("args", ())) == 2 else [n.get("obj", -1)] + list(n.get("args", ()))
                if len(ab) != 2:
                    return None
                for x, y in (ab, ab[::-1]):
                    if y >= 0 and f.nodes[strip(f, y)]["k"] == "null" and self.field(f, x) in self.threads:
                        return absent if n["op"] == "!=" else 1 - absent
                return None
            else:
                return absent if self.field(f, nid) in self.threads else None
        return None
