import re

from vx import fields as FL

# (class::method, field): why the method leaves the field alone
EXC = {
    ("vrs::utils::CopyOptions::CopyOptions", "outRecordCopiedCount"): "result of an operation, not an option",
    ("vrs::utils::CopyOptions::CopyOptions", "outUri"): "result of an operation, not an option",
    ("vrs::utils::CopyOptions::operator=", "outRecordCopiedCount"): "result of an operation, not an option",
    ("vrs::utils::CopyOptions::operator=", "outUri"): "result of an operation, not an option",
    ("vrs::AudioContentBlockSpec::operator==", "stereoPairCount_"): "a hint which is not part of the format: not in its description",
    ("vrs::AudioContentBlockSpec::operator!=", "stereoPairCount_"): "a hint which is not part of the format: not in its description",
    ("vrs::utils::pixel_conversions::R2Sampler2D::Iterator::operator!=", "height_"): "iterators of the same image: position only",
    ("vrs::utils::pixel_conversions::R2Sampler2D::Iterator::operator!=", "stride_"): "iterators of the same image: position only",
    ("vrs::utils::pixel_conversions::R2Sampler2D::Iterator::operator!=", "width_"): "iterators of the same image: position only",
    ("vrs::AlignedBuffer::clear", "aligned_buffer_"): "empties the buffer, keeps the memory",
    ("vrs::AlignedBuffer::clear", "capacity_"): "empties the buffer, keeps the memory",
    ("vrs::Compressor::clear", "impl_"): "compression contexts hold no state between uses",
    ("vrs::Decompressor::reset", "compressedBuffer_"): "memory kept, its read and decoded sizes are reset",
    ("vrs::IndexRecord::Writer::reset", "compressor_"): "holds no state between uses",
    ("vrs::IndexRecord::Writer::reset", "fileHeader_"): "reference to the owner's header",
    ("vrs::IndexRecord::Writer::reset", "preallocatedIndexRecordSize_"): "set by preallocateClassicIndexRecord() or useClassicIndexRecord() when a file is created",
    ("vrs::IndexRecord::Writer::reset", "splitIndexRecordHeader_"): "initialised by createSplitIndexRecord(), before its use",
    ("vrs::utils::DefaultDecimator::reset", "bucketInterval_"): "configuration, reset() restarts decimation",
    ("vrs::utils::DefaultDecimator::reset", "bucketMaxTimestampDelta_"): "configuration, reset() restarts decimation",
    ("vrs::utils::DefaultDecimator::reset", "decimationIntervals_"): "configuration, reset() restarts decimation",
    ("vrs::utils::DefaultDecimator::reset", "filteredReader_"): "configuration, reset() restarts decimation",
    ("vrs::utils::DefaultDecimator::reset", "graceWindow_"): "configuration, reset() restarts decimation",
    ("vrs::utils::VideoFrameHandler::reset", "decoderOptions_"): "configuration, reset() restarts decoding",
    ("vrs::utils::VideoFrameHandler::reset", "decoder_"): "decoder restarts at the next key frame",
    ("vrs::utils::VideoFrameHandler::reset", "encodedFrame_"): "memory for the next frame",
    ("vrs::utils::VideoFrameHandler::reset", "isVideo_"): "property of the stream",
}


def run(c):
    p = c.prog
    c.rule("copy", "Copy and move constructors and assignments take every data member from the other object.", 40)
    c.rule("equal", "operator== and != compare every data member of both objects.", 20)
    c.rule("reset", "clear() and reset() reset every data member.", 40)
    c.rule("swap", "swap exchanges every data member.", 3)
    c.rule("pair", "Members are compared with, and copied from, the same member of the other object.", 40)
    c.rule("default", "clear() and reset() give members the same value as their default initializer.", 5)
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if f.cls is None or not f.file.startswith(("vrs/", "tools/", "pyvrs/")) or "/test" in f.file or f.d.get("implicit") or f.d.get("defaulted"):
            continue
        if f.parent:
            continue
        m = {u: nm for u, nm in FL.members(p, f.cls).items() if not sync_type(p, f.cls, u)}
        if not m:
            continue
        ps = f.params or ()
        other = len(ps) == 1 and same(p, f, ps[0])
        if f.d.get("ctor") in ("copy", "move") or f.nm == "operator=" and other:
            rid, two = "copy", True
        elif f.nm in ("operator==", "operator!=") and other:
            rid, two = "equal", True
        elif f.nm == "swap" and other:
            rid, two = "swap", True
        elif f.nm in ("clear", "reset") and not ps:
            rid, two = "reset", False
        else:
            continue
        sides = {"this": "a"}
        if two:
            sides[ps[0]["v"]] = "b"
        t = FL.touched(p, f, sides)
        cname = f.qn
        whole = set()
        for u, nm in m.items():
            need = {"a", "b"} if two else {"a"}
            got = {s for s in need if (s, u) in t}
            if got == need:
                c.ok(rid, f"{f.file}:{f.line}", f"{cname}: {nm}")
            elif (cname, nm) in EXC:
                c.excused.append((f"{cname}: {nm}", EXC[(cname, nm)]))
            else:
                c.bad(rid, f"{f.file}:{f.line}", f"{f.display()} forgets {nm}", f"{cname}:{nm}")
        if two:
            for n, x, y in FL.pairs(p, f, sides):
                if x in m and y in m:
                    c.expect("pair", x == y, f.loc(n), f"{cname}: {m[x]} with {m[y]}", f"{cname}:{m[x]}:{m[y]}")
        if rid == "reset":
            d = FL.defaults(p, f.cls)
            seen = {}
            for n in f.nodes:
                if n["k"] == "assign" and n.get("op") == "=":
                    x = FL._field(f, n["a"], {"this": "a"})
                    v = FL.const(f, n["b"])
                    if x and x[1] in d and v is not None:
                        seen.setdefault(x[1], []).append((n, v))
            for u, l in seen.items():
                if len(l) == 1 and u in m:
                    n, v = l[0]
                    c.expect("default", v == d[u], f.loc(n), f"{cname}: {m[u]} = {v}, default {d[u]}", f"{cname}:{m[u]}")


def sync_type(p, cls, u):
    """condition variables and mutexes hold no value"""
    for x in p.records[cls]["fields"]:
        if x["usr"] == u:
            return re.fullmatch(r"std::(condition_variable(_any)?|(recursive_|shared_|timed_)*mutex)", p.types[x["ty"]]) is not None
    return False


def same(p, f, q):
    return f.d.get("clsn", "?").split("::")[-1] in p.types[q["ty"]]
