"""Everything of the code that fixes what files look like: layouts of the structures written, values of persisted enums, constants, names and keys."""
import re
from . import lits

LAYOUTS = {"vrs::FileFormat::FileHeader", "vrs::FileFormat::RecordHeader", "vrs::IndexRecord::DiskRecordInfo", "vrs::IndexRecord::DiskStreamId",
           "vrs::DataLayout::IndexEntry", "vrs::Bool", "vrs::PointND", "vrs::MatrixND", "vrs::UnalignedValue",
           "vrs::FileDetailsCache::(anonymous namespace)::DiskRecordInfo", "vrs::FileDetailsCache::(anonymous namespace)::DiskStreamId",
           "(anonymous namespace)::PackedHeader"}
ENUMS = {"vrs::AudioFormat", "vrs::AudioSampleFormat", "vrs::CompressionType", "vrs::ContentType", "vrs::DataPieceType", "vrs::ImageFormat", "vrs::PixelFormat",
         "vrs::Record::Type", "vrs::RecordableTypeId", "vrs::FileDetailsCache::(anonymous namespace)::FileHeaderFlag"}
ENUM_RE = re.compile(r"^vrs::(DescriptionRecord|IndexRecord|TagsRecord)::\(unnamed")
CONST_RE = re.compile(r"(kMagicHeader\d|FormatVersion|kTagsRecordTimestamp|kTagsVersion)$")
STR_RE = re.compile(r"^vrs::(tag_conventions|datalayout_conventions)::k|^vrs::DataPiece::k|^vrs::\(anonymous namespace\)::k(NameLabel|TagsLabel|ChunkField|ChunkSizesField|"
                    r"FileHandlerField|FileNameField|UriField)$|^\(anonymous namespace\)::k(NameLabel|TagsLabel|CustomContentBlockFormat|DataLayoutTagPrefix|FieldSeparator|RecordFormatTagPrefix)$|"
                    r"::(kNameLabel|kTagsLabel|kCustomContentBlockFormat|kDataLayoutTagPrefix|kFieldSeparator|kRecordFormatTagPrefix|cTagsObjectName)$")
TABLE_RE = re.compile(r"::s(DataPieceTypeNames|RecordTypes|AudioFormatNames|AudioSampleFormatNames|ContentTypeNames|ImageFormatNames|PixelFormatNames|CompressionTypeNames)$")
REG_RE = re.compile(r"Registerer_\w+$")


def targ(u):
    return u


def snapshot(p):
    s = {"layouts": {}, "enums": {}, "consts": {}, "strings": {}, "tables": {}, "registered": [], "typenames": {}}
    where = {}
    for u, r in sorted(p.records.items()):
        if r["qn"] in LAYOUTS and r.get("packed"):
            k = r["qn"] if r["qn"] not in ("vrs::PointND", "vrs::MatrixND", "vrs::UnalignedValue") else u
            s["layouts"][k] = {"size": r.get("size"), "fields": [[f["nm"], f.get("off"), f.get("size"), p.types[f["ty"]]] for f in r.get("fields", ())]}
            where["layouts", k] = "%s:%s" % (r.get("file"), r.get("line"))
    for q, e in sorted(p.enum_by_qn.items()):
        m = ENUM_RE.match(q)
        if q in ENUMS or m:
            k = "vrs::%s::(unnamed)" % m.group(1) if m else q
            s["enums"][k] = {a: int(b) for a, b in e["c"]}
            where["enums", k] = "%s:%s" % (e.get("file"), e.get("line"))
    for u, g in sorted(p.globals.items()):
        q = g["qn"]
        if not g.get("file", "").startswith("vrs/") or "/test" in g["file"]:
            continue
        kind = "consts" if CONST_RE.search(q) else "strings" if STR_RE.search(q) else "tables" if TABLE_RE.search(q) else None
        if kind:
            v = lits.glob(p, g)
            if v is not None:
                s[kind][g["file"] + " " + q if kind != "consts" or True else q] = v
                where[kind, g["file"] + " " + q] = "%s:%s" % (g["file"], g.get("line") or g.get("l"))
        elif REG_RE.search(q):
            s["registered"].append(q)
    s["registered"].sort()
    for f in p.fns.values():
        if f.nm == "getTypeName" and f.file.startswith("vrs/") and not f.params and f.cls is None:
            vals = {n["s"] for n in f.nodes if n["k"] == "str" and n.get("s")}
            if len(vals) == 1:
                s["typenames"][f.usr] = vals.pop()
                where["typenames", f.usr] = "%s:%d" % (f.file, f.line)
    return s, where


def strings_of(p):
    c = {}
    for f in p.fns.values():
        for n in f.nodes:
            if n["k"] == "str" and n.get("s"):
                c.setdefault(f.file, set()).add(n["s"])
    for g in p.globals.values():
        for n in g.get("nodes", ()):
            if n["k"] == "str" and n.get("s"):
                c.setdefault(g["file"], set()).add(n["s"])
    return c


def compare(c, spec):
    p = c.prog
    s, where = snapshot(p)
    # layouts
    for k, o in sorted(spec["layouts"].items()):
        n = s["layouts"].get(k)
        w = where.get(("layouts", k), k)
        if n is None:
            c.bad("layout", k, "the packed structure %s, part of the file format, is gone or isn't packed anymore" % k, key=k)
            continue
        if n["size"] != o["size"]:
            c.bad("layout", w, "the size of %s, part of the file format, changed from %s to %s" % (k, o["size"], n["size"]), key=k + " size")
        else:
            c.ok("layout", w, "%s has %d bytes" % (k, o["size"]))
        onames = {f[0] for f in o["fields"]}
        byoff = {f[1]: f for f in n["fields"]}
        for nm, off, size, ty in o["fields"]:
            m = byoff.get(off)
            if m is None or m[2] != size or m[3] != ty:
                c.bad("layout", w, "%s::%s isn't at offset %s with type %s anymore" % (k, nm, off, ty), key="%s %s" % (k, nm))
            elif m[0] != nm and m[0] in onames:
                c.bad("layout", w, "%s::%s and %s were exchanged: the file format changed" % (k, nm, m[0]), key="%s %s" % (k, nm))
            else:
                c.ok("layout", w, "%s::%s at offset %s, type %s" % (k, nm, off, ty))
    # enums
    for k, o in sorted(spec["enums"].items()):
        n = s["enums"].get(k)
        w = where.get(("enums", k), k)
        if n is None:
            c.bad("enum", k, "the persisted enum %s is gone" % k, key=k)
            continue
        for nm, v in sorted(o.items()):
            if nm in ("COUNT", "Count", "kCount", "END", "LAST"):
                continue
            if nm in n and n[nm] != v:
                c.bad("enum", w, "persisted value of %s::%s changed from %d to %d" % (k, nm, v, n[nm]), key="%s::%s" % (k, nm))
            elif nm not in n and v not in n.values():
                c.bad("enum", w, "persisted value %d (%s::%s) isn't known anymore" % (v, k, nm), key="%s::%s" % (k, nm))
            else:
                c.ok("enum", w, "%s::%s = %d" % (k, nm, v))
    strs = strings_of(p)
    for kind in ("consts", "strings"):
        for k, v in sorted(spec[kind].items()):
            n = s[kind].get(k)
            w = where.get((kind, k), k)
            if n is None and kind == "strings" and v in strs.get(k.split(" ")[0], ()):
                c.ok("constant", k, "%r still used" % v)
            elif n is None and kind == "consts" and v in s["consts"].values():
                c.ok("constant", k, "%r moved" % v)
            elif n != v:
                c.bad("constant", w, "%s, found in every file, changed from %r to %r" % (k.split(" ", 1)[1], v, n), key=k)
            else:
                c.ok("constant", w, "%s = %r" % (k.split(" ", 1)[1], v))
    for k, v in sorted(spec["tables"].items()):
        n = s["tables"].get(k)
        w = where.get(("tables", k), k)
        if n is None:
            vals = [x for x in s["tables"].values() if isinstance(x, list) and x[:len(v)] == v]
            if vals:
                c.ok("names", k, "table moved")
            else:
                c.bad("names", k, "the table of persisted names %s is gone" % k, key=k)
            continue
        for i, x in enumerate(v):
            if i >= len(n) or n[i] != x:
                c.bad("names", w, "%s: the name of value %d was %r and is now %r: files with that name are misread" % (k.split(" ", 1)[1], i, x, n[i] if i < len(n) else None), key="%s %d" % (k, i))
            else:
                c.ok("names", w, "%s[%d] = %r" % (k.split(" ", 1)[1], i, x))
    have = set(s["registered"])
    for q in spec["registered"]:
        if q in have:
            c.ok("registered", q, "%s can be created from its type name" % q)
        else:
            c.bad("registered", q, "datalayout pieces registered by %s can't be recreated from a file anymore" % q, key=q)
    for u, v in sorted(spec["typenames"].items()):
        n = s["typenames"].get(u)
        w = where.get(("typenames", u), u)
        if n != v:
            c.bad("typename", w, "the type name %r stored in datalayout descriptions became %r" % (v, n), key=v)
        else:
            c.ok("typename", w, "type name %r" % v)
    # names are what readers look up: unique
    for k, n in sorted(s["tables"].items()):
        if isinstance(n, list):
            for x in {x for x in n if x is not None and n.count(x) > 1}:
                c.bad("names", where.get(("tables", k), k), "%s: the name %r stands for two values" % (k, x), key="%s dup %s" % (k, x))
    tn = {}
    for u, v in s["typenames"].items():
        tn.setdefault(v, []).append(u)
    for v, us in tn.items():
        if len(us) > 1:
            c.bad("typename", where["typenames", us[0]], "the type name %r is used by two types" % v, key="dup " + v)
