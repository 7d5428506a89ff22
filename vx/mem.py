"""Memory and arithmetic obligations, decided from must-facts."""
import re
from . import facts
from .facts import Lin, show, base_ty, BITS, UNS, CONT, related
from .paths import path

SCOPE = ("vrs/", "tools/vrs/")
OUT = ("/test", "/oss/", "tools/vrsplayer", "vrs/utils/cli/CompressionBenchmark")


def in_scope(f):
    return f.entry is not None and f.file.startswith(SCOPE) and not any(x in f.file for x in OUT)


def fkey(f):
    """function identity, template arguments dropped"""
    q = f.display()
    q = re.sub(r"<lambda:\d+>", "{lambda}", q)
    prev = None
    while prev != q:
        prev = q
        q = re.sub(r"<[^<>]*>", "", q)
    return q


class Site:
    __slots__ = ("kind", "fn", "n", "what", "ok", "need")

    def __init__(self, kind, fn, n, what, ok, need):
        self.kind, self.fn, self.n, self.what, self.ok, self.need = kind, fn, n, what, ok, need


def elem_size(p, ty):
    t = base_ty(ty)
    m = re.match(r"^(?:const )?std::(?:__cxx11::)?(vector|basic_string|basic_string_view|array)<", t)
    if not m:
        return None
    inner, depth = "", 0
    for ch in t[m.end():]:
        if ch == "<":
            depth += 1
        elif ch == ">":
            if depth == 0:
                break
            depth -= 1
        elif ch == "," and depth == 0:
            break
        inner += ch
    return tysize(p, inner.strip())


def tysize(p, inner):
    inner = base_ty(inner)
    if inner in BITS:
        return max(1, BITS[inner] // 8)
    if inner in ("double",):
        return 8
    if inner in ("float",):
        return 4
    if inner.endswith("*"):
        return 8
    if inner in p.enum_by_qn:
        return p.enum_by_qn[inner].get("sz")
    r = p.rec_by_qn.get(inner)
    if r and r[0].get("size"):
        return r[0]["size"]
    if inner in ("std::byte", "uint8_t", "std::string"):
        return 1 if inner != "std::string" else 32
    return None


def strip(f, nid):
    n = f.nodes[nid]
    while n["k"] == "cast" or (n["k"] == "ctor" and n.get("copy")):
        n = f.nodes[n["a"] if n["k"] == "cast" else n["args"][0]]
    return n


# members that hold a buffer, and what says how many bytes it has
MEMBERCAP = {
    "vrs::DataReference": {"data1_": "size1_", "data2_": "size2_"},
    "vrs::DataSourceChunk": {"data_": "size_"},
    "vrs::AlignedBuffer": {"buffer_": "capacity_"},
    "vrs::ContiguousChunk": {"data_": "size_"},
    "vrs::utils::BufferFileHandler": {"data_": "totalSize_"},
}


BUFOPS = {"read", "write", "overwrite", "addFrameData", "readFrame", "compress", "decompress", "fread", "fwrite", "unalignedCopy", "pread", "pwrite",
          "initCompressedDataBuffer", "addData", "getData", "readUnaligned", "XXH64_update", "XXH3_64bits_update", "update", "ingest"}


def capacity(F, nid, depth=0):
    """bytes available from this pointer on: Lin, or None when unknown"""
    f = F.fn
    if depth > 8:
        return None
    n = f.nodes[nid]
    k = n["k"]
    if k in ("cast", "defarg"):
        return capacity(F, n["a"], depth + 1)
    if k == "ctor" and n.get("copy"):
        return capacity(F, n["args"][0], depth + 1)
    if k == "call" and n.get("nm") in ("data", "c_str") and "obj" in n:
        ty = f.ty(n["obj"]).rstrip("*& ")
        p = path(f, n["obj"])
        es = elem_size(f.p, ty)
        m = re.match(r".*std::array<.*, (\d+)>$", base_ty(ty))
        if m and es:
            return Lin(int(m.group(1)) * es)
        if p and es and CONT.match(ty):
            t = ("size", p)
            F.range.setdefault(t, (0, (1 << 63) - 1))
            return Lin(0, {t: es})
        return None
    if k == "un" and n["op"] == "&":
        x = f.nodes[n["a"]]
        while x["k"] == "cast":
            x = f.nodes[x["a"]]
        if x["k"] == "call" and x.get("op") == "[]" and "obj" in x:
            ty = f.ty(x["obj"]).rstrip("*& ")
            p = path(f, x["obj"])
            es = elem_size(f.p, ty)
            i = F.lin(x["args"][0])
            if p and es and i is not None and CONT.match(ty):
                t = ("size", p)
                F.range.setdefault(t, (0, (1 << 63) - 1))
                return Lin(0, {t: es}).add(i, -es)
            return None
        if x["k"] in ("var", "mem"):
            s = tysize(f.p, f.ty(x))
            return Lin(s) if s else None
        return None
    if k == "bin" and n["op"] in ("+", "-") and f.ty(nid).endswith("*"):
        a = capacity(F, n["a"], depth + 1)
        o = F.lin(n["b"])
        es = tysize(f.p, f.ty(nid)[:-1].strip())
        if a is not None and o is not None and es:
            return a.add(o, -es if n["op"] == "+" else es)
        return None
    if k == "var" and n["v"] in f.vars:
        info = f.vars[n["v"]]
        t = f.p.types[info["ty"]]
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m:
            s = tysize(f.p, m.group(1))
            return Lin(s * int(m.group(2))) if s else None
        if info["k"] == "param":
            # companion: the first integer parameter after the pointer
            ids = [q["v"] for q in f.params]
            if n["v"] in ids and t.endswith("*"):
                es = tysize(f.p, t[:-1].strip()) or (1 if "void" in t else None)
                i = ids.index(n["v"])
                cand = [q for q in f.params[i + 1:] if base_ty(f.p.types[q["ty"]]) in ("unsigned long", "unsigned int", "long", "int") and not f.p.types[q["ty"]].endswith("&")]
                if cand and es and not modified(f, n["v"]):
                    F.note_ty(("p", "v:" + cand[0]["v"]), f.p.types[cand[0]["ty"]])
                    return Lin(0, {("p", "v:" + cand[0]["v"]): es})
        else:
            # a local pointer set once
            d = single_def(f, n["v"])
            if d is not None:
                return capacity(F, d, depth + 1)
        return None
    if k == "mem":
        t = f.ty(n)
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m:
            s = tysize(f.p, m.group(1))
            return Lin(s * int(m.group(2))) if s else None
        own = f.p.field_owner.get(n.get("f"))
        if own:
            comp = MEMBERCAP.get(own[0]["qn"], {}).get(n["nm"])
            b = path(f, n["a"])
            if comp and b:
                return Lin(0, {("p", b + "." + comp): 1})
    return None


def modified(f, v):
    for n in f.nodes:
        if n["k"] in ("assign", "cassign") or (n["k"] == "un" and n["op"] in ("++", "--")):
            x = f.nodes[n["a"]]
            if x["k"] == "var" and x["v"] == v:
                return True
    return False


def single_def(f, v):
    d = None
    for n in f.nodes:
        if n["k"] == "decl":
            for x in n["ds"]:
                if x["v"] == v and x.get("init", -1) >= 0:
                    d = x["init"]
    if d is None or modified(f, v):
        return None
    return d


def norm_names(s):
    return s


def sites(f):
    """all obligations of one function"""
    out = []
    F = None
    p = f.p
    for n in f.nodes:
        if n["id"] not in f.pos:
            continue
        k = n["k"]
        ent = None
        if k == "bin" and n["op"] == "-" and base_ty(f.ty(n)) in UNS and "cv" not in n:
            ent = "sub"
        elif k == "cassign" and n["op"] == "-=" and base_ty(f.ty(n["a"])) in UNS:
            ent = "sub="
        elif k == "un" and n["op"] == "--" and base_ty(f.ty(n["a"])) in UNS and False:
            ent = "dec"
        elif k == "call" and n.get("op") == "[]" and "obj" in n and CONT.match(f.ty(n["obj"]).rstrip("*& ")) and "map<" not in f.ty(n["obj"]).split("<")[0] + "<":
            ent = "idx"
        elif k == "index":
            ent = "aidx"
        elif k == "cast" and base_ty(f.ty(n)) in ("unsigned long", "long") and "cv" not in n:
            x = f.nodes[n["a"]]
            if x["k"] == "bin" and x["op"] in ("+", "*", "<<") and "cv" not in x and base_ty(f.ty(x)) in ("unsigned int", "int"):
                ent = "w32"
        elif (k == "bin" and n["op"] in ("/", "%") and base_ty(f.ty(n)) in BITS or k == "cassign" and n["op"] in ("/=", "%=") and base_ty(f.ty(n["a"])) in BITS) \
                and "cv" not in f.nodes[n["b"]]:
            ent = "div"
        elif k == "call" and n.get("nm") in ("memcpy", "memmove", "memset", "memcmp") and len(n.get("args", ())) == 3:
            ent = "copy"
        elif k == "call" and n.get("nm") in ("front", "back", "pop_back", "pop_front") and "obj" in n and CONT.match(f.ty(n["obj"]).rstrip("*& ")):
            ent = "first"
        elif k in ("call",) and len(n.get("args", ())) >= 2 and n.get("nm") in BUFOPS:
            ent = "buf"
        if not ent:
            continue
        if F is None:
            F = facts.of(f)
        if ent in ("sub", "sub="):
            a, b = F.lin(n["a"]), F.lin(n["b"])
            if a is None or b is None:
                continue
            fs = F.at(n["id"])
            if fs is None:
                continue
            out.append(Site("sub", f, n, "%s - %s" % (show(a), show(b)), F.le(fs, b, a), "%s <= %s" % (show(b), show(a))))
        elif ent == "idx":
            op = path(f, n["obj"])
            i = F.lin(n["args"][0])
            fs = F.at(n["id"])
            if fs is None:
                continue
            ty = f.ty(n["obj"]).rstrip("*& ")
            m = re.match(r".*std::array<.*, (\d+)>$", base_ty(ty))
            if m:
                sz = Lin(int(m.group(1)))
            elif op:
                sz = Lin(0, {("size", op): 1})
                F.range.setdefault(("size", op), (0, (1 << 63) - 1))
            else:
                sz = None
            strok = 0 if "basic_string<" in ty else 1
            ok = i is not None and sz is not None and F.le(fs, i, sz, strok) and (nonneg(F, fs, i) or stepped(f, n["args"][0]))
            out.append(Site("idx", f, n, "%s[%s]" % (show(("p", op)) if op else "?", show(i) if i is not None else "?"), ok, "index < size"))
        elif ent == "w32":
            x = f.nodes[n["a"]]
            bits = base_ty(f.ty(x))
            lo, hi = (0, (1 << 32) - 1) if bits in UNS else (-(1 << 31), (1 << 31) - 1)
            a, b = F.lin(x["a"]), F.lin(x["b"])
            if a is None or b is None:
                continue
            fs = F.at(n["id"])
            if fs is None:
                continue
            if x["op"] == "+":
                l = a.add(b)
                ok = F.prove(fs, l.add(Lin(-hi))) or F.linrange(l)[1] <= hi
                out.append(Site("w32", f, n, "%s + %s" % (show(a), show(b)), ok, "fits in 32 bits"))
            else:
                ra, rb = F.linrange(a), F.linrange(b)
                m = max(abs(u) for u in ra) * (max(abs(u) for u in rb) if x["op"] == "*" else (1 << min(64, max(0, rb[1]))))
                out.append(Site("w32", f, n, "%s %s %s" % (show(a), x["op"], show(b)), m <= hi, "fits in 32 bits"))
        elif ent == "aidx":
            x = strip(f, n["a"])
            m = re.match(r"^(.*)\[(\d+)\]$", f.ty(x))
            if not m:
                continue
            i = F.lin(n["b"])
            fs = F.at(n["id"])
            if fs is None:
                continue
            ok = i is not None and F.le(fs, i, Lin(int(m.group(2))), 1) and nonneg(F, fs, i)
            out.append(Site("idx", f, n, "array[%s]" % (show(i) if i is not None else "?"), ok, "index < %s" % m.group(2)))
        elif ent == "div":
            b = F.lin(n["b"])
            fs = F.at(n["id"])
            if fs is None or b is None:
                continue
            t = F.term(n["b"])
            ok = F.le(fs, Lin(1), b) or (t is not None and F.nonzero(fs, t)) or F.le(fs, b, Lin(-1))
            out.append(Site("div", f, n, show(b), ok, "divisor not zero"))
        elif ent == "first":
            op = path(f, n["obj"])
            fs = F.at(n["id"])
            if fs is None:
                continue
            ok = False
            if op:
                t = ("size", op)
                F.range.setdefault(t, (0, (1 << 63) - 1))
                ok = F.le(fs, Lin(1), Lin(0, {t: 1}))
            out.append(Site("first", f, n, "%s.%s()" % (show(("p", op)) if op else "?", n["nm"]), ok, "not empty"))
        elif ent == "copy":
            fs = F.at(n["id"])
            if fs is None:
                continue
            l = F.lin(n["args"][2])
            for j, side in ((0, "destination"), (1, "source")):
                if n["nm"] == "memset" and j == 1:
                    continue
                c = capacity(F, n["args"][j])
                ok = c is not None and l is not None and F.le(fs, l, c)
                out.append(Site("copy", f, n, "%s %s (%s bytes)" % (n["nm"], side, show(l) if l is not None else "?"), ok,
                                "%s <= %s" % (show(l) if l is not None else "?", show(c) if c is not None else "unknown capacity")))
        elif ent == "buf":
            fs = None
            args = n["args"]
            for j in range(len(args) - 1):
                if args[j] is None or args[j] < 0 or args[j + 1] is None or args[j + 1] < 0:
                    continue
                x = strip(f, args[j])
                if not (x["k"] == "call" and x.get("nm") == "data" and "obj" in x and CONT.match(f.ty(x["obj"]).rstrip("*& ")) or x["k"] == "bin" and x["op"] == "+"):
                    continue
                if not F.isint(args[j + 1]):
                    continue
                if n.get("nm") in ("strncmp", "format_to", "operator[]"):
                    continue
                c = capacity(F, args[j])
                l = F.lin(args[j + 1])
                if c is None or l is None:
                    continue
                if fs is None:
                    fs = F.at(n["id"])
                if fs is None:
                    continue
                # length in bytes, or in elements when the callee takes a typed pointer
                es = 1
                d = p.fns.get(n.get("fn"))
                ok = F.le(fs, l.scale(es), c)
                out.append(Site("copy", f, n, "%s(%s bytes)" % (n.get("nm"), show(l)), ok, "%s <= %s" % (show(l), show(c))))
    return out


def stepped(f, nid):
    """is this i++, for an unsigned i? its value before is one of its type's"""
    n = f.nodes[nid]
    while n["k"] == "cast":
        n = f.nodes[n["a"]]
    return n["k"] == "un" and n["op"] == "++" and bool(n.get("post")) and base_ty(f.ty(n["a"])) in ("unsigned int", "unsigned long", "unsigned short", "unsigned char")


def nonneg(F, fs, i):
    return F.le(fs, Lin(0), i) or F.linrange(i)[0] >= 0


def all_sites(p, kinds=None):
    out = []
    for f in p.view():
        if in_scope(f):
            out += sites(f)
    return out
