"""Keys of the json and text descriptions stored in files, and the data members they go with, on the writing and the reading side."""
import re
from . import atoms, lits

WRITE = {"addMember", "serializeMap", "serializeStringRefMap", "serializeVector", "serializeStringRefVector", "AddMember"}
READ = {"FindMember", "getJMap", "getJVector", "getJString", "getJInt64", "getJInt", "getJDouble", "getJBool", "HasMember"}
FILES = ("vrs/DataLayout.cpp", "vrs/FileSpec.cpp", "vrs/TagConventions.cpp", "vrs/DescriptionRecord.cpp")
TEXT = ("vrs/RecordFormat.cpp",)
TOKEN = re.compile(r"(?:^|/)([a-z][a-z_0-9]*)=[%{]?")


def strs(p, f, a, depth=0):
    if a is None or a < 0 or depth > 12:
        return set()
    n = f.nodes[a]
    k = n["k"]
    if k == "str":
        return {n.get("s")}
    if k in ("cast", "tmp", "defarg", "bind", "mat", "paren"):
        return strs(p, f, n["a"], depth + 1)
    if k in ("ctor", "call") and n.get("args"):
        r = set()
        if k == "call" and n.get("obj") is not None and n["obj"] >= 0:
            r |= strs(p, f, n["obj"], depth + 1)
        return r | strs(p, f, n["args"][0], depth + 1)
    if k == "call" and n.get("obj") is not None:
        return strs(p, f, n["obj"], depth + 1)
    if k == "var":
        v = lits.lit(f.nodes, a, p)
        return {v} if isinstance(v, str) else set()
    if k == "ternary" or k == "cond":
        return set().union(*[strs(p, f, n.get(x), depth + 1) for x in ("b", "c") if n.get(x) is not None])
    return set()


def member_of(f, a, depth=0):
    """data members of this mentioned in the expression"""
    if a is None or a < 0 or depth > 8:
        return set()
    n = f.nodes[a]
    if n["k"] == "mem" and n.get("f"):
        b = f.nodes[n["a"]]["k"] if n.get("a") is not None and n["a"] >= 0 else None
        return {n["nm"]} if b == "this" else set()
    out = set()
    for x in [n.get("a"), n.get("obj")] + list(n.get("args") or ()):
        if isinstance(x, int):
            out |= member_of(f, x, depth + 1)
    return out


def json_keys(p):
    """{file: {"w": {key: [(fn, node)]}, "r": ...}}, and {(cls, key): {"w": fields, "r": fields}}"""
    out, pairs = {}, {}
    for f in p.fns.values():
        if f.file not in FILES:
            continue
        o = out.setdefault(f.file, {"w": {}, "r": {}})
        for n in f.nodes:
            if n["k"] != "call":
                continue
            side = "w" if n.get("nm") in WRITE else "r" if n.get("nm") in READ else None
            if side is None:
                continue
            keys = set()
            fld = set()
            for a in n.get("args") or ():
                s = strs(p, f, a)
                if s:
                    keys |= {x for x in s if x}
                fld |= member_of(f, a)
            if not keys:
                continue
            key = sorted(keys)[0] if len(keys) == 1 else None
            for kx in keys if n["nm"] not in ("addMember", "AddMember") else (strs(p, f, n["args"][0]) if n.get("args") else ()):
                o[side].setdefault(kx, []).append((f, n))
                key = kx
            if len(fld) == 1 and f.cls:
                pairs.setdefault((f.d.get("clsn"), key), {"w": {}, "r": {}})[side].setdefault(next(iter(fld)), []).append((f, n))
    return out, pairs


def text_keys(p):
    """{class: {"w": {token: [(fn, node, member)]}, "r": ...}} of the text descriptions of formats"""
    out = {}
    for f in p.fns.values():
        if f.file not in TEXT:
            continue
        cls = (f.d.get("clsn") or "-").split("<")[0]
        for n in f.nodes:
            if n["k"] not in ("call", "ctor"):
                continue
            args = n.get("args") or ()
            if n.get("nm") == "sscanf":
                for a in args[1:2]:
                    for s in strs(p, f, a):
                        for m in TOKEN.finditer(s or ""):
                            out.setdefault(cls, {"w": {}, "r": {}})["r"].setdefault(m.group(1), []).append((f, n, read_into(f, n)))
            else:
                for i, a in enumerate(args):
                    if f.nodes[a]["k"] == "call" and f.nodes[a].get("nm") in ("append", "format_to"):
                        continue
                    for s in strs(p, f, a):
                        toks = TOKEN.findall(s or "") if s and s.startswith("/") else ()
                        if not toks:
                            continue
                        flds = []
                        for b in args[i + 1:]:
                            m = member_of(f, b)
                            flds.append(next(iter(m)) if len(m) == 1 else None)
                        for j, t in enumerate(toks):
                            out.setdefault(cls, {"w": {}, "r": {}})["w"].setdefault(t, []).append((f, n, flds[j] if j < len(flds) else None))
    return out


def read_into(f, n):
    """the member assigned when this sscanf succeeds"""
    for b, B in f.blocks.items():
        if B.c is not None and contains(f, B.c, n["id"]) and len(B.s) == 2:
            nx = B.s[0]
            for _ in range(3):
                if nx is None:
                    return None
                T = f.blocks[nx]
                for e in T.e:
                    if isinstance(e, int):
                        m = f.nodes[e]
                        if m["k"] == "assign":
                            x = member_of(f, m["a"])
                            if len(x) == 1:
                                return next(iter(x))
                if len(T.s) != 1:
                    # nested condition
                    return None
                nx = T.s[0]
    return None


def contains(f, root, x, depth=0):
    if root == x:
        return True
    if root is None or depth > 10 or not isinstance(root, int) or root < 0:
        return False
    n = f.nodes[root]
    return any(contains(f, y, x, depth + 1) for y in [n.get("a"), n.get("b")] + list(n.get("args") or ()) if isinstance(y, int))


def reach(p, f, keys, seen=None):
    """{"w": keys, "r": keys} of f and of what it calls in the same file"""
    seen = set() if seen is None else seen
    out = {"w": set(), "r": set()}
    if f.usr in seen:
        return out
    seen.add(f.usr)
    for s in "wr":
        out[s] |= keys.get(f.usr, {}).get(s, set())
    for n in f.nodes:
        if n["k"] in ("call", "ctor", "lambda"):
            ts = p.targets(f, n) if n["k"] != "lambda" else [p.fns[n["fn"]]] if n.get("fn") in p.fns else []
            if n.get("virt"):
                continue
            for t in ts:
                if t.file == f.file:
                    o = reach(p, t, keys, seen)
                    out["w"] |= o["w"]
                    out["r"] |= o["r"]
    for B in f.blocks.values():
        for e in B.e:
            if isinstance(e, dict) and e.get("k") == "init" and isinstance(e.get("a"), int):
                pass
    return out


def snapshot(p):
    o, pairs = json_keys(p)
    keys = {}
    for file, d in o.items():
        for s in "wr":
            for k, l in d[s].items():
                for f, n in l:
                    keys.setdefault(f.usr, {"w": set(), "r": set()})[s].add(k)
    entry = {}
    for f in p.fns.values():
        if f.file in FILES and not f.parent:
            r = reach(p, f, keys)
            if f.nm in ("serialize", "toJson", "fromJson", "makeFromJson", "makeFromFormat", "asJson", "parse", "jsonToTags", "upgradeStreamTags", "addTagSet", "parseTagSet", "makeTagSet") or \
                    f.d.get("ctor") == "ctor" and any("Bundle" in p.types[q["ty"]] for q in f.params or ()) or f.cls is None and (r["w"] or r["r"]):
                for s in "wr":
                    if r[s]:
                        entry.setdefault("%s|%s" % (f.qn, s), []).append((f, r[s]))
    return o, pairs, entry


def base(q):
    head, _, s = q.partition("|")
    out, d = "", 0
    for ch in head:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out, s


def spec(p):
    o, pairs, entry = snapshot(p)
    r = {"files": {f: {s: sorted(d[s]) for s in "wr"} for f, d in sorted(o.items())}, "entries": {}, "text": {}}
    for k, l in entry.items():
        for f, ks in l:
            r["entries"].setdefault("|".join(base(k)), set()).update(ks) if False else r["entries"].setdefault("|".join(base(k)), sorted(ks))
    for cls, d in sorted(text_keys(p).items()):
        r["text"][cls] = {s: sorted(d[s]) for s in "wr"}
    g = {}
    for q, t, op, k, f, b, n in guards(p):
        g.setdefault(q, {}).setdefault(t, set()).add((op, k))
    r["guards"] = {q: {t: sorted(map(list, x)) for t, x in sorted(d.items())} for q, d in sorted(g.items())}
    return r


NOT_STORED = ("print", "printCompact", "operator<<", "getListOfPiecesSpec", "isSame", "isMatch", "operator==")


def guards(p):
    """the conditions tested by the functions which write and read descriptions"""
    for f in p.view():
        if f.file not in FILES + TEXT or f.nm in NOT_STORED or f.nm.startswith("print"):
            continue
        if any(n["k"] == "call" and (n.get("nm") in WRITE | READ | {"sscanf", "append"}) for n in f.nodes):
            for b, (t, op, k), n in atoms.atoms(f):
                yield base(f.qn + "|")[0], t, op, k, f, b, n


def compare_guards(c, sp):
    cur, where = {}, {}
    for q, t, op, k, f, b, n in guards(c.prog):
        cur.setdefault(q, {}).setdefault(t, {})[(op, k)] = (f, b, n)
    for q, d in sorted(sp.items()):
        if q not in cur:
            continue
        f = None
        bad = []
        for t, x in sorted(cur[q].items()):
            was = {tuple(y) for y in d.get(t, ())}
            for (op, k), (f, b, n) in sorted(x.items(), key=lambda z: z[0]):
                if (op, k) in was or f.blocks[b].tk in ("for", "while", "do", "forrange"):
                    continue
                what = "%s %s %s" % (t, op, k)
                if was:
                    bad.append((f, n, "the condition %s was %s" % (what, " or ".join("%s %s" % y for y in sorted(was)))))
                elif atoms.number(k) and k not in ("0", "-1") and (op != "!=" or k != "0") and ("FindMember(" in t or "." in t or t.endswith(")") or t[:1].islower() and t.endswith("_")):
                    bad.append((f, n, "the value is only handled if %s %s %s" % (t, op, k)))
        for f, n, what in bad:
            c.bad("guard", f.loc(n), "%s: %s" % (f.display(), what), "%s %s" % (q, what))
        if not bad and f is not None:
            c.ok("guard", "%s:%d" % (f.file, f.line), "%s: %d conditions, as before" % (q, sum(len(x) for x in cur[q].values())))


def compare(c, sp):
    compare_guards(c, sp["guards"])

    p = c.prog
    o, pairs, entry = snapshot(p)
    W = {"w": "written", "r": "read"}
    for file, d in sorted(sp["files"].items()):
        for s in "wr":
            have = set(o.get(file, {}).get(s, ()))
            for k in d[s]:
                c.expect("json", k in have, file, "key %r of json descriptions %s in %s" % (k, W[s], file) + ("" if k in have else ": not anymore"), "%s %s %s" % (file, s, k))
    cur = {}
    for k, l in entry.items():
        cur.setdefault("|".join(base(k)), []).extend(l)
    for e, ks in sorted(sp["entries"].items()):
        s = e.split("|")[1]
        for f, have in cur.get(e, ()):
            for k in ks:
                c.expect("json", k in have, "%s:%d" % (f.file, f.line), "%s: key %r %s" % (f.display(), k, W[s]) + ("" if k in have else " not anymore"), "%s %s" % (e, k))
    for (cls, key), d in sorted(pairs.items(), key=str):
        w, r = set(d["w"]), set(d["r"])
        if w and r:
            f, n = next(iter(d["r"].values()))[0]
            c.expect("field", bool(w & r), f.loc(n), "%s: key %r holds %s when written and %s when read" % (cls, key, "/".join(sorted(w)), "/".join(sorted(r))), "%s %s" % (cls, key))
    t = text_keys(p)
    for cls, d in sorted(sp["text"].items()):
        for s in "wr":
            have = t.get(cls, {}).get(s, {})
            allk = set().union(*[set(x[s]) for x in t.values()]) if t else set()
            for k in d[s]:
                good = k in have
                c.expect("text", good, cls, "%s: %r %s" % (cls, k + "=", W[s]) + ("" if good else " not anymore"), "%s %s %s" % (cls, s, k))
        for k, l in sorted(t.get(cls, {}).get("w", {}).items()):
            f, n, _ = l[0]
            rd = t[cls]["r"].get(k)
            if k in ("codec", "size", "pixel") and not rd:
                pass
            c.expect("text", bool(rd), f.loc(n), "%s: %r is written and read back" % (cls, k + "="), "%s both %s" % (cls, k))
            w = {x[2] for x in l if x[2]}
            r = {x[2] for x in rd or () if x[2]}
            if w and r:
                c.expect("field", bool(w & r), f.loc(n), "%s: %r holds %s when written and %s when read" % (cls, k + "=", "/".join(sorted(w)), "/".join(sorted(r))), "%s text %s" % (cls, k))
