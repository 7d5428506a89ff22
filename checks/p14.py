from vx import effects

# interfaces implemented by the user, which may do anything
CALLBACKS = ("vrs::StreamPlayer", "vrs::utils::CopyOptions")


def derived(p, qn):
    out = set()
    rec = {r["qn"]: u for u, r in p.records.items()}
    if qn not in rec:
        return out
    out.add(rec[qn])
    grown = True
    while grown:
        grown = False
        for u, r in p.records.items():
            if u not in out and any(b in out for b in bases(r)):
                out.add(u)
                grown = True
    return out


def bases(r):
    for b in r.get("bases", ()):
        yield b if isinstance(b, str) else b.get("usr")


def cut(p):
    players = derived(p, "vrs::StreamPlayer")
    atomic = derived(p, "vrs::AtomicDiskFile")

    def f_(f, n, t):
        if n["k"] != "call":
            return False
        if n.get("virt") and n.get("cls") in players:
            return True
        if n.get("virt") and t.cls in atomic and n.get("cls") not in atomic:
            return True   # only used where it's created
        return any(a is not None and a >= 0 and cached(p, f, a) for a in n.get("args", ()))
    return f_


def cached(p, f, a):
    """is this argument the path of a file of the cache, as FileCache gave it?"""
    n = f.nodes[a]
    while n["k"] == "cast" or n["k"] == "ctor" and len(n.get("args", ())) == 1:
        n = f.nodes[n["a"] if n["k"] == "cast" else n["args"][0]]
    if n["k"] != "var" or "basic_string" not in f.ty(n):
        return False
    g = f
    for _ in range(6):
        ds = [d for m in g.nodes if m["k"] == "decl" for d in m["ds"] if d["v"] == n["v"]]
        if ds:
            break
        g = p.fns.get(g.parent) if g.parent else None
        if g is None:
            return False
    else:
        return False
    got = False
    for d in ds:
        i = d.get("init", -1)
        if i is not None and i >= 0 and not (g.nodes[i]["k"] == "ctor" and not g.nodes[i].get("args")):
            return False
    for m in g.nodes:
        if m["k"] == "call":
            if m.get("op") in ("=", "+=") and "obj" in m and g.nodes[m["obj"]].get("v") == n["v"]:
                return False
            for j, b in enumerate(m.get("args", ())):
                if b is not None and b >= 0 and g.nodes[b].get("v") == n["v"] and m.get("pm", "")[j:j + 1] in ("r", "p"):
                    if not m.get("qn", "").startswith("vrs::FileCache::"):
                        return False
                    got = True
    return got


# classes and files which only read
CLASSES = ("vrs::RecordFileReader", "vrs::MultiRecordFileReader", "vrs::IndexRecord::Reader", "vrs::RecordReader", "vrs::ContentBlockReader",
           "vrs::DataReference", "vrs::RecordFormat", "vrs::FileDetailsCache", "vrs::utils::FilteredFileReader", "vrs::DescriptionRecord")
PLAYERS = ("vrs::StreamPlayer", "vrs::RecordFormatStreamPlayer", "vrs::utils::VideoRecordFormatStreamPlayer", "vrs::utils::VideoFrameHandler")
FILES = ("vrs/utils/RecordFileInfo.cpp", "vrs/utils/Validation.cpp", "vrs/utils/FrameRateEstimator.cpp", "vrs/utils/FilteredFileReader.cpp", "vrs/utils/cli/PrintRecordFormatDatalayouts.cpp")
NOT = ("getCopyPath", "write", "writeDescriptionRecord", "createDescriptionRecord")   # these prepare an output


def asked(p, f, a):
    """does an argument ask to repair files only in a mode made for that?"""
    n = f.nodes[a]
    while n["k"] in ("cast", "defarg"):
        n = f.nodes[n["a"]]
    if n["k"] == "bin" and n["op"] == "&&":
        return asked(p, f, n["a"]) or asked(p, f, n["b"])
    if n["k"] == "var":
        ds = [d["init"] for m in f.nodes if m["k"] == "decl" for d in m["ds"] if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0]
        return len(ds) == 1 and asked(p, f, ds[0])
    if n["k"] == "bin" and n["op"] == "==":
        return any(enum_fix(f, x) for x in (n["a"], n["b"]))
    return False


def enum_fix(f, a):
    n = f.nodes[a]
    while n["k"] == "cast":
        n = f.nodes[n["a"]]
    return n["k"] == "enumc" and "fix" in n.get("nm", n.get("qn", "")).lower()


def run(c):
    p = c.prog
    c.rule("readers", "No path from a function which reads recordings opens a file to write, or creates, renames or deletes one, unless its caller explicitly asked for the index to be repaired.", 200)
    c.rule("repair", "Files may only be repaired when their index was found incomplete, and the tools only ask for it in the command made for that.", 3)
    c.rule("guards", "A file opened for reading is opened read-only, and refuses to be modified.", 8)
    E = effects.Effects(p, cut(p))
    c.extra["write_sites"] = E.sites
    c.assumptions.append("file handlers, stream players and file caches provided by applications do what their interface says")
    roots = set()
    for q in CLASSES:
        roots |= derived(p, q)
    roots |= {u for u, r in p.records.items() if r["qn"] in PLAYERS}
    over = {r["qn"]: u for u, r in p.records.items()}
    fh = over.get("vrs::FileHandler")
    wfh = over.get("vrs::WriteFileHandler")
    reading = {f.nm for f in p.fns.values() if f.cls == fh}
    reading |= {m.get("nm") for m in p.records[fh].get("methods", ())} if fh else set()
    writing = {m.get("nm") for m in p.records[wfh].get("methods", ())} if wfh else set()
    disk = derived(p, "vrs::FileHandler")
    atomic = derived(p, "vrs::AtomicDiskFile")
    optin = {}
    for f in E.fns:
        is_root = f.cls in roots or f.file in FILES
        is_handler = f.cls in disk and f.cls not in atomic and f.nm in reading and f.nm not in writing
        if not (is_root or is_handler) or f.nm in NOT or f.is_lambda:
            continue
        bad = []
        for cs, w in E.W.get(f.usr, {}).items():
            opt = [a for a in cs if a[0] == "p" and a[2] and "bool" in p.types[f.params[a[1]]["ty"]]]
            if opt and (is_root):
                optin.setdefault(f.usr, set()).add(opt[0][1])
                continue
            if is_handler and any(a[0] == "f" for a in cs):
                continue   # only if it isn't read-only
            bad.append(w)
        if not bad:
            c.ok("readers", "%s:%d" % (f.file, f.line), "%s modifies no file" % f.display())
        for site, what, chain in bad[:1]:
            c.bad("readers", "%s:%d" % (f.file, f.line), "%s %s (%s), through %s" % (f.display(), what, site, " <- ".join("%s (%s)" % (d, s) for s, d in chain[-6:]) or "itself"), key=f.display() + " " + what)
    repair(c, E, optin, roots)
    guards(c, E, disk, reading, writing)


def repair(c, E, optin, roots):
    p = c.prog
    for u, ps in sorted(optin.items()):
        t = p.fns[u]
        for f, n in E.callers(t):
            if n["k"] != "call":
                continue
            for i in ps:
                args = n.get("args", ())
                if i >= len(args) or args[i] is None or args[i] < 0:
                    continue
                a = E.atom(f, args[i], True)
                w = f.loc(n)
                if a is False:
                    c.ok("repair", w, "%s doesn't ask %s() for repairs" % (f.display(), t.nm))
                elif isinstance(a, tuple) and a[0] == "p":
                    c.ok("repair", w, "%s leaves its caller to decide" % f.display())
                else:
                    c.expect("repair", asked(p, f, args[i]), w, "%s only asks %s() for repairs in the command for that" % (f.display(), t.nm), key="%s asks %s" % (f.display(), t.nm))
    # the index must be known to be incomplete
    inc = set()
    for f in p.fns.values():
        if f.cls not in roots:
            continue
        for n in f.nodes:
            if n["k"] in ("assign", "decl"):
                xs = [(n["a"], n["b"])] if n["k"] == "assign" else [(d, d.get("init", -1)) for d in n["ds"]]
                for l, r in xs:
                    if r is not None and r >= 0 and complete(f, r):
                        inc.add((f.usr, effects.path(f, l) if isinstance(l, int) else "v:" + l["v"]))
    names = {q for _, q in inc if q}
    for u, ps in sorted(optin.items()):
        t = p.fns[u]
        if t.qn != "vrs::IndexRecord::Reader::rebuildIndex":
            continue
        for f, n in E.callers(t):
            if n["k"] != "call":
                continue
            c.expect("repair", closes(c, E, f, n), f.loc(n), "%s opens the file again, read-only, once it was repaired" % f.display(), key="%s stays open to write" % f.display())
            fs = effects.facts_mod.of(f).at(n["id"])
            c.expect("repair", fs is None or any(("Z", ("p", q)) in fs for q in names) or not_complete(f, n), f.loc(n), "%s only repairs the index when it is incomplete" % f.display(), key="%s repairs a complete index" % f.display())


def closes(c, E, f, n):
    """after a repair, is the file opened again unless it is read-only?"""
    p = c.prog
    pos = f.pos.get(n["id"])
    if pos is None:
        return True

    def ends(b, i):
        for e in f.blocks[b].e[i:]:
            if isinstance(e, int) and f.nodes[e]["k"] == "call":
                if any(opens(p, t, set()) for t in p.targets(f, f.nodes[e])):
                    return True
        return False
    work = [(pos[0], pos[1] + 1)]
    seen = set()
    while work:
        b, i = work.pop()
        if ends(b, i):
            continue
        if b == f.exit:
            return False
        B = f.blocks[b]
        for j, s in enumerate(B.s):
            if s is None or s < 0 or s in seen:
                continue
            if B.c is not None and B.c >= 0 and len(B.s) == 2 and readonly(f, B.c, j == 0):
                continue
            seen.add(s)
            work.append((s, 0))
    return True


def readonly(f, a, truth):
    n = effects.core(f, a)
    if n["k"] == "un" and n["op"] == "!":
        return readonly(f, n["a"], not truth)
    if n["k"] == "bin" and n["op"] in ("&&", "||") and truth == (n["op"] == "&&"):
        return readonly(f, n["a"], truth) or readonly(f, n["b"], truth)
    return truth and n["k"] == "call" and n.get("nm") == "isReadOnly"


def opens(p, t, seen):
    if t.usr in seen or len(seen) > 60:
        return False
    seen.add(t.usr)
    if t.nm in ("openSpec", "delegateOpen"):
        return True
    return any(opens(p, u, seen) for n in t.nodes if n["k"] == "call" and not n.get("virt") for u in p.targets(t, n)) or any(n["k"] == "call" and n.get("nm") in ("openSpec", "delegateOpen", "open") and n.get("virt") for n in t.nodes)


def complete(f, r):
    n = f.nodes[r]
    while n["k"] == "cast":
        n = f.nodes[n["a"]]
    if n["k"] == "bin" and n["op"] == "&&":
        return complete(f, n["a"]) or complete(f, n["b"])
    return n["k"] == "call" and n.get("nm") == "isIndexComplete"


def not_complete(f, n):
    for m in f.nodes:
        if m["k"] == "un" and m["op"] == "!" and complete(f, m["a"]) and effects.holds(f, m["id"], n["id"]):
            return True
    return False


def guards(c, E, disk, reading, writing):
    p = c.prog
    flags = {fu for fu, d in E.flags.items() if d is True and p.field_owner.get(fu)}
    for f in E.fns:
        if f.cls not in disk or f.is_lambda:
            continue
        mine = {fu for fu in flags if any(n["k"] == "mem" and n["f"] == fu for g in E.fns if g.cls == f.cls for n in g.nodes)}
        if not mine:
            continue
        for n in f.nodes:
            if n["k"] != "call":
                continue
            ts = p.targets(f, n)
            # changes to the content of a chunk
            if n.get("nm") in ("write", "truncate") and ts and all(t.cls not in disk and any(m["k"] == "call" for m in t.nodes) and changes_content(p, t, set()) for t in ts):
                ok = guarded(E, f, n, mine, set())
                c.expect("guards", ok, f.loc(n), "%s refuses when the file was opened read-only" % f.display(), key="%s %s unguarded" % (f.display(), n["nm"]))
            # opening for reading
            if f.nm in ("openSpec", "open", "delegateOpen") and f.nm in reading and any(a[0] == "f" and a[1] in mine and not a[2] for t in ts for cs in E.W.get(t.usr, {}) for a in cs):
                g = E.guards(f, n["id"])
                c.expect("guards", g is None or any(("f", fu, True) in g for fu in mine), f.loc(n), "%s opens the file read-only, whatever was done with the object before" % f.display(), key="%s %s" % (f.display(), n["nm"]))
    for f in E.fns:
        modeflags(c, E, f)


def modeflags(c, E, f):
    """flags chosen from a mode string: those to write only for modes to write"""
    p = c.prog
    ms = ["v:" + q["v"] for q in f.params if "char *" in p.types[q["ty"]]]
    opens = [n for n in f.nodes if n["k"] == "call" and n.get("nm") in ("open", "open64") and n.get("qn") == n["nm"] and len(n.get("args", ())) >= 2]
    if not ms or not opens:
        return
    x = effects.core(f, opens[0]["args"][1])
    F = effects.facts_mod.of(f)
    for m in f.nodes:
        if m["k"] not in ("assign", "cassign") or effects.core(f, m["a"]).get("v") != x.get("v") or x["k"] != "var":
            continue
        fs = F.at(m["id"])
        if fs is None:
            continue

        def is_(t, vals):
            for v in vals:
                l = effects.Lin(0, {("p", t): 1})
                k = effects.Lin(v)
                if F.le(fs, l, k) and F.le(fs, k, l):
                    return True
            return False
        ok = True
        for q in ms:
            t = q + "[0]"
            if is_(t, (ord("w"), ord("a"))):
                break
            b = f.nodes[m["b"]]
            if "cv" in b:
                ok = not int(b["cv"]) & effects.WRITE_BITS
            else:
                b = effects.core(f, b["id"])
                if b["k"] == "cond" and is_(t, (ord("r"),)):
                    no = f.nodes[b["b"]]
                    cv = effects.core(f, b["c"])
                    ok = "cv" in no and not int(no["cv"]) & effects.WRITE_BITS and cv["k"] == "var" and plus(f, F, cv["v"], q)
            if not ok:
                break
        c.expect("guards", ok, f.loc(m), "%s only asks to write with the modes for that" % f.display(), key="%s flags %d" % (f.display(), len([o for o in f.nodes if o["k"] in ("assign", "cassign") and o["id"] < m["id"]])))


def plus(f, F, v, q):
    """is a variable only true when a '+' was found in the mode?"""
    for n in f.nodes:
        if n["k"] == "decl":
            for d in n["ds"]:
                if d["v"] == v and d.get("init", -1) is not None and d.get("init", -1) >= 0 and f.nodes[d["init"]].get("cv") not in ("0", 0):
                    i = effects.core(f, d["init"])
                    if not (i["k"] == "bin" and any(effects.core(f, y)["k"] == "call" and effects.core(f, y).get("nm") in ("strchr", "find") for y in (i["a"], i["b"]))):
                        return False
        elif n["k"] == "assign" and effects.core(f, n["a"]).get("v") == v and f.nodes[n["b"]].get("cv") not in ("0", 0):
            fs = F.at(n["id"])
            if fs is None:
                continue
            if not any(x[0] == "L" and x[1][0] in (-43, 43) and any(t[0] == "p" and t[1].startswith(q + "[") for t, _ in x[1][1]) for x in fs if isinstance(x[1], tuple) and isinstance(x[1][1], frozenset)):
                return False
    return True


def changes_content(p, t, seen):
    if t.usr in seen:
        return False
    seen.add(t.usr)
    for n in t.nodes:
        if n["k"] == "call":
            if n.get("nm") in effects.HANDLES and not p.targets(t, n):
                return True
            if any(changes_content(p, u, seen) for u in p.targets(t, n)):
                return True
    return False


def guarded(E, f, n, mine, seen):
    g = E.guards(f, n["id"])
    if g is None or any(("f", fu, False) in g for fu in mine):
        return True
    if f.usr in seen or f.d.get("acc") in (0, 3):
        return False
    seen.add(f.usr)
    cs = [x for x in E.callers(f)]
    return bool(cs) and all(guarded(E, h, m, mine, seen) for h, m in cs)
