"""P25: records are kept, merged and searched in one order."""
from vx import mem, ordering
from vx.ordering import Order, Unknown, core, base

INFO = "vrs::IndexRecord::RecordInfo"
ADD = ("emplace_back", "push_back", "emplace_front", "push_front", "insert", "emplace")


def run(c):
    p = c.prog
    c.rule("order", "a function which says which of two elements comes first is a strict weak order", 8)
    c.rule("keys", "records are ordered by time, then stream, then place, in one direction (upwards, or downwards for a priority queue)", 6)
    c.rule("total", "two different ids (keys of sets and maps) are never taken for the same", 3)
    c.rule("equal", "two elements are equal exactly when neither comes first", 2)
    c.rule("search", "a search over records is by what the value searched for gives, and finds the first match", 8)
    c.rule("index", "an index that's read or rebuilt is compared record by record, and sorted when a record is out of place", 4)
    c.rule("insert", "a record added to sorted records goes where it keeps them sorted", 3)
    c.assumptions += [
        "Timestamps are numbers: a NaN isn't ordered.",
        "A comparison that can't be read as a comparison of parts of its two operands (one with a loop, say) isn't decided.",
        "The index kept in the cache of a file's details is in the order in which the reader wrote it.",
    ]
    comps = comparators(p)
    undecided = []
    known = {}
    for u, (f, sides, uses, elem) in sorted(comps.items(), key=lambda kv: (kv[1][0].file, kv[1][0].line)):
        try:
            o = Order(p, f, sides)
            keys, els, m = o.table()
        except Unknown as e:
            undecided.append("%s (%s)" % (f.display(), e))
            continue
        where = "%s:%d" % (f.file, f.line)
        w = ordering.weak(m)
        c.expect("order", w is None, where, "%s is a strict weak order of %s" % (f.display(), ", ".join(keys)),
                 "%s" % mem.fkey(f), w)
        lex, rest = ordering.lexicographic(keys, els, m)
        known[u] = (o, lex, rest, keys, els, m)
        recordlike(c, p, f, o, lex, rest, keys, elem, uses, where)
    c.extra["undecided"] = undecided
    totals(c, p, comps, known)
    equals(c, p, comps, known)
    searches(c, p, comps, known)
    index(c, p)
    inserts(c, p)


# which functions compare

def like(p, f):
    return len(f.params) == 2 and p.types[f.d["rty"]] == "bool" and base(p.types[f.params[0]["ty"]]) == base(p.types[f.params[1]["ty"]])


def comparators(p):
    out = {}

    def add(f, sides, use, elem):
        if f is None or f.entry is None or not mem.in_scope(f):
            return
        g = out.setdefault(f.usr, (f, sides, set(), elem))
        g[2].add(use)

    for f in p.fns.values():
        if not mem.in_scope(f) or f.entry is None:
            continue
        if f.nm == "operator<" and f.cls and len(f.params) == 1:
            if p.records.get(f.cls, {}).get("qn") == base(p.types[f.params[0]["ty"]]) or "rty" in f.d and p.types[f.d["rty"]] == "bool":
                add(f, {"this": 0, f.params[0]["v"]: 1}, "op", base(p.types[f.params[0]["ty"]]))
        elif f.nm == "operator<" and not f.cls and like(p, f):
            add(f, {f.params[0]["v"]: 0, f.params[1]["v"]: 1}, "op", base(p.types[f.params[0]["ty"]]))
        elif f.nm == "operator()" and f.cls and not f.is_lambda and like(p, f):
            add(f, {f.params[0]["v"]: 0, f.params[1]["v"]: 1}, "class", base(p.types[f.params[0]["ty"]]))
        for n in f.nodes:
            if n["k"] != "call" or n.get("nm") not in ordering.SORTS | ordering.SEARCH:
                continue
            for a in n.get("args", ()):
                if a is None or a < 0:
                    continue
                g = function(p, f, a)
                if g is not None and like(p, g):
                    add(g, {g.params[0]["v"]: 0, g.params[1]["v"]: 1}, n["nm"], base(p.types[g.params[0]["ty"]]))
    return out


def function(p, f, a):
    n = core(f, a)
    while n["k"] == "un" and n["op"] == "&":
        n = core(f, n["a"])
    if n["k"] in ("fnref", "memfn"):
        return p.fns.get(n.get("fn") or n.get("f"))
    if n["k"] == "lambda":
        return p.fns.get(p.lambda_of(f, n["id"]))
    if n["k"] == "var":
        for m in f.nodes:
            if m["k"] == "decl":
                for d in m["ds"]:
                    if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                        i = core(f, d["init"])
                        if i["k"] in ("lambda", "fnref"):
                            return function(p, f, d["init"])
    t = base(f.ty(n))
    for u, r in p.records.items():
        if r["qn"] == t:
            for g in p.fns.values():
                if g.cls == u and g.nm == "operator()":
                    return g
    return None


def role(k):
    l = k.lower()
    if "timestamp" in l:
        return "time"
    if "streamid" in l:
        return "stream"
    if "fileoffset" in l or "creationorder" in l:
        return "place"
    if "recordtype" in l:
        return "type"
    return k


def whole(k):
    return not k or k.rstrip("()").lower().endswith("record")


def short(t):
    return t.split("::")[-1].strip(" *")


def downwards(p, f, uses, elem):
    """is this the order of a priority queue (which gives the last element first)?"""
    if "class" in uses:
        nm = p.records.get(f.cls, {}).get("qn", "?").split("::")[-1]
        return any(t.startswith("std::priority_queue<") and nm in t for t in p.types)
    if "op" in uses:
        for t in p.types:
            if t.startswith("std::priority_queue<"):
                arg = t[len("std::priority_queue<"):]
                if arg.startswith(elem + ",") or arg.startswith(elem + ">") or arg.split(",")[0].split("::")[-1] == short(elem) and "less<" in t:
                    if "RecordComparator" not in t:
                        return True
    return False


def recordlike(c, p, f, o, lex, rest, keys, elem, uses, where):
    roles = [role(k) for k, _ in lex]
    if o.addresses:
        c.bad("keys", where, "%s compares the addresses of %s" % (f.display(), ", ".join(sorted(o.addresses)) or "its operands"), mem.fkey(f))
        return
    ofrecords = "RecordInfo" in elem or "SortRecord" in elem or any(role(k) == "time" for k in keys) or len(keys) == 1 and whole(keys[0]) and "ecord" in elem
    if not ofrecords:
        return
    down = downwards(p, f, uses, elem)
    what = "%s orders by %s%s" % (f.display(), ", ".join(k + ("" if a else " downwards") for k, a in lex), " then " + ", ".join(rest) if rest else "")
    good = bool(lex) and all(a != down for _, a in lex)
    if len(lex) == 1 and whole(lex[0][0]) and not rest:
        c.expect("keys", good, where, what, mem.fkey(f), "the order of a priority queue is downwards, any other upwards")
        return
    want = ["time", "stream", "place"]
    got = [r for r in roles if r != "type"]
    good = good and got == want[:len(got)] and set(role(k) for k in rest) <= {"type", "place"}
    if "type" in roles:
        good = good and roles.index("type") >= 2
    # an operator, or a class, is the order of the index or of a queue: it says everything
    if {"op", "class"} & uses or "sort" in uses:
        good = good and set(role(k) for k in keys) >= set(want)
    c.expect("keys", good, where, what, mem.fkey(f), "expected time, then stream, then place")


def totals(c, p, comps, known):
    for u, (f, sides, uses, elem) in sorted(comps.items(), key=lambda kv: kv[1][0].display()):
        if "op" not in uses or u not in known or not f.cls:
            continue
        r = p.records.get(f.cls)
        if not r:
            continue
        qn = r["qn"]
        if any(role(k) == "time" for k in known[u][3]) or any(whole(k) for k in known[u][3]):
            continue   # an order of records, which has a rule of its own
        fields = [x["nm"] for x in r.get("fields", ())]
        if not fields:
            continue
        keys = known[u][3]
        missing = [x for x in fields if not any(k == x or k.startswith(x + ".") or x in k for k in keys)]
        c.expect("total", not missing, "%s:%d" % (f.file, f.line), "%s compares every field of %s" % (f.display(), qn.split("::")[-1]),
                 mem.fkey(f), "doesn't compare %s" % ", ".join(missing))


def equals(c, p, comps, known):
    eqs = {f.cls: f for f in p.fns.values() if f.nm == "operator==" and f.cls and f.entry is not None and mem.in_scope(f) and len(f.params) == 1}
    for u, (f, sides, uses, elem) in sorted(comps.items(), key=lambda kv: kv[1][0].display()):
        if "op" not in uses or u not in known or f.cls not in eqs:
            continue
        g = eqs[f.cls]
        try:
            o = Order(p, g, {"this": 0, g.params[0]["v"]: 1})
            keys, els, m = o.table()
        except Unknown:
            continue
        _, _, _, k2, e2, m2 = known[u]
        if not set(keys) >= set(k2):
            bad = "it compares %s, and operator< compares %s" % (", ".join(keys) or "nothing", ", ".join(k2) or "nothing")
        else:
            pos = [keys.index(k) for k in k2]
            others = [i for i in range(len(keys)) if i not in pos]
            at = {tuple(e[i] for i in pos): j for j, e in enumerate(els) if all(e[i] == els[0][i] for i in others)}
            bad = None
            for i, a in enumerate(e2):
                for j, b in enumerate(e2):
                    if a in at and b in at:
                        # (parts that operator< ignores are the same in both)
                        e = bool(m[at[a]] >> at[b] & 1)
                        if e != (not m2[i] >> j & 1 and not m2[j] >> i & 1):
                            bad = "it differs from what operator< says"
        c.expect("equal", bad is None, "%s:%d" % (g.file, g.line), "%s agrees with operator<" % g.display(), mem.fkey(g), bad)


# searches

def searches(c, p, comps, known):
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not mem.in_scope(f) or f.entry is None:
            continue
        for n in f.nodes:
            if n["k"] != "call" or n.get("nm") not in ordering.SEARCH or not n.get("qn", "").startswith("std::") or "obj" in n:
                continue
            args = [a for a in n.get("args", ()) if a is not None and a >= 0]
            if len(args) < 3:
                continue
            seq = f.ty(f.nodes[args[0]])
            if "RecordInfo" not in seq and "vrs::Record *" not in seq and "SortRecord" not in seq:
                continue
            search(c, p, comps, f, n, args, seq)


def search(c, p, comps, f, n, args, seq):
    where = f.loc(n)
    key = "%s %s" % (mem.fkey(f), n["nm"])
    lower = n["nm"] != "upper_bound"
    info = "RecordInfo" in seq
    pointers = any(x in seq for x in ("vector<const vrs::IndexRecord::RecordInfo *", "vector<vrs::IndexRecord::RecordInfo *", "<vrs::Record *"))
    value = placeholders(f, args[2])
    if len(args) > 3:
        g = function(p, f, args[3])
        if g is None or len(g.params) != 2:
            return
        e, v = (0, 1) if lower else (1, 0)
        sides = {g.params[e]["v"]: 0, g.params[v]["v"]: 1}
    elif pointers:
        # over pointers in the index itself, in the order of the index
        c.expect("search", lower and not value, where, "%s searches for a record of the index, by its place" % f.display(), key)
        return
    else:
        g = None
        for u, (h, s, uses, elem) in comps.items():
            if "op" in uses and h.cls and p.records.get(h.cls, {}).get("qn", "?").split("::")[-1] in seq:
                if g is None or len(p.records[h.cls]["qn"]) > len(p.records[g.cls]["qn"]):
                    g = h
        if g is None:
            return
        sides = {"this": 0, g.params[0]["v"]: 1} if lower else {"this": 1, g.params[0]["v"]: 0}
    try:
        o = Order(p, g, sides)
        env = {x: ordering.Ref(s, "") for x, s in sides.items()}
        got = []
        for rel in (-1, 0, 1):   # the element, compared to the value
            r = o.run(g, env, lambda k, s: rel if s == 0 else 0)
            got.append(not r if lower else r)
    except Unknown:
        return
    what = "%s finds the first record %s the value" % (f.display(), "at or after" if got[1] else "after")
    if got[0] or not got[2]:
        c.bad("search", where, what, key, "%s isn't the order in which records are sorted" % g.display())
        return
    if info and not got[1]:
        c.bad("search", where, what, key, "a record that's equal is missed")
        return
    roles = {role(k.rstrip("?")) for k in o.keys}
    if value and not roles <= {"time", ""} and not all(whole(k) and "double" in k for k in o.keys):
        c.bad("search", where, "%s searches by %s for a value which is but a time" % (f.display(), ", ".join(sorted(o.keys))), key,
              "%s: %s stands for any" % (g.display(), ", ".join(sorted(value))))
        return
    c.ok("search", where, what)


def placeholders(f, a):
    """the parts of the record searched for which say nothing"""
    n = core(f, a)
    while n["k"] == "un" and n["op"] == "&":
        n = core(f, n["a"])
    if n["k"] == "var":
        ini = None
        for m in f.nodes:
            if m["k"] == "decl":
                for d in m["ds"]:
                    if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                        ini = f.nodes[d["init"]]
        if ini is None:
            return None
        n = ini
        while n["k"] == "cast":
            n = f.nodes[n["a"]]
    if n["k"] not in ("ctor", "initlist") or "RecordInfo" not in f.ty(n):
        return None
    out = set()
    xs = n.get("args", n.get("es", ()))
    for x in xs:
        if x is None or x < 0:
            continue
        m = core(f, x)
        while m["k"] == "ctor" and len(m.get("args", ())) == 1:
            m = core(f, m["args"][0])
        if m["k"] == "ctor" and not m.get("args"):
            out.add("a default %s" % short(base(f.ty(m))))
        elif "streamid" in base(f.ty(m)).lower() and "cv" in m:
            out.add("a constant")
    return out or None


# the index

def root(f, nid):
    n = f.nodes[nid]
    while n["k"] in ("cast", "un", "call") and n["k"] != "mem":
        if n["k"] == "cast" or n["k"] == "un" and n["op"] in ("*", "&"):
            n = f.nodes[n["a"]]
        elif n["k"] == "call" and n.get("op") in ("*", "->") and "obj" in n:
            n = f.nodes[n["obj"]]
        else:
            break
    if n["k"] == "mem" and f.nodes[n["a"]]["k"] == "this":
        return ("this", n["f"])
    if n["k"] == "var":
        return ("var", n["v"])
    return None


def mentions(f, nid, r, depth=0):
    if root(f, nid) == r:
        return True
    n = f.nodes[nid]
    if depth > 12:
        return False
    for k in ("a", "b", "c", "obj"):
        if isinstance(n.get(k), int) and n[k] >= 0 and mentions(f, n[k], r, depth + 1):
            return True
    return any(isinstance(a, int) and a >= 0 and mentions(f, a, r, depth + 1) for a in n.get("args", ()) or ())


def index(c, p):
    fields = {}
    for f in p.fns.values():
        if not mem.in_scope(f) or f.entry is None:
            continue
        for n in f.nodes:
            if n["k"] == "call" and n.get("nm") in ADD and "obj" in n:
                t = base(f.ty(f.nodes[n["obj"]]))
                r = root(f, n["obj"])
                if t.startswith("std::vector<" + INFO + ",") and r and r[0] == "this":
                    fields.setdefault((f.cls, r), []).append((f, n))
    for (cls, r), adds in sorted(fields.items(), key=lambda kv: str(kv[0])):
        counters = {}
        fns = [f for f in p.fns.values() if f.cls == cls and f.entry is not None]
        for f, n in sorted(adds, key=lambda x: (x[0].file, x[0].line, x[1]["id"])):
            cs = compared(p, f, n, r)
            c.expect("index", cs is not None, f.loc(n), "%s compares the record it adds to the index with the previous one" % f.display(),
                     "%s adds" % mem.fkey(f), "on every path, and counts it when it comes before")
            for x in cs or ():
                counters[x] = True
        if not counters:
            continue
        # and whoever starts this sorts when the count isn't null
        dirty = {f.usr for f, n in adds}
        settled = set()
        todo = sorted(dirty)
        seen = set(todo)
        while todo:
            u = todo.pop(0)
            f = p.fns[u]
            left = leaves(p, f, r, set(counters), dirty)
            if left is None:
                settled.add(u)
                c.ok("index", "%s:%d" % (f.file, f.line), "%s sorts the index when a record is out of place" % f.display())
                continue
            cal = [g for g in fns if any(n["k"] == "call" and u in [t.usr for t in p.targets(g, n)] for n in g.nodes)]
            if not cal or f.d.get("acc") == 0:
                c.bad("index", "%s:%d" % (f.file, f.line), "%s leaves the index as it was read" % f.display(), mem.fkey(f),
                      "a path from %s to the end doesn't sort it, nor test the count of records out of place" % left)
                continue
            for g in cal:
                if g.usr not in seen:
                    seen.add(g.usr)
                    dirty.add(g.usr)
                    todo.append(g.usr)


def nodeblock(f):
    out = {}
    for b, B in f.blocks.items():
        for e in B.e:
            if isinstance(e, int):
                out.setdefault(e, b)
    return out


def last(f, B):
    """what a block tests: the last operand of && and ||, the others have blocks of their own"""
    n = core(f, B.c)
    while n["k"] == "bin" and n["op"] in ("&&", "||"):
        n = core(f, n["b"])
    return n


def subtree(f, nid, out=None):
    out = set() if out is None else out
    if nid in out:
        return out
    out.add(nid)
    n = f.nodes[nid]
    for k in ("a", "b", "c", "obj"):
        if isinstance(n.get(k), int) and n[k] >= 0:
            subtree(f, n[k], out)
    for a in n.get("args", ()) or ():
        if isinstance(a, int) and a >= 0:
            subtree(f, a, out)
    return out


def bumps(f, b):
    """counts raised in a block: fields of this"""
    out = set()
    for e in f.blocks[b].e:
        if isinstance(e, int):
            n = f.nodes[e]
            if n["k"] == "un" and n["op"] in ("++",) or n["k"] == "cassign" and n["op"] in ("+=", "+", "|=") or n["k"] == "assign":
                r = root(f, n["a"])
                if r and r[0] == "this":
                    out.add(r)
    return out


def lessthan(f, n, r):
    """'<' or '>' of two elements of r"""
    if n["k"] == "call" and n.get("op") in ("<", ">"):
        xs = ([n["obj"]] if "obj" in n else []) + list(n.get("args", ()))
    elif n["k"] == "bin" and n.get("op") in ("<", ">"):
        xs = [n["a"], n["b"]]
    else:
        return False
    return len(xs) == 2 and all(element(f, x, r) for x in xs) and orient(f, n, xs, r)


def element(f, x, r):
    n = core(f, x)
    if n["k"] == "var":
        for m in f.nodes:
            if m["k"] == "decl":
                for d in m["ds"]:
                    if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                        return mentions(f, d["init"], r)
        return False
    return mentions(f, x, r)


def orient(f, n, xs, r):
    """the last element has to be the one which comes before"""
    last = [is_back(f, x, r) for x in xs]
    if last == [True, False]:
        return n["op"] == "<"
    if last == [False, True]:
        return n["op"] == ">"
    return last == [False, False]


def is_back(f, x, r):
    n = core(f, x)
    if n["k"] == "var":
        for m in f.nodes:
            if m["k"] == "decl":
                for d in m["ds"]:
                    if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                        return is_back(f, d["init"], r)
    while n["k"] == "call" and n.get("op") in ("*",) and "obj" in n:
        n = core(f, n["obj"])
    return n["k"] == "call" and n.get("nm") in ("back", "rbegin") and "obj" in n and root(f, n["obj"]) == r


def compared(p, f, n, r):
    """the counts raised when the element added by n comes before the previous one; None if a path doesn't compare them"""
    at = nodeblock(f)
    if n["id"] not in at:
        return None
    b0 = at[n["id"]]
    counts = set()
    seen = set()
    todo = [(b0, True)]
    while todo:
        b, first = todo.pop()
        if b in seen and not first:
            continue
        if not first:
            seen.add(b)
        B = f.blocks[b]
        started = not first
        done = False
        for e in B.e:
            if not isinstance(e, int):
                continue
            if e == n["id"]:
                if started:
                    return None  # round again
                started = True
                continue
            if not started:
                continue
            m = f.nodes[e]
            if sorts(f, m, r):
                done = True
                break
            # a helper of the same class does it
            if m["k"] == "call":
                for t in p.targets(f, m):
                    if t.cls == f.cls and t.entry is not None and t.usr != f.usr:
                        k = helper(p, t, r)
                        if k:
                            counts |= k
                            done = True
                if done:
                    break
        if done:
            continue
        if b == f.exit or not [s for s in B.s if s is not None and s >= 0]:
            return None
        if B.c is not None and B.c >= 0 and len(B.s) == 2:
            cn = last(f, B)
            neg = False
            while cn["k"] == "un" and cn["op"] == "!":
                neg = not neg
                cn = core(f, cn["a"])
            if lessthan(f, cn, r):
                k = bumps(f, B.s[1 if neg else 0])
                if not k:
                    return None
                counts |= k
                continue
            if sized(f, cn, r):
                # a single element is sorted: the other way must compare
                ways = [s for s in B.s if reaches_compare(f, s, r)]
                if not ways:
                    return None
                todo += [(s, False) for s in ways]
                continue
        # count += (back < previous)
        k = summed(f, b, r)
        if k:
            counts |= k
            continue
        todo += [(s, False) for s in B.s if s is not None and s >= 0]
    return counts


def summed(f, b, r):
    out = set()
    for e in f.blocks[b].e:
        if isinstance(e, int):
            n = f.nodes[e]
            if n["k"] == "cassign" and any(lessthan(f, f.nodes[x], r) for x in subtree(f, n["b"])):
                q = root(f, n["a"])
                if q:
                    out.add(q)
    return out


def helper(p, t, r):
    for b, B in t.blocks.items():
        if B.c is not None and B.c >= 0 and len(B.s) == 2:
            cn = last(t, B)
            if lessthan(t, cn, r):
                return bumps(t, B.s[0])
    return None


def sized(f, n, r):
    if n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
        return any(calls(f, n[k], r, ("size",)) for k in ("a", "b"))
    return calls(f, n["id"], r, ("empty", "size"))


def calls(f, nid, r, names):
    n = core(f, nid)
    while n["k"] == "un" and n["op"] == "!":
        n = core(f, n["a"])
    if n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
        return calls(f, n["a"], r, names) or calls(f, n["b"], r, names)
    if n["k"] == "call" and n.get("nm") in names and "obj" in n and root(f, n["obj"]) == r:
        return True
    if n["k"] == "var":
        for m in f.nodes:
            if m["k"] == "decl":
                for d in m["ds"]:
                    if d["v"] == n["v"] and d.get("init", -1) is not None and d.get("init", -1) >= 0:
                        return calls(f, d["init"], r, names)
    return False


def reaches_compare(f, b, r, depth=0):
    B = f.blocks[b]
    if B.c is not None and B.c >= 0:
        cn = last(f, B)
        while cn["k"] == "un" and cn["op"] == "!":
            cn = core(f, cn["a"])
        if lessthan(f, cn, r):
            return True
        if depth < 3 and sized(f, cn, r):
            return any(reaches_compare(f, s, r, depth + 1) for s in B.s if s is not None and s >= 0)
    return bool(summed(f, b, r))


def sorts(f, m, r):
    if m["k"] == "call" and m.get("nm") in ("sort", "stable_sort"):
        if "obj" in m:
            return root(f, m["obj"]) == r
        return bool(m.get("args")) and mentions(f, m["args"][0], r)
    return False


def leaves(p, f, r, counters, dirty):
    """where the index grows in f (directly or through a function which doesn't sort it) when a path from there to the end of f
    neither sorts it nor tests the count"""
    starts = []
    for b, B in f.blocks.items():
        for i, e in enumerate(B.e):
            if not isinstance(e, int):
                continue
            n = f.nodes[e]
            if n["k"] == "call" and (n.get("nm") in ADD and "obj" in n and root(f, n["obj"]) == r or any(t.usr in dirty and t.usr != f.usr for t in p.targets(f, n))):
                starts.append((b, i, n))
    for b0, i0, n0 in starts:
        seen = set()
        todo = [(b0, i0 + 1)]
        while todo:
            b, i = todo.pop()
            B = f.blocks[b]
            done = False
            for e in B.e[i:]:
                if isinstance(e, int):
                    m = f.nodes[e]
                    if sorts(f, m, r) or m["k"] == "ret" and says_error(f, m):
                        done = True
                        break
            if done:
                continue
            if b == f.exit:
                return f.loc(n0)
            ss = [s for s in B.s if s is not None and s >= 0]
            if B.c is not None and B.c >= 0 and len(B.s) == 2:
                cn = last(f, B)
                t = counts_tested(f, cn, counters)
                if t is not None and B.s[t] >= 0 and sorts_before_end(f, B.s[t], r):
                    continue
                k = failing(p, f, cn)
                if k is not None:
                    ss = [B.s[1 - k]] if B.s[1 - k] >= 0 else []
            for s in ss:
                if s not in seen:
                    seen.add(s)
                    todo.append((s, 0))
    return None


def says_error(f, m):
    """a constant which says that the function failed"""
    if m.get("a", -1) < 0:
        return False
    n = f.nodes[m["a"]]
    t = f.ty(n)
    v = None
    for _ in range(6):
        if "cv" in n:
            v = int(n["cv"])
            break
        if n["k"] == "cast":
            n = f.nodes[n["a"]]
        elif n["k"] == "call" and n.get("nm", "").startswith("operator") and "obj" in n:
            n = f.nodes[n["obj"]]
        else:
            break
    return v is not None and (v == 0 if t == "bool" else v != 0)


def counts_tested(f, n, counters):
    """the edge on which the count isn't null"""
    if n["k"] == "un" and n["op"] == "!":
        t = counts_tested(f, core(f, n["a"]), counters)
        return None if t is None else 1 - t
    if root(f, n["id"]) in counters:
        return 0
    if n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
        a, b = core(f, n["a"]), core(f, n["b"])
        op = n["op"]
        if root(f, b["id"]) in counters:
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if root(f, a["id"]) in counters and "cv" in b:
            v = int(b["cv"])
            if op == ">" and v <= 0 or op == "!=" and v == 0 or op == ">=" and v <= 1:
                return 0
            if op == "<=" and v <= 0 or op == "==" and v == 0 or op == "<" and v <= 1:
                return 1
    return None


def sorts_before_end(f, b, r):
    seen = set()
    todo = [b]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        B = f.blocks[b]
        if any(isinstance(e, int) and sorts(f, f.nodes[e], r) for e in B.e):
            continue
        ss = [s for s in B.s if s is not None and s >= 0]
        if b == f.exit or not ss:
            return False
        todo += ss
    return True


def failing(p, f, n):
    """the edge on which an operation failed: a status other than 0, or a bool that's false"""
    if n["k"] == "un" and n["op"] == "!":
        k = failing(p, f, core(f, n["a"]))
        return None if k is None else 1 - k
    if n["k"] == "bin" and n["op"] in ("==", "!="):
        a, b = core(f, n["a"]), core(f, n["b"])
        if "cv" in a:
            a, b = b, a
        if "cv" in b and int(b["cv"]) == 0 and f.ty(a) in ("int", "const int") and (a["k"] == "call" or a["k"] == "var" or a["k"] == "assign"):
            return 1 if n["op"] == "==" else 0
        return None
    if n["k"] == "call" and f.ty(n) == "bool" and any(t.cls == f.cls and f.cls for t in p.targets(f, n)):
        return 1
    if n["k"] in ("var",) and f.ty(n) == "int" and n.get("nm") in ("error", "status", "err", "result"):
        return 0
    return None


# sorted insertions

def inserts(c, p):
    PROG[0] = p
    """containers which are searched by time: the records of a stream to write, and the records of a batch"""
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not mem.in_scope(f) or f.entry is None:
            continue
        grow = {}
        for n in f.nodes:
            if n["k"] == "call" and n.get("nm") in ADD and "obj" in n:
                t = base(f.ty(f.nodes[n["obj"]]))
                r = root(f, n["obj"])
                if r and (t.startswith("std::list<vrs::Record *") and r[0] == "this" or "SortRecord" in t and t.startswith(("std::deque<", "std::vector<", "std::list<")) and r[0] == "var" and any(q["v"] == r[1] for q in f.params)):
                    grow.setdefault(r, []).append(n)
        for r, ns in grow.items():
            if not any(back_compare(f, x, r, None) is not None or x["k"] == "call" and x.get("nm") in ("lower_bound", "upper_bound") and x.get("args") and mentions(f, x["args"][0], r)
                       for x in f.nodes):
                if "SortRecord" not in f.ty(f.nodes[ns[0]["obj"]]) and not f.nm.startswith("create"):
                    continue   # not a place where records are sorted (recycled ones, say)
            for n in ns:
                w, key = f.loc(n), "%s %s" % (mem.fkey(f), n["nm"])
                if n["nm"] in ("emplace_back", "push_back"):
                    c.expect("insert", guarded(f, n, r), w, "%s adds a record at the end when it comes after the last one" % f.display(), key,
                             "on a path, the record isn't compared with the last one")
                elif n["nm"] in ("emplace_front", "push_front"):
                    c.bad("insert", w, "%s adds a record first" % f.display(), key)
                else:
                    c.expect("insert", placed(f, n, r), w, "%s inserts a record where a search says" % f.display(), key)


def back_compare(f, n, r, b):
    """(edge on which the new element doesn't come before the last one)"""
    if n["k"] == "call" and n.get("op") in ("<", ">", "<=", ">="):
        xs = ([n["obj"]] if "obj" in n else []) + list(n.get("args", ()))
    elif n["k"] == "bin" and n.get("op") in ("<", ">", "<=", ">="):
        xs = [n["a"], n["b"]]
    else:
        return None
    if len(xs) != 2:
        return None
    back = [any(f.nodes[x]["k"] == "call" and f.nodes[x].get("nm") == "back" and "obj" in f.nodes[x] and root(f, f.nodes[x]["obj"]) == r for x in subtree(f, y)) for y in xs]
    if back == [True, False]:
        return 0 if n["op"] in ("<", "<=") else 1
    if back == [False, True]:
        return 0 if n["op"] in (">", ">=") else 1
    return None


def guarded(f, n, r):
    at = nodeblock(f)
    if n["id"] not in at:
        return False
    target = at[n["id"]]
    seen = {f.entry}
    todo = [f.entry]
    while todo:
        b = todo.pop()
        if b == target:
            return False
        B = f.blocks[b]
        ss = list(enumerate(B.s))
        if B.c is not None and B.c >= 0 and len(B.s) == 2:
            cn = last(f, B)
            flip = 0
            while cn["k"] == "un" and cn["op"] == "!":
                flip ^= 1
                cn = core(f, cn["a"])
            ss = [(i, s) for i, s in ss if not comes_last(f, cn["id"], (i == 0) ^ bool(flip), r)]
        for i, s in ss:
            if s is not None and s >= 0 and s not in seen:
                seen.add(s)
                todo.append(s)
    return True


def comes_last(f, nid, truth, r, depth=0):
    """does this condition being true (false) tell that the new element doesn't come before the last one, or that there's none?"""
    if depth > 8:
        return False
    n = core(f, nid)
    if n["k"] == "un" and n["op"] == "!":
        return comes_last(f, n["a"], not truth, r, depth + 1)
    if n["k"] == "bin" and n["op"] in ("&&", "||"):
        both = [comes_last(f, n[x], truth, r, depth + 1) for x in "ab"]
        return all(both) if (n["op"] == "||") == truth else any(both)
    k = back_compare(f, n, r, None)
    if k is None and n["k"] == "call" and n.get("nm") == "empty" and "obj" in n and root(f, n["obj"]) == r:
        k = 0
    if k is not None:
        return truth == (k == 0)
    if n["k"] == "var":
        ds = [d for m in f.nodes if m["k"] == "decl" for d in m["ds"] if d["v"] == n["v"]]
        if len(ds) == 1 and (ds[0].get("init") or -1) >= 0 and not any(m["k"] in ("assign", "cassign") and f.nodes[m["a"]].get("v") == n["v"] for m in f.nodes):
            return comes_last(f, ds[0]["init"], truth, r, depth + 1)
    if n["k"] == "call" and r[0] == "this":
        ts = PROG[0].targets(f, n)
        rets = [(t, m["a"]) for t in ts for m in t.nodes if m["k"] == "ret" and (m.get("a") if m.get("a") is not None else -1) >= 0]
        return len(ts) == 1 and len(rets) == 1 and mem.in_scope(ts[0]) and comes_last(rets[0][0], rets[0][1], truth, r, depth + 1)
    return False


PROG = [None]


def compares(f, nid, depth=0):
    """does this expression search, or call something that compares?"""
    for x in subtree(f, nid):
        y = f.nodes[x]
        if y["k"] == "call":
            if y.get("nm") in ("lower_bound", "upper_bound", "find_if"):
                return True
            if depth < 2:
                for t in PROG[0].targets(f, y):
                    if mem.in_scope(t) and any(m["k"] in ("bin", "call") and m.get("op") in ("<", ">", "<=", ">=") or m["k"] == "call" and m.get("nm") in ("lower_bound", "upper_bound", "find_if") for m in t.nodes):
                        return True
    return False


def placed(f, n, r):
    a = f.nodes[n["args"][0]]
    vs = {f.nodes[x]["v"] for x in subtree(f, a["id"]) if f.nodes[x]["k"] == "var"}
    for x in subtree(f, a["id"]):
        m = f.nodes[x]
        if m["k"] == "call" and m.get("nm") in ("lower_bound", "upper_bound"):
            return True
    if compares(f, a["id"]):
        return True
    given = {}
    for m in f.nodes:
        if m["k"] == "decl":
            for d in m["ds"]:
                if d.get("init", -1) is not None and d.get("init", -1) >= 0:
                    given.setdefault(d["v"], []).append(d["init"])
        elif m["k"] == "assign" and f.nodes[m["a"]]["k"] == "var":
            given.setdefault(f.nodes[m["a"]]["v"], []).append(m["b"])
        elif m["k"] == "call" and m.get("op") == "=" and "obj" in m and f.nodes[m["obj"]]["k"] == "var":
            given.setdefault(f.nodes[m["obj"]]["v"], []).append(m["args"][0])
    for _ in range(3):
        for v in list(vs):
            for i in given.get(v, ()):
                vs |= {f.nodes[x]["v"] for x in subtree(f, i) if f.nodes[x]["k"] == "var"}
                if compares(f, i):
                    return True
    # a walk over the records, comparing
    for b, B in f.blocks.items():
        if B.c is not None and B.c >= 0:
            for x in subtree(f, B.c):
                y = f.nodes[x]
                if y["k"] in ("bin", "call") and y.get("op") in ("<", ">", "<=", ">="):
                    if any(f.nodes[z]["k"] == "var" and f.nodes[z]["v"] in vs for z in subtree(f, x)):
                        return True
    return False
