"""Where an exception may be thrown, and where it may end up (P27).

Sources are `throw` expressions and calls of the standard library's functions which report bad input by
throwing: the number parsers, the checked accessors, the string functions taking a position, and the
filesystem functions called without an error_code. A source whose arguments are known to be fine (must-facts
on every path to it) can't throw. What a handler around the call does not catch goes on to the callers, up to
a function users call, a thread's entry, a destructor or a noexcept function.
"""
import re
from .facts import Lin, CONT, show, of as facts_of
from .paths import path
from .mem import nonneg
from .prog import operands

# what a handler of a type catches, besides that type
BASES = {
    "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::domain_error": "std::logic_error",
    "std::length_error": "std::logic_error", "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::system_error": "std::runtime_error", "std::filesystem::filesystem_error": "std::system_error",
    "std::ios_base::failure": "std::system_error", "std::bad_alloc": "std::exception", "std::bad_any_cast": "std::bad_cast",
    "std::bad_cast": "std::exception", "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception",
    "std::bad_function_call": "std::exception",
}
PARSE = re.compile(r"^std::(?:__cxx11::)?sto(i|l|ll|ul|ull|f|d|ld)$")
FS_NEVER = {"path", "exists_", "begin", "end", "operator*", "operator->", "operator!=", "operator==", "type", "operator=", "permissions_",
            "file_status", "is_absolute", "lexically_normal"}
# filesystem functions with an error_code overload
FS = {"absolute", "canonical", "weakly_canonical", "relative", "proximate", "copy", "copy_file", "copy_symlink", "create_directory",
      "create_directories", "create_hard_link", "create_symlink", "create_directory_symlink", "current_path", "exists", "equivalent",
      "file_size", "hard_link_count", "last_write_time", "permissions", "read_symlink", "remove", "remove_all", "rename", "resize_file",
      "space", "status", "symlink_status", "temp_directory_path", "is_block_file", "is_character_file", "is_directory", "is_empty",
      "is_fifo", "is_other", "is_regular_file", "is_socket", "is_symlink", "increment", "refresh", "assign", "replace_filename",
      "directory_iterator", "recursive_directory_iterator", "directory_entry", "operator++"}
# position (argument index) a string function checks
STRPOS = {"substr": 0, "erase": 0, "insert": 0, "replace": 0, "compare": 0, "copy": 1}


def catches(handler, t):
    if handler == "...":
        return True
    h = handler.replace("const ", "").rstrip("& ")
    while t:
        if t == h:
            return True
        t = BASES.get(t)
    return False


def real_args(n):
    return [a for a in n.get("args", ()) if a is not None and a >= 0]


def passes_ec(f, n):
    return any("error_code" in f.ty(a) for a in real_args(n))


def std_throws(f, n):
    """exception type a call of the standard library may raise for bad input, with what it depends on; or None"""
    q = n.get("qn", "")
    nm = n.get("nm")
    if n["k"] == "ctor":
        q = n.get("qn") or n.get("cls") or ""
        if q.startswith("std::filesystem::") and nm in ("directory_iterator", "recursive_directory_iterator", "directory_entry"):
            a = real_args(n)
            if not a or n.get("copy") or passes_ec(f, n) or re.search(r"directory_(iterator|entry)", f.ty(a[0])):
                return None
            return "std::filesystem::filesystem_error"
        return None
    if not q.startswith("std::"):
        return None
    if PARSE.match(q):
        return "std::invalid_argument|std::out_of_range"
    if q.startswith("std::filesystem::"):
        if nm not in FS or passes_ec(f, n):
            return None
        if q.startswith("std::filesystem::path::"):
            return None
        a = real_args(n)
        if a and "file_status" in f.ty(a[0]):
            return None
        return "std::filesystem::filesystem_error"
    if nm == "at" and "obj" in n and CONT.match(f.ty(n["obj"]).rstrip("*& ")):
        return "std::out_of_range"
    if nm in STRPOS and "obj" in n and re.match(r"^(const )?std::(__cxx11::)?basic_string(_view)?<", f.ty(n["obj"])):
        i = STRPOS[nm]
        a = n.get("args", ())
        if len(a) > i and a[i] is not None and a[i] >= 0 and facts_of(f).isint(a[i]):
            return "std::out_of_range"
        return None
    if q in ("std::any_cast",) and not f.ty(n).endswith("*"):
        return "std::bad_any_cast"
    if nm == "value" and q.startswith("std::optional"):
        return "std::bad_optional_access"
    if q == "std::get" and real_args(n) and "std::variant<" in f.ty(real_args(n)[0]):
        return "std::bad_variant_access"
    return None


def thrown(f, n):
    a = n.get("a")
    if a is None or a < 0:
        return None
    return f.ty(a).replace("const ", "").rstrip("& ")


def discharged(p, calls, f, n, t, depth=0):
    """do the facts at this call show that it won't throw?"""
    nm = n.get("nm")
    F = facts_of(f)
    fs = F.at(n["id"])
    if fs is None:
        return "never reached"
    if t == "std::out_of_range" and "obj" in n:
        a = n["args"][STRPOS.get(nm, 0)]
        ty = f.ty(n["obj"]).rstrip("*& ")
        i = F.lin(a)
        op = path(f, n["obj"])
        if i is None:
            return None
        if nm != "at" and not i.m and i.c == 0:
            return "position 0"
        if op is None:
            return None
        st = ("size", op)
        F.range.setdefault(st, (0, (1 << 63) - 1))
        sz = Lin(0, {st: 1})
        if F.le(fs, i, sz, 1 if nm == "at" else 0) and nonneg(F, fs, i):
            return "%s <= %s" % (show(i), show(sz))
        if nm == "at":
            i = i.add(Lin(1))
        q = i.add(sz, -1)
        if not is_entry(p, f) and depth < 4 and calls.get(f.usr):
            for g, nid in calls[f.usr]:
                if not needs(p, calls, f, g, nid, q, depth):
                    return None
            return "%s <= %s at every call" % (show(i), show(sz))
    return None


def changed(f, v):
    for n in f.nodes:
        if (n["k"] in ("assign", "cassign") or n["k"] == "un" and n["op"] in ("++", "--")) and path(f, n["a"]) == v:
            return True
        if n["k"] == "call" and "obj" in n and not n.get("cm") and path(f, n["obj"]) == v:
            return True
    return False


def needs(p, calls, f, g, nid, q, depth):
    """does q <= 0, in f's terms, hold when g calls f at nid?"""
    n = g.nodes[nid]
    if n["k"] not in ("call", "ctor"):
        return False
    G = facts_of(g)
    fs = G.at(nid)
    if fs is None:
        return True
    op = path(g, n["obj"]) if "obj" in n else None
    args = n.get("args", ())
    par = {"v:" + x["v"]: (args[k], p.types[x["ty"]]) for k, x in enumerate(f.params) if k < len(args) and args[k] is not None and args[k] >= 0}
    F = facts_of(f)
    l = Lin(q.c)
    for u, v in q.m.items():
        w = None
        if u[0] in ("p", "size") and u[1] in par and changed(f, u[1]):
            return False
        if u[0] == "p" and u[1] in par:
            w = G.lin(par[u[1]][0])
        elif u[0] in ("p", "size"):
            b = G.bring_path(u[1], op, par)
            if b:
                G.range.setdefault((u[0], b), F.range.get(u, (0, (1 << 63) - 1)))
                w = Lin(0, {(u[0], b): 1})
        if w is None:
            return False
        l = l.add(w, v)
    if G.prove(fs, l):
        return True
    if not is_entry(p, g) and depth < 4 and calls.get(g.usr):
        return all(needs(p, calls, g, h, k, l, depth + 1) for h, k in calls[g.usr])
    return False


def handled(f, nid, t):
    """is every one of these exceptions (type|type) caught by a handler around that node?"""
    left = set(t.split("|"))
    for x in f.d.get("tries") or ():
        if nid in x["ids"]:
            left = {u for u in left if not any(catches(h, u) for h in x["h"])}
    return not left


def is_entry(p, f):
    """may code outside of what was analysed call this function?"""
    if f.d.get("noexcept") or f.nm.startswith("~") or f.nm == "main":
        return True
    if f.is_lambda:
        return True
    return not (f.d.get("acc") == 2 or local(f))


def local(f):
    """only visible in its file"""
    return "(anonymous namespace)" in f.qn or bool(f.usr) and not f.usr.startswith("c:@")


def calls_of(p):
    """usr -> [(calling function, node id)], through every call that may reach it, and construction"""
    out = {}
    for f in p.fns.values():
        used = {o for n in f.nodes for o in operands(n)} if any(n["k"] in ("fnref", "memfn") for n in f.nodes) else ()
        for n in f.nodes:
            if n["k"] in ("call", "ctor"):
                for t in p.targets(f, n):
                    out.setdefault(t.usr, []).append((f, n["id"]))
            elif n["k"] in ("fnref", "memfn") and n["id"] in used:
                out.setdefault(n.get("fn") or n.get("f"), []).append((f, n["id"]))
    return out


def escape(p, calls, f, t, seen, trail):
    """route from f, out of which an exception of type t comes, to where nothing may catch it any more; or None"""
    if f.usr in seen:
        return None
    seen.add(f.usr)
    if is_entry(p, f):
        return trail + [f]
    cs = calls.get(f.usr, ())
    if not cs:
        return trail + [f]
    for g, nid in cs:
        if handled(g, nid, t):
            continue
        r = escape(p, calls, g, t, seen, trail + [f])
        if r:
            return r
    return None


def run(c, exc, in_scope):
    p = c.prog
    calls = calls_of(p)
    seen = set()
    used = {}
    nt = nd = nh = 0
    fns = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line, f.display())):
        if not in_scope(f):
            continue
        fns += 1
        for n in f.nodes:
            k = n["k"]
            if k == "throw":
                t = thrown(f, n)
                what = "throws %s" % t if t else "throws again what it caught"
                t = t or "std::exception"
            elif k in ("call", "ctor"):
                t = std_throws(f, n)
                if not t:
                    if (n.get("qn") or n.get("cls") or "").startswith("std::filesystem::") and passes_ec(f, n):
                        key = ("files", f.loc(n), n.get("nm"), "ec")
                        if key not in seen:
                            seen.add(key)
                            c.ok("files", "%s in %s" % (f.loc(n), f.display()), "%s() reports errors with an error_code" % n.get("nm"))
                    continue
                what = "%s() may throw %s" % (n.get("nm") or "constructor", t.replace("|", " or "))
            else:
                continue
            if n["id"] not in f.pos and f.blocks and facts_of(f).at(n["id"]) is None and k != "throw":
                continue
            rid = "throw" if k == "throw" else ("position" if t == "std::out_of_range" else "parse" if "invalid_argument" in t else "files")
            key = (rid, f.loc(n), n.get("nm"), t)
            where = "%s in %s" % (f.loc(n), f.display())
            if handled(f, n["id"], t):
                if key not in seen:
                    seen.add(key)
                    c.ok(rid, where, what + "; a handler around it catches that")
                continue
            why = discharged(p, calls, f, n, t) if k != "throw" else None
            if why:
                if key not in seen:
                    seen.add(key)
                    c.ok(rid, where, "can't throw: " + why)
                continue
            r = escape(p, calls, f, t, set(), [])
            if not r:
                if key not in seen:
                    seen.add(key)
                    c.ok(rid, where, what + "; every caller catches that")
                continue
            name = f.display().split("<")[0] if f.is_lambda else f.qn
            e = exc.get(name)
            if e and (not e[2:] or n.get("nm", "throw") in e[2]):
                s = used.setdefault(name, set())
                if key in s or len(s) < e[0]:
                    if key not in s:
                        s.add(key)
                        c.excused.append((where, e[1]))
                    continue
            if key in seen:
                continue
            seen.add(key)
            c.bad(rid, where, "%s, and nothing catches it: it comes out of %s%s" % (
                what, r[-1].display(), "" if len(r) == 1 else " (by way of %s)" % " <- ".join(x.nm for x in r[:-1])),
                "%s|%s" % (name, n.get("nm") or "throw"))
    c.extra["functions"] = fns
    from . import jsontypes
    jsontypes.run(c, calls, in_scope)
