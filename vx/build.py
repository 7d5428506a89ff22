"""Builds the extractor and runs it over every translation unit of /repo's working tree.

Both results are cached under /verif/.cache, keyed by the content of everything they depend on
(extractor source; all repository sources and headers + compile flags), so a cached result can only
be reused for byte-identical inputs.
"""
import concurrent.futures, glob, hashlib, json, os, shlex, shutil, subprocess, sys, tempfile, gzip, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
CACHE = os.environ.get("VX_CACHE", os.path.join(VERIF, ".cache"))
CLANGXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
RESDIR = "/usr/lib/llvm-18/lib/clang/18"


class ToolError(Exception):
    pass


def sha(*chunks):
    h = hashlib.sha256()
    for c in chunks:
        h.update(c if isinstance(c, bytes) else c.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    key = sha(open(src, "rb").read())
    out = os.path.join(CACHE, "vrs-extract-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=CACHE)
    os.close(fd)
    cmd = [CLANGXX, "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        os.unlink(tmp)
        raise ToolError("extractor build failed:\n" + r.stdout[-3000:])
    os.chmod(tmp, 0o755)
    os.rename(tmp, out)
    return out


EXCLUDE_DIRS = ("/test/", "/TestDataDir/", "_build/", "/gtest/", "sample_", "pyvrs/")


def is_source(rel):
    return rel.endswith(".cpp") and not any(x in "/" + rel for x in EXCLUDE_DIRS)


def compile_units():
    """[(abs path, flags)] for every non-test source of the library and the tools."""
    db = {}
    bn = os.path.join(REPO, "_build", "build.ninja")
    if os.path.exists(bn):
        r = subprocess.run(["ninja", "-C", os.path.join(REPO, "_build"), "-t", "compdb"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode == 0:
            for e in json.loads(r.stdout):
                f = os.path.normpath(os.path.join(e["directory"], e["file"]))
                if not f.endswith(".cpp") or not f.startswith(REPO + "/"):
                    continue
                args = shlex.split(e["command"])
                flags = []
                skip = False
                for i, a in enumerate(args):
                    if skip:
                        skip = False
                        continue
                    if a in ("-o", "-MT", "-MF", "-MQ"):
                        skip = True
                        continue
                    if a in ("-isystem", "-I", "-D"):
                        flags += [a, args[i + 1]]
                        skip = True
                        continue
                    if a.startswith(("-D", "-I", "-std", "-isystem")):
                        flags.append(a)
                if "-DGTEST_BUILD" in flags:
                    continue
                db.setdefault(f, flags)
    default = ["-DFMT_SHARED", "-DOPUS_IS_AVAILABLE", "-DOSS_BUILD_MODE", "-I" + REPO, "-I" + REPO + "/vrs/oss", "-isystem", "/usr/include/opus", "-std=c++17"]
    units = []
    for top in ("vrs", "tools"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            for fn in sorted(files):
                p = os.path.join(d, fn)
                rel = os.path.relpath(p, REPO)
                if not is_source(rel):
                    continue
                if p in db:
                    units.append((p, db[p], True))
                else:
                    # not known to the (possibly stale) build graph: take the flags of a sibling
                    sib = [q for q in db if os.path.dirname(q) == d]
                    units.append((p, db[sib[0]] if sib else default, False))
    return sorted(units)


def source_key(units):
    h = hashlib.sha256()
    for top in ("vrs", "tools"):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
            for fn in sorted(files):
                if fn.endswith((".cpp", ".h", ".hpp", ".inl", ".c")):
                    p = os.path.join(d, fn)
                    h.update(p[len(REPO):].encode() + b"\0")
                    with open(p, "rb") as f:
                        h.update(hashlib.sha256(f.read()).digest())
    for p, flags, known in units:
        h.update((p[len(REPO):] + " ".join(flags).replace(REPO, "@") + str(known)).encode())
    return h.hexdigest()[:24]


def _dep_key(path, flags):
    return None


def extract(tool, unit, outdir):
    p, flags, known = unit
    out = os.path.join(outdir, hashlib.sha1(p.encode()).hexdigest()[:16] + ".json")
    cmd = [tool, "-root", REPO, "-out", out, p, "--"] + flags + ["-resource-dir", RESDIR, "-w", "-ferror-limit=5"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return p, None, r.stdout[-2000:], known
    return p, out, "", known


def extract_all(verbose=False):
    """Returns (list of json paths, list of unit paths, list of skipped units)."""
    tool = build_tool()
    units = compile_units()
    if len(units) < 40:
        raise ToolError("only %d source files found under %s" % (len(units), REPO))
    key = sha(os.path.basename(tool), source_key(units))
    pk = os.path.join(CACHE, "ir-" + key + ".pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f), key
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="vx-ir-")
    try:
        res = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for r in ex.map(lambda u: extract(tool, u, tmp), units):
                res.append(r)
        data = {"units": [], "skipped": []}
        for p, out, msg, known in res:
            if out is None:
                if known:
                    raise ToolError("cannot parse %s:\n%s" % (p, msg))
                data["skipped"].append(os.path.relpath(p, REPO))
                continue
            with open(out) as f:
                data["units"].append((os.path.relpath(p, REPO), json.load(f)))
    finally:
        shutil.rmtree(tmp)
    merged = merge(data)
    os.makedirs(CACHE, exist_ok=True)
    fd, t = tempfile.mkstemp(dir=CACHE)
    with os.fdopen(fd, "wb") as f:
        pickle.dump(merged, f, protocol=4)
    os.rename(t, pk)
    # keep the cache small
    old = sorted(glob.glob(os.path.join(CACHE, "ir-*.pickle")), key=os.path.getmtime)
    for o in old[:-6]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return merged, key


def merge(data):
    """Merges units; type ids become global. First definition of a USR wins."""
    types, tix, tinfo = [], {}, []
    fns, decls, records, enums, globs = {}, {}, {}, {}, {}

    def retype(o, m):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("ty", "rty", "sty", "aty", "cty", "uty", "base") and isinstance(v, int):
                    o[k] = m[v] if v >= 0 else -1
                elif isinstance(v, (dict, list)):
                    retype(v, m)
        elif isinstance(o, list):
            for v in o:
                if isinstance(v, (dict, list)):
                    retype(v, m)

    for unit, d in data["units"]:
        m = []
        for t, info in zip(d["types"], d["tinfo"]):
            if t not in tix:
                tix[t] = len(types)
                types.append(t)
                tinfo.append(info)
            m.append(tix[t])
        for f in d["functions"]:
            u = f["usr"]
            if u in fns:
                continue
            # two file-local functions may share a USR only within their own file: keep both
            retype(f, m)
            f["unit"] = unit
            fns[u] = f
        for name, tgt in (("decls", decls), ("records", records), ("enums", enums), ("globals", globs)):
            for u, o in d[name].items():
                if u in tgt and not (name == "globals" and "init" in o and "init" not in tgt[u]):
                    continue
                retype(o, m)
                o["unit"] = unit
                tgt[u] = o
    return {"types": types, "tinfo": tinfo, "fns": fns, "decls": decls, "records": records, "enums": enums,
            "globals": globs, "units": [u for u, _ in data["units"]], "skipped": data["skipped"]}
