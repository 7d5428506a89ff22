"""Orders used to sort and to search, read from the functions which compare."""
import itertools
from .mem import fkey

SEARCH = {"lower_bound", "upper_bound", "equal_range", "binary_search"}
SORTS = {"sort", "stable_sort", "partial_sort", "nth_element", "min_element", "max_element", "is_sorted", "merge", "inplace_merge", "make_heap", "push_heap", "pop_heap", "sort_heap"}


class Unknown(Exception):
    pass


def core(f, nid):
    n = f.nodes[nid]
    while n["k"] == "cast" or n["k"] in ("ctor",) and len(n.get("args", ())) == 1 and n.get("fn") and n.get("cm", True) and n.get("copy", True) and same(f, n):
        n = f.nodes[n["a"] if n["k"] == "cast" else n["args"][0]]
    return n


def same(f, n):
    a = f.nodes[n["args"][0]]
    return base(f.ty(n)) == base(f.ty(a))


def base(t):
    return t.replace("const ", "").replace("&", "").strip()


class Ref:
    """something of one of the two operands: side 0 or 1 (None: neither), what of it"""

    def __init__(self, side, key, const=None):
        self.side, self.key, self.const = side, key, const


class Order:
    """a comparison function as a function of the relations between what it compares"""

    def __init__(self, p, f, sides):
        """sides: var id (or 'this') -> 0 / 1"""
        self.p, self.f, self.sides = p, f, sides
        self.keys = []
        self.consts = {}
        self.addresses = set()
        self.explore()

    def explore(self):
        """discover keys by walking every branch"""
        self.probing = True
        self.walk_all(self.f, {v: Ref(s, "") for v, s in self.sides.items()}, 0)
        self.probing = False

    def walk_all(self, f, env, depth):
        for b in sorted(f.blocks):
            B = f.blocks[b]
            for e in B.e:
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n["k"] == "decl":
                        self.bind(f, n, env)
        for n in f.nodes:
            if n["k"] in ("bin", "call", "cond", "ret") and n["k"] == "ret" and n.get("a", -1) >= 0:
                self.touch(f, n["a"], env, depth)
        for b, B in f.blocks.items():
            if B.c is not None and B.c >= 0 and len(B.s) == 2:
                self.touch(f, B.c, env, depth)

    def bind(self, f, n, env):
        for d in n["ds"]:
            i = d.get("init", -1)
            if i is not None and i >= 0:
                try:
                    env[d["v"]] = self.ref(f, i, env)
                except Unknown:
                    pass

    def touch(self, f, nid, env, depth):
        n = core(f, nid)
        k = n["k"]
        if k == "bin" and n["op"] in ("&&", "||", "^", "|", "&"):
            self.touch(f, n["a"], env, depth)
            self.touch(f, n["b"], env, depth)
        elif k == "un" and n["op"] == "!":
            self.touch(f, n["a"], env, depth)
        elif k == "cond":
            for x in ("c", "a", "b"):
                self.touch(f, n[x], env, depth)
        elif "cv" in n:
            pass
        else:
            self.compare(f, n, env, depth)

    def key(self, k):
        if k not in self.keys:
            self.keys.append(k)

    def ref(self, f, nid, env, depth=0):
        n = core(f, nid)
        k = n["k"]
        if depth > 20:
            raise Unknown("deep")
        if "cv" in n:
            return Ref(None, None, int(n["cv"]))
        if k == "enumc":
            return Ref(None, None, int(n["cv"]))
        if k == "this":
            if "this" in env:
                return env["this"]
            return Ref(None, "this")
        if k in ("var", "binding"):
            if n.get("v") in env:
                return env[n["v"]]
            return Ref(None, n.get("nm", "?"))
        if k == "mem":
            r = self.ref(f, n["a"], env, depth + 1)
            return Ref(r.side, (r.key + "." if r.key else "") + n["nm"])
        if k == "un" and n["op"] in ("*", "&", "+"):
            return self.ref(f, n["a"], env, depth + 1)
        if k == "un" and n["op"] == "-":
            r = self.ref(f, n["a"], env, depth + 1)
            return Ref(r.side, "-" + (r.key or ""))
        if k == "index":
            r = self.ref(f, n["a"], env, depth + 1)
            i = self.ref(f, n["b"], env, depth + 1)
            return Ref(r.side, "%s[%s]" % (r.key, i.const if i.const is not None else i.key))
        if k in ("call", "ctor"):
            if n.get("op") in ("*", "->") and "obj" in n:
                return self.ref(f, n["obj"], env, depth + 1)
            parts = []
            side = None
            xs = ([n["obj"]] if "obj" in n and not n.get("op") == "()" else []) + [a for a in n.get("args", ()) if a is not None and a >= 0]
            rs = [self.ref(f, a, env, depth + 1) for a in xs]
            got = {r.side for r in rs if r.side is not None}
            if len(got) > 1:
                raise Unknown("mixed")
            side = got.pop() if got else None
            g = self.getter(f, n)
            if g and "obj" in n:
                return Ref(rs[0].side, (rs[0].key + "." if rs[0].key else "") + g)
            return Ref(side, "%s(%s)" % (n.get("nm") or n.get("qn", "?"), ",".join(str(r.const if r.const is not None else r.key) for r in rs)))
        if k == "bin":
            a, b = self.ref(f, n["a"], env, depth + 1), self.ref(f, n["b"], env, depth + 1)
            got = {r.side for r in (a, b) if r.side is not None}
            if len(got) > 1:
                raise Unknown("mixed")
            return Ref(got.pop() if got else None, "(%s%s%s)" % (a.key if a.const is None else a.const, n["op"], b.key if b.const is None else b.const))
        raise Unknown(k)

    def getter(self, f, n):
        ts = self.p.targets(f, n)
        if len(ts) == 1 and not n.get("args"):
            rs = [m for m in ts[0].nodes if m["k"] == "ret" and m.get("a", -1) >= 0]
            if len(rs) == 1:
                x = core(ts[0], rs[0]["a"])
                if x["k"] == "mem" and core(ts[0], x["a"])["k"] == "this":
                    return x["nm"]
        return None

    def compare(self, f, n, env, depth, val=None):
        """the value of a comparison: val(key, side) gives values, or None while looking for keys"""
        k = n["k"]
        op = n.get("op")
        if k == "bin" and op in ("<", ">", "<=", ">=", "==", "!="):
            return self.rel(f, op, n["a"], n["b"], env, depth, val)
        if k == "call" and op in ("<", ">", "<=", ">=", "==", "!="):
            xs = ([n["obj"]] if "obj" in n else []) + list(n.get("args", ()))
            if len(xs) == 2:
                return self.rel(f, op, xs[0], xs[1], env, depth, val)
        if k == "call":
            ts = self.p.targets(f, n)
            if len(ts) == 1 and depth < 6 and ts[0].entry is not None:
                t = ts[0]
                env2 = {}
                args = n.get("args", ())
                if op == "()" and "obj" in n and t.is_lambda:
                    env2.update(env)
                elif "obj" in n:
                    try:
                        env2["this"] = self.ref(f, n["obj"], env)
                    except Unknown:
                        pass
                sides = set()
                for q, a in zip(t.params, args):
                    if a is not None and a >= 0:
                        env2[q["v"]] = self.ref(f, a, env)
                        sides.add(env2[q["v"]].side)
                if env2.get("this") is not None and env2["this"].side is not None:
                    sides.add(env2["this"].side)
                if {0, 1} <= sides:
                    if val is None:
                        self.walk_all(t, env2, depth + 1)
                        return None
                    return self.run(t, env2, val, depth + 1)
        # a fact about one operand
        r = self.ref(f, n["id"], env)
        if r.side is None:
            raise Unknown("depends on something else")
        self.key(r.key + "?") if val is None else None
        return None if val is None else bool(val(r.key + "?", r.side) % 2)

    def ties(self, f, nid, env, depth=0):
        """the members of a std::tie() / make_tuple() / make_pair()"""
        n = core(f, nid)
        if n["k"] == "call" and n.get("nm") in ("tie", "make_tuple", "forward_as_tuple", "make_pair"):
            if n.get("qn", "").startswith("std::"):
                return [self.ref(f, a, env) for a in n.get("args", ())]
        if n["k"] == "call" and depth < 3:
            ts = self.p.targets(f, n)
            if len(ts) == 1:
                t = ts[0]
                rs = [m for m in t.nodes if m["k"] == "ret" and m.get("a", -1) >= 0]
                if len(rs) == 1:
                    env2 = dict(env) if t.is_lambda else {}
                    if not t.is_lambda and "obj" in n:
                        env2["this"] = self.ref(f, n["obj"], env)
                    for q, a in zip(t.params, n.get("args", ())):
                        env2[q["v"]] = self.ref(f, a, env)
                    return self.ties(t, rs[0]["a"], env2, depth + 1)
        return None

    def rel(self, f, op, a, b, env, depth, val):
        ta, tb = self.ties(f, a, env), self.ties(f, b, env)
        if ta and tb and len(ta) == len(tb):
            if val is None:
                for x, y in zip(ta, tb):
                    self.pair(x, y)
                return None
            va = [self.get(x, val) for x in ta]
            vb = [self.get(x, val) for x in tb]
            return apply(op, va, vb)
        x, y = self.ref(f, a, env), self.ref(f, b, env)
        if val is None:
            if op in ("<", ">", "<=", ">=") and all(f.ty(f.nodes[i]).rstrip("const &").endswith("*") for i in (a, b)):
                self.addresses.add(x.key or "")
            self.pair(x, y)
            return None
        return apply(op, self.get(x, val), self.get(y, val))

    def pair(self, x, y):
        for r, o in ((x, y), (y, x)):
            if r.side is not None:
                self.key(r.key)
                if o.const is not None:
                    self.consts.setdefault(r.key, set()).add(o.const)
                elif o.side is None:
                    self.key("=" + str(o.key))
            elif r.const is None and o.side is None:
                raise Unknown("depends on something else")

    def get(self, r, val):
        if r.const is not None:
            return r.const
        if r.side is None:
            raise Unknown("compared with something else")
        return val(r.key, r.side)

    def truth(self, f, nid, env, val, depth):
        n = core(f, nid)
        k = n["k"]
        if "cv" in n:
            return bool(int(n["cv"]))
        if k == "bin" and n["op"] == "&&":
            return self.truth(f, n["a"], env, val, depth) and self.truth(f, n["b"], env, val, depth)
        if k == "bin" and n["op"] == "||":
            return self.truth(f, n["a"], env, val, depth) or self.truth(f, n["b"], env, val, depth)
        if k == "un" and n["op"] == "!":
            return not self.truth(f, n["a"], env, val, depth)
        if k == "cond":
            return self.truth(f, n["a"] if self.truth(f, n["c"], env, val, depth) else n["b"], env, val, depth)
        if k == "var" and n.get("v") in self.bools:
            g, i, e2 = self.bools[n["v"]]
            return self.truth(g, i, e2, val, depth)
        return self.compare(f, n, env, depth, val)

    bools = {}

    def run(self, f, env, val, depth=0):
        """the result for given values"""
        env = dict(env)
        b = f.entry
        for _ in range(200):
            B = f.blocks[b]
            for e in B.e:
                if not isinstance(e, int):
                    continue
                n = f.nodes[e]
                if n["k"] == "decl":
                    self.bind(f, n, env)
                    for d in n["ds"]:
                        if d.get("init", -1) is not None and d.get("init", -1) >= 0 and f.ty(f.nodes[d["init"]]) == "bool":
                            self.bools = dict(self.bools)
                            self.bools[d["v"]] = (f, d["init"], env)
                elif n["k"] in ("assign", "cassign") or n["k"] == "un" and n["op"] in ("++", "--"):
                    raise Unknown("assigns")
                elif n["k"] == "ret":
                    return self.truth(f, n["a"], env, val, depth)
            ss = [s for s in B.s if s is not None and s >= 0]
            if not ss:
                break
            if len(B.s) == 2 and B.c is not None and B.c >= 0 and B.tk != "switch":
                if B.tk in ("while", "for", "do", "forrange"):
                    raise Unknown("loops")
                b = B.s[0] if self.truth(f, B.c, env, val, depth) else B.s[1]
            elif len(ss) == 1:
                b = ss[0]
            else:
                raise Unknown("switch")
        raise Unknown("no result")

    # decisions

    def domain(self, key, n):
        """values standing for those of a key, for n elements"""
        cs = sorted(self.consts.get(key, ()))
        if not cs:
            return list(range(n))
        out = []
        lo = cs[0] - 1
        for c in cs:
            out += [x for x in (c - 1, c, c + 1) if x not in out]
        return sorted(out)

    def table(self, n=3):
        keys = [k for k in self.keys]
        if any(k.startswith("=") for k in keys):
            raise Unknown("compares with something else")
        if len(keys) > 5:
            raise Unknown("too many keys")
        if len(keys) > 3 and any(self.consts.get(k) for k in keys):
            n = 2 if len(keys) > 4 else 3
        doms = [self.domain(k, n) for k in keys]
        els = list(itertools.product(*doms))
        if len(els) > 600:
            doms = [self.domain(k, 2) if not self.consts.get(k) else self.domain(k, 2) for k in keys]
            els = list(itertools.product(*doms))
        env = {v: Ref(s, "") for v, s in self.sides.items()}
        pos = {k: i for i, k in enumerate(keys)}
        m = []
        for a in els:
            row = 0
            for j, b in enumerate(els):
                if self.run(self.f, env, lambda k, s: (b if s else a)[pos[k]]):
                    row |= 1 << j
            m.append(row)
        return keys, els, m


def apply(op, a, b):
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


def weak(m):
    """why a relation isn't a strict weak order, or None"""
    n = len(m)
    for i in range(n):
        if m[i] >> i & 1:
            return "an element is before itself"
    for i in range(n):
        for j in range(i):
            if m[i] >> j & 1 and m[j] >> i & 1:
                return "two elements are each before the other"
    for i in range(n):
        r = m[i]
        j = 0
        while r:
            if r & 1 and m[j] & ~m[i]:
                return "it isn't transitive"
            r >>= 1
            j += 1
    inc = [sum(1 << j for j in range(n) if not m[i] >> j & 1 and not m[j] >> i & 1) for i in range(n)]
    for i in range(n):
        r = inc[i]
        j = 0
        while r:
            if r & 1 and inc[j] & ~inc[i]:
                return "elements equal to a third aren't equal"
            r >>= 1
            j += 1
    return None


def lexicographic(keys, els, m):
    """the keys in the order in which they matter, when it's a lexicographic order: [(key, ascending)]; None otherwise"""
    rest = list(range(len(keys)))
    out = []
    idx = {e: i for i, e in enumerate(els)}
    while rest:
        found = None
        for k in rest:
            for asc in (True, False):
                # with all the keys already placed equal, does this one decide?
                ok = True
                some = False
                for i, a in enumerate(els):
                    for j, b in enumerate(els):
                        if any(a[q] != b[q] for q, _ in out) or a[k] == b[k]:
                            continue
                        some = True
                        if bool(m[i] >> j & 1) != ((a[k] < b[k]) == asc):
                            ok = False
                            break
                    if not ok:
                        break
                if ok and some:
                    found = (k, asc)
                    break
            if found:
                break
        if not found:
            break
        out.append(found)
        rest.remove(found[0])
    return [(keys[k], asc) for k, asc in out], [keys[k] for k in rest]
