"""Path-sensitive typestate: which operations happened, and how they ended, on each path to a program point.

An event is a call (or assignment) that a rule names. Its status is tracked by the engine of vx/status.py:
    None       didn't happen on this path
    "ok"       happened, and succeeded (its status was tested, or it has none)
    "err"      happened, and failed
    "?"        happened, its outcome wasn't tested (yet)
"""
from . import status
from .status import FnRun, ZERO, NONZ
from .paths import path


class Track(FnRun):
    def __init__(self, S, fn, label, on_event, on_exit=None, keep=()):
        """label(fn, node) -> labels of the event; on_event(track, st, node, labels); on_exit(track, st, ret node, "fail"|"ok"|"?")"""
        FnRun.__init__(self, S, fn)
        self.label, self.on_event, self.on_exit = label, on_event, on_exit
        self.keep |= {"ev:" + x for x in keep}
        self.retkeep |= {"ev:" + x for x in keep}
        self.labels = {}
        for n in fn.nodes:
            l = label(fn, n)
            if l:
                self.labels[n["id"]] = list(l)
                for x in l:
                    self.keep.add("ev:" + x)
                    self.retkeep.add("ev:" + x)
        self.overflow = False

    def state(self, st, lab):
        v = st.v.get("ev:" + lab)
        if v is None:
            return None
        if v == ZERO:
            return "ok"
        if v == NONZ:
            return "err"
        x = st.t.get(v[1])
        if x == "o":
            return "ok"
        if x == "e":
            return "err"
        return "?"

    def held(self, st, s):
        return True

    def report(self, nid, why, retnode):
        pass

    def element(self, st, e):
        r = FnRun.element(self, st, e)
        n = None
        if isinstance(e, int):
            n = self.fn.nodes[e]
            if e in self.labels and n["k"] not in ("call", "ctor"):
                for s in r:
                    self.fire(s, n, ZERO)
        return r

    def fire(self, st, n, v):
        for x in self.labels[n["id"]]:
            st.v["ev:" + x] = v

    def call(self, st, e, n):
        if e in self.labels:
            self.on_event(self, st, n, self.labels[e])
        r = FnRun.call(self, st, e, n)
        if e in self.labels:
            for s in r:
                v = s.n.get(e)
                if v is None or v[0] != "P":
                    v = NONZ if v == NONZ and n.get("qn") in self.S.cfg.always_error else ZERO
                elif v[2] == "o":
                    v = ("P", v[1], "e", "o")
                self.fire(s, n, v)
        return r

    def outcome(self, st, v):
        if self.rk == "int":
            if v == NONZ or v and v[0] == "P" and v[2] == "e" and st.t.get(v[1]) == "e":
                return "fail"
            if v == ZERO or v and v[0] == "P" and v[2] == "e" and st.t.get(v[1]) == "o":
                return "ok"
        elif self.rk in ("bool", "ptr"):
            if v == ZERO or v and v[0] == "P" and v[3] == "e" and st.t.get(v[1]) == "e":
                return "fail"
            if v == NONZ or v and v[0] == "P" and v[3] == "e" and st.t.get(v[1]) == "o":
                return "ok"
        return "ok" if self.rk == "void" else "?"

    def check_exit(self, st, v, e, a):
        if self.on_exit:
            self.on_exit(self, st, e, self.outcome(st, v), v)

    def implied(self, st, v, lab):
        """would the returned value be success only if lab succeeded?"""
        x = st.v.get("ev:" + lab)
        return bool(v and v[0] == "P" and x and x[0] == "P" and x[1] == v[1])


def run(S, fn, label, on_event, on_exit=None, keep=()):
    t = Track(S, fn, label, on_event, on_exit, keep)
    r = t.run()
    t.overflow = r.get("overflow")
    return t


class May:
    """labels of the operations a call may perform, transitively"""

    def __init__(self, p, prim, stop=lambda f: False):
        self.p, self.prim, self.stop = p, prim, stop
        self.memo = {}

    def fn(self, f):
        if f.usr in self.memo:
            return self.memo[f.usr]
        self.memo[f.usr] = frozenset()
        out = set()
        if not self.stop(f):
            for n in f.calls():
                out |= self.call(f, n)
        self.memo[f.usr] = frozenset(out)
        return self.memo[f.usr]

    def call(self, f, n):
        out = set(self.prim(f, n))
        if not out:
            for t in self.p.targets(f, n):
                out |= self.fn(t)
        return out
