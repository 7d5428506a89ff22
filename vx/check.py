"""What every check shares: obligations, violations, known findings, evidence."""
import hashlib, json, os, sys, time, traceback
from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Broken(Exception):
    """the analysis lost its footing (vanished anchor, nothing to analyse): no verdict"""


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.strip()[len("key="):]] = what.strip()
    return out


class Check:
    def __init__(self, pid, level="other"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obl = {}            # rule -> list of (where, what, ok)
        self.rules = {}          # rule -> text
        self.viol = {}           # key -> (where, what, detail)
        self.excused = []        # (key, reason)
        self.assumptions = []
        self.extra = {}
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            from . import prog
            self._prog = prog.load()
        return self._prog

    def rule(self, rid, text, floor=1):
        self.rules[rid] = (text, floor)
        self.obl.setdefault(rid, [])

    def ok(self, rid, where, what):
        self.obl[rid].append((where, what, True))

    def bad(self, rid, where, what, key=None, detail=None):
        """key: stable identity of the construct (no line numbers)"""
        self.obl[rid].append((where, what, False))
        key = "%s|%s" % (rid, key or what)
        self.viol.setdefault(key, (where, what, detail))

    def expect(self, rid, cond, where, what, key=None, detail=None):
        if cond:
            self.ok(rid, where, what)
        else:
            self.bad(rid, where, what, key, detail)
        return cond

    def finish(self):
        kn = known_keys(self.pid)
        out = []
        rc = 0
        for rid, (text, floor) in self.rules.items():
            if len(self.obl[rid]) < floor and not any(k not in kn for k in self.viol):
                raise Broken("rule %s matched %d constructs, expected at least %d" % (rid, len(self.obl[rid]), floor))
        seen_known = set()
        new = []
        for key, (where, what, detail) in sorted(self.viol.items()):
            if key in kn:
                if key not in seen_known:
                    seen_known.add(key)
                    out.append("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, kn[key], where))
            else:
                new.append((key, where, what, detail))
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        for i, (key, where, what, detail) in enumerate(new):
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            rp = os.path.join(rdir, "%s-%s.txt" % (self.pid, h))
            with open(rp, "w") as f:
                f.write("property: %s\nrule: %s\nrule text: %s\nat: %s\nviolation: %s\nkey: %s\n" % (
                    self.pid, key.split("|")[0], self.rules[key.split("|")[0]][0], where, what, key))
                if detail:
                    f.write("detail:\n%s\n" % detail)
                f.write("reproduce: cd /verif && python3 run.py %s\n" % self.pid)
            if i < 40:
                out.append("VIOLATION property=%s replay=%s" % (self.pid, rp))
                out.append("  %s: [%s] %s" % (where, key.split("|")[0], what))
            rc = 1
        n = sum(len(v) for v in self.obl.values())
        good = sum(1 for v in self.obl.values() for x in v if x[2])
        nu = set()
        for v in self.obl.values():
            for x in v:
                nu.add(x[0].split(":")[0])
        cov = {
            "explanation": "Static analysis of the current source tree: every obligation below was generated from the parsed, type-resolved "
                           "program (%d translation units, %d functions) on this run and decided by the rule named; nothing was executed." % (
                               len(self.prog.units), len(self.prog.fns)),
            "obligations": n, "discharged": good, "excused": len(self.excused),
            "translation_units": len(self.prog.units), "functions": len(self.prog.fns),
            "files_with_obligations": len(nu),
            "rules": {r: {"text": t, "obligations": len(self.obl[r]), "discharged": sum(1 for x in self.obl[r] if x[2])} for r, (t, f) in self.rules.items()},
            "samples": [{"rule": r, "at": x[0], "what": x[1], "holds": x[2]} for r in self.rules for x in self.obl[r][:6]],
        }
        if self.excused:
            cov["exceptions"] = [{"site": k, "reason": r} for k, r in self.excused[:200]]
        cov.update(self.extra)
        if self.prog.skipped:
            cov["units_not_built_and_not_parsed"] = self.prog.skipped
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for line in out:
            print(line)
        print("%s: %d obligations, %d discharged, %d excused, %d known, %d violations (%.1f s)" % (
            self.pid, n, good, len(self.excused), len(seen_known), len(new), time.time() - self.t0))
        return rc


def main(pid, fn):
    sys.setrecursionlimit(20000)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    c = Check(pid)
    try:
        fn(c)
        return c.finish()
    except Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 3
    except build.ToolError as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 4
    except Exception:
        traceback.print_exc()
        return 5
