from vx import memcheck


def run(c):
    c.rule("index", "Every element access of a container or array has, on every path, an index proven below its size (forward must-facts).", 300)
    c.rule("not-empty", "front(), back() and pop happen only on containers proven not empty.", 80)
    c.rule("transfer", "Every memory copy, and every read or write of a container's memory, has a length proven to fit what is there.", 50)
    memcheck.decide(c, {"idx": "index", "first": "not-empty", "copy": "transfer"}, {"idx", "first", "copy"})
    c.assumptions.append("sites the facts cannot settle are a frozen table per function, each with its reason (vx/memcheck.py)")
    c.assumptions.append("copies to or from raw pointers whose memory size is not visible in the function are not decided")
