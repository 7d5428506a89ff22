from vx import errors, handles


def run(c):
    errors.decide(c, lambda E, d: E.core(d) and d["mut"], "write-status",
                  "On every path of every function, the outcome of an operation that may change storage reaches the caller: returned, kept in "
                  "sticky state, or replaced by another failure (must-use dataflow over the control-flow graphs, across calls).", 60,
                  "exceptions are a frozen table of confirmed call sites, each with its reason (vx/errors.py)")
    handles.Deferred(c).run()
