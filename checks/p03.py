from vx import errors, handles


def run(c):
    errors.decide(c, lambda E, d: not E.core(d), "tool-status",
                  "On every path of the utilities and command line tools, the outcome of an operation reaches the caller or the exit status "
                  "(must-use dataflow over the control-flow graphs, across calls).", 100,
                  "exceptions are a frozen table of confirmed call sites, each with its reason (vx/errors.py)")
    handles.Streams(c).run()
