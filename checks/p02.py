import re
from vx import errors, handles

WRITES = re.compile(r"(?:^|::)(?:write|flush|close|truncate|ftruncate|overwrite|abort|finalize|complete|pump|free|fwrite|fflush|fclose|pwrite|aio_write|rename|addChunk|preallocate|wait|auto|create)\w*$", re.I)


def run(c):
    errors.decide(c, lambda E, d: E.core(d) and not WRITES.search(d["callee"]), "read-status",
                  "On every path of every function, the outcome of an operation that reads, seeks, parses or decodes reaches the caller "
                  "(must-use dataflow over the control-flow graphs, across calls).", 150,
                  "exceptions are a frozen table of confirmed call sites, each with its reason (vx/errors.py)")
    handles.EndOfFile(c).run()
