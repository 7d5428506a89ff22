from vx import alloc, mem


def run(c):
    c.rule("bounded", "The size of every buffer, container or array allocated from a number found in a file is limited on every path, by the number of bytes "
           "available, by a fixed limit, or by a trusted record size; parameters are followed to all callers (taint + forward must-facts).", 100)
    alloc.decide(c, "bounded", {})
    c.extra["fields_read_from_files"] = sorted("%s.%s" % (c.prog.field_owner[u][0]["qn"], c.prog.field_owner[u][1]["nm"]) for u in alloc.disk_fields(c.prog))
    c.extra["functions_that_return_numbers_read_from_files_in_parameters"] = len(alloc.filled_params(c.prog))
    c.assumptions.append("recordSize, uncompressedSize and previousRecordSize of record headers may be as large as the format allows (4 GB): records are handed to players")
