from vx import mem, resource

# (rule, function or member) -> (count, reason)
EXC = {
    ("members", "vrs::AsyncFileDescriptor::fd_"): (1, "closed by the chunk which contains it"),
}


def run(c):
    c.rule("locals", "What a function opens, creates, takes out of a list or releases from its owner is closed, deleted, returned or handed over, on every path out of it.", 12)
    c.rule("members", "What is kept in a member is released by the destructor of the class, and isn't replaced before being released.", 6)
    resource.run(c, EXC, mem.in_scope)
