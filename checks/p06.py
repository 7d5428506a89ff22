from vx import chunks


def run(c):
    chunks.Atomic(c).run()
