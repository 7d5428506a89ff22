from vx import chunks


def run(c):
    chunks.Notify(c).run()
