from vx.threads import Threads


def run(c):
    Threads(c).run()
