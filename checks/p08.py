from vx.deadlock import Deadlock


def run(c):
    Deadlock(c).run()
