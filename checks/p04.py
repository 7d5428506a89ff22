from vx import order


def run(c):
    order.Commit(c).run()
